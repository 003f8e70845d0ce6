// vse: bounded symbolic execution of LLVM IR (clang's output for the code under
// test), deciding every branch and assertion with z3.  See DESIGN.md.
#include "expr.h"
#include <memory>
#include <unistd.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

typedef uint64_t u64;

// ------------------------------------------------------------ options
static u64 opt_maxsecs = 600, opt_maxinst = 3000000, opt_maxpaths = 10000000, opt_samples = 12;
static int opt_preempt = 2;
static bool opt_trace = false;
static std::string opt_out;
static std::string opt_srcprefix = "/repo/";
static long opt_arg[4] = {0, 0, 0, 0};
static u64 opt_maxviol = 3;
static u64 opt_seed = 1;

// ------------------------------------------------------------ values
struct Val {
	u64 c = 0;
	E e = nullptr;
	std::shared_ptr<std::vector<Val>> agg;
	Val() {}
	Val(u64 v) : c(v) {}
	bool conc() const { return e == nullptr; }
};
static Val mkv(E e) { Val v; if (isC(e)) v.c = e->k; else v.e = e; return v; }
static E toE(const Val& v, unsigned w) { return v.e ? v.e : mkconst(v.c, w); }

// ------------------------------------------------------------ memory
struct Obj {
	int rc = 0;
	std::vector<uint8_t> c;
	std::vector<uint8_t> st;             // per byte: 0 concrete, 1 symbolic, 2 undefined; empty: all concrete
	std::vector<std::pair<E, uint8_t>> s; // per byte expr + byte index
};
struct ObjP {
	Obj* p = nullptr;
	ObjP() {}
	explicit ObjP(Obj* o) : p(o) { if (p) ++p->rc; }
	ObjP(const ObjP& o) : p(o.p) { if (p) ++p->rc; }
	ObjP(ObjP&& o) noexcept : p(o.p) { o.p = nullptr; }
	ObjP& operator=(ObjP o) noexcept { std::swap(p, o.p); return *this; }
	~ObjP() { if (p && --p->rc == 0) delete p; }
};
enum Kind : uint8_t { K_GLOBAL, K_CONST, K_STACK, K_HEAP, K_FUNC };
struct Ent {
	u64 base, size;
	ObjP o;
	Kind kind;
	bool freed;
};

struct KInst {
	Instruction* I;
	unsigned op;
	int dst;
	std::vector<int> ops;
	unsigned w;      // result width (ints/ptrs/fp)
	unsigned wa;     // operand 0 width
	unsigned b0, b1; // branch targets (block ids)
	u64 size;        // load/store/alloca size
	std::vector<std::pair<int, u64>> gep; // (operand, scale)
	u64 gepoff;
	bool atomic;
};
struct KFunction {
	Function* F;
	unsigned nslots, id;
	std::vector<KInst> in;
	std::vector<unsigned> bstart;
	DenseMap<const BasicBlock*, unsigned> bid;
	std::string src; // source path of the definition, if known
	u64 calls = 0, insts = 0;
};

struct Frame {
	KFunction* f;
	unsigned pc = 0, block = 0, prev = 0;
	std::vector<Val> r;
	std::vector<u64> allocas;
	std::vector<std::pair<Val, Type*>> va;
};
enum TS : uint8_t { T_RUN, T_MUTEX, T_COND, T_DONE, T_JOIN };
struct Thread {
	std::vector<Frame> st;
	TS ts = T_RUN;
	u64 m = 0, cv = 0;
	bool go = false; // may execute its pending visible operation
	int join = -1;
};
struct Input { std::string name; unsigned n; std::vector<E> b; };

struct State {
	std::vector<Thread> th;
	int cur = 0;
	std::vector<Ent> mem;
	u64 brk = 0x10000000;
	std::vector<E> pc;
	std::unordered_map<E, u64> kn; // expressions the path condition pins to a value
	Model m;
	std::vector<Input> inp;
	std::vector<std::pair<E, u64>> obs;
	std::set<std::string> reach;
	std::map<u64, int> mtx;
	std::vector<int> sched;
	u64 ninst = 0;
	int preempt = 0;
	int depth = 0;
	bool allow_exit = false;
	uint32_t id = 0;
};
typedef std::unique_ptr<State> SP;

static LLVMContext ctx;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static DenseMap<const Function*, KFunction*> kfs;
static std::vector<Val> consts;
static DenseMap<const Constant*, int> constidx;
static DenseMap<const GlobalValue*, u64> gaddr;
static std::map<u64, Function*> fnaddr;
static std::vector<SP> work;
static u64 n_states = 0, n_paths = 0, n_exit = 0, n_infeasible = 0, n_inst = 0, n_forks = 0, n_asserts = 0, n_branchq = 0;
static u64 n_assert_unsat = 0, n_deadlock_checked = 0;
static bool incomplete = false;
static std::string incomplete_why;
static std::set<std::string> all_reach;
static auto t_start = std::chrono::steady_clock::now();
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t_start).count(); }

static std::string jesc(const std::string& s)
{
	std::string r;
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
		else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
		else r += ch;
	}
	return r;
}

struct Viol { std::string kind, msg, loc, json; };
static std::vector<Viol> viols;
static std::set<std::string> violkeys;
static std::vector<std::string> samples;
static u64 sample_seen = 0;

[[noreturn]] static void fatal(const std::string& s);
static void mark_incomplete(const std::string& w) { if (!incomplete) incomplete_why = w; incomplete = true; }

static unsigned tw(Type* t)
{
	if (t->isIntegerTy()) return t->getIntegerBitWidth();
	if (t->isPointerTy()) return 64;
	if (t->isFloatTy()) return 32;
	if (t->isDoubleTy()) return 64;
	return 0;
}

static std::string iloc(const Instruction* I)
{
	std::string s;
	if (!I) return "?";
	if (const DebugLoc& d = I->getDebugLoc()) {
		auto* sc = cast<DIScope>(d.getScope());
		std::string dir = sc->getDirectory().str(), f = sc->getFilename().str();
		s = (f.size() && f[0] == '/' ? f : dir + "/" + f) + ":" + std::to_string(d.getLine());
	} else s = "?";
	s += " in " + I->getFunction()->getName().str();
	return s;
}
static std::string stackstr(State& S)
{
	std::string r;
	auto& st = S.th[S.cur].st;
	for (size_t i = st.size(); i-- > 0;) {
		Frame& f = st[i];
		unsigned pc = i + 1 == st.size() ? f.pc : f.pc - 1;
		if (pc >= f.f->in.size()) pc = f.f->in.size() - 1;
		if (r.size()) r += " <- ";
		r += iloc(f.f->in[pc].I);
		if (st.size() - i > 8) break;
	}
	return r;
}

static std::string inputs_json(State& S, const Model& m)
{
	std::string r = "[";
	for (size_t i = 0; i < S.inp.size(); ++i) {
		if (i) r += ",";
		r += "{\"name\":\"" + jesc(S.inp[i].name) + "\",\"hex\":\"";
		for (E b : S.inp[i].b) { char t[4]; snprintf(t, 4, "%02x", (unsigned)evalE(b, m)); r += t; }
		r += "\"}";
	}
	return r + "]";
}
static std::string sched_json(State& S)
{
	std::string r = "[";
	for (size_t i = 0; i < S.sched.size(); ++i) r += (i ? "," : "") + std::to_string(S.sched[i]);
	return r + "]";
}
static std::string obs_json(State& S, const Model& m)
{
	std::string r = "[";
	for (size_t i = 0; i < S.obs.size(); ++i) {
		u64 v = S.obs[i].first ? evalE(S.obs[i].first, m) : S.obs[i].second;
		r += (i ? "," : "") + std::to_string((long)v);
	}
	return r + "]";
}
static std::string reach_json(State& S)
{
	std::string r = "[";
	bool f = true;
	for (auto& x : S.reach) { r += (f ? "\"" : ",\"") + jesc(x) + "\""; f = false; }
	return r + "]";
}

static void violation(State& S, const std::string& kind, const std::string& msg, const Model& m)
{
	auto& fr = S.th[S.cur].st;
	std::string loc = fr.empty() ? "?" : iloc(fr.back().f->in[std::min<size_t>(fr.back().pc, fr.back().f->in.size() - 1)].I);
	std::string key = kind + "|" + loc;
	if (kind != "memory") key += "|" + msg;
	if (!violkeys.insert(key).second) return;
	Viol v{kind, msg, loc, ""};
	v.json = "{\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"loc\":\"" + jesc(loc) + "\",\"stack\":\"" + jesc(stackstr(S))
	       + "\",\"inputs\":" + inputs_json(S, m) + ",\"sched\":" + sched_json(S) + "}";
	viols.push_back(v);
	if (opt_trace) fprintf(stderr, "VIOL %s\n", v.json.c_str());
}

// ------------------------------------------------------------ lowering
static int constant_index(Constant* c);
static Val evalconst(Constant* c)
{
	if (auto* ci = dyn_cast<ConstantInt>(c)) {
		if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() <= 64) return Val(ci->getValue().getLimitedValue()); fatal("wide int constant"); }
		return Val(ci->getZExtValue());
	}
	if (auto* cf = dyn_cast<ConstantFP>(c)) {
		if (cf->getType()->isDoubleTy() || cf->getType()->isFloatTy()) return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue());
		fatal("fp constant type");
	}
	if (isa<ConstantPointerNull>(c)) return Val(0);
	if (auto* gv = dyn_cast<GlobalValue>(c)) {
		if (auto* ga = dyn_cast<GlobalAlias>(gv)) return evalconst(ga->getAliasee());
		auto it = gaddr.find(gv);
		if (it == gaddr.end()) fatal("no address for global " + gv->getName().str());
		return Val(it->second);
	}
	if (isa<UndefValue>(c)) { // undef and poison: zero for aggregates, arbitrary otherwise (lowered lazily)
		Type* t = c->getType();
		if (auto* st = dyn_cast<StructType>(t)) {
			Val v; v.agg = std::make_shared<std::vector<Val>>();
			for (unsigned i = 0; i < st->getNumElements(); ++i) v.agg->push_back(evalconst(UndefValue::get(st->getElementType(i))));
			return v;
		}
		if (auto* at = dyn_cast<ArrayType>(t)) {
			Val v; v.agg = std::make_shared<std::vector<Val>>();
			for (unsigned i = 0; i < at->getNumElements(); ++i) v.agg->push_back(evalconst(UndefValue::get(at->getElementType())));
			return v;
		}
		return Val(0);
	}
	if (c->getType()->isAggregateType()) {
		Val v; v.agg = std::make_shared<std::vector<Val>>();
		unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
		for (unsigned i = 0; i < n; ++i) v.agg->push_back(evalconst(c->getAggregateElement(i)));
		return v;
	}
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0);
			if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("const gep");
			return Val(evalconst(ce->getOperand(0)).c + off.getZExtValue());
		}
		case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
			Val v = evalconst(ce->getOperand(0));
			v.c &= maskw(tw(ce->getType()) ? tw(ce->getType()) : 64);
			return v;
		}
		case Instruction::Add: return Val((evalconst(ce->getOperand(0)).c + evalconst(ce->getOperand(1)).c) & maskw(tw(ce->getType())));
		case Instruction::Sub: return Val((evalconst(ce->getOperand(0)).c - evalconst(ce->getOperand(1)).c) & maskw(tw(ce->getType())));
		case Instruction::ICmp: {
			u64 a = evalconst(ce->getOperand(0)).c, b = evalconst(ce->getOperand(1)).c;
			switch (ce->getPredicate()) {
			case CmpInst::ICMP_EQ: return Val(a == b);
			case CmpInst::ICMP_NE: return Val(a != b);
			default: break;
			}
		}
		default: break;
		}
		std::string s; raw_string_ostream os(s); ce->print(os);
		fatal("constant expression " + os.str());
	}
	std::string s; raw_string_ostream os(s); c->print(os);
	fatal("constant " + os.str());
}
static int constant_index(Constant* c)
{
	auto it = constidx.find(c);
	if (it != constidx.end()) return it->second;
	consts.push_back(evalconst(c));
	int i = -(int)consts.size();
	constidx[c] = i;
	return i;
}

static KFunction* lower(Function* F)
{
	auto it = kfs.find(F);
	if (it != kfs.end()) return it->second;
	auto* K = new KFunction();
	kfs[F] = K;
	K->F = F;
	if (auto* sp = F->getSubprogram()) {
		std::string f = sp->getFilename().str();
		K->src = f.size() && f[0] == '/' ? f : sp->getDirectory().str() + "/" + f;
	}
	DenseMap<const Value*, int> slot;
	int n = 0;
	for (auto& a : F->args()) slot[&a] = n++;
	for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++;
	K->nslots = n;
	unsigned bi = 0;
	for (auto& B : *F) K->bid[&B] = bi++;
	auto opnd = [&](Value* v) -> int {
		if (auto* c = dyn_cast<Constant>(v)) return constant_index(c);
		auto it = slot.find(v);
		if (it != slot.end()) return it->second;
		return INT32_MIN; // metadata, labels
	};
	for (auto& B : *F) {
		K->bstart.push_back(K->in.size());
		for (auto& I : B) {
			if (isa<DbgInfoIntrinsic>(I)) continue;
			KInst k{};
			k.I = &I;
			k.op = I.getOpcode();
			k.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
			k.w = tw(I.getType());
			if (I.getNumOperands() && I.getOperand(0)->getType()->isSized()) k.wa = tw(I.getOperand(0)->getType());
			if (auto* br = dyn_cast<BranchInst>(&I)) {
				if (br->isConditional()) { k.ops.push_back(opnd(br->getCondition())); k.b0 = K->bid[br->getSuccessor(0)]; k.b1 = K->bid[br->getSuccessor(1)]; }
				else k.b0 = K->bid[br->getSuccessor(0)];
			} else if (auto* cb = dyn_cast<CallBase>(&I)) {
				if (cb->isInlineAsm()) { if (opt_trace) fprintf(stderr, "inline asm\n"); }
				for (auto& a : cb->args()) k.ops.push_back(opnd(a.get()));
				k.ops.push_back(cb->isInlineAsm() ? INT32_MIN : opnd(cb->getCalledOperand()));
			} else if (auto* ph = dyn_cast<PHINode>(&I)) {
				// ops: indexed by predecessor block id
				k.ops.assign(F->size(), INT32_MIN);
				for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) k.ops[K->bid[ph->getIncomingBlock(i)]] = opnd(ph->getIncomingValue(i));
			} else {
				for (auto& o : I.operands()) k.ops.push_back(opnd(o.get()));
			}
			if (auto* l = dyn_cast<LoadInst>(&I)) { k.size = DL->getTypeStoreSize(l->getType()); k.atomic = l->isAtomic(); }
			if (auto* s = dyn_cast<StoreInst>(&I)) { k.size = DL->getTypeStoreSize(s->getValueOperand()->getType()); k.atomic = s->isAtomic(); }
			if (isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I)) k.atomic = true;
			if (auto* a = dyn_cast<AllocaInst>(&I)) k.size = DL->getTypeAllocSize(a->getAllocatedType());
			if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
				u64 off = 0;
				for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
					Value* ix = gi.getOperand();
					if (StructType* st = gi.getStructTypeOrNull()) {
						off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
					} else {
						u64 sc = DL->getTypeAllocSize(gi.getIndexedType());
						if (auto* ci = dyn_cast<ConstantInt>(ix)) off += (u64)ci->getSExtValue() * sc;
						else { k.gep.push_back({opnd(ix), sc}); k.gep.back().first = opnd(ix); k.wa = tw(ix->getType()); k.ops.push_back((int)tw(ix->getType())); }
					}
				}
				k.gepoff = off;
			}
			K->in.push_back(std::move(k));
		}
	}
	return K;
}

// ------------------------------------------------------------ memory ops
static u64 alloc_obj(State& S, u64 size, Kind kind, bool zero)
{
	u64 base = S.brk;
	Obj* o = new Obj();
	o->c.assign(size, 0);
	if (!zero) { o->st.assign(size, 2); }
	S.mem.push_back(Ent{base, size, ObjP(o), kind, false});
	S.brk += ((size + 15) & ~15ull) + 64;
	return base;
}
static Ent* find(State& S, u64 a)
{
	// last entry with base <= a
	size_t lo = 0, hi = S.mem.size();
	while (lo < hi) {
		size_t mid = (lo + hi) / 2;
		if (S.mem[mid].base <= a) lo = mid + 1; else hi = mid;
	}
	if (lo == 0) return nullptr;
	Ent* e = &S.mem[lo - 1];
	if (a >= e->base + e->size + 32) return nullptr; // in red zone or beyond
	return e;
}
static Obj* own(Ent* e)
{
	if (e->o.p->rc > 1) e->o = ObjP(new Obj(*e->o.p)), e->o.p->rc = 1;
	return e->o.p;
}
static std::string badaccess(State& S, u64 a, u64 n, Ent* e, const char* what)
{
	char b[256];
	if (a < 4096) snprintf(b, sizeof b, "%s of %lu bytes through a null pointer", what, (unsigned long)n);
	else if (!e) snprintf(b, sizeof b, "%s of %lu bytes through an invalid pointer", what, (unsigned long)n);
	else if (e->freed) snprintf(b, sizeof b, "%s of %lu bytes in freed memory", what, (unsigned long)n);
	else snprintf(b, sizeof b, "%s out of bounds", what);
	return b;
}
static Ent* check(State& S, u64 a, u64 n, const char* what, std::string& err)
{
	Ent* e = find(S, a);
	if (!e || e->freed || a + n > e->base + e->size || e->kind == K_FUNC || a < e->base) { err = badaccess(S, a, n, e, what); return nullptr; }
	return e;
}
static E bytexp(Obj* o, u64 i)
{
	if (o->st.empty() || o->st[i] == 0) return mkconst(o->c[i], 8);
	return mkextract(o->s[i].first, 8 * o->s[i].second, 8);
}
static void fixundef(Ent* e, u64 off, u64 n)
{
	Obj* o = e->o.p;
	if (o->st.empty()) return;
	bool any = false;
	for (u64 i = off; i < off + n; ++i) if (o->st[i] == 2) { any = true; break; }
	if (!any) return;
	o = own(e);
	if (o->s.empty()) o->s.resize(o->c.size());
	// aligned runs of 8 share one variable to keep loads simple
	for (u64 i = off; i < off + n;) {
		if (o->st[i] != 2) { ++i; continue; }
		u64 j = i;
		while (j < off + n && o->st[j] == 2 && j - i < 8) ++j;
		E v = mkvar((j - i) * 8);
		for (u64 k = i; k < j; ++k) { o->st[k] = 1; o->s[k] = {v, (uint8_t)(k - i)}; }
		i = j;
	}
}
static Val rd(Ent* e, u64 off, u64 n)
{
	Obj* o = e->o.p;
	if (o->st.empty()) {
		u64 v = 0;
		memcpy(&v, &o->c[off], n);
		return Val(v);
	}
	fixundef(e, off, n);
	o = e->o.p;
	bool conc = true;
	for (u64 i = off; i < off + n; ++i) if (o->st[i]) { conc = false; break; }
	if (conc) { u64 v = 0; memcpy(&v, &o->c[off], n); return Val(v); }
	// whole expression?
	if (o->st[off] == 1 && o->s[off].second == 0 && o->s[off].first->w == 8 * n) {
		E x = o->s[off].first;
		bool all = true;
		for (u64 i = 1; i < n; ++i) if (o->st[off + i] != 1 || o->s[off + i].first != x || o->s[off + i].second != i) { all = false; break; }
		if (all) return mkv(x);
	}
	E r = bytexp(o, off);
	for (u64 i = 1; i < n; ++i) r = mkconcat(bytexp(o, off + i), r);
	return mkv(r);
}
static void wr(Ent* e, u64 off, u64 n, const Val& v)
{
	Obj* o = own(e);
	if (v.conc()) {
		memcpy(&o->c[off], &v.c, n);
		if (!o->st.empty()) memset(&o->st[off], 0, n);
		return;
	}
	if (o->st.empty()) o->st.assign(o->c.size(), 0);
	if (o->s.empty()) o->s.resize(o->c.size());
	E x = v.e;
	if (x->w != 8 * n) x = mkzext(x, 8 * n);
	for (u64 i = 0; i < n; ++i) {
		// keep byte-wise structure when the expression decomposes
		if (x->op == O_CONCAT || x->op == O_ZEXT || x->op == O_EXTRACT) {
			E b = mkextract(x, 8 * i, 8);
			if (isC(b)) { o->st[off + i] = 0; o->c[off + i] = b->k; continue; }
			if (x->op != O_EXTRACT && b->op != O_EXTRACT) { o->st[off + i] = 1; o->s[off + i] = {b, 0}; continue; }
		}
		o->st[off + i] = 1;
		o->s[off + i] = {x, (uint8_t)i};
	}
}

// ------------------------------------------------------------ exceptions of control flow inside the engine
struct PathEnd {};   // current path is over
#define END_PATH return false

[[noreturn]] static void write_result(const char* status, const std::string& why);
[[noreturn]] static void fatal(const std::string& s)
{
	write_result("error", s);
}

static Model solve_model; // scratch

// result: can cond be true / false under S?  models for either side
static bool feasible(State& S, E cond, Model& m)
{
	Res r = solve(S.pc, cond, m);
	if (r == UNKNOWN) { mark_incomplete("solver gave no answer within its time limit"); return false; }
	return r == SAT;
}
static void add_pc(State& S, E c)
{
	if (isC(c)) return;
	if (c->op == O_AND) { add_pc(S, c->a[0]); add_pc(S, c->a[1]); return; }
	if (!S.kn.emplace(c, 1).second) return; // already there
	E n = mknot(c);
	S.kn.emplace(n, 0);
	if (c->op == O_EQ && isC(c->a[1])) S.kn[c->a[0]] = c->a[1]->k;
	S.pc.push_back(c);
}
static E simprec(State& S, E e, int depth, std::unordered_map<E, E>& memo)
{
	if (isC(e)) return e;
	auto it = S.kn.find(e);
	if (it != S.kn.end()) return mkconst(it->second, e->w);
	if (depth == 0 || e->op == O_VAR) return e;
	auto mt = memo.find(e);
	if (mt != memo.end()) return mt->second;
	E a[3];
	bool ch = false;
	for (int i = 0; i < 3; ++i) {
		a[i] = e->a[i] ? simprec(S, e->a[i], depth - 1, memo) : nullptr;
		if (a[i] != e->a[i]) ch = true;
	}
	E r = e;
	if (ch) {
		r = mk(e->op, e->w, e->k, a[0], a[1], a[2]);
		if (!isC(r)) { auto i2 = S.kn.find(r); if (i2 != S.kn.end()) r = mkconst(i2->second, r->w); }
	}
	memo.emplace(e, r);
	return r;
}
// the expression with everything the path condition pins replaced by its value
static E simp(State& S, E e)
{
	if (isC(e) || S.kn.empty()) return e;
	std::unordered_map<E, E> memo;
	return simprec(S, e, 12, memo);
}

static SP fork(State& S)
{
	SP n(new State(S));
	n->id = ++n_states;
	++n_forks;
	++n->depth;
	return n;
}

// branch on a 1-bit value: returns the side taken by the current state; the other side, if feasible, is
// returned through `other` with its constraint added
static int branch(State& S, E c, SP& other)
{
	if (isC(c)) return c->k ? 1 : 0;
	++n_branchq;
	c = simp(S, c);
	if (isC(c)) return c->k ? 1 : 0;
	bool v = evalE(c, S.m);
	E mine = v ? c : mknot(c), their = v ? mknot(c) : c;
	Model m2 = S.m;
	if (feasible(S, their, m2)) {
		other = fork(S);
		add_pc(*other, their);
		other->m = std::move(m2);
		add_pc(S, mine);
	}
	return v;
}

// enumerate every feasible value of v; the current state takes the first, forks take the others and
// re-execute the current instruction (their constraint makes the value concrete on re-evaluation)
static std::unordered_map<E, u64> nullmap;
static bool concretize(State& S, Val& v, unsigned w, u64 limit = 300)
{
	if (v.conc()) return true;
	{ E e2 = simp(S, v.e); if (isC(e2)) { v = Val(e2->k); return true; } v.e = e2; }
	u64 first = evalE(v.e, S.m);
	E eq = mkeq(v.e, mkconst(first, w));
	E rest = mknot(eq);
	Model m = S.m;
	std::vector<E> base = S.pc;
	u64 n = 1;
	std::vector<E> excl;
	E ex = rest;
	while (true) {
		Model m2 = S.m;
		Res r = solve(base, ex, m2);
		if (r == UNKNOWN) { mark_incomplete("solver gave no answer within its time limit"); break; }
		if (r == UNSAT) break;
		if (++n > limit) { mark_incomplete("too many values for one symbolic quantity"); break; }
		u64 val = evalE(v.e, m2);
		E e2 = mkeq(v.e, mkconst(val, w));
		SP o = fork(S);
		add_pc(*o, e2);
		o->m = m2;
		work.push_back(std::move(o));
		ex = mkand(ex, mknot(e2));
	}
	add_pc(S, eq);
	v = Val(first);
	return true;
}
static E simp_by_pc(State& S, E e) { return simp(S, e); }

static Val get(Frame& f, int i) { return i >= 0 ? f.r[i] : consts[-i - 1]; }

static void memerr(State& S, const std::string& msg) { violation(S, "memory", msg, S.m); }

// resolve address value to a concrete address valid for n bytes.  On return false the path is over.
static bool resolve(State& S, Val& a, u64 n, const char* what, Ent*& ent, bool forload = false)
{
	if (a.e) { E e2 = simp_by_pc(S, a.e); if (isC(e2)) a = Val(e2->k); }
	if (!a.conc()) concretize(S, a, 64);
	std::string err;
	ent = check(S, a.c, n, what, err);
	if (!ent) { memerr(S, err); return false; }
	return true;
}

// read of one small element at a symbolic offset inside one object, as an ite chain
static bool ite_load(State& S, Val& a, u64 n, Val& out)
{
	if (a.conc()) return false;
	u64 first = evalE(a.e, S.m);
	Ent* e = find(S, first);
	if (!e || e->freed || e->kind == K_FUNC || first + n > e->base + e->size) return false;
	if (e->size > 600) return false;
	if (n == 8 && e->kind != K_CONST) return false; // pointers and hashes: one path per element
	Model m2 = S.m;
	E lo = mkconst(e->base, 64), hi = mkconst(e->base + e->size - n, 64);
	E oob = mkor(mkbin(O_ULT, a.e, lo), mkbin(O_ULT, hi, a.e));
	if (feasible(S, oob, m2)) return false; // let the enumerating path report it
	// stride: use alignment by n only when provable; otherwise every offset
	Model m3 = S.m;
	u64 step = 1;
	if (n > 1) {
		E mis = mknot(mkeq(mkbin(O_AND, a.e, mkconst(n - 1, 64)), mkconst(first & (n - 1), 64)));
		if ((n & (n - 1)) == 0 && !feasible(S, mis, m3)) step = n;
	}
	if (e->size / step > 80 && !(e->kind == K_CONST && e->size / step <= 300)) return false;
	u64 start = e->base + ((first - e->base) % step);
	E r = nullptr;
	for (u64 p = start; p + n <= e->base + e->size; p += step) {
		Val v = rd(e, p - e->base, n);
		E ve = toE(v, 8 * n);
		r = r ? mkite(mkeq(a.e, mkconst(p, 64)), ve, r) : ve;
	}
	out = mkv(r);
	return true;
}

static Val trunc_load(const Val& v, unsigned w, u64 n)
{
	if (w == 8 * n) return v;
	if (v.conc()) return Val(v.c & maskw(w));
	return mkv(mkextract(v.e, 0, w));
}

static bool load_ty(State& S, Ent* e, u64 off, Type* t, Val& out)
{
	if (auto* st = dyn_cast<StructType>(t)) {
		out.agg = std::make_shared<std::vector<Val>>();
		auto* L = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); ++i) { Val v; load_ty(S, e, off + L->getElementOffset(i), st->getElementType(i), v); out.agg->push_back(v); }
		return true;
	}
	if (auto* at = dyn_cast<ArrayType>(t)) {
		out.agg = std::make_shared<std::vector<Val>>();
		u64 es = DL->getTypeAllocSize(at->getElementType());
		for (unsigned i = 0; i < at->getNumElements(); ++i) { Val v; load_ty(S, e, off + i * es, at->getElementType(), v); out.agg->push_back(v); }
		return true;
	}
	u64 n = DL->getTypeStoreSize(t);
	if (n > 8) fatal("load wider than 8 bytes");
	out = trunc_load(rd(e, off, n), tw(t), n);
	return true;
}
static void store_ty(State& S, Ent* e, u64 off, Type* t, const Val& v)
{
	if (auto* st = dyn_cast<StructType>(t)) {
		auto* L = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); ++i) store_ty(S, e, off + L->getElementOffset(i), st->getElementType(i), (*v.agg)[i]);
		return;
	}
	if (auto* at = dyn_cast<ArrayType>(t)) {
		u64 es = DL->getTypeAllocSize(at->getElementType());
		for (unsigned i = 0; i < at->getNumElements(); ++i) store_ty(S, e, off + i * es, at->getElementType(), (*v.agg)[i]);
		return;
	}
	u64 n = DL->getTypeStoreSize(t);
	if (n > 8) fatal("store wider than 8 bytes");
	wr(e, off, n, v);
}

// ------------------------------------------------------------ threads
static bool enabled(State& S, int t)
{
	Thread& T = S.th[t];
	switch (T.ts) {
	case T_RUN: return true;
	case T_MUTEX: { auto it = S.mtx.find(T.m); return it == S.mtx.end() || it->second < 0; }
	case T_JOIN: {
		for (size_t i = 0; i < S.th.size(); ++i) if ((int)i != t && S.th[i].ts != T_DONE) return false;
		return true;
	}
	default: return false;
	}
}
static void wake(State& S, int t)
{
	Thread& T = S.th[t];
	if (T.ts == T_MUTEX) { S.mtx[T.m] = t; T.ts = T_RUN; }
	if (T.ts == T_JOIN) T.ts = T_RUN;
	S.cur = t;
	S.sched.push_back(t);
}
// the current thread cannot continue: hand over to any enabled thread. false: path over
static bool yield_blocked(State& S)
{
	std::vector<int> en;
	for (size_t i = 0; i < S.th.size(); ++i) if (enabled(S, i)) en.push_back(i);
	++n_deadlock_checked;
	if (en.empty()) {
		bool alldone = true;
		for (auto& t : S.th) if (t.ts != T_DONE) alldone = false;
		if (alldone) return false;
		std::string who;
		int blocked = -1;
		for (size_t i = 0; i < S.th.size(); ++i) if (S.th[i].ts != T_DONE) {
			blocked = i;
			who += " thread " + std::to_string(i) + (S.th[i].ts == T_COND ? " waits for a signal" : S.th[i].ts == T_MUTEX ? " waits for a lock" : " waits for a thread") + ";";
		}
		int c = S.cur; S.cur = blocked;
		violation(S, "deadlock", "no thread can make progress:" + who, S.m);
		S.cur = c;
		return false;
	}
	for (size_t i = 1; i < en.size(); ++i) {
		SP o = fork(S);
		wake(*o, en[i]);
		work.push_back(std::move(o));
	}
	wake(S, en[0]);
	return true;
}
// before a visible operation: maybe let another thread go first. true: proceed with the operation
static bool sched_point(State& S)
{
	if (S.th.size() < 2) return true;
	Thread& T = S.th[S.cur];
	if (T.go) { T.go = false; return true; }
	if (S.preempt >= opt_preempt) return true;
	for (size_t i = 0; i < S.th.size(); ++i) {
		if ((int)i == S.cur || !enabled(S, i)) continue;
		SP o = fork(S);
		++o->preempt;
		o->th[S.cur].go = true; // will execute its operation when resumed
		wake(*o, i);
		work.push_back(std::move(o));
	}
	S.sched.push_back(S.cur);
	return true;
}

// ------------------------------------------------------------ calls
enum CallRes { C_OK, C_END, C_RETRY, C_ENTERED };
static CallRes call_external(State& S, KInst& k, Function* F, std::vector<Val>& a, Val& ret);

static std::string cstr(State& S, u64 a)
{
	std::string r;
	Ent* e = find(S, a);
	if (!e || e->freed) return "?";
	for (u64 i = a - e->base; i < e->size; ++i) {
		if (!e->o.p->st.empty() && e->o.p->st[i]) return r + "?";
		if (!e->o.p->c[i]) break;
		r += (char)e->o.p->c[i];
	}
	return r;
}

static bool copymem(State& S, u64 d, u64 s, u64 n, bool checkoverlap)
{
	if (n == 0) return true;
	std::string err;
	Ent* se = check(S, s, n, "read", err);
	if (!se) { memerr(S, err); return false; }
	Ent* de = check(S, d, n, "write", err);
	if (!de) { memerr(S, err); return false; }
	if (de->kind == K_CONST) { memerr(S, "write to read-only data"); return false; }
	if (checkoverlap && d != s && ((d < s && d + n > s) || (s < d && s + n > d))) { memerr(S, "memcpy with overlapping source and destination"); return false; }
	u64 so = s - se->base, dof = d - de->base;
	ObjP keep = se->o; // survives copy-on-write
	Obj* o = own(de);
	Obj* src = se->o.p == o ? o : keep.p;
	std::vector<uint8_t> tc(src->c.begin() + so, src->c.begin() + so + n), ts;
	std::vector<std::pair<E, uint8_t>> tx;
	if (!src->st.empty()) ts.assign(src->st.begin() + so, src->st.begin() + so + n);
	if (!src->s.empty()) tx.assign(src->s.begin() + so, src->s.begin() + so + n);
	memcpy(&o->c[dof], tc.data(), n);
	if (!ts.empty()) {
		if (o->st.empty()) o->st.assign(o->c.size(), 0);
		memcpy(&o->st[dof], ts.data(), n);
		if (!tx.empty()) {
			if (o->s.empty()) o->s.resize(o->c.size());
			std::copy(tx.begin(), tx.end(), o->s.begin() + dof);
		}
	} else if (!o->st.empty()) memset(&o->st[dof], 0, n);
	return true;
}

static bool setmem(State& S, u64 d, const Val& v, u64 n)
{
	if (n == 0) return true;
	std::string err;
	Ent* de = check(S, d, n, "write", err);
	if (!de) { memerr(S, err); return false; }
	if (de->kind == K_CONST) { memerr(S, "write to read-only data"); return false; }
	if (v.conc()) {
		Obj* o = own(de);
		memset(&o->c[d - de->base], v.c & 0xff, n);
		if (!o->st.empty()) memset(&o->st[d - de->base], 0, n);
		return true;
	}
	Val b = mkv(mkextract(v.e, 0, 8));
	for (u64 i = 0; i < n; ++i) wr(de, d - de->base + i, 1, b);
	return true;
}

static bool do_free(State& S, u64 a)
{
	if (a == 0) return true;
	Ent* e = find(S, a);
	if (!e || e->base != a || e->kind != K_HEAP) { memerr(S, "free of a pointer that is not a live allocation"); return false; }
	if (e->freed) { memerr(S, "double free"); return false; }
	e->freed = true;
	e->o = ObjP();
	return true;
}

static void push_frame(State& S, KFunction* kf, std::vector<Val>& a, std::vector<std::pair<Val, Type*>> va)
{
	Frame f;
	f.f = kf;
	f.r.resize(kf->nslots);
	for (unsigned i = 0; i < kf->F->arg_size() && i < a.size(); ++i) f.r[i] = a[i];
	f.va = std::move(va);
	++kf->calls;
	S.th[S.cur].st.push_back(std::move(f));
}

static void pop_allocas(State& S, Frame& f)
{
	for (size_t i = f.allocas.size(); i-- > 0;) {
		if (!S.mem.empty() && S.mem.back().base == f.allocas[i]) { S.mem.pop_back(); continue; }
		Ent* e = find(S, f.allocas[i]);
		if (e) { e->freed = true; e->o = ObjP(); }
	}
}

static void setret(State& S, KInst& k, const Val& v)
{
	if (k.dst >= 0) S.th[S.cur].st.back().r[k.dst] = v;
}

// fp intrinsics evaluated only on concrete operands
static bool need_conc(State& S, Val& v, unsigned w)
{
	if (v.e) { E e2 = simp_by_pc(S, v.e); if (isC(e2)) v = Val(e2->k); }
	return concretize(S, v, w);
}

#define ARGC(i) do { if (!a[i].conc()) { E e2_ = simp_by_pc(S, a[i].e); if (isC(e2_)) a[i] = Val(e2_->k); } if (!a[i].conc()) concretize(S, a[i], a[i].e->w); } while (0)

static CallRes call_external(State& S, KInst& k, Function* F, std::vector<Val>& a, Val& ret)
{
	StringRef nm = F->getName();
	auto* CB = cast<CallBase>(k.I);
	unsigned w0 = CB->arg_size() ? tw(CB->getArgOperand(0)->getType()) : 0;
	if (F->isIntrinsic()) {
		Intrinsic::ID id = F->getIntrinsicID();
		switch (id) {
		case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
			ARGC(2); if (a[2].c == 0) return C_OK; ARGC(0); ARGC(1);
			return copymem(S, a[0].c, a[1].c, a[2].c, id != Intrinsic::memmove) ? C_OK : C_END;
		case Intrinsic::memset: case Intrinsic::memset_inline:
			ARGC(2); if (a[2].c == 0) return C_OK; ARGC(0);
			return setmem(S, a[0].c, a[1], a[2].c) ? C_OK : C_END;
		case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
		case Intrinsic::vaend: case Intrinsic::prefetch: case Intrinsic::stackrestore:
			return C_OK;
		case Intrinsic::stacksave: ret = Val(0); return C_OK;
		case Intrinsic::expect: ret = a[0]; return C_OK;
		case Intrinsic::is_constant: ret = Val(0); return C_OK;
		case Intrinsic::objectsize: ret = Val(maskw(k.w)); return C_OK;
		case Intrinsic::umax: ret = mkv(mkite(mkbin(O_ULT, toE(a[0], k.w), toE(a[1], k.w)), toE(a[1], k.w), toE(a[0], k.w))); return C_OK;
		case Intrinsic::umin: ret = mkv(mkite(mkbin(O_ULT, toE(a[0], k.w), toE(a[1], k.w)), toE(a[0], k.w), toE(a[1], k.w))); return C_OK;
		case Intrinsic::smax: ret = mkv(mkite(mkbin(O_SLT, toE(a[0], k.w), toE(a[1], k.w)), toE(a[1], k.w), toE(a[0], k.w))); return C_OK;
		case Intrinsic::smin: ret = mkv(mkite(mkbin(O_SLT, toE(a[0], k.w), toE(a[1], k.w)), toE(a[0], k.w), toE(a[1], k.w))); return C_OK;
		case Intrinsic::abs: { E x = toE(a[0], k.w); ret = mkv(mkite(mkbin(O_SLT, x, mkconst(0, k.w)), mkbin(O_SUB, mkconst(0, k.w), x), x)); return C_OK; }
		case Intrinsic::usub_sat: { E x = toE(a[0], k.w), y = toE(a[1], k.w); ret = mkv(mkite(mkbin(O_ULT, x, y), mkconst(0, k.w), mkbin(O_SUB, x, y))); return C_OK; }
		case Intrinsic::uadd_sat: { E x = toE(a[0], k.w), y = toE(a[1], k.w); E s = mkbin(O_ADD, x, y); ret = mkv(mkite(mkbin(O_ULT, s, x), mkconst(maskw(k.w), k.w), s)); return C_OK; }
		case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow:
		case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
			unsigned w = w0;
			E x = toE(a[0], w), y = toE(a[1], w), r, o, z = mkconst(0, w);
			auto neg = [&](E v) { return mkbin(O_SLT, v, z); };
			switch (id) {
			case Intrinsic::sadd_with_overflow: r = mkbin(O_ADD, x, y); o = mkand(mkeq(neg(x), neg(y)), mknot(mkeq(neg(x), neg(r)))); break;
			case Intrinsic::uadd_with_overflow: r = mkbin(O_ADD, x, y); o = mkbin(O_ULT, r, x); break;
			case Intrinsic::ssub_with_overflow: r = mkbin(O_SUB, x, y); o = mkand(mknot(mkeq(neg(x), neg(y))), mknot(mkeq(neg(x), neg(r)))); break;
			case Intrinsic::usub_with_overflow: r = mkbin(O_SUB, x, y); o = mkbin(O_ULT, x, y); break;
			case Intrinsic::smul_with_overflow: r = mkbin(O_MUL, x, y); o = mk(O_SMULOVF, 1, 0, x, y); break;
			default: r = mkbin(O_MUL, x, y); o = mk(O_UMULOVF, 1, 0, x, y); break;
			}
			ret.agg = std::make_shared<std::vector<Val>>();
			ret.agg->push_back(mkv(r)); ret.agg->push_back(mkv(o));
			return C_OK;
		}
		case Intrinsic::ctpop: { E x = toE(a[0], k.w), r = mkconst(0, k.w); for (unsigned i = 0; i < k.w; ++i) r = mkbin(O_ADD, r, mkzext(mkextract(x, i, 1), k.w)); ret = mkv(r); return C_OK; }
		case Intrinsic::ctlz: { E x = toE(a[0], k.w), r = mkconst(k.w, k.w); for (unsigned i = 0; i < k.w; ++i) r = mkite(mkextract(x, i, 1), mkconst(k.w - 1 - i, k.w), r); ret = mkv(r); return C_OK; }
		case Intrinsic::cttz: { E x = toE(a[0], k.w), r = mkconst(k.w, k.w); for (unsigned i = k.w; i-- > 0;) r = mkite(mkextract(x, i, 1), mkconst(i, k.w), r); ret = mkv(r); return C_OK; }
		case Intrinsic::bswap: { E x = toE(a[0], k.w), r = mkextract(x, 0, 8); for (unsigned i = 8; i < k.w; i += 8) r = mkconcat(r, mkextract(x, i, 8)); ret = mkv(r); return C_OK; }
		case Intrinsic::fshl: {
			need_conc(S, a[2], k.w);
			unsigned s = a[2].c % k.w; E x = toE(a[0], k.w), y = toE(a[1], k.w);
			ret = s ? mkv(mkbin(O_OR, mkbin(O_SHL, x, mkconst(s, k.w)), mkbin(O_LSHR, y, mkconst(k.w - s, k.w)))) : a[0];
			return C_OK;
		}
		case Intrinsic::fshr: {
			need_conc(S, a[2], k.w);
			unsigned s = a[2].c % k.w; E x = toE(a[0], k.w), y = toE(a[1], k.w);
			ret = s ? mkv(mkbin(O_OR, mkbin(O_SHL, x, mkconst(k.w - s, k.w)), mkbin(O_LSHR, y, mkconst(s, k.w)))) : a[1];
			return C_OK;
		}
		case Intrinsic::fabs: ret = mkv(mkbin(O_AND, toE(a[0], k.w), mkconst(maskw(k.w - 1), k.w))); return C_OK;
		case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: {
			need_conc(S, a[0], k.w);
			double d = bits2d(a[0].c, k.w);
			d = id == Intrinsic::floor ? floor(d) : id == Intrinsic::ceil ? ceil(d) : id == Intrinsic::trunc ? trunc(d) : id == Intrinsic::round ? round(d) : rint(d);
			ret = Val(d2bits(d, k.w));
			return C_OK;
		}
		case Intrinsic::fmuladd: {
			E x = mk(O_FMUL, k.w, 0, toE(a[0], k.w), toE(a[1], k.w));
			ret = mkv(mk(O_FADD, k.w, 0, x, toE(a[2], k.w)));
			return C_OK;
		}
		case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: {
			std::string why = "undefined behaviour (trap)";
			if (id == Intrinsic::ubsantrap) {
				static const std::map<u64, const char*> names = {{0, "signed addition overflow"}, {3, "division overflow or by zero"}, {12, "signed multiplication overflow"}, {13, "signed negation overflow"}, {18, "array index out of range"}, {20, "invalid shift"}, {21, "signed subtraction overflow"}};
				auto it = names.find(a[0].c);
				why = it == names.end() ? "undefined behaviour (check " + std::to_string(a[0].c) + ")" : it->second;
			}
			violation(S, "ub", why, S.m);
			return C_END;
		}
		case Intrinsic::vastart: {
			// x86-64 va_list: { i32 gp_offset, i32 fp_offset, ptr overflow, ptr reg_save }
			Frame& f = S.th[S.cur].st.back();
			unsigned gp = 0, fp = 0;
			for (auto& A : f.f->F->args()) { if (A.getType()->isFloatingPointTy()) ++fp; else ++gp; }
			std::vector<std::pair<Val, bool>> ov;
			u64 save = alloc_obj(S, 176, K_STACK, true);
			S.th[S.cur].st.back().allocas.push_back(save);
			unsigned g = std::min(gp, 6u), x = std::min(fp, 8u);
			unsigned g0 = g, x0 = x;
			for (auto& v : S.th[S.cur].st.back().va) {
				Ent* se = find(S, save);
				if (v.second->isFloatingPointTy()) {
					if (x < 8) { wr(se, 48 + 16 * x, 8, v.first); ++x; } else ov.push_back({v.first, false});
				} else {
					Val vv = v.first;
					unsigned w = tw(v.second);
					if (!vv.conc() && w < 64) vv = mkv(mkzext(vv.e, 64));
					if (g < 6) { wr(se, 8 * g, 8, vv); ++g; } else ov.push_back({vv, false});
				}
			}
			u64 area = alloc_obj(S, 8 * (ov.size() + 1), K_STACK, true);
			S.th[S.cur].st.back().allocas.push_back(area);
			for (size_t i = 0; i < ov.size(); ++i) wr(find(S, area), 8 * i, 8, ov[i].first);
			Ent* le;
			if (!resolve(S, a[0], 24, "write", le)) return C_END;
			u64 off = a[0].c - le->base;
			wr(le, off, 4, Val(8 * g0)); wr(le, off + 4, 4, Val(48 + 16 * x0)); wr(le, off + 8, 8, Val(area)); wr(le, off + 16, 8, Val(save));
			return C_OK;
		}
		case Intrinsic::vacopy:
			ARGC(0); ARGC(1);
			return copymem(S, a[0].c, a[1].c, 24, false) ? C_OK : C_END;
		default:
			fatal("intrinsic " + nm.str());
		}
	}
	// --- verification interface
	if (nm == "vp_sym") {
		ARGC(0); ARGC(1);
		std::string err;
		Ent* e = check(S, a[0].c, a[1].c, "write", err);
		if (!e) { memerr(S, err); return C_END; }
		Input in{cstr(S, a[2].c), (unsigned)a[1].c, {}};
		for (u64 i = 0; i < a[1].c; ++i) {
			E v = mkvar(8);
			wr(e, a[0].c - e->base + i, 1, mkv(v));
			in.b.push_back(v);
		}
		S.inp.push_back(std::move(in));
		return C_OK;
	}
	if (nm == "vp_range") {
		// lo <= x <= hi, signed 64 bit; hi - lo decides the width of the variable
		ARGC(0); ARGC(1);
		int64_t lo = a[0].c, hi = a[1].c;
		if (lo > hi) { ++n_infeasible; return C_END; }
		u64 span = (u64)hi - (u64)lo;
		E x;
		unsigned w = span == 0 ? 1 : 64 - __builtin_clzll(span);
		E v = mkvar(w);
		E c = mkbin(O_ULE, v, mkconst(span, w));
		set_var_max(v, span);
		x = mkbin(O_ADD, mkzext(v, 64), mkconst(lo, 64));
		Input in{cstr(S, a[2].c), 8, {}};
		for (int i = 0; i < 8; ++i) in.b.push_back(mkextract(x, 8 * i, 8));
		S.inp.push_back(std::move(in));
		if (!isC(c)) add_pc(S, c);
		S.m[v->k] = 0;
		ret = mkv(x);
		return C_OK;
	}
	if (nm == "vp_assume") {
		E c = mknot(mkeq(toE(a[0], w0), mkconst(0, w0)));
		c = simp(S, c);
		if (isC(c)) { if (c->k) return C_OK; ++n_infeasible; return C_END; }
		if (!evalE(c, S.m)) {
			Model m = S.m;
			if (!feasible(S, c, m)) { ++n_infeasible; return C_END; }
			S.m = std::move(m);
		}
		add_pc(S, c);
		return C_OK;
	}
	if (nm == "vp_assert" || nm == "__assert_fail") {
		std::string msg = nm == "vp_assert" ? cstr(S, a[1].c) : "assert: " + cstr(S, a[0].c);
		++n_asserts;
		if (nm == "__assert_fail") { violation(S, "assert", msg, S.m); return C_END; }
		E c = mknot(mkeq(toE(a[0], w0), mkconst(0, w0)));
		c = simp(S, c);
		if (isC(c)) {
			if (c->k) { ++n_assert_unsat; return C_OK; }
			violation(S, "assert", msg, S.m);
			return C_END;
		}
		Model m = S.m;
		Res r = evalE(c, S.m) ? solve(S.pc, mknot(c), m) : SAT;
		if (r == UNKNOWN) mark_incomplete("solver gave no answer on: " + msg);
		else if (r == SAT) {
			violation(S, "assert", msg, m);
			if (!evalE(c, S.m)) { Model m2 = S.m; if (!feasible(S, c, m2)) return C_END; S.m = m2; }
		} else ++n_assert_unsat;
		add_pc(S, c);
		return C_OK;
	}
	if (nm == "vp_fix") { ARGC(0); ret = a[0]; return C_OK; }
	if (nm == "vp_reach") { S.reach.insert(cstr(S, a[0].c)); all_reach.insert(cstr(S, a[0].c)); return C_OK; }
	if (nm == "vp_obs") { if (a[0].conc()) S.obs.push_back({nullptr, a[0].c}); else S.obs.push_back({a[0].e, 0}); return C_OK; }
	if (nm == "vp_allow_exit") { S.allow_exit = true; return C_OK; }
	if (nm == "vp_arg") { ARGC(0); ret = Val((u64)opt_arg[a[0].c & 3]); return C_OK; }
	if (nm == "vp_native") { ret = Val(0); return C_OK; }
	if (nm == "vp_done") { return C_END; }
	if (nm == "vp_is_const") { ret = Val(a[0].conc()); return C_OK; }
	if (nm == "vp_live") { u64 n = 0; for (auto& e : S.mem) if (e.kind == K_HEAP && !e.freed) ++n; ret = Val(n); return C_OK; }
	if (nm == "vp_fail") { violation(S, "assert", cstr(S, a[0].c), S.m); return C_END; }
	if (nm == "vp_unsupported") { fatal("model does not cover: " + cstr(S, a[0].c)); }
	if (nm == "vp_sel") { // branch-free choice
		ret = mkv(mkite(mknot(mkeq(toE(a[0], w0), mkconst(0, w0))), toE(a[1], 64), toE(a[2], 64)));
		return C_OK;
	}
	if (nm == "vp_spawn") {
		ARGC(0);
		auto it = fnaddr.find(a[0].c);
		if (it == fnaddr.end()) fatal("vp_spawn target");
		KFunction* kf = lower(it->second);
		Thread T;
		Frame f; f.f = kf; f.r.resize(kf->nslots); f.r[0] = a[1];
		T.st.push_back(std::move(f));
		++kf->calls;
		S.th.push_back(std::move(T));
		return C_OK;
	}
	if (nm == "vp_joinall") {
		S.th[S.cur].ts = T_JOIN;
		S.th[S.cur].st.back().pc++; // past the call on wake-up
		if (enabled(S, S.cur)) { S.th[S.cur].ts = T_RUN; S.th[S.cur].st.back().pc--; return C_OK; }
		return yield_blocked(S) ? C_ENTERED : C_END;
	}
	if (nm == "vp_yield") { sched_point(S); return C_OK; }
	// --- allocation
	if (nm == "malloc") { ARGC(0); if (a[0].c > (1u << 24)) { memerr(S, "allocation request beyond 16 MB"); return C_END; } ret = Val(alloc_obj(S, a[0].c, K_HEAP, false)); return C_OK; }
	if (nm == "calloc") { ARGC(0); ARGC(1); u64 n = a[0].c * a[1].c; if (n > (1u << 24)) { memerr(S, "allocation request beyond 16 MB"); return C_END; } ret = Val(alloc_obj(S, n, K_HEAP, true)); return C_OK; }
	if (nm == "realloc") {
		ARGC(0); ARGC(1);
		if (a[1].c > (1u << 24)) { memerr(S, "allocation request beyond 16 MB"); return C_END; }
		u64 o = a[0].c, n = a[1].c;
		u64 old = 0;
		if (o) {
			Ent* e = find(S, o);
			if (!e || e->base != o || e->kind != K_HEAP) { memerr(S, "realloc of a pointer that is not a live allocation"); return C_END; }
			if (e->freed) { memerr(S, "realloc of freed memory"); return C_END; }
			old = e->size;
		}
		u64 b = alloc_obj(S, n, K_HEAP, false);
		if (o) { copymem(S, b, o, std::min(old, n), false); do_free(S, o); }
		ret = Val(b);
		return C_OK;
	}
	if (nm == "free") { ARGC(0); return do_free(S, a[0].c) ? C_OK : C_END; }
	if (nm == "memcpy" || nm == "memmove" || nm == "__memcpy_chk" || nm == "__memmove_chk") {
		ARGC(2); ret = a[0]; if (a[2].c == 0) return C_OK; ARGC(0); ARGC(1);
		ret = a[0];
		return copymem(S, a[0].c, a[1].c, a[2].c, nm == "memcpy") ? C_OK : C_END;
	}
	if (nm == "memset" || nm == "__memset_chk") {
		ARGC(2); ret = a[0]; if (a[2].c == 0) return C_OK; ARGC(0);
		ret = a[0];
		return setmem(S, a[0].c, a[1], a[2].c) ? C_OK : C_END;
	}
	if (nm == "exit" || nm == "_exit" || nm == "abort") {
		if (!S.allow_exit) violation(S, "exit", "the code under test ended the process (" + nm.str() + ")", S.m);
		else ++n_exit;
		return C_END;
	}
	// --- threads
	if (nm == "pthread_mutex_init") { ARGC(0); S.mtx[a[0].c] = -1; ret = Val(0); return C_OK; }
	if (nm == "pthread_mutex_destroy") { ARGC(0); S.mtx.erase(a[0].c); ret = Val(0); return C_OK; }
	if (nm == "pthread_cond_init" || nm == "pthread_cond_destroy") { ret = Val(0); return C_OK; }
	if (nm == "pthread_mutex_lock") {
		ARGC(0);
		sched_point(S);
		auto it = S.mtx.find(a[0].c);
		ret = Val(0);
		if (it == S.mtx.end() || it->second < 0) { S.mtx[a[0].c] = S.cur; return C_OK; }
		if (k.dst >= 0) S.th[S.cur].st.back().r[k.dst] = ret;
		S.th[S.cur].ts = T_MUTEX; S.th[S.cur].m = a[0].c;
		S.th[S.cur].st.back().pc++;
		return yield_blocked(S) ? C_ENTERED : C_END;
	}
	if (nm == "pthread_mutex_trylock") {
		ARGC(0);
		sched_point(S);
		auto it = S.mtx.find(a[0].c);
		if (it == S.mtx.end() || it->second < 0) { S.mtx[a[0].c] = S.cur; ret = Val(0); }
		else ret = Val(16);
		return C_OK;
	}
	if (nm == "pthread_mutex_unlock") {
		ARGC(0);
		auto it = S.mtx.find(a[0].c);
		if (it == S.mtx.end() || it->second != S.cur) { violation(S, "lock", "unlock of a mutex the thread does not hold", S.m); return C_END; }
		it->second = -1;
		ret = Val(0);
		return C_OK;
	}
	if (nm == "pthread_cond_wait") {
		ARGC(0); ARGC(1);
		auto it = S.mtx.find(a[1].c);
		if (it == S.mtx.end() || it->second != S.cur) { violation(S, "lock", "wait on a condition without holding its mutex", S.m); return C_END; }
		it->second = -1;
		ret = Val(0);
		if (k.dst >= 0) S.th[S.cur].st.back().r[k.dst] = ret;
		S.th[S.cur].ts = T_COND; S.th[S.cur].m = a[1].c; S.th[S.cur].cv = a[0].c;
		S.th[S.cur].st.back().pc++;
		return yield_blocked(S) ? C_ENTERED : C_END;
	}
	if (nm == "pthread_cond_signal" || nm == "pthread_cond_broadcast") {
		ARGC(0);
		ret = Val(0);
		std::vector<int> ws;
		for (size_t i = 0; i < S.th.size(); ++i) if (S.th[i].ts == T_COND && S.th[i].cv == a[0].c) ws.push_back(i);
		if (nm == "pthread_cond_broadcast") { for (int t : ws) S.th[t].ts = T_MUTEX; return C_OK; }
		if (ws.empty()) return C_OK;
		// any one waiter may be the one woken; a recorded choice of 1000+t
		for (size_t i = 1; i < ws.size(); ++i) {
			SP o = fork(S);
			o->th[ws[i]].ts = T_MUTEX;
			o->sched.push_back(1000 + ws[i]);
			if (k.dst >= 0) o->th[o->cur].st.back().r[k.dst] = ret;
			o->th[o->cur].st.back().pc++;
			work.push_back(std::move(o));
		}
		if (ws.size() > 1) S.sched.push_back(1000 + ws[0]);
		S.th[ws[0]].ts = T_MUTEX;
		return C_OK;
	}
	if (nm == "vp_dtoa") { // (buf, size, fmtchar, precision, double) -> length, concrete values only
		ARGC(0); ARGC(1); ARGC(2); ARGC(3);
		need_conc(S, a[4], 64);
		char f[16], b[512];
		if ((int)a[3].c < 0) snprintf(f, 16, "%%%c", (char)a[2].c);
		else snprintf(f, 16, "%%.%d%c", (int)a[3].c, (char)a[2].c);
		int n = snprintf(b, 512, f, bits2d(a[4].c, 64));
		std::string err;
		Ent* e = check(S, a[0].c, n + 1, "write", err);
		if (!e) { memerr(S, err); return C_END; }
		for (int i = 0; i <= n; ++i) wr(e, a[0].c - e->base + i, 1, Val((u64)(uint8_t)b[i]));
		ret = Val((u64)n);
		return C_OK;
	}
	if (nm == "fmod") { need_conc(S, a[0], 64); need_conc(S, a[1], 64); ret = Val(d2bits(fmod(bits2d(a[0].c, 64), bits2d(a[1].c, 64)), 64)); return C_OK; }
	if (nm == "floor" || nm == "ceil" || nm == "round" || nm == "trunc") {
		need_conc(S, a[0], 64); double d = bits2d(a[0].c, 64);
		d = nm == "floor" ? floor(d) : nm == "ceil" ? ceil(d) : nm == "round" ? round(d) : trunc(d);
		ret = Val(d2bits(d, 64)); return C_OK;
	}
	fatal("call to a function with no model: " + nm.str() + " at " + iloc(k.I));
}

static CallRes do_call(State& S, KInst& k)
{
	auto* CB = cast<CallBase>(k.I);
	Frame& f = S.th[S.cur].st.back();
	std::vector<Val> a;
	a.reserve(k.ops.size());
	for (size_t i = 0; i + 1 < k.ops.size(); ++i) a.push_back(k.ops[i] == INT32_MIN ? Val(0) : get(f, k.ops[i]));
	if (CB->isInlineAsm()) fatal("inline assembly at " + iloc(k.I));
	Function* F = CB->getCalledFunction();
	if (!F) {
		Val t = get(f, k.ops.back());
		if (t.e) { E e2 = simp_by_pc(S, t.e); if (isC(e2)) t = Val(e2->k); }
		if (!t.conc()) concretize(S, t, 64);
		auto it = fnaddr.find(t.c);
		if (it == fnaddr.end()) { memerr(S, t.c == 0 ? "call through a null function pointer" : "call through an invalid function pointer"); return C_END; }
		F = it->second;
	}
	if (F->isDeclaration()) {
		Val ret;
		CallRes r = call_external(S, k, F, a, ret);
		if (r == C_OK && k.dst >= 0) S.th[S.cur].st.back().r[k.dst] = ret;
		return r;
	}
	KFunction* kf = lower(F);
	std::vector<std::pair<Val, Type*>> va;
	if (F->isVarArg())
		for (size_t i = F->arg_size(); i < a.size(); ++i) va.push_back({a[i], CB->getArgOperand(i)->getType()});
	// struct passed by value in memory: give the callee its own copy
	for (unsigned i = 0; i < F->arg_size() && i < CB->arg_size(); ++i) {
		if (CB->isByValArgument(i)) {
			ARGC(i);
			u64 n = DL->getTypeAllocSize(CB->getParamByValType(i));
			u64 b = alloc_obj(S, n, K_STACK, true);
			if (!copymem(S, b, a[i].c, n, false)) return C_END;
			a[i] = Val(b);
		}
	}
	if (S.th[S.cur].st.size() > 400) { violation(S, "nontermination", "call depth beyond 400", S.m); return C_END; }
	S.th[S.cur].st.back().pc++;
	push_frame(S, kf, a, std::move(va));
	return C_ENTERED;
}

static void jump(State& S, Frame& f, unsigned b)
{
	f.prev = f.block;
	f.block = b;
	f.pc = f.f->bstart[b];
	// phis: parallel assignment
	unsigned pc = f.pc;
	if (f.f->in[pc].op != Instruction::PHI) return;
	std::vector<std::pair<int, Val>> as;
	while (f.f->in[pc].op == Instruction::PHI) {
		KInst& k = f.f->in[pc];
		as.push_back({k.dst, get(f, k.ops[f.prev])});
		++pc;
	}
	for (auto& x : as) f.r[x.first] = x.second;
	f.pc = pc;
}

static void finish_path(State& S)
{
	++n_paths;
	// reservoir of samples for native cross-checking
	bool take = samples.size() < opt_samples;
	size_t slot = samples.size();
	if (!take) {
		++sample_seen;
		u64 h = (n_paths * 0x9E3779B97F4A7C15ull) ^ (opt_seed * 0xff51afd7ed558ccdull);
		h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
		u64 r = h % n_paths;
		if (r < opt_samples) { take = true; slot = r; }
	}
	if (take) {
		std::string j = "{\"inputs\":" + inputs_json(S, S.m) + ",\"obs\":" + obs_json(S, S.m) + ",\"reach\":" + reach_json(S) + ",\"sched\":" + sched_json(S) + "}";
		if (slot == samples.size()) samples.push_back(j); else samples[slot] = j;
	}
}

// run one state until its path ends
static void run(SP sp)
{
	State& S = *sp;
	u64 check_t = 0;
	while (true) {
		Thread& T = S.th[S.cur];
		Frame& f = T.st.back();
		KInst& k = f.f->in[f.pc];
		++n_inst; ++S.ninst; ++f.f->insts;
		if (S.ninst > opt_maxinst) {
			violation(S, "nontermination", "no end after " + std::to_string(opt_maxinst) + " instructions", S.m);
			return;
		}
		if ((++check_t & 0xfff) == 0 && elapsed() > opt_maxsecs) { mark_incomplete("time limit of " + std::to_string(opt_maxsecs) + " s"); return; }
		switch (k.op) {
		case Instruction::Ret: {
			Val rv;
			if (!k.ops.empty()) rv = get(f, k.ops[0]);
			pop_allocas(S, f);
			T.st.pop_back();
			if (T.st.empty()) {
				T.ts = T_DONE;
				if (S.cur == 0) {
					// main harness thread is done
					finish_path(S);
					return;
				}
				if (!yield_blocked(S)) return;
				continue;
			}
			Frame& c = T.st.back();
			KInst& ck = c.f->in[c.pc - 1];
			if (ck.dst >= 0) c.r[ck.dst] = rv;
			continue;
		}
		case Instruction::Br: {
			if (k.ops.empty()) { jump(S, f, k.b0); continue; }
			Val c = get(f, k.ops[0]);
			if (c.conc()) { jump(S, f, c.c & 1 ? k.b0 : k.b1); continue; }
			SP other;
			int side = branch(S, c.e, other);
			if (other) {
				Frame& of = other->th[other->cur].st.back();
				jump(*other, of, side ? k.b1 : k.b0);
				work.push_back(std::move(other));
			}
			jump(S, f, side ? k.b0 : k.b1);
			continue;
		}
		case Instruction::Switch: {
			auto* sw = cast<SwitchInst>(k.I);
			Val c = get(f, k.ops[0]);
			if (c.conc()) {
				auto ci = sw->findCaseValue(ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), c.c));
				jump(S, f, f.f->bid[ci->getCaseSuccessor()]);
				continue;
			}
			// group cases by successor
			std::map<unsigned, E> conds;
			std::vector<unsigned> order;
			E none = mkconst(1, 1);
			for (auto& cs : sw->cases()) {
				E eq = mkeq(c.e, mkconst(cs.getCaseValue()->getZExtValue(), k.wa));
				unsigned b = f.f->bid[cs.getCaseSuccessor()];
				auto it = conds.find(b);
				if (it == conds.end()) { conds[b] = eq; order.push_back(b); } else it->second = mkor(it->second, eq);
				none = mkand(none, mknot(eq));
			}
			unsigned db = f.f->bid[sw->getDefaultDest()];
			auto it = conds.find(db);
			if (it == conds.end()) { conds[db] = none; order.push_back(db); } else it->second = mkor(it->second, none);
			int mine = -1;
			for (unsigned b : order) {
				E cd = conds[b];
				if (mine < 0 && evalE(cd, S.m)) { mine = b; continue; }
				Model m = S.m;
				if (!feasible(S, cd, m)) continue;
				SP o = fork(S);
				add_pc(*o, cd);
				o->m = std::move(m);
				jump(*o, o->th[o->cur].st.back(), b);
				work.push_back(std::move(o));
			}
			add_pc(S, conds[mine]);
			jump(S, f, mine);
			continue;
		}
		case Instruction::Unreachable:
			violation(S, "ub", "control reaches a point the compiler proved unreachable", S.m);
			return;
		case Instruction::Call: {
			CallRes r = do_call(S, k);
			if (r == C_END) return;
			if (r == C_ENTERED) continue;
			S.th[S.cur].st.back().pc++;
			continue;
		}
		case Instruction::Alloca: {
			u64 n = k.size;
			Val cnt = get(f, k.ops[0]);
			if (!cnt.conc()) { E e2 = simp_by_pc(S, cnt.e); if (isC(e2)) cnt = Val(e2->k); }
			if (!cnt.conc()) concretize(S, cnt, k.wa);
			n *= cnt.c;
			if (n > (1u << 24)) { memerr(S, "stack allocation beyond 16 MB"); return; }
			u64 b = alloc_obj(S, n, K_STACK, false);
			f.allocas.push_back(b);
			f.r[k.dst] = Val(b);
			break;
		}
		case Instruction::Load: {
			if (k.atomic && S.th.size() > 1) sched_point(S);
			Val a = get(f, k.ops[0]);
			Type* t = k.I->getType();
			Val v;
			if (!a.conc() && tw(t)) {
				E e2 = simp_by_pc(S, a.e);
				if (isC(e2)) a = Val(e2->k);
				else if (a.e = e2, ite_load(S, a, k.size, v)) { f.r[k.dst] = trunc_load(v, k.w, k.size); break; }
			}
			Ent* e;
			if (!resolve(S, a, k.size, "read", e)) return;
			load_ty(S, e, a.c - e->base, t, v);
			S.th[S.cur].st.back().r[k.dst] = v;
			break;
		}
		case Instruction::Store: {
			if (k.atomic && S.th.size() > 1) sched_point(S);
			Val v = get(f, k.ops[0]);
			Val a = get(f, k.ops[1]);
			Ent* e;
			if (!resolve(S, a, k.size, "write", e)) return;
			if (e->kind == K_CONST) { memerr(S, "write to read-only data"); return; }
			Type* t = cast<StoreInst>(k.I)->getValueOperand()->getType();
			store_ty(S, e, a.c - e->base, t, v);
			break;
		}
		case Instruction::AtomicRMW: {
			if (S.th.size() > 1) sched_point(S);
			auto* rm = cast<AtomicRMWInst>(k.I);
			Val a = get(f, k.ops[0]), v = get(f, k.ops[1]);
			unsigned w = k.w; u64 n = w / 8;
			Ent* e;
			if (!resolve(S, a, n, "write", e)) return;
			Val old = rd(e, a.c - e->base, n);
			E x = toE(old, w), y = toE(v, w), r;
			switch (rm->getOperation()) {
			case AtomicRMWInst::Add: r = mkbin(O_ADD, x, y); break;
			case AtomicRMWInst::Sub: r = mkbin(O_SUB, x, y); break;
			case AtomicRMWInst::Or: r = mkbin(O_OR, x, y); break;
			case AtomicRMWInst::And: r = mkbin(O_AND, x, y); break;
			case AtomicRMWInst::Xor: r = mkbin(O_XOR, x, y); break;
			case AtomicRMWInst::Xchg: r = y; break;
			default: fatal("atomicrmw");
			}
			wr(e, a.c - e->base, n, mkv(r));
			S.th[S.cur].st.back().r[k.dst] = old;
			break;
		}
		case Instruction::AtomicCmpXchg: {
			if (S.th.size() > 1) sched_point(S);
			Val a = get(f, k.ops[0]), c = get(f, k.ops[1]), v = get(f, k.ops[2]);
			unsigned w = tw(cast<AtomicCmpXchgInst>(k.I)->getCompareOperand()->getType()); u64 n = w / 8;
			Ent* e;
			if (!resolve(S, a, n, "write", e)) return;
			Val old = rd(e, a.c - e->base, n);
			E eq = mkeq(toE(old, w), toE(c, w));
			wr(e, a.c - e->base, n, mkv(mkite(eq, toE(v, w), toE(old, w))));
			Val r; r.agg = std::make_shared<std::vector<Val>>();
			r.agg->push_back(old); r.agg->push_back(mkv(eq));
			S.th[S.cur].st.back().r[k.dst] = r;
			break;
		}
		case Instruction::Fence: break;
		case Instruction::GetElementPtr: {
			Val b = get(f, k.ops[0]);
			// variable indices (their widths were appended to ops)
			u64 off = k.gepoff;
			E sym = b.e;
			u64 cb = b.c;
			size_t wi = k.ops.size() - k.gep.size();
			for (size_t i = 0; i < k.gep.size(); ++i) {
				Val x = get(f, k.gep[i].first);
				unsigned w = k.ops[wi + i];
				if (x.conc()) off += (u64)sx(x.c, w) * k.gep[i].second;
				else {
					E t = mkbin(O_MUL, mksext(x.e, 64), mkconst(k.gep[i].second, 64));
					sym = sym ? mkbin(O_ADD, sym, t) : mkbin(O_ADD, t, mkconst(cb, 64));
				}
			}
			if (!sym) f.r[k.dst] = Val(cb + off);
			else f.r[k.dst] = mkv(mkbin(O_ADD, sym, mkconst(off, 64)));
			break;
		}
		case Instruction::ICmp: {
			auto* ic = cast<ICmpInst>(k.I);
			Val a = get(f, k.ops[0]), b = get(f, k.ops[1]);
			unsigned w = k.wa;
			E x = toE(a, w), y = toE(b, w), r;
			switch (ic->getPredicate()) {
			case CmpInst::ICMP_EQ: r = mkeq(x, y); break;
			case CmpInst::ICMP_NE: r = mknot(mkeq(x, y)); break;
			case CmpInst::ICMP_ULT: r = mkbin(O_ULT, x, y); break;
			case CmpInst::ICMP_ULE: r = mkbin(O_ULE, x, y); break;
			case CmpInst::ICMP_UGT: r = mkbin(O_ULT, y, x); break;
			case CmpInst::ICMP_UGE: r = mkbin(O_ULE, y, x); break;
			case CmpInst::ICMP_SLT: r = mkbin(O_SLT, x, y); break;
			case CmpInst::ICMP_SLE: r = mkbin(O_SLE, x, y); break;
			case CmpInst::ICMP_SGT: r = mkbin(O_SLT, y, x); break;
			default: r = mkbin(O_SLE, y, x); break;
			}
			f.r[k.dst] = mkv(r);
			break;
		}
		case Instruction::FCmp: {
			auto* fc = cast<FCmpInst>(k.I);
			E x = toE(get(f, k.ops[0]), k.wa), y = toE(get(f, k.ops[1]), k.wa);
			auto p = fc->getPredicate();
			E un = mk(O_FUNO, 1, 0, x, y), r;
			switch (p) {
			case CmpInst::FCMP_FALSE: r = mkconst(0, 1); break;
			case CmpInst::FCMP_TRUE: r = mkconst(1, 1); break;
			case CmpInst::FCMP_OEQ: r = mk(O_FOEQ, 1, 0, x, y); break;
			case CmpInst::FCMP_OLT: r = mk(O_FOLT, 1, 0, x, y); break;
			case CmpInst::FCMP_OLE: r = mk(O_FOLE, 1, 0, x, y); break;
			case CmpInst::FCMP_OGT: r = mk(O_FOLT, 1, 0, y, x); break;
			case CmpInst::FCMP_OGE: r = mk(O_FOLE, 1, 0, y, x); break;
			case CmpInst::FCMP_ONE: r = mkand(mknot(un), mknot(mk(O_FOEQ, 1, 0, x, y))); break;
			case CmpInst::FCMP_ORD: r = mknot(un); break;
			case CmpInst::FCMP_UNO: r = un; break;
			case CmpInst::FCMP_UEQ: r = mkor(un, mk(O_FOEQ, 1, 0, x, y)); break;
			case CmpInst::FCMP_UNE: r = mknot(mk(O_FOEQ, 1, 0, x, y)); break;
			case CmpInst::FCMP_ULT: r = mknot(mk(O_FOLE, 1, 0, y, x)); break;
			case CmpInst::FCMP_ULE: r = mknot(mk(O_FOLT, 1, 0, y, x)); break;
			case CmpInst::FCMP_UGT: r = mknot(mk(O_FOLE, 1, 0, x, y)); break;
			default: r = mknot(mk(O_FOLT, 1, 0, x, y)); break;
			}
			f.r[k.dst] = mkv(r);
			break;
		}
		case Instruction::Select: {
			Val c = get(f, k.ops[0]);
			Val a = get(f, k.ops[1]), b = get(f, k.ops[2]);
			if (c.conc()) { f.r[k.dst] = c.c & 1 ? a : b; break; }
			if (!k.w) {
				SP other;
				int side = branch(S, c.e, other);
				if (other) { Frame& of = other->th[other->cur].st.back(); of.r[k.dst] = side ? b : a; of.pc++; work.push_back(std::move(other)); }
				f.r[k.dst] = side ? a : b;
				break;
			}
			f.r[k.dst] = mkv(mkite(c.e, toE(a, k.w), toE(b, k.w)));
			break;
		}
		case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
		case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
		case Instruction::And: case Instruction::Or: case Instruction::Xor: {
			Val a = get(f, k.ops[0]), b = get(f, k.ops[1]);
			static const std::map<unsigned, Op> om = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}};
			Op op = om.find(k.op)->second;
			unsigned w = k.w;
			if (w > 64 || w == 0) fatal("arithmetic wider than 64 bits at " + iloc(k.I));
			bool div = op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM;
			if (div) {
				E z = mkeq(toE(b, w), mkconst(0, w));
				E bad = z;
				if (op == O_SDIV || op == O_SREM) bad = mkor(z, mkand(mkeq(toE(a, w), mkconst(1ull << (w - 1), w)), mkeq(toE(b, w), mkconst(maskw(w), w))));
				if (isC(bad) ? bad->k : true) {
					Model m = S.m;
					if (isC(bad) || evalE(bad, S.m) || feasible(S, bad, m)) {
						violation(S, "arith", "integer division by zero or overflowing division", m);
						if (isC(bad)) return;
						E ok = mknot(bad);
						if (!evalE(ok, S.m)) { Model m2 = S.m; if (!feasible(S, ok, m2)) return; S.m = m2; }
						add_pc(S, ok);
					}
				}
			}
			if (a.conc() && b.conc()) f.r[k.dst] = Val(evalop(op, w, 0, nullptr, a.c, b.c, 0, w));
			else f.r[k.dst] = mkv(mkbin(op, toE(a, w), toE(b, w)));
			break;
		}
		case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
			Op op = k.op == Instruction::FAdd ? O_FADD : k.op == Instruction::FSub ? O_FSUB : k.op == Instruction::FMul ? O_FMUL : O_FDIV;
			f.r[k.dst] = mkv(mk(op, k.w, 0, toE(get(f, k.ops[0]), k.w), toE(get(f, k.ops[1]), k.w)));
			break;
		}
		case Instruction::FRem: {
			Val a = get(f, k.ops[0]), b = get(f, k.ops[1]);
			need_conc(S, a, k.w); need_conc(S, b, k.w);
			f.r[k.dst] = Val(evalop(O_FREM, k.w, 0, nullptr, a.c, b.c, 0, k.w));
			break;
		}
		case Instruction::FNeg: f.r[k.dst] = mkv(mkbin(O_XOR, toE(get(f, k.ops[0]), k.w), mkconst(1ull << (k.w - 1), k.w))); break;
		case Instruction::Trunc: f.r[k.dst] = mkv(mkextract(toE(get(f, k.ops[0]), k.wa), 0, k.w)); break;
		case Instruction::ZExt: { Val v = get(f, k.ops[0]); f.r[k.dst] = v.conc() ? Val(v.c) : mkv(mkzext(v.e, k.w)); break; }
		case Instruction::SExt: { Val v = get(f, k.ops[0]); f.r[k.dst] = v.conc() ? Val((u64)sx(v.c, k.wa) & maskw(k.w)) : mkv(mksext(v.e, k.w)); break; }
		case Instruction::PtrToInt: case Instruction::IntToPtr: {
			Val v = get(f, k.ops[0]);
			E x = toE(v, k.wa);
			f.r[k.dst] = mkv(k.w < k.wa ? mkextract(x, 0, k.w) : mkzext(x, k.w));
			break;
		}
		case Instruction::BitCast: case Instruction::Freeze: f.r[k.dst] = get(f, k.ops[0]); break;
		case Instruction::FPToSI: {
			// a value the target integer cannot hold is undefined behaviour in C; x86 yields the minimum
			E x = toE(get(f, k.ops[0]), k.wa);
			double lim = ldexp(1.0, k.w - 1);
			E lo = mk(O_FOLE, 1, 0, mkconst(d2bits(-lim, k.wa), k.wa), x), hi = mk(O_FOLT, 1, 0, x, mkconst(d2bits(lim, k.wa), k.wa));
			E in = mkand(lo, hi);
			f.r[k.dst] = mkv(mkite(in, mk(O_FTOSI, k.w, 0, x), mkconst(1ull << (k.w - 1), k.w)));
			break;
		}
		case Instruction::FPToUI: f.r[k.dst] = mkv(mk(O_FTOUI, k.w, 0, toE(get(f, k.ops[0]), k.wa))); break;
		case Instruction::SIToFP: f.r[k.dst] = mkv(mk(O_SITOF, k.w, 0, toE(get(f, k.ops[0]), k.wa))); break;
		case Instruction::UIToFP: f.r[k.dst] = mkv(mk(O_UITOF, k.w, 0, toE(get(f, k.ops[0]), k.wa))); break;
		case Instruction::FPExt: f.r[k.dst] = mkv(mk(O_FEXT, k.w, 0, toE(get(f, k.ops[0]), k.wa))); break;
		case Instruction::FPTrunc: f.r[k.dst] = mkv(mk(O_FTRUNC, k.w, 0, toE(get(f, k.ops[0]), k.wa))); break;
		case Instruction::ExtractValue: {
			Val v = get(f, k.ops[0]);
			for (unsigned i : cast<ExtractValueInst>(k.I)->indices()) { Val t = (*v.agg)[i]; v = t; }
			f.r[k.dst] = v;
			break;
		}
		case Instruction::InsertValue: {
			Val v = get(f, k.ops[0]), x = get(f, k.ops[1]);
			auto idx = cast<InsertValueInst>(k.I)->getIndices();
			if (idx.size() != 1) fatal("nested insertvalue");
			Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg);
			(*r.agg)[idx[0]] = x;
			f.r[k.dst] = r;
			break;
		}
		default:
			fatal(std::string("instruction ") + k.I->getOpcodeName() + " at " + iloc(k.I));
		}
		S.th[S.cur].st.back().pc++;
	}
}

[[noreturn]] static void write_result(const char* status, const std::string& why)
{
	FILE* o = opt_out.empty() ? stdout : fopen(opt_out.c_str(), "w");
	fprintf(o, "{\"status\":\"%s\",\"why\":\"%s\",\n", status, jesc(why).c_str());
	fprintf(o, "\"paths\":%lu,\"states\":%lu,\"forks\":%lu,\"infeasible\":%lu,\"exits\":%lu,\"instructions\":%lu,\"branch_decisions\":%lu,\"asserts\":%lu,\"asserts_discharged\":%lu,\"blocked_checks\":%lu,\n",
	        n_paths, n_states + 1, n_forks, n_infeasible, n_exit, n_inst, n_branchq, n_asserts, n_assert_unsat, n_deadlock_checked);
	fprintf(o, "\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cache_hits\":%lu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\n",
	        g_ss.queries, g_ss.sat, g_ss.unsat, g_ss.unknown, g_ss.cachehits, g_ss.secs, g_ss.maxq, elapsed());
	fprintf(o, "\"reach\":[");
	bool first = true;
	for (auto& r : all_reach) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(r).c_str()); first = false; }
	fprintf(o, "],\n\"functions\":[");
	first = true;
	for (auto& p : kfs) {
		KFunction* K = p.second;
		if (!K->insts || K->src.compare(0, opt_srcprefix.size(), opt_srcprefix) != 0) continue;
		fprintf(o, "%s{\"name\":\"%s\",\"file\":\"%s\",\"calls\":%lu,\"instructions\":%lu}", first ? "" : ",", K->F->getName().str().c_str(), jesc(K->src).c_str(), K->calls, K->insts);
		first = false;
	}
	fprintf(o, "],\n\"violations\":[");
	for (size_t i = 0; i < viols.size(); ++i) fprintf(o, "%s%s", i ? ",\n" : "", viols[i].json.c_str());
	fprintf(o, "],\n\"samples\":[");
	for (size_t i = 0; i < samples.size(); ++i) fprintf(o, "%s%s", i ? ",\n" : "", samples[i].c_str());
	fprintf(o, "]}\n");
	fflush(o);
	_exit(0);
}

static void init_globals(State& S)
{
	for (auto& F : *M) {
		u64 b = S.brk;
		S.mem.push_back(Ent{b, 16, ObjP(new Obj()), K_FUNC, false});
		S.brk += 128;
		gaddr[&F] = b;
		fnaddr[b] = &F;
	}
	for (auto& G : M->globals()) {
		u64 n = DL->getTypeAllocSize(G.getValueType());
		gaddr[&G] = alloc_obj(S, n, G.isConstant() ? K_CONST : K_GLOBAL, true);
	}
	for (auto& G : M->globals()) {
		if (!G.hasInitializer()) {
			if (G.getName() == "stdin" || G.getName() == "stdout" || G.getName() == "stderr") {
				// an opaque, non-null stream
				Ent* e = find(S, gaddr[&G]);
				u64 off = e->base;
				(void)off;
				u64 obj = alloc_obj(S, 16, K_GLOBAL, true);
				wr(find(S, gaddr[&G]), 0, 8, Val(obj));
			}
			continue;
		}
		if (isa<ConstantAggregateZero>(G.getInitializer())) continue;
		if (auto* cd = dyn_cast<ConstantDataSequential>(G.getInitializer())) {
			StringRef raw = cd->getRawDataValues();
			Obj* o = own(find(S, gaddr[&G]));
			memcpy(o->c.data(), raw.data(), raw.size());
			continue;
		}
		Val v = evalconst(G.getInitializer());
		store_ty(S, find(S, gaddr[&G]), 0, G.getValueType(), v);
	}
}

int main(int argc, char** argv)
{
	std::string file, entry;
	for (int i = 1; i < argc; ++i) {
		std::string s = argv[i];
		auto nxt = [&]() { return std::string(argv[++i]); };
		if (s == "--time") opt_maxsecs = stoul(nxt());
		else if (s == "--inst") opt_maxinst = stoul(nxt());
		else if (s == "--query-ms") g_query_timeout_ms = stoul(nxt());
		else if (s == "--preempt") opt_preempt = stoi(nxt());
		else if (s == "--samples") opt_samples = stoul(nxt());
		else if (s == "--out") opt_out = nxt();
		else if (s == "--src") opt_srcprefix = nxt();
		else if (s == "--seed") opt_seed = stoul(nxt());
		else if (s == "--trace") opt_trace = true;
		else if (s == "--maxviol") opt_maxviol = stoul(nxt());
		else if (s == "--arg") { static int n = 0; opt_arg[n++ & 3] = stol(nxt()); }
		else if (file.empty()) file = s;
		else entry = s;
	}
	solver_init();
	SMDiagnostic err;
	M = parseIRFile(file, err, ctx);
	if (!M) { err.print(argv[0], errs()); return 3; }
	DL = &M->getDataLayout();
	SP s0(new State());
	init_globals(*s0);
	Function* F = M->getFunction(entry);
	if (!F) fatal("no entry function " + entry);
	KFunction* kf = lower(F);
	s0->th.resize(1);
	std::vector<Val> noargs;
	push_frame(*s0, kf, noargs, {});
	work.push_back(std::move(s0));
	while (!work.empty()) {
		SP s = std::move(work.back());
		work.pop_back();
		run(std::move(s));
		if (elapsed() > opt_maxsecs) { mark_incomplete("time limit of " + std::to_string(opt_maxsecs) + " s"); break; }
		if (n_paths > opt_maxpaths) { mark_incomplete("path limit"); break; }
		if (viols.size() >= opt_maxviol) break;
	}
	if (!viols.empty()) write_result("violation", "");
	if (incomplete) write_result("incomplete", incomplete_why);
	write_result("ok", "");
}
