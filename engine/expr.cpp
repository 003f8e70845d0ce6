#include "expr.h"

std::unordered_map<ExprKey, Expr*, ExprKeyHash> g_exprs;
std::vector<uint16_t> g_varw;
std::vector<uint32_t> g_novars;
SolverStats g_ss;
unsigned g_query_timeout_ms = 20000;
static uint32_t g_nextid = 1;
static Z3_context Z;

double bits2d(uint64_t v, unsigned w)
{
	if (w == 32) { float f; uint32_t x = v; memcpy(&f, &x, 4); return f; }
	double d; memcpy(&d, &v, 8); return d;
}
uint64_t d2bits(double d, unsigned w)
{
	if (w == 32) { float f = d; uint32_t x; memcpy(&x, &f, 4); return x; }
	uint64_t v; memcpy(&v, &d, 8); return v;
}

uint64_t evalop(Op op, unsigned w, uint64_t k, const Expr* ea, uint64_t a, uint64_t b, uint64_t c, unsigned wa)
{
	uint64_t m = maskw(w);
	switch (op) {
	case O_ADD: return (a + b) & m;
	case O_SUB: return (a - b) & m;
	case O_MUL: return (a * b) & m;
	case O_UDIV: return b ? (a / b) & m : m;
	case O_UREM: return b ? (a % b) & m : a;
	case O_SDIV: {
		int64_t x = sx(a, w), y = sx(b, w);
		if (y == 0) return x < 0 ? 1 : m;
		if (y == -1) return (0 - (uint64_t)x) & m;
		return (uint64_t)(x / y) & m;
	}
	case O_SREM: {
		int64_t x = sx(a, w), y = sx(b, w);
		if (y == 0) return a;
		if (y == -1) return 0;
		return (uint64_t)(x % y) & m;
	}
	case O_SHL: return b >= w ? 0 : (a << b) & m;
	case O_LSHR: return b >= w ? 0 : (a >> b);
	case O_ASHR: { int64_t x = sx(a, w); return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & m; }
	case O_AND: return a & b;
	case O_OR: return a | b;
	case O_XOR: return a ^ b;
	case O_EQ: return a == b;
	case O_ULT: return a < b;
	case O_ULE: return a <= b;
	case O_SLT: return sx(a, wa) < sx(b, wa);
	case O_SLE: return sx(a, wa) <= sx(b, wa);
	case O_ITE: return a ? b : c;
	case O_ZEXT: return a;
	case O_SEXT: return (uint64_t)sx(a, wa) & m;
	case O_EXTRACT: return (a >> k) & m;
	case O_CONCAT: return ((a << k) | b) & m; // k = width of low part
	case O_SMULOVF: { __int128 p = (__int128)sx(a, wa) * sx(b, wa); 
		__int128 lo = -((__int128)1 << (wa - 1)), hi = ((__int128)1 << (wa - 1)) - 1; return p < lo || p > hi; }
	case O_UMULOVF: { unsigned __int128 p = (unsigned __int128)a * b; return (p >> wa) != 0; }
	case O_FADD: if (w == 32) return d2bits((float)bits2d(a, 32) + (float)bits2d(b, 32), 32); return d2bits(bits2d(a, w) + bits2d(b, w), w);
	case O_FSUB: if (w == 32) return d2bits((float)bits2d(a, 32) - (float)bits2d(b, 32), 32); return d2bits(bits2d(a, w) - bits2d(b, w), w);
	case O_FMUL: if (w == 32) return d2bits((float)bits2d(a, 32) * (float)bits2d(b, 32), 32); return d2bits(bits2d(a, w) * bits2d(b, w), w);
	case O_FDIV: if (w == 32) return d2bits((float)bits2d(a, 32) / (float)bits2d(b, 32), 32); return d2bits(bits2d(a, w) / bits2d(b, w), w);
	case O_FREM: return d2bits(fmod(bits2d(a, w), bits2d(b, w)), w);
	case O_FOEQ: return bits2d(a, wa) == bits2d(b, wa);
	case O_FOLT: return bits2d(a, wa) < bits2d(b, wa);
	case O_FOLE: return bits2d(a, wa) <= bits2d(b, wa);
	case O_FUNO: { double x = bits2d(a, wa), y = bits2d(b, wa); return x != x || y != y; }
	case O_FTOSI: { double d = bits2d(a, wa); if (!(d > -9.3e18 && d < 9.3e18)) return 1ull << (w - 1);
		if (d >= 9223372036854775808.0 || d < -9223372036854775808.0) return 1ull << (w - 1); return (uint64_t)(int64_t)d & m; }
	case O_FTOUI: { double d = bits2d(a, wa); if (!(d > -1 && d < 18446744073709551616.0)) return 0; return (uint64_t)d & m; }
	case O_SITOF: return d2bits(w == 32 ? (double)(float)sx(a, wa) : (double)sx(a, wa), w);
	case O_UITOF: return d2bits(w == 32 ? (double)(float)a : (double)a, w);
	case O_FEXT: return d2bits(bits2d(a, wa), w);
	case O_FTRUNC: return d2bits(bits2d(a, wa), w);
	default: break;
	}
	fprintf(stderr, "evalop: bad op %d\n", op);
	abort();
}


static void ranges(Expr* e)
{
	uint64_t m = maskw(e->w);
	const Expr *a = e->a[0], *b = e->a[1], *c = e->a[2];
	e->lo = 0; e->hi = m; e->tz = 0;
	e->nleaf = e->op == O_CONST ? 1 : e->op == O_ITE && b->nleaf && c->nleaf && b->nleaf + c->nleaf <= 64 ? b->nleaf + c->nleaf : 0;
	typedef unsigned __int128 u128;
	auto set = [&](u128 lo, u128 hi) { if (hi <= m) { e->lo = lo; e->hi = hi; } };
	switch (e->op) {
	case O_CONST: e->lo = e->hi = e->k; e->tz = e->k ? __builtin_ctzll(e->k) : e->w; break;
	case O_ADD: set((u128)a->lo + b->lo, (u128)a->hi + b->hi); e->tz = std::min(a->tz, b->tz); break;
	case O_SUB: if (a->lo >= b->hi) set(a->lo - b->hi, a->hi - b->lo); e->tz = std::min(a->tz, b->tz); break;
	case O_MUL: set((u128)a->lo * b->lo, (u128)a->hi * b->hi); e->tz = std::min<unsigned>(e->w, a->tz + b->tz); break;
	case O_SHL: if (isC(b) && b->k < e->w) { set((u128)a->lo << b->k, (u128)a->hi << b->k); e->tz = std::min<unsigned>(e->w, a->tz + b->k); } break;
	case O_LSHR: if (isC(b) && b->k < e->w) set(a->lo >> b->k, a->hi >> b->k); else set(0, a->hi); break;
	case O_UDIV: if (isC(b) && b->k) set(a->lo / b->k, a->hi / b->k); break;
	case O_UREM: if (b->lo > 0) { if (a->hi < b->lo) set(a->lo, a->hi); else set(0, std::min(a->hi, b->hi - 1)); } break;
	case O_AND: set(0, std::min(a->hi, b->hi)); e->tz = std::max(a->tz, b->tz); break;
	case O_OR: case O_XOR: {
		uint64_t x = a->hi | b->hi;
		uint64_t f = x ? (x == ~0ull ? x : (2ull << (63 - __builtin_clzll(x))) - 1) : 0;
		if (x >> 63) f = ~0ull;
		set(e->op == O_OR ? std::max(a->lo, b->lo) : 0, f & m);
		e->tz = std::min(a->tz, b->tz);
		break;
	}
	case O_ITE: set(std::min(b->lo, c->lo), std::max(b->hi, c->hi)); e->tz = std::min(b->tz, c->tz); break;
	case O_ZEXT: set(a->lo, a->hi); e->tz = a->tz == a->w ? e->w : a->tz; break;
	case O_SEXT: if (a->hi < (1ull << (a->w - 1))) set(a->lo, a->hi); e->tz = a->tz == a->w ? e->w : a->tz; break;
	case O_EXTRACT: if (e->k + e->w >= a->w || (a->hi >> e->k) <= m) set(a->lo >> e->k, a->hi >> e->k); if (a->tz > e->k) e->tz = std::min<unsigned>(e->w, a->tz - e->k); break;
	case O_CONCAT: set(((u128)a->lo << e->k) + b->lo, ((u128)a->hi << e->k) + b->hi); e->tz = b->tz < b->w ? b->tz : std::min<unsigned>(e->w, b->w + a->tz); break;
	default: break;
	}
}
void set_var_max(E v, uint64_t hi) { const_cast<Expr*>(v)->hi = hi; }

static Expr* intern(Op op, unsigned w, uint64_t k, E a, E b, E c)
{
	ExprKey key{op, (uint16_t)w, k, a, b, c};
	auto it = g_exprs.find(key);
	if (it != g_exprs.end()) return it->second;
	Expr* e = new Expr{op, (uint16_t)w, g_nextid++, k, {a, b, c}, nullptr, &g_novars, 0, 0, 0, 0, nullptr};
	ranges(e);
	// variables
	std::vector<uint32_t>* best = &g_novars;
	bool fresh = false;
	if (op == O_VAR) {
		best = new std::vector<uint32_t>{(uint32_t)k};
	} else {
		for (int i = 0; i < 3; ++i) {
			if (!e->a[i] || e->a[i]->vars->empty()) continue;
			auto* v = e->a[i]->vars;
			if (best->empty()) { best = v; continue; }
			if (best == v || std::includes(best->begin(), best->end(), v->begin(), v->end())) continue;
			if (!fresh && std::includes(v->begin(), v->end(), best->begin(), best->end())) { best = v; continue; }
			auto* u = new std::vector<uint32_t>();
			std::set_union(best->begin(), best->end(), v->begin(), v->end(), std::back_inserter(*u));
			if (fresh) delete best;
			best = u; fresh = true;
		}
	}
	e->vars = best;
	g_exprs.emplace(key, e);
	return e;
}

E mkconst(uint64_t v, unsigned w) { return intern(O_CONST, w, v & maskw(w), nullptr, nullptr, nullptr); }
E mkvar(unsigned w)
{
	g_varw.push_back(w);
	return intern(O_VAR, w, g_varw.size() - 1, nullptr, nullptr, nullptr);
}

static E dist(Op op, unsigned w, uint64_t k, E a, E b);
E mkextract(E e, unsigned off, unsigned w)
{
	if (off == 0 && w == e->w) return e;
	if (isC(e)) return mkconst(e->k >> off, w);
	if (e->tz >= off + w) return mkconst(0, w);
	if ((e->hi >> off) == 0) return mkconst(0, w);
	switch (e->op) {
	case O_SHL:
		if (off == 0 && isC(e->a[1]) && e->a[1]->k < w) return mkbin(O_SHL, mkextract(e->a[0], 0, w), mkconst(e->a[1]->k, w));
		break;
	case O_EXTRACT: return mkextract(e->a[0], off + e->k, w);
	case O_CONCAT: {
		unsigned lw = e->k;
		if (off >= lw) return mkextract(e->a[0], off - lw, w);
		if (off + w <= lw) return mkextract(e->a[1], off, w);
		return mkconcat(mkextract(e->a[0], 0, off + w - lw), mkextract(e->a[1], off, lw - off));
	}
	case O_ZEXT: {
		unsigned iw = e->a[0]->w;
		if (off >= iw) return mkconst(0, w);
		if (off + w <= iw) return mkextract(e->a[0], off, w);
		return mkzext(mkextract(e->a[0], off, iw - off), w);
	}
	case O_SEXT: {
		unsigned iw = e->a[0]->w;
		if (off + w <= iw) return mkextract(e->a[0], off, w);
		if (off == 0) return mksext(e->a[0], w);
		break;
	}
	case O_AND: case O_OR: case O_XOR:
		if (isC(e->a[0]) || isC(e->a[1])) return mkbin(e->op, mkextract(e->a[0], off, w), mkextract(e->a[1], off, w));
		break;
	case O_ADD: case O_SUB: case O_MUL:
		if (off == 0) return mkbin(e->op, mkextract(e->a[0], 0, w), mkextract(e->a[1], 0, w));
		break;
	case O_ITE:
		if (e->nleaf) return dist(O_EXTRACT, w, off, e, nullptr);
		if (isC(e->a[1]) || isC(e->a[2])) return mkite(e->a[0], mkextract(e->a[1], off, w), mkextract(e->a[2], off, w));
		break;
	default: break;
	}
	return intern(O_EXTRACT, w, off, e, nullptr, nullptr);
}
static E dist(Op op, unsigned w, uint64_t k, E a, E b);
E mkzext(E e, unsigned w)
{
	if (w == e->w) return e;
	if (isC(e)) return mkconst(e->k, w);
	if (e->op == O_ZEXT) return mkzext(e->a[0], w);
	if (e->nleaf) return dist(O_ZEXT, w, 0, e, nullptr);
	return intern(O_ZEXT, w, 0, e, nullptr, nullptr);
}
E mksext(E e, unsigned w)
{
	if (w == e->w) return e;
	if (isC(e)) return mkconst(sx(e->k, e->w), w);
	if (e->op == O_SEXT) return mksext(e->a[0], w);
	if (e->op == O_ZEXT) return mkzext(e->a[0], w);
	if (e->nleaf) return dist(O_SEXT, w, 0, e, nullptr);
	return intern(O_SEXT, w, 0, e, nullptr, nullptr);
}
E mkconcat(E hi, E lo)
{
	unsigned w = hi->w + lo->w;
	if (isC(hi) && isC(lo)) return mkconst((hi->k << lo->w) | lo->k, w);
	if (isC(hi) && hi->k == 0) return mkzext(lo, w);
	if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a[0] == lo->a[0] && hi->k == lo->k + lo->w)
		return mkextract(hi->a[0], lo->k, w);
	// extract(x, n) over x itself as low part
	if (hi->op == O_EXTRACT && hi->a[0] == lo && hi->k == lo->w) return mkextract(lo, 0, w);
	return intern(O_CONCAT, w, lo->w, hi, lo, nullptr);
}
E mkite(E c, E a, E b)
{
	if (isC(c)) return c->k ? a : b;
	if (a == b) return a;
	if (a->w == 1 && isC(a) && isC(b)) return a->k ? c : mknot(c);
	if (a->w == 1) {
		if (isC(a)) return a->k ? mkor(c, b) : mkand(mknot(c), b);
		if (isC(b)) return b->k ? mkor(mknot(c), a) : mkand(c, a);
	}
	if (c->op == O_XOR && isC(c->a[1])) return mkite(c->a[0], b, a); // not(x) ? a : b
	if (a->op == O_ITE && a->a[0] == c) a = a->a[1];
	if (b->op == O_ITE && b->a[0] == c) b = b->a[2];
	if (a == b) return a;
	return intern(O_ITE, a->w, 0, c, a, b);
}
E mknot(E e)
{
	if (isC(e)) return mkconst(!e->k, 1);
	if (e->op == O_XOR && isC(e->a[1])) return e->a[0];
	if (e->op == O_ULT) return mkbin(O_ULE, e->a[1], e->a[0]);
	if (e->op == O_ULE) return mkbin(O_ULT, e->a[1], e->a[0]);
	if (e->op == O_SLT) return mkbin(O_SLE, e->a[1], e->a[0]);
	if (e->op == O_SLE) return mkbin(O_SLT, e->a[1], e->a[0]);
	return intern(O_XOR, 1, 0, e, mkconst(1, 1), nullptr);
}
E mkand(E a, E b) { return mkbin(O_AND, a, b); }
E mkor(E a, E b) { return mkbin(O_OR, a, b); }
E mkeq(E a, E b) { return mkbin(O_EQ, a, b); }

static uint64_t maxval(E e) { return e->hi; }

// op applied at the leaves of if-then-else trees over constants
static E dist(Op op, unsigned w, uint64_t k, E a, E b)
{
	if (a->op == O_ITE) return mkite(a->a[0], dist(op, w, k, a->a[1], b), dist(op, w, k, a->a[2], b));
	if (b && b->op == O_ITE) return mkite(b->a[0], dist(op, w, k, a, b->a[1]), dist(op, w, k, a, b->a[2]));
	return mk(op, w, k, a, b);
}

E mkbin(Op op, E a, E b)
{
	unsigned w = a->w;
	unsigned rw = (op >= O_EQ && op <= O_SLE) ? 1 : w;
	if (isC(a) && isC(b)) return mkconst(evalop(op, rw, 0, nullptr, a->k, b->k, 0, w), rw);
	if (w > 1 && a->nleaf && b->nleaf && a->nleaf * b->nleaf <= 40) return dist(op, rw, 0, a, b);
	// commutative: constant on the right
	switch (op) {
	case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_EQ:
		if (isC(a)) std::swap(a, b);
		else if (!isC(b) && a->id > b->id) std::swap(a, b);
		break;
	default: break;
	}
	uint64_t m = maskw(w);
	switch (op) {
	case O_ADD:
		if (isC(b) && b->k == 0) return a;
		if (isC(b) && a->op == O_ADD && isC(a->a[1])) return mkbin(O_ADD, a->a[0], mkconst(a->a[1]->k + b->k, w));
		if (isC(b) && a->op == O_SUB && isC(a->a[0])) return mkbin(O_SUB, mkconst(a->a[0]->k + b->k, w), a->a[1]);
		if (isC(b) && a->op == O_ITE && isC(a->a[1]) && isC(a->a[2])) return mkite(a->a[0], mkbin(O_ADD, a->a[1], b), mkbin(O_ADD, a->a[2], b));
		break;
	case O_SUB:
		if (isC(b)) return mkbin(O_ADD, a, mkconst(0 - b->k, w));
		if (a == b) return mkconst(0, w);
		if (a->op == O_ADD && a->a[0] == b) return a->a[1];
		if (a->op == O_ADD && a->a[1] == b) return a->a[0];
		if (a->op == O_ADD && b->op == O_ADD && isC(a->a[1]) && isC(b->a[1]) && a->a[0] == b->a[0]) return mkconst(a->a[1]->k - b->a[1]->k, w);
		break;
	case O_MUL:
		if (isC(b) && b->k == 0) return b;
		if (isC(b) && b->k == 1) return a;
		if (isC(b) && (b->k & (b->k - 1)) == 0) return mkbin(O_SHL, a, mkconst(__builtin_ctzll(b->k), w));
		break;
	case O_UDIV:
		if (isC(b) && b->k == 1) return a;
		if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) return mkbin(O_LSHR, a, mkconst(__builtin_ctzll(b->k), w));
		break;
	case O_UREM:
		if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) return mkbin(O_AND, a, mkconst(b->k - 1, w));
		if (isC(b) && b->k && maxval(a) < b->k) return a;
		break;
	case O_SDIV:
		if (isC(b) && b->k == 1) return a;
		break;
	case O_AND:
		if (a == b) return a;
		if (isC(b)) {
			if (b->k == 0) return b;
			if (b->k == m) return a;
			if (a->op == O_AND && isC(a->a[1])) return mkbin(O_AND, a->a[0], mkconst(a->a[1]->k & b->k, w));
			uint64_t mv = maxval(a);
			// mask that keeps every bit a can have
			if (mv != m && (b->k & (b->k + 1)) == 0 && mv <= b->k) return a;
			if (b->k && (b->k & (b->k + 1)) == 0 && b->k != m) return mkzext(mkextract(a, 0, 64 - __builtin_clzll(b->k)), w);
			if (a->op == O_ZEXT && (b->k >> a->a[0]->w) == 0 && w != a->a[0]->w)
				return mkzext(mkbin(O_AND, a->a[0], mkconst(b->k, a->a[0]->w)), w);
		}
		if (w == 1 && mknot(a) == b) return mkconst(0, 1);
		break;
	case O_OR:
		if (a == b) return a;
		if (isC(b)) {
			if (b->k == 0) return a;
			if (b->k == m) return b;
		}
		if (w == 1 && mknot(a) == b) return mkconst(1, 1);
		break;
	case O_XOR:
		if (a == b) return mkconst(0, w);
		if (isC(b) && b->k == 0) return a;
		if (w == 1 && isC(b)) return mknot(a);
		if (isC(b) && a->op == O_XOR && isC(a->a[1])) return mkbin(O_XOR, a->a[0], mkconst(a->a[1]->k ^ b->k, w));
		break;
	case O_SHL: case O_LSHR: case O_ASHR:
		if (isC(b) && b->k == 0) return a;
		if (isC(b) && b->k >= w && op != O_ASHR) return mkconst(0, w);
		if (isC(b) && op == O_LSHR && b->k < w) return mkzext(mkextract(a, b->k, w - b->k), w);
		break;
	case O_EQ:
		if (a == b) return mkconst(1, 1);
		if (a->hi < b->lo || b->hi < a->lo) return mkconst(0, 1);
		if (isC(b)) {
			if (w == 1) return b->k ? a : mknot(a);
			if (a->op == O_ZEXT) {
				if (b->k >> a->a[0]->w) return mkconst(0, 1);
				return mkeq(a->a[0], mkconst(b->k, a->a[0]->w));
			}
			if (a->op == O_SEXT) {
				uint64_t lo = b->k & maskw(a->a[0]->w);
				if (((uint64_t)sx(lo, a->a[0]->w) & m) != b->k) return mkconst(0, 1);
				return mkeq(a->a[0], mkconst(lo, a->a[0]->w));
			}
			if (a->op == O_ITE) {
				E x = a->a[1], y = a->a[2];
				if (isC(x) && isC(y)) {
					bool ex = x->k == b->k, ey = y->k == b->k;
					if (!ex && !ey) return mkconst(0, 1);
					if (ex && !ey) return a->a[0];
					if (!ex && ey) return mknot(a->a[0]);
				}
				if (isC(x)) return mkite(a->a[0], mkconst(x->k == b->k, 1), mkeq(y, b));
				if (isC(y)) return mkite(a->a[0], mkeq(x, b), mkconst(y->k == b->k, 1));
			}
			if (a->op == O_ADD && isC(a->a[1])) return mkeq(a->a[0], mkconst(b->k - a->a[1]->k, w));
			if (a->op == O_SUB && isC(a->a[0])) return mkeq(a->a[1], mkconst(a->a[0]->k - b->k, w));
			if (a->op == O_SUB && b->k == 0) return mkeq(a->a[0], a->a[1]);
			if (a->op == O_XOR && isC(a->a[1])) return mkeq(a->a[0], mkconst(b->k ^ a->a[1]->k, w));
			if (a->op == O_CONCAT) return mkand(mkeq(a->a[0], mkconst(b->k >> a->k, a->a[0]->w)), mkeq(a->a[1], mkconst(b->k, a->a[1]->w)));
		}
		if (a->op == O_ZEXT && b->op == O_ZEXT && a->a[0]->w == b->a[0]->w) return mkeq(a->a[0], b->a[0]);
		if (a->op == O_SEXT && b->op == O_SEXT && a->a[0]->w == b->a[0]->w) return mkeq(a->a[0], b->a[0]);
		break;
	case O_ULT:
		if (a == b) return mkconst(0, 1);
		if (isC(b) && b->k == 0) return mkconst(0, 1);
		if (a->hi < b->lo) return mkconst(1, 1);
		if (b->hi <= a->lo) return mkconst(0, 1);
		if (isC(b) && b->k == 1) return mkeq(a, mkconst(0, w));
		if (a->op == O_ZEXT && isC(b) && !(b->k >> a->a[0]->w)) return mkbin(O_ULT, a->a[0], mkconst(b->k, a->a[0]->w));
		if (b->op == O_ZEXT && isC(a) && !(a->k >> b->a[0]->w)) return mkbin(O_ULT, mkconst(a->k, b->a[0]->w), b->a[0]);
		if (a->op == O_ZEXT && b->op == O_ZEXT && a->a[0]->w == b->a[0]->w) return mkbin(O_ULT, a->a[0], b->a[0]);
		break;
	case O_ULE:
		if (a == b) return mkconst(1, 1);
		if (isC(a) && a->k == 0) return mkconst(1, 1);
		if (a->hi <= b->lo) return mkconst(1, 1);
		if (b->hi < a->lo) return mkconst(0, 1);
		if (isC(b) && b->k == 0) return mkeq(a, b);
		if (a->op == O_ZEXT && isC(b) && !(b->k >> a->a[0]->w)) return mkbin(O_ULE, a->a[0], mkconst(b->k, a->a[0]->w));
		if (b->op == O_ZEXT && isC(a) && !(a->k >> b->a[0]->w)) return mkbin(O_ULE, mkconst(a->k, b->a[0]->w), b->a[0]);
		if (a->op == O_ZEXT && b->op == O_ZEXT && a->a[0]->w == b->a[0]->w) return mkbin(O_ULE, a->a[0], b->a[0]);
		break;
	case O_SLT: case O_SLE:
		if (a == b) return mkconst(op == O_SLE, 1);
		{
			// both provably non-negative: unsigned comparison
			uint64_t h = 1ull << (w - 1);
			if (maxval(a) < h && maxval(b) < h) return mkbin(op == O_SLT ? O_ULT : O_ULE, a, b);
			if (isC(b) && b->k >= h && maxval(a) < h) return mkconst(0, 1);
			if (isC(a) && a->k >= h && maxval(b) < h) return mkconst(1, 1);
			if (a->op == O_SEXT && b->op == O_SEXT && a->a[0]->w == b->a[0]->w) return mkbin(op, a->a[0], b->a[0]);
			if (a->op == O_SEXT && isC(b)) {
				unsigned iw = a->a[0]->w; int64_t bv = sx(b->k, w);
				int64_t lo = -(1ll << (iw - 1)), hi = (1ll << (iw - 1)) - 1;
				if (bv > hi) return mkconst(1, 1);
				if (bv < lo) return mkconst(0, 1);
				return mkbin(op, a->a[0], mkconst(bv, iw));
			}
			if (b->op == O_SEXT && isC(a)) {
				unsigned iw = b->a[0]->w; int64_t av = sx(a->k, w);
				int64_t lo = -(1ll << (iw - 1)), hi = (1ll << (iw - 1)) - 1;
				if (av > hi) return mkconst(0, 1);
				if (av < lo) return mkconst(1, 1);
				return mkbin(op, mkconst(av, iw), b->a[0]);
			}
		}
		break;
	default: break;
	}
	return intern(op, rw, 0, a, b, nullptr);
}

E mk(Op op, unsigned w, uint64_t k, E a, E b, E c)
{
	if (op == O_EXTRACT) return mkextract(a, k, w);
	if (op == O_ZEXT) return mkzext(a, w);
	if (op == O_SEXT) return mksext(a, w);
	if (op == O_ITE) return mkite(a, b, c);
	if (op == O_CONCAT) return mkconcat(a, b);
	if (op >= O_ADD && op <= O_SLE) return mkbin(op, a, b);
	if ((op == O_FADD || op == O_FMUL || op == O_FOEQ || op == O_FUNO) && a->id > b->id) std::swap(a, b);
	bool allc = true;
	for (E x : {a, b, c}) if (x && !isC(x)) allc = false;
	if (allc) return mkconst(evalop(op, w, k, a, a ? a->k : 0, b ? b->k : 0, c ? c->k : 0, a ? a->w : 0), w);
	return intern(op, w, k, a, b, c);
}

static uint64_t evalrec(E e, const Model& m, std::unordered_map<E, uint64_t>& memo)
{
	if (e->op == O_CONST) return e->k;
	if (e->op == O_VAR) { auto it = m.find(e->k); return it == m.end() ? 0 : it->second; }
	auto it = memo.find(e);
	if (it != memo.end()) return it->second;
	uint64_t r;
	if (e->op == O_ITE) {
		r = evalrec(e->a[0], m, memo) ? evalrec(e->a[1], m, memo) : evalrec(e->a[2], m, memo);
	} else {
		uint64_t a = e->a[0] ? evalrec(e->a[0], m, memo) : 0;
		uint64_t b = e->a[1] ? evalrec(e->a[1], m, memo) : 0;
		uint64_t c = e->a[2] ? evalrec(e->a[2], m, memo) : 0;
		r = evalop(e->op, e->w, e->k, e->a[0], a, b, c, e->a[0] ? e->a[0]->w : 0);
	}
	memo[e] = r;
	return r;
}
uint64_t evalE(E e, const Model& m)
{
	if (e->op == O_CONST) return e->k;
	if (e->op == O_VAR) { auto it = m.find(e->k); return it == m.end() ? 0 : it->second; }
	std::unordered_map<E, uint64_t> memo;
	return evalrec(e, m, memo);
}

// ---------------------------------------------------------------- z3
static Z3_sort bvs[65];
static std::vector<Z3_ast> zvars;
static Z3_sort fp32, fp64;
static Z3_ast rne, rtz;
static Z3_tactic g_tac, g_tacfp;

static void zerr(Z3_context c, Z3_error_code e)
{
	fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
	exit(3);
}

void solver_init()
{
	Z3_config cfg = Z3_mk_config();
	Z = Z3_mk_context(cfg); // non-ref-counted objects live until the context dies
	Z3_set_error_handler(Z, zerr);
	for (int i = 1; i <= 64; ++i) bvs[i] = Z3_mk_bv_sort(Z, i);
	fp32 = Z3_mk_fpa_sort_32(Z);
	fp64 = Z3_mk_fpa_sort_64(Z);
	rne = Z3_mk_fpa_rne(Z);
	rtz = Z3_mk_fpa_rtz(Z);
}

static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(Z, b, Z3_mk_unsigned_int64(Z, 1, bvs[1]), Z3_mk_unsigned_int64(Z, 0, bvs[1])); }
static Z3_ast bv2b(Z3_ast v) { return Z3_mk_eq(Z, v, Z3_mk_unsigned_int64(Z, 1, bvs[1])); }
static Z3_ast tofp(Z3_ast v, unsigned w) { return Z3_mk_fpa_to_fp_bv(Z, v, w == 32 ? fp32 : fp64); }
static Z3_ast frfp(Z3_ast v) { return Z3_mk_fpa_to_ieee_bv(Z, v); }
static Z3_sort fs(unsigned w) { return w == 32 ? fp32 : fp64; }
static bool g_usefp;

static Z3_ast tr(E e);
static Z3_ast trb(E e)
{
	if (e->zb) return e->zb;
	Z3_ast r;
	E a = e->a[0], b = e->a[1];
	switch (e->op) {
	case O_CONST: r = e->k ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
	case O_AND: { Z3_ast t[2] = {trb(a), trb(b)}; r = Z3_mk_and(Z, 2, t); break; }
	case O_OR: { Z3_ast t[2] = {trb(a), trb(b)}; r = Z3_mk_or(Z, 2, t); break; }
	case O_XOR: if (isC(b)) { r = b->k ? Z3_mk_not(Z, trb(a)) : trb(a); } else r = Z3_mk_xor(Z, trb(a), trb(b)); break;
	case O_EQ: r = a->w == 1 ? Z3_mk_iff(Z, trb(a), trb(b)) : Z3_mk_eq(Z, tr(a), tr(b)); break;
	case O_ULT: r = Z3_mk_bvult(Z, tr(a), tr(b)); break;
	case O_ULE: r = Z3_mk_bvule(Z, tr(a), tr(b)); break;
	case O_SLT: r = Z3_mk_bvslt(Z, tr(a), tr(b)); break;
	case O_SLE: r = Z3_mk_bvsle(Z, tr(a), tr(b)); break;
	case O_ITE: r = Z3_mk_ite(Z, trb(a), trb(b), trb(e->a[2])); break;
	case O_FOEQ: r = Z3_mk_fpa_eq(Z, tofp(tr(a), a->w), tofp(tr(b), a->w)); break;
	case O_FOLT: r = Z3_mk_fpa_lt(Z, tofp(tr(a), a->w), tofp(tr(b), a->w)); break;
	case O_FOLE: r = Z3_mk_fpa_leq(Z, tofp(tr(a), a->w), tofp(tr(b), a->w)); break;
	default: r = bv2b(tr(e)); break;
	}
	const_cast<Expr*>(e)->zb = r;
	return r;
}
static Z3_ast tr(E e)
{
	if (e->z) return e->z;
	if (e->w == 1 && ((e->op >= O_AND && e->op <= O_ITE) || (e->op >= O_FOEQ && e->op <= O_FOLE))) {
		Z3_ast r = b2bv(trb(e));
		const_cast<Expr*>(e)->z = r;
		return r;
	}
	Z3_ast r = nullptr;
	Z3_ast a = nullptr, b = nullptr, c = nullptr;
	if (e->op != O_CONST && e->op != O_VAR) {
		if (e->a[0]) a = tr(e->a[0]);
		if (e->a[1]) b = tr(e->a[1]);
		if (e->a[2]) c = tr(e->a[2]);
	}
	unsigned wa = e->a[0] ? e->a[0]->w : 0;
	switch (e->op) {
	case O_CONST: r = Z3_mk_unsigned_int64(Z, e->k, bvs[e->w]); break;
	case O_VAR: {
		char nm[32]; snprintf(nm, 32, "v%lu", (unsigned long)e->k);
		r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), bvs[e->w]);
		break;
	}
	case O_ADD: r = Z3_mk_bvadd(Z, a, b); break;
	case O_SUB: r = Z3_mk_bvsub(Z, a, b); break;
	case O_MUL: r = Z3_mk_bvmul(Z, a, b); break;
	case O_UDIV: r = Z3_mk_bvudiv(Z, a, b); break;
	case O_SDIV: r = Z3_mk_bvsdiv(Z, a, b); break;
	case O_UREM: r = Z3_mk_bvurem(Z, a, b); break;
	case O_SREM: r = Z3_mk_bvsrem(Z, a, b); break;
	case O_SHL: r = Z3_mk_bvshl(Z, a, b); break;
	case O_LSHR: r = Z3_mk_bvlshr(Z, a, b); break;
	case O_ASHR: r = Z3_mk_bvashr(Z, a, b); break;
	case O_AND: r = Z3_mk_bvand(Z, a, b); break;
	case O_OR: r = Z3_mk_bvor(Z, a, b); break;
	case O_XOR: r = Z3_mk_bvxor(Z, a, b); break;
	case O_EQ: r = b2bv(Z3_mk_eq(Z, a, b)); break;
	case O_ULT: r = b2bv(Z3_mk_bvult(Z, a, b)); break;
	case O_ULE: r = b2bv(Z3_mk_bvule(Z, a, b)); break;
	case O_SLT: r = b2bv(Z3_mk_bvslt(Z, a, b)); break;
	case O_SLE: r = b2bv(Z3_mk_bvsle(Z, a, b)); break;
	case O_ITE: r = Z3_mk_ite(Z, trb(e->a[0]), b, c); break;
	case O_ZEXT: r = Z3_mk_zero_ext(Z, e->w - wa, a); break;
	case O_SEXT: r = Z3_mk_sign_ext(Z, e->w - wa, a); break;
	case O_EXTRACT: r = Z3_mk_extract(Z, e->k + e->w - 1, e->k, a); break;
	case O_CONCAT: r = Z3_mk_concat(Z, a, b); break;
	case O_SMULOVF: { Z3_ast t2[2] = {Z3_mk_bvmul_no_overflow(Z, a, b, true), Z3_mk_bvmul_no_underflow(Z, a, b)}; r = b2bv(Z3_mk_not(Z, Z3_mk_and(Z, 2, t2))); break; }
	case O_UMULOVF: r = b2bv(Z3_mk_not(Z, Z3_mk_bvmul_no_overflow(Z, a, b, false))); break;
	case O_FADD: r = frfp(Z3_mk_fpa_add(Z, rne, tofp(a, wa), tofp(b, wa))); break;
	case O_FSUB: r = frfp(Z3_mk_fpa_sub(Z, rne, tofp(a, wa), tofp(b, wa))); break;
	case O_FMUL: r = frfp(Z3_mk_fpa_mul(Z, rne, tofp(a, wa), tofp(b, wa))); break;
	case O_FDIV: r = frfp(Z3_mk_fpa_div(Z, rne, tofp(a, wa), tofp(b, wa))); break;
	case O_FOEQ: r = b2bv(Z3_mk_fpa_eq(Z, tofp(a, wa), tofp(b, wa))); break;
	case O_FOLT: r = b2bv(Z3_mk_fpa_lt(Z, tofp(a, wa), tofp(b, wa))); break;
	case O_FOLE: r = b2bv(Z3_mk_fpa_leq(Z, tofp(a, wa), tofp(b, wa))); break;
	case O_FUNO: { Z3_ast t2[2] = {Z3_mk_fpa_is_nan(Z, tofp(a, wa)), Z3_mk_fpa_is_nan(Z, tofp(b, wa))}; r = b2bv(Z3_mk_or(Z, 2, t2)); break; }
	case O_FTOSI: r = Z3_mk_fpa_to_sbv(Z, rtz, tofp(a, wa), e->w); break;
	case O_FTOUI: r = Z3_mk_fpa_to_ubv(Z, rtz, tofp(a, wa), e->w); break;
	case O_SITOF: r = frfp(Z3_mk_fpa_to_fp_signed(Z, rne, a, fs(e->w))); break;
	case O_UITOF: r = frfp(Z3_mk_fpa_to_fp_unsigned(Z, rne, a, fs(e->w))); break;
	case O_FEXT: case O_FTRUNC: r = frfp(Z3_mk_fpa_to_fp_float(Z, rne, tofp(a, wa), fs(e->w))); break;
	default:
		fprintf(stderr, "untranslatable operator %d\n", e->op);
		exit(3);
	}
	const_cast<Expr*>(e)->z = r;
	return r;
}

static bool hasfp(E e, std::set<E>& seen)
{
	if (!seen.insert(e).second) return false;
	if (e->op >= O_FADD) return true;
	for (int i = 0; i < 3; ++i) if (e->a[i] && hasfp(e->a[i], seen)) return true;
	return false;
}
static std::unordered_map<E, char> g_fpmemo;
static bool fpq(E e)
{
	auto it = g_fpmemo.find(e);
	if (it != g_fpmemo.end()) return it->second;
	std::set<E> s;
	bool r = hasfp(e, s);
	g_fpmemo[e] = r;
	return r;
}
static bool hasmul(E e, std::set<E>& seen)
{
	if (!seen.insert(e).second) return false;
	if ((e->op == O_MUL || (e->op >= O_UDIV && e->op <= O_SREM) || e->op == O_SMULOVF || e->op == O_UMULOVF) && e->w > 8) return true;
	for (int i = 0; i < 3; ++i) if (e->a[i] && hasmul(e->a[i], seen)) return true;
	return false;
}

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint64_t>> m; };
struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> g_cache;
static std::unordered_map<E, std::vector<std::vector<uint32_t>>> g_cores;
static Z3_solver g_solver;
static std::unordered_map<E, Z3_ast> g_lits;
static void set_timeout(Z3_solver s)
{
	Z3_params p = Z3_mk_params(Z);
	Z3_params_inc_ref(Z, p);
	Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), g_query_timeout_ms);
	Z3_solver_set_params(Z, s, p);
	Z3_params_dec_ref(Z, p);
}

Res solve(const std::vector<E>& pc, E q, Model& m)
{
	if (isC(q)) return q->k ? SAT : UNSAT;
	// independent slice: constraints transitively sharing variables with q
	std::vector<uint32_t> vars = *q->vars;
	std::vector<char> in(pc.size(), 0);
	std::vector<E> sl;
	bool changed = true;
	while (changed) {
		changed = false;
		for (size_t i = 0; i < pc.size(); ++i) {
			if (in[i]) continue;
			auto* v = pc[i]->vars;
			bool hit = false;
			size_t x = 0, y = 0;
			while (x < v->size() && y < vars.size()) {
				if ((*v)[x] == vars[y]) { hit = true; break; }
				if ((*v)[x] < vars[y]) ++x; else ++y;
			}
			if (!hit) continue;
			in[i] = 1; sl.push_back(pc[i]); 
			if (!std::includes(vars.begin(), vars.end(), v->begin(), v->end())) {
				std::vector<uint32_t> u;
				std::set_union(vars.begin(), vars.end(), v->begin(), v->end(), std::back_inserter(u));
				vars.swap(u);
				changed = true;
			}
		}
	}
	std::vector<uint32_t> key;
	for (E e : sl) key.push_back(e->id);
	key.push_back(q->id);
	std::sort(key.begin(), key.end());
	key.erase(std::unique(key.begin(), key.end()), key.end());
	auto it = g_cache.find(key);
	if (it != g_cache.end()) {
		++g_ss.cachehits;
		if (it->second.r == SAT) for (auto& p : it->second.m) m[p.first] = p.second;
		return it->second.r;
	}
	// an unsatisfiable core seen before
	{
		auto ci = g_cores.find(q);
		if (ci != g_cores.end()) {
			for (auto& core : ci->second) if (std::includes(key.begin(), key.end(), core.begin(), core.end())) { ++g_ss.cachehits; return UNSAT; }
		}
	}
	// z3
	auto t0 = std::chrono::steady_clock::now();
	sl.push_back(q);
	bool fp = false, mul = false;
	for (E e : sl) if (fpq(e)) { fp = true; break; }
	if (!fp) { std::set<E> seen; for (E e : sl) if (hasmul(e, seen)) { mul = true; break; } }
	Z3_solver s;
	Z3_lbool r;
	if (fp || mul) {
		s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, fp ? "QF_FPBV" : "QF_BV"));
		Z3_solver_inc_ref(Z, s);
		set_timeout(s);
		for (E e : sl) Z3_solver_assert(Z, s, trb(e));
		r = Z3_solver_check(Z, s);
	} else {
		// one incremental solver; every constraint is guarded by a literal and assumed per query
		if (g_solver && g_lits.size() > 100) { Z3_solver_dec_ref(Z, g_solver); g_solver = nullptr; }
		if (!g_solver) {
			g_solver = Z3_mk_simple_solver(Z);
			Z3_solver_inc_ref(Z, g_solver);
			set_timeout(g_solver);
			g_lits.clear();
			Z3_solver_push(Z, g_solver);
		}
		s = g_solver;
		std::vector<Z3_ast> as;
		for (E e : sl) {
			auto lt = g_lits.find(e);
			if (lt == g_lits.end()) {
				char nm[32]; snprintf(nm, 32, "p%u", e->id);
				Z3_ast p = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_bool_sort(Z));
				Z3_solver_assert(Z, s, Z3_mk_implies(Z, p, trb(e)));
				lt = g_lits.emplace(e, p).first;
			}
			as.push_back(lt->second);
		}
		r = Z3_solver_check_assumptions(Z, s, as.size(), as.data());
		if (r == Z3_L_FALSE) {
			Z3_ast_vector cv = Z3_solver_get_unsat_core(Z, s);
			Z3_ast_vector_inc_ref(Z, cv);
			std::vector<uint32_t> core;
			for (unsigned i = 0; i < Z3_ast_vector_size(Z, cv); ++i) {
				Z3_ast x = Z3_ast_vector_get(Z, cv, i);
				for (size_t j = 0; j < as.size(); ++j) if (as[j] == x) core.push_back(sl[j]->id);
			}
			Z3_ast_vector_dec_ref(Z, cv);
			std::sort(core.begin(), core.end());
			for (E e : sl) if (std::binary_search(core.begin(), core.end(), e->id)) g_cores[e].push_back(core);
		}
	}
	CacheEnt ent;
	if (r == Z3_L_TRUE) {
		ent.r = SAT;
		Z3_model zm = Z3_solver_get_model(Z, s);
		Z3_model_inc_ref(Z, zm);
		Model chk;
		for (uint32_t v : vars) {
			Z3_ast val = nullptr;
			E ve = intern(O_VAR, g_varw[v], v, nullptr, nullptr, nullptr);
			uint64_t x = 0;
			if (Z3_model_eval(Z, zm, tr(ve), true, &val) && Z3_get_ast_kind(Z, val) == Z3_NUMERAL_AST)
				Z3_get_numeral_uint64(Z, val, &x);
			ent.m.push_back({v, x});
			chk[v] = x;
		}
		Z3_model_dec_ref(Z, zm);
		// the evaluator and the solver must agree on the model
		std::unordered_map<E, uint64_t> memo;
		for (E e : sl) if (!evalrec(e, chk, memo)) {
			fprintf(stderr, "evaluator disagrees with solver model on %s\n", exprstr(e).c_str());
			ent.r = UNKNOWN;
			break;
		}
	} else if (r == Z3_L_FALSE) ent.r = UNSAT;
	else ent.r = UNKNOWN;
	if (s != g_solver) Z3_solver_dec_ref(Z, s);
	double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	g_ss.secs += dt;
	if (dt > g_ss.maxq) g_ss.maxq = dt;
	++g_ss.queries;
	if (dt > 1.0 && getenv("VSE_SLOW")) fprintf(stderr, "slow %.2f %d: %s\n", dt, (int)ent.r, exprstr(q, 12).c_str());
	if (ent.r == SAT) ++g_ss.sat; else if (ent.r == UNSAT) ++g_ss.unsat; else ++g_ss.unknown;
	if (ent.r == SAT) for (auto& p : ent.m) m[p.first] = p.second;
	if (ent.r != UNKNOWN) g_cache.emplace(std::move(key), ent);
	return ent.r;
}

std::string exprstr(E e, int depth)
{
	static const char* nm[] = {"c", "v", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "eq", "ult", "ule", "slt", "sle", "ite", "zext", "sext", "extract", "concat", "smulo", "umulo", "fadd", "fsub", "fmul", "fdiv", "frem", "foeq", "folt", "fole", "funo", "ftosi", "ftoui", "sitof", "uitof", "fext", "ftrunc"};
	char b[64];
	if (e->op == O_CONST) { snprintf(b, 64, "%ld", (long)sx(e->k, e->w)); return b; }
	if (e->op == O_VAR) { snprintf(b, 64, "v%lu", (unsigned long)e->k); return b; }
	if (depth == 0) return "...";
	std::string s = std::string("(") + nm[e->op];
	for (int i = 0; i < 3; ++i) if (e->a[i]) s += " " + exprstr(e->a[i], depth - 1);
	return s + ")";
}
