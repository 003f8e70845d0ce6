// Hash-consed bit-vector expression DAG, concrete evaluator and z3 back end.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <set>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <z3.h>

enum Op : uint8_t {
	O_CONST, O_VAR,
	O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
	O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
	O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
	O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,
	O_SMULOVF, O_UMULOVF,
	O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM,
	O_FOEQ, O_FOLT, O_FOLE, O_FUNO,
	O_FTOSI, O_FTOUI, O_SITOF, O_UITOF, O_FEXT, O_FTRUNC,
};

struct Expr {
	Op op;
	uint16_t w;       // result width in bits
	uint32_t id;
	uint64_t k;       // constant value / var index / extract offset
	const Expr* a[3];
	Z3_ast z;         // cached translation
	std::vector<uint32_t>* vars; // sorted var indices (shared)
	uint64_t lo, hi;  // unsigned range
	uint16_t nleaf;   // >0: if-then-else tree with that many constant leaves
	uint8_t tz;       // known trailing zero bits
	Z3_ast zb;        // cached boolean translation (width 1)
};
typedef const Expr* E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) {
	if (w >= 64) return (int64_t)v;
	uint64_t m = 1ull << (w - 1);
	v &= maskw(w);
	return (int64_t)((v ^ m) - m);
}

struct ExprKey { Op op; uint16_t w; uint64_t k; E a, b, c; };
struct ExprKeyHash {
	size_t operator()(const ExprKey& x) const {
		uint64_t h = x.op * 0x9E3779B97F4A7C15ull + x.w;
		auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
		mix(x.k);
		mix((uint64_t)x.a); mix((uint64_t)x.b); mix((uint64_t)x.c);
		return h;
	}
};
static inline bool operator==(const ExprKey& x, const ExprKey& y) {
	return x.op == y.op && x.w == y.w && x.k == y.k && x.a == y.a && x.b == y.b && x.c == y.c;
}

extern std::unordered_map<ExprKey, Expr*, ExprKeyHash> g_exprs;
extern std::vector<uint16_t> g_varw;
extern std::vector<uint32_t> g_novars;

double bits2d(uint64_t v, unsigned w);
uint64_t d2bits(double d, unsigned w);

// concrete semantics of every operator (division by zero handled as in SMT-LIB)
uint64_t evalop(Op op, unsigned w, uint64_t k, const Expr* ea, uint64_t a, uint64_t b, uint64_t c, unsigned wb = 0);

E mk(Op op, unsigned w, uint64_t k = 0, E a = nullptr, E b = nullptr, E c = nullptr);
E mkconst(uint64_t v, unsigned w);
E mkvar(unsigned w);
void set_var_max(E v, uint64_t hi); // every state that mentions v must carry v <= hi
static inline bool isC(E e) { return e->op == O_CONST; }

typedef std::unordered_map<uint32_t, uint64_t> Model; // var -> value (absent: 0)
uint64_t evalE(E e, const Model& m);

struct SolverStats {
	uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cachehits = 0;
	double secs = 0, maxq = 0;
};
extern SolverStats g_ss;
extern unsigned g_query_timeout_ms;

enum Res { SAT, UNSAT, UNKNOWN };
// is (conj of pc) && q satisfiable?  on SAT, `m` (a model of pc on entry) is updated
Res solve(const std::vector<E>& pc, E q, Model& m);
E mknot(E e);
void solver_init();
E mkand(E a, E b);
E mkor(E a, E b);
E mkite(E c, E a, E b);
E mkeq(E a, E b);
E mkextract(E e, unsigned off, unsigned w);
E mkzext(E e, unsigned w);
E mksext(E e, unsigned w);
E mkconcat(E hi, E lo);
E mkbin(Op op, E a, E b);
std::string exprstr(E e, int depth = 6);
