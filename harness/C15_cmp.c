// The six comparisons on integers, floats, texts and mixtures.
//@ lib
//@ nolabels
//@ cfg both int -DT=0
//@ cfg both float -DT=1
//@ cfg both mix -DT=2
//@ cfg both text -DT=3 -DN=2
//@ cfg both numtext -DT=4 -DN=2
//@ cfg thorough text3 -DT=3 -DN=3
//@ time 400
//@ bounds all pairs of 64-bit integers, of doubles, of an integer and a double; all pairs of texts of up to 2 (thorough 3) bytes without NUL; integers against texts of up to 2 digits
//@ outside longer texts, bytes above 127 in letter case folding (C locale)
#include "vp.h"
#include "fq.h"
#ifndef N
#define N 1
#endif
static const char* OPS[] = {"=", "!=", ">", ">=", "<", "<=", "<>"};
static int want(int o, int lt, int eq)
{
	int un = !lt & !eq; // greater (or unordered: handled by the caller)
	switch (o) {
	case 0: return eq;
	case 1: case 6: return !eq;
	case 2: return un;
	case 3: return un | eq;
	case 4: return lt;
	default: return lt | eq;
	}
}
static int low(int c) { return vp_sel((c >= 'A') & (c <= 'Z'), c + 32, c); }
void harness(void)
{
	node* rg = NULL;
	int o = vp_fix(vp_range(0, 6, "op"));
	int sw = vp_fix(vp_range(0, 1, "swap"));
	if (T == 0) {
		long a = vp_long("a"), b = vp_long("b");
		logic* l = fq_logic(OPS[o], fq_int(a), fq_int(b));
		CHECK(l != NULL);
		CHECKX(fq_eval(l, rg) == want(o, a < b, a == b));
		delete_(logic, l);
	} else if (T == 1 || T == 2) {
		double a, b;
		vp_sym(&a, 8, "a");
		vp_sym(&b, 8, "b");
		long i = vp_long("i");
		if (T == 2) { if (sw) b = (double)i; else a = (double)i; }
		logic* l = fq_logic(OPS[o], T == 2 && !sw ? fq_int(i) : fq_float(a), T == 2 && sw ? fq_int(i) : fq_float(b));
		CHECK(l != NULL);
		int w = o == 0 ? a == b : (o == 1) | (o == 6) ? a != b : o == 2 ? a > b : o == 3 ? a >= b : o == 4 ? a < b : a <= b;
		CHECKX(fq_eval(l, rg) == w);
		delete_(logic, l);
	} else if (T == 3) {
		char a[4], b[4];
		int n = vp_fix(vp_range(0, N, "n")), m = vp_fix(vp_range(0, N, "m"));
		for (int i = 0; i < n; ++i) { a[i] = vp_byte("a"); vp_assume(a[i] != 0); }
		for (int i = 0; i < m; ++i) { b[i] = vp_byte("b"); vp_assume(b[i] != 0); }
		record* r = fq_rec(0);
		fq_field(r, a, n);
		fq_field(r, b, m);
		node_enqueue(&rg, r);
		logic* l = fq_logic(OPS[o], fq_col(fq_source(0, 0)), sw ? fq_str(b, m) : fq_col(fq_source(0, 1)));
		CHECK(l != NULL);
		int v = fq_eval(l, rg);
		// trailing blanks do not count; letter case does not count
		int na = 0, nb = 0;
		for (int i = 0; i < n; ++i) { unsigned char c = a[i]; na = vp_sel(c != ' ', i + 1, na); }
		for (int i = 0; i < m; ++i) { unsigned char c = b[i]; nb = vp_sel(c != ' ', i + 1, nb); }
		long d = 0;
		int done = 0;
		for (int i = 0; i < N; ++i) {
			int ia = i < na, ib = i < nb;
			long x = i < n ? low((unsigned char)a[i]) : 0, y = i < m ? low((unsigned char)b[i]) : 0;
			long e = vp_sel(ia & ib, x - y, (long)ia - ib);
			d = vp_sel(done, d, e);
			done |= d != 0;
		}
		int eqv = na == nb && d == 0;
		CHECKX((v == 0) | (v == 1));
		CHECKX(v == want(o, d < 0, d == 0));
		(void)eqv;
		delete_(logic, l);
	} else {
		char a[4];
		int n = vp_fix(vp_range(1, N, "n"));
		long k = 0, i = vp_long("i");
		for (int j = 0; j < n; ++j) { a[j] = vp_byte("a"); vp_assume((a[j] >= '0') & (a[j] <= '9')); k = k * 10 + a[j] - '0'; }
		record* r = fq_rec(0);
		fq_field(r, a, n);
		node_enqueue(&rg, r);
		logic* l = sw ? fq_logic(OPS[o], fq_int(i), fq_col(fq_source(0, 0))) : fq_logic(OPS[o], fq_col(fq_source(0, 0)), fq_int(i));
		CHECK(l != NULL);
		CHECKX(fq_eval(l, rg) == (sw ? want(o, i < k, i == k) : want(o, k < i, k == i)));
		delete_(logic, l);
	}
}
