// Conversion between numeric types and text.
//@ lib
//@ nolabels
//@ cfg both f2i -DM=1
//@ cfg both i2f -DM=2
//@ cfg both i2s -DM=3 -DLO=-1200 -DHI=1200
//@ cfg both i2s_max -DM=3 -DLO=LONG_MAX-40 -DHI=LONG_MAX
//@ cfg both i2s_min -DM=3 -DLO=LONG_MIN -DHI=LONG_MIN+40
//@ cfg both bit -DM=4
//@ cfg both ftext -DM=5 -DN=3
//@ cfg thorough ftext4 -DM=5 -DN=4
//@ cfg thorough i2s_w -DM=3 -DLO=-20000 -DHI=20000
//@ time 400
//@ bounds every 64-bit integer and every double for int/float conversion; every integer in -1200..1200 (thorough 20000) and within 40 of the limits for int to text; every text of up to 3 (thorough 4) characters over 0-9 . - e blank x for text to float
//@ outside float to text, longer texts, other integers to text
#include "vp.h"
#include "fq.h"
#ifndef N
#define N 0
#endif
#ifndef LO
#define LO 0
#define HI 0
#endif
static expression* cast(scalar_fn fn, enum field_type t, expression* a)
{
	enum field_type ft = FIELD_UNDEFINED;
	function* f = new_(function, SCALAR_CAST, &ft, 0);
	f->call__ = fn;
	function_add_expression(f, a);
	expression* e = new_(expression, EXPR_FUNCTION, f, "");
	e->field_type = t;
	return e;
}
void harness(void)
{
	expression *e, *c;
	if (M == 1) {
		double d;
		vp_sym(&d, sizeof(d), "d");
		long v = 5, w = 6;
		e = fq_float(d);
		c = cast(&fql_cast_int, FIELD_INT, fq_float(d));
		int in = (d >= -9223372036854775808.0) & (d < 9223372036854775808.0);
		int r = expression_get_int(&v, e, NULL), q = expression_get_int(&w, c, NULL);
		CHECKX(r == (in ? FQL_GOOD : FQL_FAIL));
		CHECKX(q == (in ? FQL_GOOD : FQL_FAIL));
		if (in) { CHECKX(v == (long)d); CHECKX(w == (long)d); }
		delete_(expression, e);
		delete_(expression, c);
	} else if (M == 2) {
		long i = vp_long("i");
		double v = 5, w = 6;
		e = fq_int(i);
		c = cast(&fql_cast_float, FIELD_FLOAT, fq_int(i));
		CHECK(expression_get_float(&v, e, NULL) == FQL_GOOD);
		CHECK(expression_get_float(&w, c, NULL) == FQL_GOOD);
		CHECKX((v == (double)i) & (w == (double)i));
		delete_(expression, e);
		delete_(expression, c);
	} else if (M == 3) {
		long i = vp_range(LO, HI, "i");
		for (int k = 0; k < 2; ++k) {
			e = k ? cast(&fql_cast_string, FIELD_STRING, fq_int(i)) : fq_int(i);
			stringview sv;
			CHECK(expression_get_stringview(&sv, e, NULL) == FQL_GOOD);
			unsigned j = 0;
			long v = 0;
			int neg = sv.data[0] == '-';
			j = neg;
			CHECK(sv.len > j && sv.len <= 20);
			CHECK(sv.data[j] != '0' || (sv.len == 1));
			for (; j < sv.len; ++j) {
				CHECKX((sv.data[j] >= '0') & (sv.data[j] <= '9'));
				v = (long)((unsigned long)v * 10 + (neg ? (unsigned long)('0' - sv.data[j]) : (unsigned long)(sv.data[j] - '0')));
			}
			CHECKX(v == i);
			long b = 1;
			CHECK(expression_get_int(&b, e, NULL) == FQL_GOOD);
			CHECKX(b == i);
			delete_(expression, e);
		}
	} else if (M == 4) {
		long i = vp_long("i"), v = 9;
		e = cast(&fql_cast_bit, FIELD_INT, fq_int(i));
		CHECK(expression_get_int(&v, e, NULL) == FQL_GOOD);
		CHECKX(v == (i != 0));
		delete_(expression, e);
	} else {
		static const char A[] = "05938.-e x";
		static const double P[] = {1, 10, 100, 1000, 10000, 1e5, 1e6, 1e7, 1e8, 1e9};
		char s[8] = {0};
		int n = vp_fix(vp_range(0, N, "len"));
		for (int i = 0; i < n; ++i) s[i] = A[vp_fix(vp_range(0, 9, "c"))];
		// reading of the text by its grammar
		int i = 0, neg = 0, nd = 0, fr = 0, ex = 0, ok = 1;
		long m = 0;
		while (s[i] == ' ') ++i;
		if (s[i] == '-') { neg = 1; ++i; }
		for (; s[i] >= '0' && s[i] <= '9'; ++i) { m = m * 10 + s[i] - '0'; ++nd; }
		if (s[i] == '.') for (++i; s[i] >= '0' && s[i] <= '9'; ++i) { m = m * 10 + s[i] - '0'; ++nd; ++fr; }
		if (nd && s[i] == 'e') {
			int en = s[i + 1] == '-', j = i + 1 + en, xd = 0;
			for (; s[j] >= '0' && s[j] <= '9'; ++j) { ex = ex * 10 + s[j] - '0'; ++xd; }
			if (en) ex = -ex;
			if (xd) i = j; else ok = 0;
		}
		if (i < n || !nd) ok = 0;
		if (n == 0) ok = 1;
		// exponents beyond the exact range of the reference are left out
		vp_assume(ex - fr < 20 && ex - fr > -10);
		double w = ex - fr < 0 ? (double)m / P[fr - ex] : (double)m, v = 9;
		for (int k = 0; k < ex - fr; ++k) w *= 10;
		if (neg) w = -w;
		record* r = fq_rec(0);
		fq_field(r, s, n);
		node* rg = NULL;
		node_enqueue(&rg, r);
		for (int k = 0; k < 2; ++k) {
			if (s[0] == '0' && s[1] == 'x') break; // hexadecimal floats: not in the model
			if (n > 1 && (s[0] == ' ' || s[0] == '-') && s[1] == '0' && s[2] == 'x') break;
			e = k ? fq_str(s, n) : fq_col(fq_source(0, 0));
			int rc = expression_get_float(&v, e, rg);
			CHECK(rc == (ok ? FQL_GOOD : FQL_FAIL));
			if (ok) CHECK(v == w);
			delete_(expression, e);
		}
	}
}
