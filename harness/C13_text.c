// LEN, LEFT, RIGHT, SUBSTRING, CAST AS CHAR: by character, inside the text, for any count.
//@ lib
//@ ub
//@ nolabels
//@ cfg both len -DF=1 -DNC=3
//@ cfg both left -DF=2 -DNC=2
//@ cfg both right -DF=3 -DNC=2
//@ cfg both sub -DF=4 -DNC=2
//@ cfg both lenb -DF=1 -DNC=3 -DBYTES=1
//@ cfg both leftb -DF=2 -DNC=3 -DBYTES=1
//@ cfg both rightb -DF=3 -DNC=3 -DBYTES=1
//@ cfg both subb -DF=4 -DNC=3 -DBYTES=1
//@ cfg both char -DF=5 -DNC=3 -DBYTES=1
//@ cfg both raw_len -DF=1 -DNC=2 -DRAW
//@ cfg both raw_left -DF=2 -DNC=2 -DRAW
//@ cfg both raw_right -DF=3 -DNC=2 -DRAW
//@ cfg both raw_sub -DF=4 -DNC=2 -DRAW
//@ cfg thorough len4 -DF=1 -DNC=4
//@ cfg thorough left3 -DF=2 -DNC=3
//@ cfg thorough right3 -DF=3 -DNC=3
//@ cfg thorough sub3 -DF=4 -DNC=3
//@ cfg thorough raw_left3 -DF=2 -DNC=3 -DRAW
//@ cfg thorough raw_right3 -DF=3 -DNC=3 -DRAW
//@ cfg thorough raw_sub3 -DF=4 -DNC=3 -DRAW
//@ time 400
//@ bounds texts of up to 2 or 3 (thorough 3 or 4) characters, each any valid UTF-8 character of 1 to 4 bytes or, in byte mode, any byte; every 64-bit count and position (CHAR: lengths 0..5); for arbitrary bytes (up to 2, thorough 3) only memory safety and that the result is a part of the text
//@ outside longer texts, NUL bytes inside text
#include "vp.h"
#include "fq.h"
#ifndef BYTES
#define BYTES 0
#endif
#ifdef RAW
#define ASB 0
#else
#define ASB BYTES
#endif
static char s[32];
static int n, nc, at[9]; // at[i]: offset of character i
static expression* arg(long v) { return fq_int(v); }
void harness(void)
{
	nc = vp_fix(vp_range(0, NC, "chars"));
	for (int i = 0; i < nc; ++i) {
		at[i] = n;
#if BYTES || defined(RAW)
		s[n] = vp_byte("c");
		vp_assume(s[n] != 0);
		++n;
#else
		int k = vp_fix(vp_range(1, 4, "width"));
		unsigned char b = vp_byte("c");
		if (k == 1) { vp_assume((b < 128) & (b != 0)); s[n++] = b; }
		else {
			s[n++] = k == 2 ? 0xC0 | (b & 0x1F) : k == 3 ? 0xE0 | (b & 0x0F) : 0xF0 | (b & 7);
			for (int j = 1; j < k; ++j) s[n++] = 0x80 | (vp_byte("t") & 0x3F);
		}
#endif
	}
	at[nc] = n;
	record* r = fq_rec(0);
	fq_field(r, s, n);
	node* rg = NULL;
	node_enqueue(&rg, r);
	expression* c = fq_col(fq_source(0, 0));
	stringview sv;
	long v = -7;
	if (F == 1) {
		expression* e = fq_call(SCALAR_LEN, ASB, c, NULL, NULL);
		CHECK(e && e->field_type == FIELD_INT);
		int rc = expression_get_int(&v, e, rg);
#ifdef RAW
		CHECK(rc == FQL_FAIL || (v >= 0 && v <= n));
#else
		long w = 0;
		for (int i = 0; i < nc; ++i) { unsigned char b = s[at[i]]; w = vp_sel((b != ' ') & (b - 9u >= 5u), i + 1, w); }
		CHECK(rc == FQL_GOOD);
		CHECKX(v == w);
		e = fq_call(SCALAR_DATALENGTH, ASB, fq_col(fq_source(0, 0)), NULL, NULL);
		CHECK(expression_get_int(&v, e, rg) == FQL_GOOD && v == n);
#endif
		return;
	}
	long k = vp_long("k"), m = 0;
	int lo = 0, hi = 0, ok = 1; // characters lo..hi-1 expected
	expression* e = NULL;
	if (F == 2) {
		e = fq_call(SCALAR_LEFT, ASB, c, arg(k), NULL);
		ok = k >= 0;
		if (ok) hi = k > nc ? nc : (int)k;
	} else if (F == 3) {
		e = fq_call(SCALAR_RIGHT, ASB, c, arg(k), NULL);
		ok = k >= 0;
		hi = nc;
		if (ok) lo = k > nc ? 0 : nc - (int)k;
	} else if (F == 4) {
		m = vp_long("m");
		e = fq_call(SCALAR_SUBSTRING, ASB, c, arg(k), arg(m));
		ok = m >= 0;
		if (ok) {
			for (int i = 0; i < nc; ++i) {
				// character i is at position i + 1; wanted: k <= i + 1 < k + m
				unsigned long d = (unsigned long)(i + 1) - (unsigned long)k;
				int in = (k <= i + 1) & (d < (unsigned long)m);
				if (in) { if (hi == 0) lo = i; hi = i + 1; }
			}
		}
	} else {
		vp_assume((k >= 0) & (k <= 5));
		k = vp_fix(k);
		enum field_type ft = FIELD_UNDEFINED;
		function* f = new_(function, SCALAR_CAST, &ft, 0);
		f->call__ = &fql_cast_char;
		function_add_expression(f, c);
		int bare = vp_fix(vp_range(0, 1, "bare"));
		if (!bare) function_add_expression(f, arg(k));
		e = new_(expression, EXPR_FUNCTION, f, "");
		e->field_type = FIELD_STRING;
		int rc = expression_get_stringview(&sv, e, rg);
		if (!bare && k < 0) { CHECK(rc == FQL_FAIL); return; }
		CHECK(rc == FQL_GOOD);
		long w = bare ? n : k;
		CHECK(sv.len == w);
		for (int i = 0; i < w; ++i) CHECKX(sv.data[i] == (i < n ? s[i] : ' '));
		return;
	}
	CHECK(e && e->field_type == FIELD_STRING);
	for (int t = 0; t < 2; ++t) {
		int rc = expression_get_stringview(&sv, e, rg);
#ifdef RAW
		if (rc == FQL_FAIL) continue;
		CHECK(ok && sv.len <= n);
		int some = 0; // the result is a part of the text
		for (int o = 0; o + (int)sv.len <= n; ++o) {
			int eq = 1;
			for (int i = 0; i < sv.len; ++i) eq &= sv.data[i] == s[o + i];
			some |= eq;
		}
		CHECKX(some);
#else
		CHECKX(rc == (ok ? FQL_GOOD : FQL_FAIL));
		if (!ok) continue;
		int len = at[hi] - at[lo];
		CHECK(sv.len == len);
		for (int i = 0; i < len; ++i) CHECKX(sv.data[i] == s[at[lo] + i]);
#endif
	}
	delete_(expression, e);
}
