// The four text comparisons are total orders whose equality is equality of the normal forms
// (letter case folded; trailing blanks dropped), for every pair/triple of byte strings in the bounds.
//@ cfg both pair -DN=3 -DPAIR
//@ cfg both triple -DN=2
//@ cfg thorough pair4 -DN=4 -DPAIR
//@ cfg thorough triple3 -DN=3
//@ time 600
//@ bounds all pairs of strings of 0..3 (thorough 4) and all triples of strings of 0..2 (thorough 3) arbitrary non-zero bytes, exactly-sized unterminated blocks, each of the four modes (case / no case, padded / exact)
//@ outside longer strings, zero bytes, locales other than C
#include "vp.h"
#include <stringview.h>
#include <stdlib.h>
static int sgn(int v) { return vp_sel(v > 0, 1, vp_sel(v < 0, -1, 0)); }
static int cmp(int mode, stringview* a, stringview* b)
{
	switch (mode) {
	case 0: return sgn(stringview_compare(a, b));
	case 1: return sgn(stringview_compare_nocase(a, b));
	case 2: return sgn(stringview_compare_rtrim(a, b));
	default: return sgn(stringview_compare_nocase_rtrim(a, b));
	}
}
static int fold(int mode, int c) { return vp_sel((mode & 1) & (c >= 'A') & (c <= 'Z'), c + 32, c); }
static void mk(stringview* v, unsigned n, const char* nm)
{
	char* b = malloc(n ? n : 1);
	for (unsigned i = 0; i < n; ++i) { b[i] = vp_byte(nm); vp_assume(b[i] != 0); }
	v->data = n ? b : b + 1;
	v->len = n;
}
// normal forms equal, without forking: byte i of the normal form, 0 past its end
static int eq(int mode, stringview* a, stringview* b)
{
	unsigned m = a->len > b->len ? a->len : b->len;
	int ok = 1;
	for (unsigned i = 0; i < m; ++i) {
		int x = 0, y = 0, ex = 1, ey = 1; // ex: everything from i on is padding
		for (unsigned j = i; j < a->len; ++j) ex &= (mode & 2) && 1 ? (a->data[j] == ' ') : 0;
		for (unsigned j = i; j < b->len; ++j) ey &= (mode & 2) && 1 ? (b->data[j] == ' ') : 0;
		if (i < a->len) x = vp_sel(ex, 0, fold(mode, (unsigned char)a->data[i]));
		if (i < b->len) y = vp_sel(ey, 0, fold(mode, (unsigned char)b->data[i]));
		ok &= x == y;
	}
	return ok;
}
void harness(void)
{
	int mode = vp_fix(vp_range(0, 3, "mode"));
	stringview a, b, c;
	mk(&a, vp_fix(vp_range(0, N, "na")), "a");
	mk(&b, vp_fix(vp_range(0, N, "nb")), "b");
	int ab = cmp(mode, &a, &b);
#ifdef PAIR
	CHECKX(cmp(mode, &b, &a) == -ab);
	CHECKX((ab == 0) == eq(mode, &a, &b));
	vp_reach("pair");
#else
	mk(&c, vp_fix(vp_range(0, N, "nc")), "c");
	int bc = cmp(mode, &b, &c), ac = cmp(mode, &a, &c);
	CHECKX(!((ab <= 0) & (bc <= 0)) | (ac <= 0));
	CHECKX(!((ab >= 0) & (bc >= 0)) | (ac >= 0));
	vp_reach("triple");
#endif
	vp_obs(ab);
}
