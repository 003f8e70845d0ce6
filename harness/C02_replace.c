// Search and replace: equal to the left-to-right, non-overlapping replacement of every occurrence.
//@ cfg both r5 -DS=5
//@ cfg thorough r7 -DS=7
//@ time 400
//@ bounds strings of 0..5 bytes (7 in thorough), search strings of 0..2 bytes, replacements of 0..3 bytes, over the letters a, A, b, B; with and without letter case; an empty search string changes nothing
//@ outside longer strings, other letters (the comparison of letters is C03's)
#include "vp.h"
#include <stringy.h>
#include <string.h>
static const char al[4] = "aAbB";
static char* mk(unsigned k, const char* nm)
{
	char* b = malloc(k + 1);
	for (unsigned i = 0; i < k; ++i) b[i] = al[vp_fix(vp_range(0, 3, nm))];
	b[k] = 0;
	return b;
}
static int lo(int c) { return c == 'A' ? 'a' : c == 'B' ? 'b' : c; }
void harness(void)
{
	int nocase = vp_fix(vp_range(0, 1, "nocase"));
	unsigned ns = vp_fix(vp_range(0, S, "ns")), no = vp_fix(vp_range(0, 2, "no")), nn = vp_fix(vp_range(0, 3, "nn"));
	char al3[3] = "xay";
	char* a = malloc(ns + 1);
	char* o = malloc(no + 1);
	char* r = malloc(nn + 1);
	for (unsigned i = 0; i < ns; ++i) a[i] = al[vp_range(0, 3, "s")];
	for (unsigned i = 0; i < no; ++i) o[i] = al[vp_range(0, 3, "o")];
	for (unsigned i = 0; i < nn; ++i) r[i] = al3[i];
	a[ns] = o[no] = r[nn] = 0;
	string sb, *s = string_construct_from_char_ptr(&sb, a);
	int lim = vp_fix(vp_range(0, 1, "limited"));
	if (nocase) { if (lim) string_find_replace_nocase_limited(s, o, r, nn); else string_find_replace_nocase(s, o, r); vp_reach("nocase"); }
	else { if (lim) string_find_replace_limited(s, o, r, nn); else string_find_replace(s, o, r); vp_reach("case"); }
	char out[64];
	unsigned m = 0;
	for (unsigned i = 0; i < ns;) {
		int hit = no > 0 && i + no <= ns;
		for (unsigned j = 0; hit && j < no; ++j) hit = nocase ? lo(a[i + j]) == lo(o[j]) : a[i + j] == o[j];
		if (hit) { memcpy(out + m, r, nn); m += nn; i += no; vp_reach("hit"); }
		else out[m++] = a[i++];
	}
	CHECK(s->size == m);
	const char* p = string_c_str(s);
	for (unsigned i = 0; i < m; ++i) CHECKX(p[i] == out[i]);
	CHECKX(p[m] == 0);
	string_destroy(s);
}
