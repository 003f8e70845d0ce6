// Keys a set considers the same are exactly the texts the matching comparison considers equal.
//@ cfg both h2 -DN=2
//@ cfg thorough h3 -DN=3
//@ time 600
//@ bounds all pairs of strings of 0..2 (thorough 3) arbitrary non-zero bytes, each of the four modes
//@ outside longer strings; collisions of the 64-bit hash do not matter (keys are compared)
#include "vp.h"
#include <hashmap.h>
#include <stringview.h>
#include <string.h>
void harness(void)
{
	int mode = vp_fix(vp_range(0, 3, "mode"));
	unsigned na = vp_fix(vp_range(0, N, "na")), nb = vp_fix(vp_range(0, N, "nb"));
	char a[N], b[N];
	for (unsigned i = 0; i < na; ++i) { a[i] = vp_byte("a"); vp_assume(a[i] != 0); }
	for (unsigned i = 0; i < nb; ++i) { b[i] = vp_byte("b"); vp_assume(b[i] != 0); }
	unsigned props = (mode & 1 ? HASHMAP_PROP_NOCASE : 0) | (mode & 2 ? HASHMAP_PROP_RTRIM : 0);
	set sb, *s = set_construct(&sb, 4, props);
	set_nadd(s, a, na);
	int has = set_nhas(s, b, nb);
	stringview va = {a, na}, vb = {b, nb};
	int c = mode == 0 ? stringview_compare(&va, &vb) : mode == 1 ? stringview_compare_nocase(&va, &vb) : mode == 2 ? stringview_compare_rtrim(&va, &vb) : stringview_compare_nocase_rtrim(&va, &vb);
	CHECKX(has == (c == 0));
	if (has) vp_reach("same"); else vp_reach("different");
	set_destroy(s);
}
