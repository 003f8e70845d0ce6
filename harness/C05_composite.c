// A composite map treats a key of several parts as equal to another exactly when they have the same
// number of parts and every part is equal.
//@ cfg both c2m0 -DOPS=2 -DLIM=1 -DN=1 -DMODE=0
//@ cfg both c2m1 -DOPS=2 -DLIM=1 -DN=1 -DMODE=1
//@ cfg both c2m2 -DOPS=2 -DLIM=1 -DN=1 -DMODE=2
//@ cfg both c2m3 -DOPS=2 -DLIM=1 -DN=1 -DMODE=3
//@ cfg both c1n2 -DOPS=1 -DLIM=1 -DN=2 -DCLEAR
//@ cfg thorough c3m0 -DOPS=3 -DLIM=1 -DN=1 -DMODE=0
//@ cfg thorough c2n2m0 -DOPS=2 -DLIM=2 -DN=2 -DMODE=0
//@ cfg thorough c3m1 -DOPS=3 -DLIM=1 -DN=1 -DMODE=1
//@ cfg thorough c2n2m1 -DOPS=2 -DLIM=2 -DN=2 -DMODE=1
//@ cfg thorough c3m2 -DOPS=3 -DLIM=1 -DN=1 -DMODE=2
//@ cfg thorough c2n2m2 -DOPS=2 -DLIM=2 -DN=2 -DMODE=2
//@ cfg thorough c3m3 -DOPS=3 -DLIM=1 -DN=1 -DMODE=3
//@ cfg thorough c2n2m3 -DOPS=2 -DLIM=2 -DN=2 -DMODE=3
//@ time 700
//@ bounds every sequence of OPS assignments (1..3) then one lookup; keys of 1..2 parts of 0..1 or 0..2 letters of a small alphabet with both cases and a blank; four key modes; growth forced
//@ outside more or longer parts, longer histories, allocation failure
#include "vp.h"
#include <hashmap.h>
#include <stringview.h>
#include <string.h>
static int mode;
typedef struct { unsigned n; unsigned char b[N]; } part;
typedef struct { unsigned n; part p[2]; } key;
static const char al[3] = "aA ";
static key mk(void)
{
	key k = {0};
	k.n = vp_fix(vp_range(1, 2, "parts"));
	for (unsigned j = 0; j < k.n; ++j) {
		k.p[j].n = vp_fix(vp_range(0, N, "n"));
		for (unsigned i = 0; i < k.p[j].n; ++i) k.p[j].b[i] = al[vp_range(0, 2, "c")];
	}
	return k;
}
static int fold(int c) { return vp_sel((mode & 1) & (c >= 'A') & (c <= 'Z'), c + 32, c); }
static int eqp(const part* a, const part* b)
{
	int ok = 1;
	for (unsigned i = 0; i < N; ++i) {
		long x = -1, y = -1;
		if (i < a->n) { int pad = (mode & 2) != 0; if (pad) for (unsigned j = i; j < a->n; ++j) pad &= a->b[j] == ' '; x = vp_sel(pad, -1, fold(a->b[i])); }
		if (i < b->n) { int pad = (mode & 2) != 0; if (pad) for (unsigned j = i; j < b->n; ++j) pad &= b->b[j] == ' '; y = vp_sel(pad, -1, fold(b->b[i])); }
		ok &= x == y;
	}
	return ok;
}
static int eq(const key* a, const key* b)
{
	if (a->n != b->n) return 0;
	int ok = 1;
	for (unsigned j = 0; j < a->n; ++j) ok &= eqp(&a->p[j], &b->p[j]);
	return ok;
}
static vec* kv(vec* v, key* k)
{
	vec_construct_(v, stringview);
	for (unsigned j = 0; j < k->n; ++j) { stringview s = {(char*)k->p[j].b, k->p[j].n}; vec_push_back(v, &s); }
	return v;
}
void harness(void)
{
	long live = vp_live();
	#ifdef MODE
	mode = MODE;
#else
	mode = vp_fix(vp_range(0, 3, "mode"));
#endif
	unsigned props = (mode & 1 ? HASHMAP_PROP_NOCASE : 0) | (mode & 2 ? HASHMAP_PROP_RTRIM : 0);
	compositemap hb, *h = compositemap_construct_(&hb, int, LIM, props);
	key k[OPS + 1];
	vec vb;
	int cl = 0;
	for (int i = 0; i < OPS; ++i) {
		k[i] = mk();
		int v = i + 1;
		compositemap_set(h, kv(&vb, &k[i]), &v);
		vec_destroy(&vb);
	}
#ifdef CLEAR
	if (vp_range(0, 1, "clear")) { compositemap_clear(h); cl = OPS; vp_reach("clear"); }
#endif
	k[OPS] = mk();
	int* p = compositemap_get(h, kv(&vb, &k[OPS]));
	vec_destroy(&vb);
	long want = 0, distinct = 0;
	for (int i = cl; i < OPS; ++i) {
		want = vp_sel(eq(&k[i], &k[OPS]), i + 1, want);
		int seen = 0;
		for (int j = cl; j < i; ++j) seen |= eq(&k[i], &k[j]);
		distinct += !seen;
	}
	if (p == NULL) { CHECKX(want == 0); vp_reach("absent"); }
	else { CHECKX(*p == want); vp_reach("found"); }
	CHECKX(h->values->size == distinct);
	compositemap_destroy(h);
	CHECK(vp_live() == live);
}
