// Dictionary and set keyed by byte strings, against a list of the assignments made so far.
//@ cfg both alpha0 -DALPHA -DN=2 -DOPS=3 -DLIM=2 -DMODE=0 -DSET=0
//@ cfg both alpha1 -DALPHA -DN=2 -DOPS=3 -DLIM=2 -DMODE=1 -DSET=0
//@ cfg both alpha2 -DALPHA -DN=2 -DOPS=3 -DLIM=2 -DMODE=2 -DSET=0
//@ cfg both alpha3 -DALPHA -DN=2 -DOPS=3 -DLIM=2 -DMODE=3 -DSET=0
//@ cfg both sym1 -DN=1 -DOPS=2 -DLIM=1 -DCLEAR
//@ cfg both sym2 -DN=2 -DOPS=1 -DLIM=1
//@ cfg both set -DALPHA -DN=1 -DOPS=3 -DLIM=1 -DSET=1 -DCLEAR
//@ cfg thorough sym2m0 -DN=2 -DOPS=2 -DLIM=2 -DMODE=0 -DSET=0
//@ cfg thorough sym1x3m0 -DN=1 -DOPS=3 -DLIM=1 -DMODE=0 -DCLEAR
//@ cfg thorough sym2m1 -DN=2 -DOPS=2 -DLIM=2 -DMODE=1 -DSET=0
//@ cfg thorough sym1x3m1 -DN=1 -DOPS=3 -DLIM=1 -DMODE=1 -DCLEAR
//@ cfg thorough sym2m2 -DN=2 -DOPS=2 -DLIM=2 -DMODE=2 -DSET=0
//@ cfg thorough sym1x3m2 -DN=1 -DOPS=3 -DLIM=1 -DMODE=2 -DCLEAR
//@ cfg thorough sym2m3 -DN=2 -DOPS=2 -DLIM=2 -DMODE=3 -DSET=0
//@ cfg thorough sym1x3m3 -DN=1 -DOPS=3 -DLIM=1 -DMODE=3 -DCLEAR
//@ cfg thorough alpha4 -DALPHA -DN=1 -DOPS=4 -DLIM=1 -DSET=0 -DCLEAR
//@ time 700
//@ bounds every sequence of OPS assignments (1..4) starting from room for 1 or 2 entries (so that every sequence forces growth), with an optional clearing in between, then one lookup; keys of 0..1 or 0..2 arbitrary bytes, or 0..2 letters of a small alphabet with both cases and blanks; the four key modes; dictionary, set
//@ outside longer keys and histories, allocation failure
#include "vp.h"
#include <hashmap.h>
#include <string.h>
static int mode;
typedef struct { unsigned n; unsigned char b[N]; } key; // as given
static const char al[4] = "aAb ";
static key mk(const char* nm)
{
	key k = {0};
	k.n = vp_fix(vp_range(0, N, "n"));
	for (unsigned i = 0; i < k.n; ++i) {
#ifdef ALPHA
		k.b[i] = al[vp_range(0, 3, nm)];
#else
		k.b[i] = vp_byte(nm);
#endif
	}
	return k;
}
static int fold(int c) { return vp_sel((mode & 1) & (c >= 'A') & (c <= 'Z'), c + 32, c); }
static int eq(const key* a, const key* b)
{
	int ok = 1;
	for (unsigned i = 0; i < N; ++i) {
		long x = -1, y = -1; // -1: past the end of the normal form
		if (i < a->n) { int pad = (mode & 2) != 0; if (pad) for (unsigned j = i; j < a->n; ++j) pad &= a->b[j] == ' '; x = vp_sel(pad, -1, fold(a->b[i])); }
		if (i < b->n) { int pad = (mode & 2) != 0; if (pad) for (unsigned j = i; j < b->n; ++j) pad &= b->b[j] == ' '; y = vp_sel(pad, -1, fold(b->b[i])); }
		ok &= x == y;
	}
	return ok;
}
void harness(void)
{
	long live = vp_live();
	#ifdef MODE
	mode = MODE;
#else
	mode = vp_fix(vp_range(0, 3, "mode"));
#endif
	#ifdef SET
	int isset = SET;
#else
	int isset = vp_fix(vp_range(0, 1, "isset"));
#endif
	unsigned props = (mode & 1 ? HASHMAP_PROP_NOCASE : 0) | (mode & 2 ? HASHMAP_PROP_RTRIM : 0);
	hashmap hb, *h = &hb;
	if (isset) set_construct(h, LIM, props); else hashmap_construct_(h, int, LIM, props);
	key k[OPS + 1];
	int v[OPS];
	int first = 0; // entries before this were cleared
	#ifdef CLEAR
	int cl = vp_fix(vp_range(0, OPS, "clear after")); // OPS: never
#else
	int cl = OPS;
#endif
	for (int i = 0; i < OPS; ++i) {
		k[i] = mk("k");
		v[i] = i + 1;
		if (isset) set_nadd(h, (char*)k[i].b, k[i].n); else hashmap_nset(h, (char*)k[i].b, &v[i], k[i].n);
		if (i == cl) { if (isset) set_clear(h); else hashmap_clear(h); first = i + 1; vp_reach("clear"); }
	}
	k[OPS] = mk("q");
	long want = 0, distinct = 0;
	for (int i = first; i < OPS; ++i) {
		want = vp_sel(eq(&k[i], &k[OPS]), v[i], want);
		int seen = 0;
		for (int j = first; j < i; ++j) seen |= eq(&k[i], &k[j]);
		distinct += !seen;
	}
	if (isset) {
		int has = set_nhas(h, (char*)k[OPS].b, k[OPS].n);
		CHECKX(has == (want != 0));
		if (has) vp_reach("member"); else vp_reach("no member");
		set_destroy(h);
	} else {
		int* p = hashmap_nget(h, (char*)k[OPS].b, k[OPS].n);
		if (p == NULL) { CHECKX(want == 0); vp_reach("absent"); }
		else { CHECKX(*p == want); vp_reach("found"); }
		CHECKX(h->values->size == distinct);
		hashmap_destroy(h);
	}
	CHECK(vp_live() == live);
}
