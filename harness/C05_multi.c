// A multimap returns, for a key, exactly the values added under an equal key, in the order they were added.
//@ cfg both alpha -DALPHA -DN=2 -DOPS=2 -DLIM=1
//@ cfg both alpha3 -DALPHA -DN=1 -DOPS=3 -DLIM=1
//@ cfg both sym1 -DN=1 -DOPS=2 -DLIM=2
//@ cfg thorough alpha4 -DALPHA -DN=1 -DOPS=4 -DLIM=1
//@ cfg thorough sym3 -DN=1 -DOPS=3 -DLIM=1
//@ time 700
//@ bounds every sequence of OPS additions (2..4), optionally cleared in between, then one lookup; keys of 0..1 arbitrary bytes or 0..2 letters of a small alphabet; four key modes; growth forced
//@ outside longer keys and histories, allocation failure
#include "vp.h"
#include <hashmap.h>
#include <string.h>
static int mode;
typedef struct { unsigned n; unsigned char b[N]; } key;
static const char al[4] = "aAb ";
static key mk(const char* nm)
{
	key k = {0};
	k.n = vp_fix(vp_range(0, N, "n"));
	for (unsigned i = 0; i < k.n; ++i) {
#ifdef ALPHA
		k.b[i] = al[vp_range(0, 3, nm)];
#else
		k.b[i] = vp_byte(nm);
#endif
	}
	return k;
}
static int fold(int c) { return vp_sel((mode & 1) & (c >= 'A') & (c <= 'Z'), c + 32, c); }
static int eq(const key* a, const key* b)
{
	int ok = 1;
	for (unsigned i = 0; i < N; ++i) {
		long x = -1, y = -1;
		if (i < a->n) { int pad = (mode & 2) != 0; if (pad) for (unsigned j = i; j < a->n; ++j) pad &= a->b[j] == ' '; x = vp_sel(pad, -1, fold(a->b[i])); }
		if (i < b->n) { int pad = (mode & 2) != 0; if (pad) for (unsigned j = i; j < b->n; ++j) pad &= b->b[j] == ' '; y = vp_sel(pad, -1, fold(b->b[i])); }
		ok &= x == y;
	}
	return ok;
}
void harness(void)
{
	long live = vp_live();
	mode = vp_fix(vp_range(0, 3, "mode"));
	unsigned props = (mode & 1 ? HASHMAP_PROP_NOCASE : 0) | (mode & 2 ? HASHMAP_PROP_RTRIM : 0);
	multimap hb, *h = multimap_construct_(&hb, int, LIM, props);
	key k[OPS + 1];
	int first = 0;
	int cl = vp_fix(vp_range(0, OPS, "clear after"));
	for (int i = 0; i < OPS; ++i) {
		k[i] = mk("k");
		int v = i + 1;
		multimap_nset(h, (char*)k[i].b, &v, k[i].n);
		if (i == cl) { multimap_clear(h); first = i + 1; vp_reach("clear"); }
	}
	k[OPS] = mk("q");
	vec* got = multimap_nget(h, (char*)k[OPS].b, k[OPS].n);
	long cnt = 0;
	for (int i = first; i < OPS; ++i) cnt += eq(&k[i], &k[OPS]);
	if (got == NULL) { CHECKX(cnt == 0); vp_reach("absent"); }
	else {
		CHECKX(got->size == cnt);
		int at = 0; // every value stored is the next one expected
		for (int i = first; i < OPS; ++i) {
			if (!eq(&k[i], &k[OPS])) continue;
			CHECK(at < (int)got->size);
			CHECK(*(int*)vec_at(got, at) == i + 1);
			++at;
		}
		vp_reach("found");
		if (cnt > 1) vp_reach("several");
	}
	multimap_destroy(h);
	CHECK(vp_live() == live);
}
