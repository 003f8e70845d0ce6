// Array of byte blocks of differing sizes against a reference.
//@ cfg both o2 -DOPS=2 -DPRE=2
//@ cfg both lite4 -DOPS=4 -DPRE=2 -DLITE
//@ cfg thorough lite5 -DOPS=5 -DPRE=2 -DLITE
//@ cfg thorough o3 -DOPS=3 -DPRE=1
//@ time 500
//@ bounds any 0..PRE (1, 2) blocks then any OPS (2, 3) operations out of push, push number as text, insert, remove, pop, shrink to a size, clear; blocks of 0..2 arbitrary bytes; after 0..2 blocks any 4 (thorough 5) of push, insert, remove, pop with blocks of 1 and 2 bytes in turn
//@ outside longer blocks and histories; floating point as text; allocation failure
#include "vp.h"
#include <flex.h>
#include <string.h>
static struct { unsigned n; char b[24]; } ref[8];
#ifdef LITE
#define LAST 3
#else
#define LAST 6
#endif
static unsigned n, made;
static const long nums[] = {-12, -1, 0, 7, 10, 99};
static void same(flex* f)
{
	CHECK(flex_size(f) == n);
	CHECK(flex_empty(f) == (n == 0));
	for (unsigned i = 0; i < n; ++i) {
		stringview v = flex_pair_at(f, i);
		CHECK(v.len == ref[i].n);
		CHECK(flex_at(f, i) == (void*)v.data);
		for (unsigned j = 0; j < v.len; ++j) CHECKX(v.data[j] == ref[i].b[j]);
	}
}
static unsigned mk(unsigned at)
{
	for (unsigned i = n; i > at; --i) ref[i] = ref[i - 1];
	++n;
#ifdef LITE
	ref[at].n = 1 + made++ % 2;
#else
	ref[at].n = vp_fix(vp_range(0, 2, "len"));
#endif
	for (unsigned j = 0; j < ref[at].n; ++j) ref[at].b[j] = vp_byte("b");
	return at;
}
static void del(unsigned at) { for (unsigned i = at; i + 1 < n; ++i) ref[i] = ref[i + 1]; --n; }
void harness(void)
{
	long live = vp_live();
	flex fb, *f = flex_construct(&fb);
	unsigned pre = vp_fix(vp_range(0, PRE, "pre"));
	for (unsigned i = 0; i < pre; ++i) { mk(n); flex_push_back(f, ref[n - 1].b, ref[n - 1].n); }
	same(f);
	for (int op = 0; op < OPS; ++op) {
		switch (vp_range(0, LAST, "op")) {
		case 0: mk(n); flex_push_back(f, ref[n - 1].b, ref[n - 1].n); vp_reach("push"); break;
		case 1: { unsigned at = vp_fix(vp_range(0, n, "at")); mk(at); flex_insert(f, at, ref[at].b, ref[at].n); vp_reach("insert"); break; }
		case 2: { if (!n) break; unsigned at = vp_fix(vp_range(0, n - 1, "at")); flex_remove(f, at); del(at); vp_reach("remove"); break; }
		case 3: if (!n) break; flex_pop_back(f); --n; vp_reach("pop"); break;
		case 4: { unsigned k = vp_fix(vp_range(0, n, "k")); flex_resize(f, k); n = k; vp_reach("shrink"); break; }
		case 5: flex_clear(f); n = 0; vp_reach("clear"); break;
		case 6: {
			long v = nums[vp_fix(vp_range(0, 5, "num"))];
			flex_push_back_str_int(f, v);
			char* p = ref[n].b;
			unsigned k = 0;
			long a = v < 0 ? -v : v;
			if (v < 0) p[k++] = '-';
			if (a > 9) p[k++] = '0' + a / 10;
			p[k++] = '0' + a % 10;
			ref[n++].n = k;
			vp_reach("number");
			break;
		}
		}
		same(f);
	}
	flex_destroy(f);
	CHECK(vp_live() == live);
}
