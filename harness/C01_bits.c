// Bit array against a reference, including growth across 32-bit words.
//@ cfg both grow -DOPS=3
//@ bounds a bit array resized to any of the sizes 1, 32, 33, 65, then any 3 of: set any bit to any value, push any value, grow to a larger one of those sizes; one arbitrary bit compared; bits never written read as 0
//@ outside more than 68 bits, shrinking and growing again
//@ time 200
#include "vp.h"
#include <vec.h>
void harness(void)
{
	static const unsigned sizes[] = {1, 32, 33, 65};
	bitvec bb, *b = bitvec_construct(&bb);
	int si = vp_fix(vp_range(0, 3, "size"));
	unsigned n = sizes[si];
	bitvec_resize(b, n);
	unsigned q = vp_range(0, 67, "q"); // the bit watched
	int want = 0;
	for (int op = 0; op < OPS; ++op) {
		int val = vp_range(0, 1, "v") != 0;
		switch (vp_range(0, 2, "op")) {
		case 0: { unsigned at = vp_range(0, n - 1, "at"); bitvec_set(b, at, val); want = vp_sel(at == q, val, want); vp_reach("set"); break; }
		case 1: bitvec_push_back(b, val); want = vp_sel(n == q, val, want); ++n; vp_reach("push"); break;
		case 2: { unsigned k = sizes[vp_fix(vp_range(0, 3, "size"))]; if (k < n) return; bitvec_resize(b, k); n = k; vp_reach("grow"); break; }
		}
	}
	CHECK(b->size == n);
	vp_assume(q < n);
	CHECKX(bitvec_at(b, q) == want);
	bitvec_destroy(b);
}
