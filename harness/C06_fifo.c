// Bounded queue used by one thread against a reference queue: order, capacity, wrap-around, block
// transfers, iteration.
//@ cfg both s4 -DSZ=4 -DOPS=2
//@ cfg both s3 -DSZ=3 -DOPS=2
//@ cfg thorough s5 -DSZ=5 -DOPS=2
//@ cfg thorough s2 -DSZ=2 -DOPS=3
//@ cfg thorough s3o3 -DSZ=3 -DOPS=3
//@ time 600
//@ bounds buffers of 2..5 slots with one producer registered, every rotation and fill level, then any 2..3 operations out of add, try-add, get, get-or-wait, consume, peek, look ahead, block add of 0..SZ values, block get (block size 1..2, at most 0..SZ), iterate, reset, resize, fill
//@ outside bigger buffers, longer histories; several threads (C07)
#include "vp.h"
#include <fifo.h>
static int ref[16];
static unsigned n;
static void same(fifo* f)
{
	CHECK(fifo_available(f) == n);
	CHECK(fifo_is_empty(f) == (n == 0));
	CHECK(fifo_is_full(f) == (n == f->buf->size - 1));
	CHECK(fifo_receivable(f) == f->buf->size - 1 - n);
	int* p = fifo_safe_peek(f);
	CHECK((p == NULL) == (n == 0));
	if (n) { CHECKX(*p == ref[0]); CHECKX(*(int*)fifo_peek(f) == ref[0]); }
	p = fifo_look_ahead(f);
	CHECK((p == NULL) == (n < 2));
	if (n > 1) CHECKX(*p == ref[1]);
}
static void drop(unsigned k) { for (unsigned i = 0; i + k < n; ++i) ref[i] = ref[i + k]; n -= k; }
void harness(void)
{
	long live = vp_live();
	fifo fb, *f = fifo_construct_(&fb, int, SZ);
	f->input_count = 1;
	unsigned rot = vp_fix(vp_range(0, SZ - 1, "rot")), pre = vp_fix(vp_range(0, SZ - 1, "pre"));
	for (unsigned i = 0; i < rot; ++i) { int z = 0; fifo_add(f, &z); fifo_consume(f); }
	for (unsigned i = 0; i < pre; ++i) { int v = vp_int("v"); fifo_add(f, &v); ref[n++] = v; }
	unsigned size = SZ;
	same(f);
	for (int op = 0; op < OPS; ++op) {
		int v = vp_int("v");
		switch (vp_range(0, 10, "op")) {
		case 0: if (n == size - 1) return; fifo_add(f, &v); ref[n++] = v; vp_reach("add"); break;
		case 1: if (n == size - 1) return; CHECK(fifo_add_try(f, &v) == 0); ref[n++] = v; vp_reach("add try"); break;
		case 2: if (!n) return; CHECKX(*(int*)fifo_get(f) == ref[0]); drop(1); vp_reach("get"); break;
		case 3: if (!n) return; CHECKX(*(int*)fifo_get_or_wait(f) == ref[0]); drop(1); vp_reach("get or wait"); break;
		case 4: if (!n) return; fifo_consume(f); drop(1); vp_reach("consume"); break;
		case 5: case 6: {
			unsigned k = vp_fix(vp_range(0, SZ, "k"));
			vec src;
			int x[SZ];
			vec_construct_(&src, int);
			for (unsigned i = 0; i < k; ++i) { x[i] = vp_int("x"); vec_push_back(&src, &x[i]); }
			unsigned room = size - 1 - n, t = k < room ? k : room;
			if (vp_range(0, 1, "try")) CHECK(fifo_nadd_try(f, &src) == 0); else fifo_nadd(f, &src);
			for (unsigned i = 0; i < t; ++i) ref[n++] = x[i];
			CHECK(src.size == k - t); // what did not fit stays with the caller, in order
			for (unsigned i = t; i < k; ++i) CHECKX(*(int*)vec_at(&src, i - t) == x[i]);
			vec_destroy(&src);
			if (t < k) vp_reach("block add, partial");
			vp_reach("block add");
			break;
		}
		case 7: {
			unsigned bs = vp_fix(vp_range(1, 2, "bs")), mx = vp_fix(vp_range(0, SZ, "max"));
			vec dst;
			vec_construct_(&dst, int);
			int first = vp_int("x");
			vec_push_back(&dst, &first);
			unsigned t = n < mx ? n : mx;
			t -= t % bs;
			CHECK(fifo_nget(f, &dst, bs, mx) == (int)(n - t));
			CHECK(dst.size == t + 1);
			CHECKX(*(int*)vec_at(&dst, 0) == first);
			for (unsigned i = 0; i < t; ++i) CHECKX(*(int*)vec_at(&dst, i + 1) == ref[i]);
			drop(t);
			vec_destroy(&dst);
			vp_reach("block get");
			break;
		}
		case 8: {
			int* it = fifo_begin(f);
			unsigned i = 0;
			for (; it != fifo_end(f); it = fifo_iter(f)) { CHECK(i < n); CHECKX(*it == ref[i]); ++i; }
			CHECK(i == n);
			fifo_update(f);
			CHECK(fifo_update_try(f) == 0);
			n = 0;
			vp_reach("iterate");
			break;
		}
		case 9: fifo_reset(f); n = 0; CHECK(f->is_open); vp_reach("reset"); break;
		case 10: {
			unsigned k = vp_fix(vp_range(0, SZ + 2, "size"));
			fifo_resize(f, k);
			n = 0;
			size = k < 2 ? 2 : k;
			CHECK(f->buf->size == size);
			if (vp_range(0, 1, "fill")) { fifo_set_full(f); for (n = 0; n < size - 1; ++n) { v = vp_int("y"); *(int*)vec_at(f->buf, n) = v; ref[n] = v; } vp_reach("filled"); }
			vp_reach("resize");
			break;
		}
		}
		same(f);
	}
	fifo_destroy(f);
	CHECK(vp_live() == live);
}
