// Bounded queue between threads: under every schedule (up to the preemption bound) every value arrives
// exactly once, in the order of its producer, and every thread finishes.
//@ cfg quick one -DSCN=1 -DN=3 @preempt=4
//@ cfg thorough one -DSCN=1 -DN=3 @preempt=6
//@ cfg both two -DSCN=2 -DN=2
//@ cfg both either -DSCN=3 -DN=1
//@ cfg both both -DSCN=4 -DN=2
//@ cfg quick block -DSCN=5 -DN=3 @preempt=4
//@ cfg thorough block -DSCN=5 -DN=3 @preempt=6
//@ cfg quick getwait -DSCN=6 -DN=2 @preempt=4
//@ cfg thorough getwait -DSCN=6 -DN=2 @preempt=6
//@ cfg quick stop -DSCN=7 -DN=3 @preempt=4
//@ cfg thorough stop -DSCN=7 -DN=3 @preempt=6
//@ cfg quick consume -DSCN=8 -DN=3 @preempt=4
//@ cfg thorough consume -DSCN=8 -DN=3 @preempt=6
//@ cfg both either_block -DSCN=9 -DN=2
//@ cfg both first_block -DSCN=11 -DN=2 @preempt=3
//@ cfg both first -DSCN=12 -DN=2 @preempt=3
//@ cfg both either2 -DSCN=3 -DN=2
//@ cfg quick try -DSCN=10 -DN=2
//@ cfg thorough try -DSCN=10 -DN=2 @preempt=3
//@ cfg thorough both3 -DSCN=4 -DN=2 @preempt=3
//@ cfg thorough either1x4 -DSCN=3 -DN=1 @preempt=4
//@ cfg thorough either3 -DSCN=3 -DN=3
//@ cfg thorough two3 -DSCN=2 -DN=3
//@ cfg thorough block4 -DSCN=5 -DN=4
//@ threads
//@ preempt 2
//@ time 400
//@ nolabels
//@ bounds 1 or 2 producers and 1 consumer, 1..4 values each (arbitrary), queues of 2..4 slots, every schedule with at most 2 (single queue and producer: 4; thorough 6, 3 or 4) preemptions at lock, unlock, wait, signal and atomic accesses (any number of blocking switches), any choice of the thread a signal wakes
//@ outside more threads, preemptions inside non-atomic code, spurious wake-ups, memory weaker than sequential consistency
#include "vp.h"
#include <fifo.h>
static fifo fa, fb;
#define TWO (SCN == 2 || SCN == 10)
#define TRY (SCN == 5)
static int val[2][N];
static int left[2]; // producers still open, per fifo

static void fin(fifo* f, int i) { if (--left[i] == 0) fifo_set_open(f, 0); }
static void produce(fifo* f, int who)
{
	for (int i = 0; i < N;) {
		if (!fifo_receivable(f)) { fifo_wait_for_get(f); continue; }
		if (SCN != 10 || fifo_add_try(f, &val[who][i])) fifo_add(f, &val[who][i]);
		++i;
	}
}
static void prod_a(void* p) { produce(&fa, 0); fin(&fa, 0); }
static void prod_a2(void* p) { produce(&fa, 1); fin(&fa, 0); }
static void prod_b(void* p) { produce(&fb, 1); fin(&fb, 1); }
static void block(fifo* f, int who, int q)
{
	vec v;
	vec_construct_(&v, int);
	for (int i = 0; i < N; ++i) vec_push_back(&v, &val[who][i]);
	while (v.size) {
		if (!fifo_receivable(f)) { fifo_wait_for_get(f); continue; }
		if (!TRY || fifo_nadd_try(f, &v)) fifo_nadd(f, &v);
	}
	vec_destroy(&v);
	fin(f, q);
}
static void prod_block(void* p) { block(&fa, 0, 0); }
static void prod_block_b(void* p) { block(&fb, 1, 1); }
static void prod_stop(void* p) // gives up when the consumer closes the queue
{
	for (int i = 0; i < N && fa.is_open;) {
		if (!fifo_receivable(&fa)) { if (fa.is_open && fifo_is_full(&fa)) fifo_wait_for_get(&fa); continue; }
		fifo_add(&fa, &val[0][i++]);
	}
}
static int got[2 * N], ngot;
static void take(int v) { CHECK(ngot < 2 * N); got[ngot++] = v; }
void harness(void)
{
	for (int i = 0; i < 2; ++i) for (int j = 0; j < N; ++j) { val[i][j] = vp_int("v"); vp_assume((val[i][j] & 1) == i); }
	fifo_construct_(&fa, int, vp_fix(vp_range(2, SCN == 5 ? 4 : 3, "slots")) + (TWO));
	fifo_construct_(&fb, int, 2);
	fa.input_count = TWO ? 2 : 1;
	fb.input_count = 1;
	left[0] = TWO ? 2 : 1;
	left[1] = 1;
	int total = N;
#if SCN == 1
	vp_spawn(prod_a, 0);
#elif TWO
	vp_spawn(prod_a, 0);
	vp_spawn(prod_a2, 0);
	total = 2 * N;
#elif SCN == 3 || SCN == 4
	vp_spawn(prod_a, 0);
	vp_spawn(prod_b, 0);
	total = 2 * N;
#elif SCN == 5
	vp_spawn(prod_block, 0);
#elif SCN == 8
	vp_spawn(prod_a, 0);
#elif SCN == 9
	vp_spawn(prod_block, 0);
	vp_spawn(prod_block_b, 0);
	total = 2 * N;
#elif SCN == 11 // the second queue stays open and empty until something came from the first
	vp_spawn(prod_block, 0);
#elif SCN == 12
	vp_spawn(prod_a, 0);
#elif SCN == 6
	vp_spawn(prod_a, 0);
#elif SCN == 7
	vp_spawn(prod_stop, 0);
#endif
#if SCN == 1 || TWO
	for (;;) { // iterate over what is there, then let producers continue
		int* it = fifo_begin(&fa);
		int any = 0;
		for (; it != fifo_end(&fa); it = fifo_iter(&fa)) { take(*it); any = 1; }
		if (any) { fifo_update(&fa); continue; }
		if (!fa.is_open && fifo_is_empty(&fa)) break;
		fifo_wait_for_add(&fa);
	}
#elif SCN == 3 || SCN == 9 || SCN == 11 || SCN == 12
	for (;;) {
		int open = fa.is_open | (fb.is_open << 1);
		int any = 0;
		if (!fifo_is_empty(&fa)) { take(*(int*)fifo_get(&fa)); any = 1; }
		if (!fifo_is_empty(&fb)) { take(*(int*)fifo_get(&fb)); any = 1; }
		if (any && SCN > 10 && fb.is_open && ngot == 2) fifo_set_open(&fb, 0);
		if (any) continue;
		if (!open) break;
		if (open == 3) fifo_wait_for_add_either(&fa, &fb);
		else if (open == 1) fifo_wait_for_add(&fa);
		else fifo_wait_for_add(&fb);
	}
#elif SCN == 4
	for (;;) {
		int open = fa.is_open && fb.is_open;
		if (!fifo_is_empty(&fa) && !fifo_is_empty(&fb)) { take(*(int*)fifo_get(&fa)); take(*(int*)fifo_get(&fb)); continue; }
		if (!open) break;
		fifo_wait_for_add_both(&fa, &fb);
	}
	for (;;) { int o = fa.is_open; if (!fifo_is_empty(&fa)) take(*(int*)fifo_get(&fa)); else if (o) fifo_wait_for_add(&fa); else break; }
	for (;;) { int o = fb.is_open; if (!fifo_is_empty(&fb)) take(*(int*)fifo_get(&fb)); else if (o) fifo_wait_for_add(&fb); else break; }
#elif SCN == 5
	vec v;
	vec_construct_(&v, int);
	for (;;) {
		int open = fa.is_open;
		vec_clear(&v);
		fifo_nget(&fa, &v, 1, 2);
		for (unsigned i = 0; i < v.size; ++i) take(*(int*)vec_at(&v, i));
		if (v.size) continue;
		if (!open) break;
		fifo_wait_for_add(&fa);
	}
	vec_destroy(&v);
#elif SCN == 8
	for (;;) {
		int open = fa.is_open;
		int* it = fifo_safe_peek(&fa);
		if (it) { take(*it); fifo_consume(&fa); continue; }
		if (!open) break;
		fifo_wait_for_add(&fa);
	}
#elif SCN == 6
	for (int i = 0; i < N; ++i) take(*(int*)fifo_get_or_wait(&fa));
#elif SCN == 7
	int stop = vp_fix(vp_range(0, N, "stop"));
	while (ngot < stop) { if (fifo_is_empty(&fa)) fifo_wait_for_add(&fa); else take(*(int*)fifo_get(&fa)); }
	fifo_set_open(&fa, 0);
	int* it = fifo_begin(&fa);
	for (; it != fifo_end(&fa); it = fifo_iter(&fa)) ;
	fifo_update(&fa);
	total = stop;
#endif
	CHECK(ngot == total);
	int k[2] = {0, 0};
	for (int i = 0; i < ngot; ++i) {
		int who = total > N ? (got[i] & 1) : 0;
		CHECK(k[who] < N);
		CHECKX(got[i] == val[who][k[who]]);
		++k[who];
	}
	vp_joinall();
	CHECK(SCN == 7 || fifo_is_empty(&fa));
	fifo_destroy(&fa);
	fifo_destroy(&fb);
	vp_obs(ngot);
}
