// Growable array against a plain reference sequence: every history of OPS operations from every start
// length, every position and every element value.
//@ cfg both w4 -DES=4 -DOPS=2 -DPRE=4
//@ cfg both w1 -DES=1 -DOPS=2 -DPRE=4
//@ cfg both w12 -DES=12 -DOPS=1 -DPRE=5
//@ cfg thorough w4deep -DES=4 -DOPS=3 -DPRE=3
//@ time 600
//@ bounds any start length 0..PRE (4 or 5), then any OPS (1..3) operations out of push, pop, add at front, insert one, insert a run of 1..3 at an index or position, erase one or a run, append, extend, resize, resize with zeroing, reserve, shrink, clear, set one/run; element size 1, 4, 12; element bytes unconstrained
//@ outside longer histories, element sizes other than 1, 4 and 12, allocation failure
#include "vp.h"
#include <vec.h>
#include <string.h>
#define MAXN 24
static unsigned char ref[MAXN][ES];
static unsigned n;

static void ins(unsigned at, unsigned char (*src)[ES], unsigned k)
{
	for (unsigned i = n; i-- > at;) memcpy(ref[i + k], ref[i], ES);
	for (unsigned i = 0; i < k; ++i) memcpy(ref[at + i], src[i], ES);
	n += k;
}
static void del(unsigned at, unsigned k)
{
	for (unsigned i = at; i + k < n; ++i) memcpy(ref[i], ref[i + k], ES);
	n -= k;
}
static void same(vec* v)
{
	CHECK(v->size == n);
	CHECK(vec_empty(v) == (n == 0));
	CHECK(vec_begin(v) == vec_at(v, 0));
	CHECK(vec_end(v) == vec_at(v, n));
	if (n) CHECK(vec_back(v) == vec_at(v, n - 1));
	for (unsigned i = 0; i < n; ++i) {
		unsigned char* p = vec_at(v, i);
		for (unsigned j = 0; j < ES; ++j) CHECKX(p[j] == ref[i][j]);
	}
	volatile unsigned char* e = vec_end(v); // one element past the end is always allocated
	(void)e[ES - 1];
}
void harness(void)
{
	long live = vp_live();
	vec vv, *v = vec_construct(&vv, ES);
	vec uu, *u = vec_construct(&uu, ES);
	unsigned char x[3][ES];
	unsigned pre = vp_fix(vp_range(0, PRE, "pre"));
	for (unsigned i = 0; i < pre; ++i) {
		vp_sym(x[0], ES, "e");
		vec_push_back(v, x[0]);
		ins(n, x, 1);
	}
	same(v);
	for (int op = 0; op < OPS; ++op) {
		for (int i = 0; i < 3; ++i) vp_sym(x[i], ES, "x");
		switch (vp_range(0, 17, "op")) {
		case 0: vec_push_back(v, x[0]); ins(n, x, 1); vp_reach("push"); break;
		case 1: {
			unsigned char* p = vec_pop_back(v);
			CHECK((p == NULL) == (n == 0));
			if (p) { for (unsigned j = 0; j < ES; ++j) CHECKX(p[j] == ref[n - 1][j]); --n; }
			vp_reach("pop");
			break;
		}
		case 2: { void* p = vec_add_one_front(v); CHECK(p == vec_begin(v)); memcpy(p, x[0], ES); ins(0, x, 1); vp_reach("front"); break; }
		case 3: { unsigned at = vp_fix(vp_range(0, n, "at")); vec_insert_one(v, vec_at(v, at), x[0]); ins(at, x, 1); vp_reach("insert one"); break; }
		case 4: { unsigned at = vp_fix(vp_range(0, n, "at")), k = vp_fix(vp_range(1, 3, "k")); vec_insert_at(v, at, x, k); ins(at, x, k); vp_reach("insert run at"); break; }
		case 5: { unsigned at = vp_fix(vp_range(0, n, "at")), k = vp_fix(vp_range(0, 3, "k")); vec_insert(v, vec_at(v, at), x, k); ins(at, x, k); vp_reach("insert run"); break; }
		case 6: { if (!n) return; unsigned at = vp_fix(vp_range(0, n - 1, "at")); vec_erase_one(v, vec_at(v, at)); del(at, 1); vp_reach("erase one"); break; }
		case 7: { if (!n) return; unsigned at = vp_fix(vp_range(0, n - 1, "at")), k = vp_fix(vp_range(1, n - at, "k")); vec_erase_at(v, at, k); del(at, k); vp_reach("erase run at"); break; }
		case 8: { if (!n) return; unsigned at = vp_fix(vp_range(0, n - 1, "at")), k = vp_fix(vp_range(0, n - at, "k")); vec_erase(v, vec_at(v, at), k); del(at, k); vp_reach("erase run"); break; }
		case 9: { unsigned k = vp_fix(vp_range(0, 3, "k")); vec_append(v, x, k); ins(n, x, k); vp_reach("append"); break; }
		case 10: { unsigned k = vp_fix(vp_range(0, 3, "k")); vec_clear(u); for (unsigned i = 0; i < k; ++i) vec_push_back(u, x[i]); vec_extend(v, u); ins(n, x, k); CHECK(u->size == k); vp_reach("extend"); break; }
		case 11: { // resize: the kept prefix is unchanged; new elements are writable
			unsigned k = vp_fix(vp_range(0, 7, "k"));
			vec_resize(v, k);
			for (unsigned i = n; i < k; ++i) { memcpy(vec_at(v, i), x[0], ES); memcpy(ref[i], x[0], ES); }
			n = k;
			vp_reach("resize");
			break;
		}
		case 12: vec_reserve(v, vp_fix(vp_range(0, 9, "k"))); vp_reach("reserve"); break;
		case 13: vec_shrink_to_fit(v); vp_reach("shrink"); break;
		case 14: vec_clear(v); n = 0; vp_reach("clear"); break;
		case 15: { if (!n) return; unsigned at = vp_fix(vp_range(0, n - 1, "at")); vec_set_one(v, vec_at(v, at), x[0]); memcpy(ref[at], x[0], ES); vp_reach("set one"); break; }
		case 16: { if (!n) return; unsigned at = vp_fix(vp_range(0, n - 1, "at")), k = vp_fix(vp_range(1, n - at < 3 ? n - at : 3, "k")); vec_set_at(v, at, x, k); for (unsigned i = 0; i < k; ++i) memcpy(ref[at + i], x[i], ES); vp_reach("set run"); break; }
		case 17: { // resize and zero: what is new is zero
			unsigned k = vp_fix(vp_range(0, 7, "k"));
			vec_resize_and_zero(v, k);
			for (unsigned i = n; i < k; ++i) memset(ref[i], 0, ES);
			n = k;
			vp_reach("resize and zero");
			break;
		}
		}
		same(v);
	}
	vec_destroy(v);
	vec_destroy(u);
	CHECK(vp_live() == live);
}
