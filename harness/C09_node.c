// Doubly linked list as stack and queue against a reference sequence.
//@ cfg both o5 -DOPS=5
//@ cfg thorough o6 -DOPS=6
//@ time 500
//@ bounds every history of 5 (thorough 6) operations from the empty list: push, enqueue, pop, pop-export, dequeue, remove any, export and re-import any (front or back); data pointers arbitrary
//@ outside longer histories, allocation failure
#include "vp.h"
#include <util.h>
#include <node.h>
static long ref[8];
static int n;
static node* head;
static void same(void)
{
	CHECK(node_count(head) == n);
	CHECK((head == NULL) == (n == 0));
	node* p = NULL;
	int i = 0;
	for (node* x = head; x; p = x, x = x->next, ++i) {
		CHECK(i < n);
		CHECK(x->prev == p);
		CHECKX((long)x->data == ref[i]);
		CHECK(node_at(head, i) == x);
		CHECKX((long)node_data_at(head, i) == ref[i]);
		CHECK(node_top(x) == head && node_front(x) == head);
	}
	CHECK(node_back(head) == p && node_bottom(head) == p);
	CHECK(node_at(head, n) == NULL && node_data_at(head, n) == NULL);
}
static void del(int at) { for (int i = at; i + 1 < n; ++i) ref[i] = ref[i + 1]; --n; }
static void ins(int at, long v) { for (int i = n; i > at; --i) ref[i] = ref[i - 1]; ref[at] = v; ++n; }
void harness(void)
{
	long live = vp_live();
	for (int op = 0; op < OPS; ++op) {
		long v = vp_long("v");
		switch (vp_range(0, 6, "op")) {
		case 0: CHECK(node_push(&head, (void*)v) == head); ins(0, v); vp_reach("push"); break;
		case 1: { node* x = node_enqueue(&head, (void*)v); CHECK(x == node_back(head)); ins(n, v); vp_reach("enqueue"); break; }
		case 2: { long d = (long)node_pop(&head); if (!n) { CHECK(d == 0); break; } CHECKX(d == ref[0]); del(0); vp_reach("pop"); break; }
		case 3: { node* x = node_pop_export(&head); CHECK((x == NULL) == (n == 0)); if (!n) break; CHECKX((long)x->data == ref[0]); CHECK(x->next == NULL && x->prev == NULL); free(x); del(0); vp_reach("pop export"); break; }
		case 4: { if (!n) { CHECK(node_remove(&head, NULL) == NULL); break; } int at = vp_fix(vp_range(0, n - 1, "at")); CHECKX((long)node_remove(&head, node_at(head, at)) == ref[at]); del(at); vp_reach("remove"); break; }
		case 5: case 6: {
			if (!n) break;
			int at = vp_fix(vp_range(0, n - 1, "at"));
			node* x = node_at(head, at);
			if (x == head) x = node_pop_export(&head); else CHECK(node_export(x) == x);
			CHECK(x->next == NULL && x->prev == NULL);
			long d = ref[at];
			del(at);
			if (vp_range(0, 1, "elsewhere")) { // through another, empty list
				node* other = NULL;
				if (vp_range(0, 1, "queue")) node_enqueue_import(&other, x); else node_push_import(&other, x);
				CHECK(other == x && node_front(x) == x && node_back(x) == x && node_count(other) == 1);
				CHECK(node_pop_export(&other) == x && other == NULL);
				vp_reach("elsewhere");
			}
			if (vp_range(0, 1, "back")) { CHECK(node_enqueue_import(&head, x) == x); ins(n, d); vp_reach("import back"); }
			else { CHECK(node_push_import(&head, x) == x); ins(0, d); vp_reach("import front"); }
			break;
		}
		}
		same();
	}
	node_free(&head);
	CHECK(head == NULL);
	CHECK(vp_live() == live);
}
