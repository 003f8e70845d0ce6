// Traversal of the process graph: every node reachable from a root is visited, nothing else is, each
// one after a predecessor, and the traversal ends; again after a reset, and after removing a node.
//@ cfg both k3 -DK=3
//@ cfg both k4dag -DK=4 -DDAG
//@ cfg thorough k5dag -DK=5 -DDAG
//@ cfg thorough k4 -DK=4
//@ time 700
//@ bounds every directed graph of 1..3 nodes, every acyclic graph of 1..4 nodes (thorough: 4 and 5) with up to two successors each (possibly the same one twice), roots marked or derived
//@ outside larger graphs
#include "vp.h"
#include <dgraph.h>
#include <util.h>
#include <string.h>
static dgraph gb, *g;
static dnode* nd[K];
static int out[K][2]; // successor or -1
static int n, root[K], gone = -1;

static void walk(void)
{
	int reach[K] = {0}, seen[K] = {0};
	for (int i = 0; i < n; ++i) reach[i] = i != gone && root[i];
	for (int r = 0; r < n; ++r) for (int i = 0; i < n; ++i) if (reach[i]) for (int j = 0; j < 2; ++j) if (out[i][j] >= 0 && out[i][j] != gone) reach[out[i][j]] = 1;
	dgraph_traverse_reset(g);
	dnode* x;
	int steps = 0;
	while ((x = dgraph_traverse(g)) != NULL) {
		long id = (long)x->data - 1;
		CHECK(id >= 0 && id < n && x == nd[id] && id != gone);
		int pred = root[id];
		for (int i = 0; i < n; ++i) pred |= seen[i] && (out[i][0] == id || out[i][1] == id);
		CHECK(pred);
		CHECK(reach[id]);
		seen[id] = 1;
		CHECK(++steps <= 64);
	}
	for (int i = 0; i < n; ++i) CHECK(seen[i] == reach[i]);
	for (int i = 0; i < n; ++i) CHECK(i == gone || (nd[i]->visit_count > 0) == seen[i]);
}
void harness(void)
{
	long live = vp_live();
	g = dgraph_construct(&gb);
	n = vp_fix(vp_range(1, K, "n"));
	long split = vp_fix(vp_range(0, 1, "merge")) ? 1 : n; // the nodes from here on come from a second graph
	dgraph* g2 = split < n ? new_(dgraph) : NULL;
	for (long i = 0; i < n; ++i) { dgraph* x = i < split ? g : g2; nd[i] = dgraph_add_data(x, (void*)(i + 1)); CHECK(x->newest == nd[i]); }
	for (int i = 0; i < n; ++i) for (int j = 0; j < 2; ++j) {
#ifdef DAG
		out[i][j] = vp_fix(vp_range(i, n - 1, "succ"));
		if (out[i][j] == i) out[i][j] = -1;
#else
		out[i][j] = vp_fix(vp_range(-1, n - 1, "succ"));
#endif
		nd[i]->out[j] = out[i][j] < 0 ? NULL : nd[out[i][j]];
	}
	if (g2) { dgraph_consume(g, g2); vp_reach("merged"); }
	CHECK(g->nodes->size == (size_t)n);
	int indeg[K] = {0};
	for (int i = 0; i < n; ++i) for (int j = 0; j < 2; ++j) if (out[i][j] >= 0) ++indeg[out[i][j]];
	int nr = 0;
	if (vp_range(0, 1, "marked")) {
		root[0] = nd[0]->is_root = true;
		if (n > 1 && vp_range(0, 1, "second root")) root[n - 1] = nd[n - 1]->is_root = true;
		vp_reach("marked roots");
		nr = 1;
	} else for (int i = 0; i < n; ++i) nr += root[i] = indeg[i] == 0;
	if (!nr) return; // every node on or behind a cycle: not a plan
	walk();
	walk();
	vp_reach("walked");
	if (n > 1 && vp_range(0, 1, "remove")) {
		gone = n - 1;
		if (root[gone]) return;
		CHECK(dgraph_remove(g, vec_at(g->nodes, gone)) == (void*)(long)n);
		CHECK(g->nodes->size == (size_t)n - 1);
		for (int i = 0; i < n - 1; ++i) for (int j = 0; j < 2; ++j) CHECK(nd[i]->out[j] == (out[i][j] < 0 || out[i][j] == gone ? NULL : nd[out[i][j]]));
		walk();
		vp_reach("removed");
	}
	dgraph_destroy(g);
	CHECK(vp_live() == live);
}
