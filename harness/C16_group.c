// AND/OR/NOT trees: truth value, skipping the join condition, and choice of a join condition.
//@ lib
//@ nolabels
//@ cfg both n3 -DMAXP=3
//@ cfg both n4 -DMAXP=4
//@ time 400
//@ bounds every tree of AND and OR over up to 4 predicates, each negated or not, every truth assignment, every choice of the examined predicate
//@ outside larger trees
#include "vp.h"
#include "fq.h"
static logicgroup* leaf[MAXP];
static long val[MAXP];
static int neg[MAXP];
static int np, skip = -1, sval;
static logicgroup* tree(int n)
{
	if (n == 1) {
		logicgroup* g = new_(logicgroup, LG_PREDICATE);
		logic* l = g->condition = new_(logic);
		val[np] = vp_range(0, 1, "truth");
		g->negation = neg[np] = vp_fix(vp_range(0, 1, "not"));
		logic_add_expression(l, fq_int(val[np]));
		logic_add_expression(l, fq_int(1));
		logic_set_comparison(l, "=");
		CHECK(logic_assign_process(l, NULL) == FQL_GOOD);
		leaf[np++] = g;
		return g;
	}
	logicgroup* g = new_(logicgroup, vp_fix(vp_range(0, 1, "or")) ? LG_OR : LG_AND);
	int k = vp_fix(vp_range(1, n - 1, "left"));
	g->items[0] = tree(k);
	g->items[1] = tree(n - k);
	return g;
}
static int idx(logicgroup* g) { for (int i = 0; i < np; ++i) if (leaf[i] == g) return i; return -1; }
// truth value; predicate `skip`, when set, counts as satisfied
static int truth(logicgroup* g)
{
	if (g->type == LG_PREDICATE) { int i = idx(g); return i == skip ? 1 : (int)(val[i] ^ neg[i]); }
	int a = truth(g->items[0]), b = truth(g->items[1]);
	return g->type == LG_AND ? a & b : a | b;
}
void harness(void)
{
	int n = vp_fix(vp_range(1, MAXP, "n"));
	logicgroup* g = tree(n);
	CHECK(logicgroup_get_condition_count(g) == n);
	int r = logicgroup_eval(g, NULL, NULL), t = truth(g);
	CHECK(r == 0 || r == 1);
	CHECKX(r == t);
	int j = vp_fix(vp_range(0, n - 1, "pick"));
	logic* l = leaf[j]->condition;
	if (!logic_can_be_false(g, l)) {
		// the rows kept all satisfy this condition, so matching rows by it first loses none and admits none
		CHECKX(!t | (val[j] == 1));
		if (val[j] == 1) CHECK(logicgroup_eval(g, NULL, l) == r);
	}
	skip = j;
	CHECK(logicgroup_eval(g, NULL, l) == truth(g));
	delete_(logicgroup, g);
}
