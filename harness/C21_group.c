// GROUP BY and DISTINCT: records fall into the same group exactly when their keys are equal, groups keep the order of first appearance.
//@ lib
//@ nolabels
//@ cfg both one -DK=1 -DR=3 -DL=2
//@ cfg both two -DK=2 -DR=2 -DL=1
//@ cfg both agg_first -DK=2 -DR=2 -DL=1 -DFIRST
//@ cfg both num -DK=1 -DR=2 -DL=0 -DNUM -DWIN=11
//@ cfg thorough num3 -DK=1 -DR=3 -DL=0 -DNUM -DWIN=11
//@ cfg both fnull -DK=2 -DR=2 -DL=1 -DFNULL
//@ cfg both again -DK=1 -DR=2 -DL=1 -DAGAIN
//@ cfg both distinct -DK=1 -DR=3 -DL=2 -DDISTINCT
//@ cfg both rownum -DK=2 -DR=2 -DL=1 -DROWNUM
//@ cfg both nokey -DK=0 -DR=3 -DL=0
//@ cfg thorough two3 -DK=2 -DR=3 -DL=1
//@ cfg thorough one4 -DK=1 -DR=4 -DL=1
//@ cfg thorough distinct4 -DK=1 -DR=4 -DL=1 -DDISTINCT
//@ time 400
//@ bounds up to 3 records (thorough 4) with one or two key columns of up to 2 letters over a A b blank, any of them missing, or integers -11..11 as key; keys from functions that give NULL; the group list reused after a reset
//@ outside more records, other letters, float keys (compared as printed), keys that differ only in NULL against empty text or zero
#include "vp.h"
#include "fq.h"
#include <group.h>
static const char A[] = "aAb ";
typedef struct { char s[2]; int n, nul; } key;
static int low(int c) { return c == 'A' ? 'a' : c; }
static int trim(const key* k) { int n = k->n; while (n > 0 && k->s[n - 1] == ' ') --n; return n; }
static int same(const key* a, const key* b)
{
	int n = trim(a), m = trim(b);
	if (n != m) return 0;
	for (int i = 0; i < n; ++i) if (low(a->s[i]) != low(b->s[i])) return 0;
	return 1;
}
static void fill(key* k)
{
	k->nul = 0;
	k->n = vp_fix(vp_range(0, L, "len"));
	for (int i = 0; i < k->n; ++i) { int c = vp_fix(vp_range(0, 3, "ch")); k->s[i] = A[c]; }
}
static expression* keys[2];
static expression* cnt;
static unsigned rownum;
static void mkgroup(group* g)
{
	aggregate* ag = new_(aggregate, AGG_COUNT);
	cnt = new_(expression, EXPR_AGGREGATE, ag, "");
#ifdef FIRST
	vec_push_back(&g->aggregates, &ag);
	group_add_expression(g, cnt);
	CHECK(aggregate_resolve(ag, cnt) == FQL_GOOD);
#endif
	for (int i = 0; i < K; ++i) {
#ifdef NUM
		keys[i] = fq_int(0);
#elif defined(FNULL)
		keys[i] = i == 1 ? fq_call(SCALAR_LEFT, 0, fq_col(fq_source(0, i)), fq_int(1), NULL) : fq_col(fq_source(0, i));
#else
		keys[i] = fq_col(fq_source(0, i));
#endif
		group_add_expression(g, keys[i]);
#ifdef ROWNUM
		if (i == 0) {
			expression* e = new_(expression, EXPR_ROW_NUMBER, "__rownum", "");
			e->rownum_ref = &rownum;
			group_add_expression(g, e);
		}
#endif
	}
#if !defined(FIRST) && !defined(DISTINCT)
	vec_push_back(&g->aggregates, &ag);
	group_add_expression(g, cnt);
	CHECK(aggregate_resolve(ag, cnt) == FQL_GOOD);
#endif
}
static void round_(group* g, int rounds)
{
	int n = vp_fix(vp_range(1, R, "records"));
	key k[R][2];
	long num[R];
	int first[R], count[R], groups = 0;
	for (int i = 0; i < n; ++i) {
		record* r = fq_rec(0);
		for (int j = 0; j < K; ++j) {
#ifdef NUM
			num[i] = vp_fix(vp_range(-WIN, WIN, "num"));
			keys[0]->field.i = num[i];
#else
			fill(&k[i][j]);
			if (j == K - 1 && k[i][j].n == 0 && vp_fix(vp_range(0, 1, "missing"))) k[i][j].nul = 1;
			else fq_field(r, k[i][j].s, k[i][j].n);
#endif
		}
		int at = -1;
		for (int q = 0; q < groups && at < 0; ++q) {
			int eq = 1;
#ifdef NUM
			eq = num[first[q]] == num[i];
#elif defined(FNULL)
			eq = same(&k[first[q]][0], &k[i][0]) && same(&k[first[q]][1], &k[i][1]);
#else
			for (int j = 0; j < K; ++j) eq &= same(&k[first[q]][j], &k[i][j]);
#endif
			if (eq) at = q;
		}
		node* rg = NULL;
		node_enqueue(&rg, r);
		int rc = group_record(g, rg);
		CHECK(rc == (at < 0));
		if (at < 0) { first[groups] = i; count[groups++] = 1; }
		else ++count[at];
	}
#ifdef DISTINCT
	return;
#endif
	for (int q = 0; q < groups; ++q) {
		record* out = fq_rec(0);
		CHECK(group_dump_record(g, out) == FQL_GOOD);
		node* rg = NULL;
		node_enqueue(&rg, out);
		CHECK(out->fields.size == g->expressions.size);
		cnt->src_idx = 0;
		long c = -1;
		expression* ce = fq_col(cnt);
		CHECK(expression_get_int(&c, ce, rg) == FQL_GOOD);
		CHECK(c == count[q]);
		for (int j = 0; j < K; ++j) {
#ifdef NUM
			keys[j]->src_idx = 0;
			long v = 99;
			expression* ke = fq_col(keys[j]);
			CHECK(expression_get_int(&v, ke, rg) == FQL_GOOD);
			CHECK(v == num[first[q]]);
#else
			const key* w = &k[first[q]][j];
			stringview* sv = vec_at(&out->fields, keys[j]->index);
			CHECK(sv->len == w->n);
			for (int i = 0; i < w->n; ++i) CHECK(sv->data[i] == w->s[i]);
#endif
		}
#ifdef ROWNUM
		stringview* sv = vec_at(&out->fields, 1);
		CHECK(sv->len == 1 && sv->data[0] == '1' + q);
#endif
	}
	record* end = fq_rec(0);
	CHECK(group_dump_record(g, end) != FQL_GOOD);
}
void harness(void)
{
	group* g = new_(group);
	mkgroup(g);
	round_(g, 0);
#ifdef AGAIN
	CHECK(group_reset(g) == FQL_GOOD);
	round_(g, 1);
#endif
}
