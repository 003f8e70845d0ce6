// COUNT, MIN, MAX, SUM and AVG over one group of R records; NULL arguments are left out.
//@ lib
//@ ub
//@ nolabels
//@ cfg both count -DFN=AGG_COUNT -DT=0 -DR=3
//@ cfg both count_s -DFN=AGG_COUNT -DT=2 -DR=3
//@ cfg both countall -DFN=AGG_COUNT -DT=0 -DR=3 -DALL
//@ cfg both min_i -DFN=AGG_MIN -DT=0 -DR=3
//@ cfg both max_i -DFN=AGG_MAX -DT=0 -DR=3
//@ cfg both sum_i -DFN=AGG_SUM -DT=0 -DR=3
//@ cfg both avg_i -DFN=AGG_AVG -DT=0 -DR=2
//@ cfg both min_f -DFN=AGG_MIN -DT=1 -DR=3
//@ cfg both max_f -DFN=AGG_MAX -DT=1 -DR=3
//@ cfg both sum_f -DFN=AGG_SUM -DT=1 -DR=3
//@ cfg both avg_f -DFN=AGG_AVG -DT=1 -DR=2
//@ cfg both min_s -DFN=AGG_MIN -DT=2 -DR=3
//@ cfg both max_s -DFN=AGG_MAX -DT=2 -DR=3
//@ cfg both avg3_i -DFN=AGG_AVG -DT=0 -DR=3
//@ cfg both avg4_i -DFN=AGG_AVG -DT=0 -DR=4
//@ cfg both avg3_f -DFN=AGG_AVG -DT=1 -DR=3
//@ cfg thorough min4_i -DFN=AGG_MIN -DT=0 -DR=4
//@ cfg thorough max4_i -DFN=AGG_MAX -DT=0 -DR=4
//@ cfg thorough sum4_i -DFN=AGG_SUM -DT=0 -DR=4
//@ cfg thorough min4_s -DFN=AGG_MIN -DT=2 -DR=4
//@ cfg thorough max4_s -DFN=AGG_MAX -DT=2 -DR=4
//@ time 400
//@ bounds groups of 1 to 3 records (thorough 4; AVG 2, thorough 3), any of them NULL, every 64-bit integer (AVG -20..20), every double but NaN, texts of up to 2 letters over a A b blank
//@ outside larger groups, intermediate sums out of range
#include "vp.h"
#include "fq.h"
#include <group.h>
#include <stdio.h>
static const char A[] = "aAb ";
static long bits(double d) { long b; memcpy(&b, &d, 8); return b; }
static int low(int c) { return c == 'A' ? 'a' : c; }
static int cmp(const char* a, int an, const char* b, int bn)
{
	for (int i = 0; i < 2; ++i) {
		int x = i < an ? low(a[i]) : ' ', y = i < bn ? low(b[i]) : ' ';
		if (x == ' ' && i < an) { int all = 1; for (int j = i; j < an; ++j) all &= a[j] == ' '; if (all) x = 0; }
		else if (i >= an) x = 0;
		if (y == ' ' && i < bn) { int all = 1; for (int j = i; j < bn; ++j) all &= b[j] == ' '; if (all) y = 0; }
		else if (i >= bn) y = 0;
		if (x != y) return x < y ? -1 : 1;
	}
	return 0;
}
void harness(void)
{
	group* g = new_(group);
	aggregate* ag = new_(aggregate, FN);
	vec_push_back(&g->aggregates, &ag);
	expression* ge = new_(expression, EXPR_AGGREGATE, ag, "");
	group_add_expression(g, ge);
	expression* arg = T == 0 ? fq_int(0) : T == 1 ? fq_float(0) : fq_col(fq_source(0, 0));
#ifndef ALL
	aggregate_add_expression(ag, arg);
#endif
	CHECK(aggregate_resolve(ag, ge) == FQL_GOOD);
	CHECK(ge->field_type == (FN == AGG_COUNT ? FIELD_INT : T == 0 ? FIELD_INT : T == 1 ? FIELD_FLOAT : FIELD_STRING));
	int n = vp_fix(vp_range(1, R, "records")), used = 0, over = 0, failed = 0;
	long v[R], xi = 0;
	double d[R], xd = 0;
	char s[R][2];
	int sn[R], nul[R];
	for (int i = 0; i < n; ++i) {
		nul[i] = vp_fix(vp_range(0, 1, "null"));
		record* r = fq_rec(0);
		if (T == 0) {
			v[i] = FN == AGG_AVG ? vp_range(-20, 20, "v") : vp_long("v");
			arg->expr = nul[i] ? EXPR_NULL : EXPR_CONST;
			arg->field.i = v[i];
		} else if (T == 1) {
			vp_sym(&d[i], sizeof(double), "d");
			vp_assume(d[i] == d[i]);
			arg->expr = nul[i] ? EXPR_NULL : EXPR_CONST;
			arg->field.f = d[i];
		} else {
			sn[i] = vp_fix(vp_range(0, 2, "len"));
			for (int j = 0; j < sn[i]; ++j) s[i][j] = A[vp_range(0, 3, "ch")];
			if (!nul[i]) fq_field(r, s[i], sn[i]);
		}
		node* rg = NULL;
		node_enqueue(&rg, r);
		if (T == 0 && FN == AGG_SUM && !nul[i]) over |= __builtin_saddl_overflow(xi, v[i], &xi);
		int rc = group_record(g, rg);
		if (rc == FQL_FAIL) { failed = 1; break; }
		CHECK(rc == (i == 0));
#ifndef ALL
		if (nul[i]) continue;
#endif
		++used;
		if (T == 0 && FN == AGG_AVG) xi += v[i];
		if (T == 1) xd += d[i];
		if (over) break;
	}
	if (FN == AGG_SUM && T == 0) {
		if (over && !failed) { // the running sum has left the range on the last record seen
			CHECK(!"sum out of range not reported");
		}
		CHECKX((failed != 0) == (over != 0));
		if (failed) return;
	}
	CHECK(!failed);
	struct aggresult* res = vec_at(&ag->results, 0);
	if (FN == AGG_COUNT) {
		record* out = fq_rec(0);
		CHECK(group_dump_record(g, out) == FQL_GOOD);
		node* rg = NULL;
		node_enqueue(&rg, out);
		CHECK(out->fields.size == 1);
		expression* c = fq_col(ge);
		ge->src_idx = 0;
		long k = -1;
		CHECK(expression_get_int(&k, c, rg) == FQL_GOOD);
		CHECK(k == used);
		CHECK(group_dump_record(g, out) != FQL_GOOD);
		return;
	}
	if (used == 0) { // nothing to aggregate is NULL
		record* out = fq_rec(0);
		CHECK(group_dump_record(g, out) == FQL_GOOD);
		node* rg = NULL;
		node_enqueue(&rg, out);
		expression* c = fq_col(ge);
		ge->src_idx = 0;
		long k;
		double q;
		stringview sv;
		CHECK((T == 0 ? expression_get_int(&k, c, rg) : T == 1 ? expression_get_float(&q, c, rg) : expression_get_stringview(&sv, c, rg)) == FQL_NULL);
		return;
	}
	if (T == 0) {
		if (FN == AGG_SUM) CHECK(res->data.i == xi);
		if (FN == AGG_AVG) CHECK(res->data.i == (xi / used));
		if (FN == AGG_MIN || FN == AGG_MAX) {
			int among = 0, bound = 1;
			for (int i = 0; i < n; ++i) if (!nul[i]) {
				among |= res->data.i == v[i];
				bound &= FN == AGG_MIN ? res->data.i <= v[i] : res->data.i >= v[i];
			}
			CHECKX(among & bound);
		}
	} else if (T == 1) {
		double q = res->data.f;
		if (FN == AGG_SUM) CHECKX((bits(q) == bits(xd)) | (q == xd) | ((q != q) & (xd != xd)));
		if (FN == AGG_AVG) { double w = used == 1 ? xd : xd / used; CHECKX((bits(q) == bits(w)) | (q == w) | ((q != q) & (w != w))); }
		if (FN == AGG_MIN || FN == AGG_MAX) {
			int among = 0, bound = 1;
			for (int i = 0; i < n; ++i) if (!nul[i]) {
				among |= q == d[i];
				bound &= FN == AGG_MIN ? q <= d[i] : q >= d[i];
			}
			CHECKX(among & bound);
		}
	} else {
		record* out = fq_rec(0);
		CHECK(group_dump_record(g, out) == FQL_GOOD);
		stringview* q = vec_at(&out->fields, 0);
		CHECK(q->len <= 2);
		int among = 0;
		for (int i = 0; i < n; ++i) if (!nul[i]) {
			int eq = q->len == sn[i];
			for (int j = 0; eq && j < sn[i]; ++j) eq = q->data[j] == s[i][j];
			among |= eq;
			int c = cmp(q->data, q->len, s[i], sn[i]);
			CHECK(FN == AGG_MIN ? c <= 0 : c >= 0);
		}
		CHECK(among);
	}
	delete_(group, g);
}
