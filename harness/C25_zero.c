// Zero has two signs: a join, a grouping or a set of distinct values must treat -0 as the 0 it equals.
//@ lib
//@ fs
//@ nolabels
//@ cfg both hash -DQ=0
//@ cfg both cart -DQ=0 -DCART
//@ cfg both chain -DQ=1
//@ cfg both left -DQ=2
//@ samples 4
//@ inst 30000000
//@ bounds 4 joins over tables of 2 rows whose keys are any of 0, -0, -0.0 and 1, compared as fractions
//@ outside other keys and sizes
#include "e2e.h"
static const char* const sql[] = {
	"SELECT t.s, u.k FROM t JOIN u ON t.a * 1.0 = u.b * 1.0",
	"SELECT t.s, u.k FROM t JOIN u ON u.b + 0.0 = t.a * 1.0 JOIN t AS v ON v.a * 1.0 = u.b * 1.0 AND v.s = 'x'",
	"SELECT t.s, u.k FROM t LEFT JOIN u ON t.a * 1.0 = u.b * 1.0",
};
static const char* const key[] = {"0", "-0", "-0.0", "1"};
static const int val[] = {0, 0, 0, 1};
static struct et t, u;
void harness(void)
{
	int a[2], b[2];
	et_hdr(&t, "a,s");
	et_hdr(&u, "b,k");
	for (int r = 0; r < 2; ++r) {
		a[r] = val[et_any(&t, r, 0, 4, key)];
		et_str(&t, r, 1, r ? "y" : "x");
		b[r] = val[et_any(&u, r, 0, 4, key)];
		et_str(&u, r, 1, r ? "q" : "p");
	}
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
	fqlhandle* f = e2e_new();
#ifdef CART
	fql_set_force_cartesian(f, 1);
#endif
	int n = g_query(f, sql[Q]);
	CHECK(n >= 0);
	x_reset();
	for (int i = 0; i < 2; ++i) {
		int any = 0;
		for (int j = 0; j < 2; ++j) {
			if (a[i] != b[j] || (Q == 1 && b[j] != a[0])) continue;
			any = 1;
			x_c(i ? 'y' : 'x'); x_c('|'); x_c(j ? 'q' : 'p'); x_c('\n');
		}
		if (Q == 2 && !any) x_s(i ? "y|~\n" : "x|~\n");
	}
	CHECKX(x_api());
	fql_free(f);
}
