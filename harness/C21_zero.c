// Groups of fractions: equal numbers are one group whatever the sign of zero.
//@ lib
//@ cfg both group -DQ=0
//@ cfg both distinct -DQ=1
//@ cfg both having -DQ=2
//@ fs
//@ nolabels
//@ samples 4
//@ inst 30000000
//@ bounds GROUP BY, DISTINCT and HAVING over 3 rows whose keys are any of 0, -0, 0.0, -0.0, 1 and -1, compared as fractions
//@ outside other keys and sizes
#include "e2e.h"
static const char* const sql[] = {
	"SELECT COUNT(*) AS c, SUM(n + 0) AS m FROM t GROUP BY a * 1.0",
	"SELECT q.d * 2 AS e FROM (SELECT DISTINCT a * 1.0 AS d FROM t) AS q",
	"SELECT COUNT(*) AS c, SUM(n + 0) AS m FROM t GROUP BY a * 1.0 HAVING COUNT(*) > 1",
};
static const char* const key[] = {"0", "-0", "0.0", "-0.0", "1", "-1"};
static const int val[] = {0, 0, 0, 0, 1, -1};
static struct et t;
void harness(void)
{
	int a[3];
	et_hdr(&t, "a,n");
	for (int r = 0; r < 3; ++r) {
		a[r] = val[et_any(&t, r, 0, 6, key)];
		et_str(&t, r, 1, r == 0 ? "1" : r == 1 ? "2" : "4");
	}
	et_put(&t, "t.csv");
	fqlhandle* f = e2e_new();
	int n = g_query(f, sql[Q]), g = 0;
	CHECK(n >= 0);
	x_reset();
	for (int i = 0; i < 3; ++i) {
		int first = 1, c = 0, m = 0;
		for (int j = 0; j < 3; ++j) { if (a[j] != a[i]) continue; if (j < i) first = 0; ++c; m += 1 << j; }
		if (!first) continue;
		++g;
		if (Q == 2 && c < 2) continue;
		x_int(c); x_c('|'); x_int(m); x_c('\n');
	}
	if (Q == 1) CHECK(n == g); else CHECKX(x_api());
	fql_free(f);
}
