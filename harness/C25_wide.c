// A record that joins many others: every partner is found, in order, whatever comes before and after it.
//@ lib
//@ fs
//@ nolabels
//@ cfg both in -DQ=0 -DR=6
//@ cfg both left -DQ=1 -DR=6
//@ cfg both num -DQ=2 -DR=6
//@ cfg both three -DQ=3 -DR=5
//@ cfg both self -DQ=4 -DR=5
//@ cfg both ne -DQ=5 -DR=5
//@ cfg both cart -DQ=0 -DR=6 -DCART=1
//@ cfg both two -DQ=6 -DR=5
//@ cfg both in1 -DQ=0 -DR=6 -DPF=1
//@ cfg both three1 -DQ=3 -DR=5 -DPF=1
//@ cfg thorough in9 -DQ=0 -DR=9
//@ cfg thorough left9 -DQ=1 -DR=9
//@ inst 30000000
//@ samples 4
//@ bounds 7 joins of a table of 2 rows with one of 5 or 6 (thorough 9) whose keys are any of two values, so that a record has any number of partners; hash and cartesian plans, pipe factor 1
//@ outside more partners
#define ER 12
#include "e2e.h"
static const char* const sql[] = {
	"SELECT t.s, u.k FROM t JOIN u ON t.a = u.b",
	"SELECT t.s, u.k FROM t LEFT JOIN u ON t.a = u.b",
	"SELECT t.s, u.k FROM t JOIN u ON t.a + 0 = u.b + 0 WHERE u.k <> 'D'",
	"SELECT t.s, u.k, w.k FROM t JOIN u ON t.a = u.b JOIN u AS w ON w.b = u.b",
	"SELECT x.k, y.k FROM u AS x JOIN u AS y ON x.b = y.b",
	"SELECT t.s, u.k FROM t JOIN u ON t.a <> u.b",
	"SELECT t.s, u.k FROM t LEFT JOIN u ON t.a = u.b AND u.b = t.c",
};
static struct et t, u;
static int k;
#define A(r) (t.c[r][1][0])
#define C(r) (t.c[r][2][0])
#define B(r) (u.c[r][1][0])
static void row(char a, char b, char c) { ++k; x_c(a); x_c('|'); x_c(b); if (c) x_c('|'), x_c(c); x_c('\n'); }
void harness(void)
{
	et_hdr(&t, "s,a,c");
	et_hdr(&u, "k,b");
	for (int r = 0; r < 2; ++r) {
		et_str(&t, r, 0, r ? "q" : "p");
		if (r) { et_ch(&t, r, 1, '1', '2'); A(r) = vp_fix(A(r)); } else et_str(&t, r, 1, "1");
		et_str(&t, r, 2, "1");
	}
	for (int r = 0; r < R; ++r) {
		char d[2] = {'A' + r, 0};
		et_str(&u, r, 0, d);
		et_ch(&u, r, 1, '1', '2');
		B(r) = vp_fix(B(r));
	}
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
	fqlhandle* f = e2e_new();
#ifdef CART
	fql_set_force_cartesian(f, 1);
#endif
#ifdef PF
	fql_set_pipe_factor(f, PF);
#endif
	int n = g_query(f, sql[Q]);
	x_reset();
	for (int i = 0; i < (Q == 4 ? R : 2); ++i) {
		int any = 0;
		for (int j = 0; j < R; ++j) switch (Q) {
		case 0: case 1: if (A(i) == B(j)) any = 1, row('p' + i, 'A' + j, 0); break;
		case 2: if (A(i) == B(j) && j != 3) row('p' + i, 'A' + j, 0); break;
		case 3: if (A(i) == B(j)) for (int l = 0; l < R; ++l) if (B(l) == B(j)) row('p' + i, 'A' + j, 'A' + l); break;
		case 4: if (B(i) == B(j)) row('A' + i, 'A' + j, 0); break;
		case 5: if (A(i) != B(j)) row('p' + i, 'A' + j, 0); break;
		case 6: if (A(i) == B(j) && B(j) == C(i)) any = 1, row('p' + i, 'A' + j, 0); break;
		}
		if (!any && (Q == 1 || Q == 6)) row('p' + i, '~', 0);
	}
	vp_obs(n);
	CHECK(n == k);
	CHECKX(x_api());
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
