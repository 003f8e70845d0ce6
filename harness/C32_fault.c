// Statements that fail part way: every file is as before or complete, nothing is left behind.
//@ lib
//@ fs
//@ nolabels
//@ samples 4
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both q18 -DQ=18
//@ cfg both q19 -DQ=19
//@ cfg both q20 -DQ=20
//@ cfg both q21 -DQ=21
//@ bounds 22 scripts that write files, over a table of 3 rows and one of 2; any one of the first 24 operations on files (open, create, flush, close, rename, temporary file) fails, or none does; cells that do and do not convert to a number
//@ outside two faults in one run; failing reads and failing memory; signals
#include "e2e.h"
#define MAXF 24
static const char* const sql[] = {
	[0] = "SELECT s, n INTO [o.csv] FROM t WHERE n <> '2'",
	[1] = "SELECT s, n INTO [o.csv] FROM t ORDER BY s DESC",
	[2] = "SELECT s INTO [t.csv] FROM t WHERE n = '1'",
	[3] = "SELECT n INTO [t.csv] FROM t ORDER BY s DESC",
	[4] = "DELETE FROM t WHERE n = '1'",
	[5] = "UPDATE t SET s = 'w' WHERE n <> '1'",
	[6] = "UPDATE t SET n = n + 1",
	[7] = "DELETE FROM t WHERE n + 1 = 2",
	[8] = "SELECT n + 1 AS m INTO [t.csv] FROM t",
	[9] = "SELECT n + 1 AS m INTO [t.csv] FROM t ORDER BY m",
	[10] = "UPDATE t SET s = q.k FROM t JOIN (SELECT k, n FROM u) AS q ON t.n = q.n",
	[11] = "SELECT s INTO [o.csv] FROM t WHERE n = '1' UNION ALL SELECT k FROM u ORDER BY s",
	[12] = "DELETE FROM t WHERE n IN (SELECT n FROM u WHERE k = 'z'); SELECT s INTO [o.csv] FROM t",
	[13] = "SELECT n, COUNT(*) AS c INTO [o.csv] FROM t GROUP BY n ORDER BY n",
	[14] = "SELECT s INTO #w FROM t WHERE n = '1'; SELECT s INTO [o.csv] FROM #w",
	// fixed width: a (1 byte), n (1 byte)
	[15] = "DELETE x FROM fx.f AS x WHERE n = '1'",
	[16] = "UPDATE x SET n = '7' FROM fx.f AS x WHERE n = '2'",
	[17] = "UPDATE x SET n = '77' FROM fx.f AS x WHERE n = '2'",
	[18] = "SELECT a, n INTO [o.csv] FROM fx.f WHERE n = '1'",
	[19] = "SELECT a, n INTO [o.csv] FROM fx.f ORDER BY a DESC",
	[20] = "SELECT f.a, q.k INTO [o.csv] FROM fx.f AS f JOIN (SELECT k, n FROM u) AS q ON f.n = q.n",
	// a condition that fails for some row, after rows were written
	[21] = "DELETE FROM t WHERE 6 / n = 3",
};
static struct et t, u;
static char tb[128];
static int tn;
static int old(const char* name) { size_t n; const char* d = vfs_get(name, &n); if (!d || n != (size_t)tn) return 0; int ok = 1; for (int i = 0; i < tn; ++i) ok &= d[i] == tb[i]; return ok; }
static void row(int r) { x_cell(&t, r, 0); x_c(','); x_cell(&t, r, 1); x_c('\n'); }
void harness(void)
{
	et_hdr(&t, "s,n");
	et_hdr(&u, "k,n");
	static const char* const num[] = {"1", "2", "x"};
	int conv = (Q >= 6 && Q <= 9) || Q == 21, fx = Q >= 15 && Q <= 20; // cells that do not convert make it fail half way
	int n[3], bad = 0;
	for (int r = 0; r < 3; ++r) {
		char d[2] = {'a' + r, 0};
		et_str(&t, r, 0, d);
		if (conv || r < 2) n[r] = et_any(&t, r, 1, conv ? 3 : 2, num) + 1; else { et_str(&t, r, 1, "1"); n[r] = 1; }
		if (conv && n[r] == 3) bad = 1;
	}
	et_str(&u, 0, 0, "z"), et_str(&u, 0, 1, "2");
	et_str(&u, 1, 0, "y"), et_str(&u, 1, 1, "3");
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
	tn = et_text(&t, tb);
	if (fx) {
		static const char sc[] = "a,1,char\nn,1,char\n";
		vfs_put("s/fx", sc, sizeof(sc) - 1);
		for (int r = 0; r < 3; ++r) { tb[2 * r] = 'a' + r; tb[2 * r + 1] = '0' + n[r]; }
		vfs_put("f.dat", tb, tn = 6);
		if (Q == 17 && (n[0] == 2 || n[1] == 2)) bad = 1; // does not fit
	}
	int into = Q <= 1 || (Q >= 11 && Q <= 14) || (Q >= 18 && Q <= 20), over = 0, self = Q == 2 || Q == 3 || Q == 8 || Q == 9, exists = 0;
	static const char was[] = "old,file\n1,2\n";
	if (into) over = exists = vp_fix(vp_range(0, 1, "exists"));
	if (exists) vfs_put("o.csv", was, sizeof(was) - 1);
	if (self) over = 1;
	fqlhandle* h = e2e_new();
	if (over) fql_set_overwrite(h, 1);
	if (fx) fql_set_schema_path(h, "s");
	int files = vfs_count();
	int at = vp_fix(vp_range(0, MAXF, "fault"));
	vfs_fail_at = at;
	int rc = fql_exec(h, sql[Q]);
	int hit = at > 0 && vfs_fail_at == 0;
	vfs_fail_at = 0;
	fql_free(h);
	CHECK(vfs_open_files() == 0);
	CHECK(rc == (hit || bad ? FQL_FAIL : FQL_GOOD));
	// what the statement makes of the file it writes
	const char* src = fx ? "f.dat" : "t.csv", *file = into ? "o.csv" : src;
	x_reset();
	switch (Q) {
	case 0: x_s("s,n\n"); for (int r = 0; r < 3; ++r) if (n[r] != 2) row(r); break;
	case 1: x_s("s,n\n"); for (int r = 2; r >= 0; --r) row(r); break;
	case 2: case 14: x_s("s\n"); for (int r = 0; r < 3; ++r) if (n[r] == 1) x_cell(&t, r, 0), x_c('\n'); break;
	case 3: x_s("n\n"); for (int r = 2; r >= 0; --r) x_cell(&t, r, 1), x_c('\n'); break;
	case 4: x_s("s,n\n"); for (int r = 0; r < 3; ++r) if (n[r] != 1) row(r); break;
	case 5: x_s("s,n\n"); for (int r = 0; r < 3; ++r) if (n[r] == 1) row(r); else x_s("w,"), x_int(n[r]), x_c('\n'); break;
	case 6: x_s("s,n\n"); for (int r = 0; r < 3; ++r) x_cell(&t, r, 0), x_c(','), x_int(n[r] + 1), x_c('\n'); break;
	case 7: x_s("s,n\n"); for (int r = 0; r < 3; ++r) if (n[r] != 1) row(r); break;
	case 8: x_s("m\n"); for (int r = 0; r < 3; ++r) x_int(n[r] + 1), x_c('\n'); break;
	case 9: x_s("m\n"); for (int k = 1; k <= 2; ++k) for (int r = 0; r < 3; ++r) if (n[r] == k) x_int(k + 1), x_c('\n'); break;
	case 10: x_s("s,n\n"); for (int r = 0; r < 3; ++r) if (n[r] == 2) x_s("z,2\n"); else row(r); break;
	case 11: x_s("s\n"); for (int r = 0; r < 3; ++r) if (n[r] == 1) x_cell(&t, r, 0), x_c('\n'); x_s("y\nz\n"); break;
	case 12: x_s("s\n"); for (int r = 0; r < 3; ++r) if (n[r] != 2) x_cell(&t, r, 0), x_c('\n'); break;
	case 13: x_s("n,c\n"); for (int k = 1; k <= 2; ++k) { int c = (n[0] == k) + (n[1] == k) + (n[2] == k); if (c) x_int(k), x_c(','), x_int(c), x_c('\n'); } break;
	}
	switch (Q) {
	case 15: case 18: for (int r = 0; r < 3; ++r) if ((n[r] == 1) == (Q == 18)) x_c('a' + r), x_int(n[r]); break;
	case 16: for (int r = 0; r < 3; ++r) x_c('a' + r), x_int(n[r] == 2 ? 7 : n[r]); break;
	case 17: for (int r = 0; r < 3; ++r) x_c('a' + r), x_int(n[r]); break;
	case 19: for (int r = 2; r >= 0; --r) x_c('a' + r), x_int(n[r]); break;
	case 20: for (int r = 0; r < 3; ++r) if (n[r] == 2) x_c('a' + r), x_c('z'); break;
	case 21: x_s("s,n\n"); for (int r = 0; r < 3; ++r) if (n[r] != 2) row(r); break;
	}
	int done = vfs_exists(file) ? x_file(file) : 0;
	size_t k = 0;
	const char* d = vfs_get(file, &k);
	if (rc == FQL_GOOD) CHECK(done);
	else if (!into) CHECK(done || old(src));
	else if (exists) CHECK(done || (k == sizeof(was) - 1 && memcmp(d, was, k) == 0));
	else CHECK(!d || done);
	if (into && Q != 12) CHECK(old(src));
	if (Q == 12) {
		int keep = old("t.csv");
		x_reset();
		x_s("s,n\n");
		for (int r = 0; r < 3; ++r) if (n[r] != 2) row(r);
		int gone = x_file("t.csv");
		CHECK(keep || gone);
		if (done && k) CHECK(gone);
	}
	x_reset();
	x_s("k,n\nz,2\ny,3\n");
	CHECK(x_file("u.csv"));
	CHECK(vfs_count() == files + (into && !exists && d != NULL));
}
