// The text a query prints or writes: header, delimiters, terminators, NULL, SELECT ... INTO.
//@ lib
//@ fs
//@ nolabels
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both q18 -DQ=18
//@ cfg both q19 -DQ=19
//@ cfg both q20 -DQ=20
//@ cfg both q21 -DQ=21
//@ cfg both q22 -DQ=22
//@ cfg both q23 -DQ=23
//@ cfg both q24 -DQ=24
//@ cfg both q25 -DQ=25
//@ cfg both q26 -DQ=26
//@ cfg both q27 -DQ=27
//@ inst 60000000
//@ samples 4
//@ bounds 28 statements over a table of 3 rows and one of 2 with cells of 1..3, each under a choice of input delimiter (comma, bar, semicolon, tab), output delimiter, record terminator, header and overwrite settings where they matter
//@ outside quoting (done by libcsv), other statements and sizes
#include "e2e.h"
static const char* const sql[] = {
	[0] = "SELECT s, n FROM t",
	[1] = "SELECT n AS x, s, s AS y FROM t WHERE n <> '2'",
	[2] = "SELECT * FROM t",
	[3] = "SELECT t.*, u.k FROM t JOIN u ON t.n = u.n",
	[4] = "SELECT u.k, t.s FROM t LEFT JOIN u ON t.n = u.n",
	[5] = "SELECT s, CASE WHEN n = 1 THEN NULL ELSE n END AS c, s AS e FROM t ORDER BY n, s DESC",
	[6] = "SELECT s FROM t WHERE n = '1' UNION ALL SELECT k FROM u ORDER BY s",
	[7] = "SELECT s, n INTO [o.csv] FROM t WHERE n > '1'",
	[8] = "SELECT s INTO [o.csv] FROM t; SELECT s AS z FROM [o.csv] WHERE s <> 'b'",
	[9] = "SELECT n, COUNT(*) AS c INTO [o.csv] FROM t GROUP BY n HAVING COUNT(*) > 1 ORDER BY n",
	[10] = "SELECT s, n INTO #w FROM t WHERE n = '1'; SELECT COUNT(*) AS c FROM #w",
	[11] = "DECLARE @n VARCHAR(9) = (SELECT MIN(n) FROM t); DECLARE @f VARCHAR(9) = 'f' + @n; WHILE @n IS NOT NULL BEGIN SELECT s INTO @f FROM t WHERE n = @n ORDER BY s DESC; SET @n = (SELECT TOP 1 n FROM t WHERE n > @n ORDER BY n); SET @f = 'f' + @n; END",
	[12] = "SELECT s, n INTO [o.csv] FROM t ORDER BY n DESC, s",
	[13] = "SELECT s INTO [o.csv] FROM t WHERE n = '1' UNION ALL SELECT k FROM u",
	[14] = "SELECT s INTO [t.csv] FROM t WHERE n = '1'; SELECT COUNT(*) AS c FROM t",
	[15] = "SELECT s FROM t WHERE n = '1'; SELECT k, n FROM u",
	[16] = "SELECT n, s INTO [o.csv] FROM t WHERE n = '1'; UPDATE [o.csv] SET s = 'w' WHERE s = 'a'; SELECT s FROM [o.csv]",
	[17] = "SELECT TOP 1 s, n FROM t WHERE n > '1'",
	[18] = "SELECT DISTINCT n FROM t",
	[19] = "SELECT q.* FROM (SELECT n AS a, s AS b FROM t WHERE n <> '1') AS q",
	[20] = "SELECT u.*, t.* FROM u JOIN t ON u.n <> t.n",
	[21] = "SELECT s, n FROM t; SELECT n, s FROM t ORDER BY s DESC",
	[22] = "SELECT s INTO [o.csv] FROM t ORDER BY s; SELECT s INTO [p.csv] FROM [o.csv] WHERE s <> 'a'; SELECT s FROM [p.csv]",
	[23] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN SELECT s INTO #w FROM t WHERE n > @i; SELECT COUNT(*) AS c FROM #w; SET @i = @i + 1; END",
	[24] = "SELECT 'x' AS a, 5 AS b, NULL AS c, 'y' AS d",
	[25] = "SELECT CASE WHEN n = '1' THEN NULL ELSE s END AS a, CASE WHEN n = '2' THEN NULL ELSE n END AS b FROM t",
	[26] = "SELECT s, SUM(n + 0) AS x FROM t GROUP BY s ORDER BY s DESC",
	[27] = "SELECT * FROM (SELECT * FROM t WHERE n = '1') AS q JOIN (SELECT k FROM u) AS r ON q.s = r.k ORDER BY q.s, r.k",
};
static struct et t, u;
static const char* D, *T;
static void f(const char* a, int last) { x_s(a); x_s(last ? T : D); }
static void fi(int a, int last) { x_int(a); x_s(last ? T : D); }
static void fc(int a, int last) { x_c(a); x_s(last ? T : D); }
void harness(void)
{
	static const char* const dv[] = {",", "|", ";", "\t"};
	int n[3], un[2];
	et_hdr(&t, "s,n");
	et_hdr(&u, "k,n");
	int needu = Q == 3 || Q == 4 || Q == 20;
	for (int r = 0; r < 3; ++r) {
		char d[2] = {'a' + r, 0};
		et_str(&t, r, 0, d);
		if (r < 2 || !needu) { et_ch(&t, r, 1, '1', '3'); t.c[r][1][0] = vp_fix(t.c[r][1][0]); } else et_str(&t, r, 1, "2");
		n[r] = t.c[r][1][0] - '0';
	}
	for (int r = 0; r < 2; ++r) {
		et_str(&u, r, 0, r ? "b" : "z");
		if (needu) { et_ch(&u, r, 1, '1', '3'); u.c[r][1][0] = vp_fix(u.c[r][1][0]); } else et_str(&u, r, 1, r ? "3" : "1");
		un[r] = u.c[r][1][0] - '0';
	}
	int simple = Q <= 2 || Q == 7 || Q == 12 || Q == 20 || Q == 25;
	D = et_delim = simple ? dv[vp_fix(vp_range(0, 3, "delim"))] : Q & 1 ? "|" : ",";
	if (Q == 24) D = ",";
	et_put(&t, "t.csv");
	et_delim = Q == 20 ? ";" : D;
	et_put(&u, "u.csv");
	if (Q == 20) D = ";";
	fqlhandle* h = e2e_new();
	T = "\n";
	int hdr = 1;
	if (Q <= 1 || Q == 7 || Q == 5 || Q == 6 || Q == 8 || Q == 24 || Q == 26) {
		if (vp_fix(vp_range(0, 1, "outdelim"))) { D = "::"; fql_set_out_delim(h, D); }
		if (vp_fix(vp_range(0, 1, "nohdr")) && Q != 8) { hdr = 0; fql_set_print_header(h, 0); }
	}
	if (Q == 0 || Q == 4 || Q == 9 || Q == 12) {
		int k = vp_fix(vp_range(0, 2, "term"));
		if (k == 1) { fql_set_crlf_output(h, 1); T = "\r\n"; }
		if (k == 2) { fql_set_record_terminator(h, "#\n"); T = "#\n"; }
	}
	int over = 0, exists = 0, ok = 1;
	static char old[] = "old,file\n1,2\n";
	if (Q == 7 || Q == 9 || Q == 12 || Q == 14 || Q == 23) {
		over = vp_fix(vp_range(0, 1, "over"));
		if (over) fql_set_overwrite(h, 1);
		if (Q == 7 || Q == 9 || Q == 12) exists = vp_fix(vp_range(0, 1, "exists"));
		if (exists) vfs_put("o.csv", old, sizeof(old) - 1);
		ok = over || !(exists || Q == 14);
	}
	int nfiles = vfs_count(), rc = fql_exec(h, sql[Q]);
	x_reset();
	if (!ok) { // refused: nothing changed
		CHECK(rc == FQL_FAIL);
		fql_free(h);
		CHECK(vfs_count() == nfiles);
		CHECK(vfs_open_files() == 0);
		if (Q == 14) {
			static char b[200];
			et_delim = D;
			x_n = et_text(&t, b);
			memcpy(x_b, b, x_n);
			CHECKX(x_file("t.csv"));
		} else {
			x_s(old);
			CHECKX(x_file("o.csv"));
		}
		return;
	}
	if (Q == 23 && !over) CHECK(rc == FQL_FAIL); // the second pass finds #w there
	else CHECK(rc == FQL_GOOD);
	const char* file = NULL; // checked, and nothing printed
	switch (Q) {
	case 0: if (hdr) f("s", 0), f("n", 1); for (int r = 0; r < 3; ++r) fc('a' + r, 0), fi(n[r], 1); break;
	case 1: if (hdr) f("x", 0), f("s", 0), f("y", 1); for (int r = 0; r < 3; ++r) if (n[r] != 2) fi(n[r], 0), fc('a' + r, 0), fc('a' + r, 1); break;
	case 2: f("s", 0), f("n", 1); for (int r = 0; r < 3; ++r) fc('a' + r, 0), fi(n[r], 1); break;
	case 3: f("s", 0), f("n", 0), f("k", 1);
		for (int r = 0; r < 3; ++r) for (int p = 0; p < 2; ++p) if (n[r] == un[p]) fc('a' + r, 0), fi(n[r], 0), f(p ? "b" : "z", 1);
		break;
	case 4: f("k", 0), f("s", 1);
		for (int r = 0; r < 3; ++r) {
			int hit = 0;
			for (int p = 0; p < 2; ++p) if (n[r] == un[p]) { hit = 1; f(p ? "b" : "z", 0), fc('a' + r, 1); }
			if (!hit) f("", 0), fc('a' + r, 1);
		}
		break;
	case 5: if (hdr) f("s", 0), f("c", 0), f("e", 1);
		for (int k = 1; k <= 3; ++k) for (int r = 2; r >= 0; --r) if (n[r] == k) { fc('a' + r, 0); if (k == 1) f("", 0); else fi(k, 0); fc('a' + r, 1); }
		break;
	case 6: if (hdr) f("s", 1);
		for (int r = 0; r < 3; ++r) { if (n[r] == 1) fc('a' + r, 1); if (r == 1) f("b", 1); }
		f("z", 1);
		break;
	case 7: file = "o.csv"; if (hdr) f("s", 0), f("n", 1); for (int r = 0; r < 3; ++r) if (n[r] > 1) fc('a' + r, 0), fi(n[r], 1); break;
	case 8: f("z", 1), f("a", 1), f("c", 1); break;
	case 9: file = "o.csv"; f("n", 0), f("c", 1);
		for (int k = 1; k <= 3; ++k) { int c = (n[0] == k) + (n[1] == k) + (n[2] == k); if (c > 1) fi(k, 0), fi(c, 1); }
		break;
	case 10: { int c = 0; for (int r = 0; r < 3; ++r) c += n[r] == 1; f("c", 1); fi(c, 1); break; }
	case 11: break;
	case 12: file = "o.csv"; f("s", 0), f("n", 1); for (int k = 3; k; --k) for (int r = 0; r < 3; ++r) if (n[r] == k) fc('a' + r, 0), fi(k, 1); break;
	case 13: file = "o.csv"; f("s", 1); for (int r = 0; r < 3; ++r) if (n[r] == 1) fc('a' + r, 1); f("z", 1), f("b", 1); break;
	case 14: { int c = 0; for (int r = 0; r < 3; ++r) c += n[r] == 1; f("c", 1); fi(c, 1); break; }
	case 15: f("s", 1); for (int r = 0; r < 3; ++r) if (n[r] == 1) fc('a' + r, 1); f("k", 0), f("n", 1); f("z", 0), f("1", 1); f("b", 0), f("3", 1); break;
	case 16: f("s", 1); for (int r = 0; r < 3; ++r) if (n[r] == 1) fc(r ? 'a' + r : 'w', 1); break;
	case 17: f("s", 0), f("n", 1); for (int r = 0; r < 3; ++r) if (n[r] > 1) { fc('a' + r, 0), fi(n[r], 1); break; } break;
	case 18: f("n", 1); for (int r = 0; r < 3; ++r) { int s = 0; for (int p = 0; p < r; ++p) s |= n[p] == n[r]; if (!s) fi(n[r], 1); } break;
	case 19: f("a", 0), f("b", 1); for (int r = 0; r < 3; ++r) if (n[r] != 1) fi(n[r], 0), fc('a' + r, 1); break;
	case 20: f("k", 0), f("n", 0), f("s", 0), f("n", 1);
		for (int p = 0; p < 2; ++p) for (int r = 0; r < 3; ++r) if (n[r] != un[p]) f(p ? "b" : "z", 0), fi(un[p], 0), fc('a' + r, 0), fi(n[r], 1);
		break;
	case 21: f("s", 0), f("n", 1); for (int r = 0; r < 3; ++r) fc('a' + r, 0), fi(n[r], 1); f("n", 0), f("s", 1); for (int r = 2; r >= 0; --r) fi(n[r], 0), fc('a' + r, 1); break;
	case 22: f("s", 1), f("b", 1), f("c", 1); break;
	case 23: for (int i = 0; i < 2; ++i) { int c = 0; for (int r = 0; r < 3; ++r) c += n[r] > i; f("c", 1); fi(c, 1); if (!over) break; } break;
	case 24: if (hdr) f("a", 0), f("b", 0), f("c", 0), f("d", 1); f("x", 0), f("5", 0), f("", 0), f("y", 1); break;
	case 25: f("a", 0), f("b", 1); for (int r = 0; r < 3; ++r) { if (n[r] == 1) f("", 0); else fc('a' + r, 0); if (n[r] == 2) f("", 1); else fi(n[r], 1); } break;
	case 26: if (hdr) f("s", 0), f("x", 1); for (int r = 2; r >= 0; --r) fc('a' + r, 0), fi(n[r], 1); break;
	case 27: f("s", 0), f("n", 0), f("k", 1); if (n[1] == 1) fc('b', 0), fi(1, 0), f("b", 1); break;
	}
	if (file) {
		CHECKX(x_file(file));
		x_reset();
	}
	CHECKX(x_stdout());
	if (Q == 8 || Q == 16) {
		x_reset();
		if (Q == 8) f("s", 1), f("a", 1), f("b", 1), f("c", 1);
		else { f("n", 0), f("s", 1); for (int r = 0; r < 3; ++r) if (n[r] == 1) fi(1, 0), fc(r ? 'a' + r : 'w', 1); }
		CHECKX(x_file("o.csv"));
	}
	if (Q == 11) {
		for (int k = 1; k <= 3; ++k) {
			char nm[3] = {'f', '0' + k, 0};
			if (n[0] != k && n[1] != k && n[2] != k) { CHECK(!vfs_exists(nm)); continue; }
			x_reset();
			f("s", 1);
			for (int r = 2; r >= 0; --r) if (n[r] == k) fc('a' + r, 1);
			CHECKX(x_file(nm));
			++nfiles;
		}
	}
	if (Q == 14) {
		x_reset();
		f("s", 1);
		for (int r = 0; r < 3; ++r) if (n[r] == 1) fc('a' + r, 1);
		CHECKX(x_file("t.csv"));
	}
	fql_free(h);
	CHECK(vfs_open_files() == 0);
	nfiles += ((file && !exists) || Q == 8 || Q == 16) + 2 * (Q == 22);
	CHECK(vfs_count() == nfiles); // no temporary file stays, # tables go
}
