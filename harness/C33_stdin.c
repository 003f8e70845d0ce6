// Standard input as a table (__stdin).
//@ lib
//@ fs
//@ nolabels
//@ samples 6
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=2 -DCART=1
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both q18 -DQ=18
//@ cfg both q19 -DQ=19
//@ cfg both q20 -DQ=20
//@ cfg both q21 -DQ=21
//@ cfg both q22 -DQ=22
//@ cfg both q23 -DQ=23
//@ cfg both q24 -DQ=24
//@ cfg both q25 -DQ=25
//@ cfg both q26 -DQ=26
//@ cfg both q27 -DQ=27
//@ cfg both q28 -DQ=28
//@ cfg both q29 -DQ=29
//@ cfg both q30 -DQ=30
//@ bounds 31 statements over standard input with 3 records of 2 fields (delimited, with or without a header, or of fixed width) and a file of 2 rows, keys of 1..3
//@ outside a second __stdin
#include "e2e.h"
static const char* const sql[] = {
	[0] = "SELECT * FROM __stdin",
	[1] = "SELECT s FROM __stdin WHERE n <> '1' ORDER BY s DESC",
	[2] = "SELECT t.k, x.s FROM t JOIN __stdin AS x ON t.n = x.n",
	[3] = "SELECT x.s, t.k FROM __stdin AS x JOIN t ON t.n = x.n",
	[4] = "SELECT t.k, x.s FROM t LEFT JOIN __stdin AS x ON t.n = x.n",
	[5] = "UPDATE t SET k = 'w' FROM t JOIN __stdin AS x ON t.n = x.n WHERE x.s <> 'b'",
	[6] = "DELETE t FROM t JOIN __stdin AS x ON t.n = x.n",
	[7] = "SELECT n, COUNT(*) AS c INTO [o.csv] FROM __stdin GROUP BY n",
	[8] = "SELECT k FROM t WHERE n IN (SELECT n FROM __stdin WHERE s <> 'a')",
	[9] = "SELECT COUNT(*) AS c, MAX(n) AS m FROM __stdin",
	[10] = "SELECT k FROM t UNION ALL SELECT s FROM __stdin WHERE n = '2'",
	[11] = "SELECT t.k, x.s FROM t JOIN __stdin AS x ON t.n <> x.n",
	[13] = "SELECT q.s, t.k FROM (SELECT s, n FROM __stdin WHERE n <> '2') AS q JOIN t ON q.n = t.n",
	[14] = "SELECT t.k, q.s FROM t JOIN (SELECT s, n FROM __stdin WHERE n <> '2') AS q ON q.n = t.n",
	[15] = "SELECT s, n FROM fx.__stdin WHERE n <> '2'",
	[16] = "SELECT t.k, x.s FROM t JOIN fx.__stdin AS x ON t.n = x.n",
	[17] = "SELECT x.s, t.k FROM fx.__stdin AS x JOIN t ON t.n = x.n",
	[18] = "SELECT s, n FROM nh.__stdin WHERE n <> '2'",
	[19] = "SELECT t.k, x.s FROM t JOIN nh.__stdin AS x ON t.n = x.n",
	[20] = "SELECT x.s, t.k FROM nh.__stdin AS x JOIN t ON t.n = x.n",
	[21] = "SELECT s FROM __stdin",
	[22] = "SELECT t.k, x.s FROM t JOIN __stdin AS x ON t.n = x.n AND x.s <> 'a' WHERE t.k <> 'q' ORDER BY x.s DESC",
	[23] = "SELECT t.k, x.s FROM t JOIN fx.__stdin AS x ON t.n <> x.n",
	[24] = "SELECT t.k, x.s FROM t JOIN nh.__stdin AS x ON t.n <> x.n",
	// again and again: what was joined is there, what was read directly is gone
	[25] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN SELECT s FROM __stdin; SET @i = @i + 1; END",
	[26] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN SELECT t.k, x.s FROM t JOIN __stdin AS x ON t.n = x.n; SET @i = @i + 1; END",
	[27] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN SELECT t.k, x.s FROM t JOIN __stdin AS x ON t.n <> x.n; SET @i = @i + 1; END",
	[28] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN SELECT s FROM fx.__stdin; SET @i = @i + 1; END",
	[29] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN SELECT t.k, x.s FROM t JOIN fx.__stdin AS x ON t.n = x.n; SET @i = @i + 1; END",
	[30] = "DELETE FROM __stdin WHERE n = '1'",
};
static struct et t, u;
void harness(void)
{
	int n[3], un[2], fx = (Q >= 15 && Q <= 17) || Q == 23 || Q == 28 || Q == 29, nh = (Q >= 18 && Q <= 20) || Q == 24;
	static char b[128];
	et_hdr(&t, "s,n");
	et_hdr(&u, "k,n");
	for (int r = 0; r < 3; ++r) {
		char d[2] = {'a' + r, 0};
		et_str(&t, r, 0, d);
		et_ch(&t, r, 1, '1', '3');
		n[r] = (t.c[r][1][0] = vp_fix(t.c[r][1][0])) - '0';
	}
	for (int r = 0; r < 2; ++r) {
		et_str(&u, r, 0, r ? "q" : "p");
		et_ch(&u, r, 1, '1', '3');
		un[r] = (u.c[r][1][0] = vp_fix(u.c[r][1][0])) - '0';
	}
	if (fx || nh) {
		static const char sc[] = "s,1,char\nn,1,char\n", sd[] = "s\nn\n";
		if (fx) vfs_put("s/fx", sc, sizeof(sc) - 1); else vfs_put("s/nh", sd, sizeof(sd) - 1);
	}
	et_put(&u, "t.csv");
	int len = 0;
	if (fx) for (int r = 0; r < 3; ++r) b[len++] = 'a' + r, b[len++] = '0' + n[r];
	else {
		len = et_text(&t, b);
		if (Q == 21) len = 4; // no rows
		if (vp_fix(vp_range(0, 1, "noend"))) --len; // no line ending at the end
	}
	vfs_stdin(nh ? b + 4 : b, nh ? len - 4 : len);
	int files = vfs_count();
	fqlhandle* h = e2e_new();
	fql_set_allow_stdin(h, 1);
	if (fx || nh) fql_set_schema_path(h, "s");
	if (nh) fql_set_in_delim(h, ",");
#ifdef CART
	fql_set_force_cartesian(h, 1);
#endif
	CHECK(fql_exec(h, sql[Q]) == (Q == 25 || Q == 28 || Q == 30 ? FQL_FAIL : FQL_GOOD));
	x_reset();
	switch (Q) {
	case 0: x_s("s,n\n"); for (int r = 0; r < 3; ++r) x_c('a' + r), x_c(','), x_int(n[r]), x_c('\n'); break;
	case 1: x_s("s\n"); for (int r = 2; r >= 0; --r) if (n[r] != 1) x_c('a' + r), x_c('\n'); break;
	case 2: case 16: case 19: case 11: case 23: case 24: case 26: case 27: case 29: for (int p = 0; p < (Q > 24 ? 2 : 1); ++p) {
		x_s("k,s\n");
		for (int i = 0; i < 2; ++i) for (int r = 0; r < 3; ++r) if ((un[i] == n[r]) == (Q != 11 && Q != 23 && Q != 24 && Q != 27)) x_c(i ? 'q' : 'p'), x_c(','), x_c('a' + r), x_c('\n');
		}
		break;
	case 25: x_s("s\na\nb\nc\n"); break;
	case 28: x_s("abc"); break;
	case 3: x_s("s,k\n"); /* fall through */
	case 17: case 20: for (int r = 0; r < 3; ++r) for (int i = 0; i < 2; ++i) if (un[i] == n[r]) { x_c('a' + r); if (!fx) x_c(','); x_c(i ? 'q' : 'p'); if (!fx) x_c('\n'); } break;
	case 4: x_s("k,s\n"); for (int i = 0; i < 2; ++i) { int hit = 0; for (int r = 0; r < 3; ++r) if (un[i] == n[r]) hit = 1, x_c(i ? 'q' : 'p'), x_c(','), x_c('a' + r), x_c('\n'); if (!hit) x_c(i ? 'q' : 'p'), x_s(",\n"); } break;
	case 8: x_s("k\n"); for (int i = 0; i < 2; ++i) if (un[i] == n[1] || un[i] == n[2]) x_c(i ? 'q' : 'p'), x_c('\n'); break;
	case 9: { int m = 0; for (int r = 0; r < 3; ++r) if (n[r] > m) m = n[r]; x_s("c,m\n3,"), x_int(m), x_c('\n'); break; }
	case 10: x_s("k\np\nq\n"); for (int r = 0; r < 3; ++r) if (n[r] == 2) x_c('a' + r), x_c('\n'); break;
	case 13: x_s("s,k\n"); for (int r = 0; r < 3; ++r) for (int i = 0; i < 2; ++i) if (n[r] != 2 && un[i] == n[r]) x_c('a' + r), x_c(','), x_c(i ? 'q' : 'p'), x_c('\n'); break;
	case 14: x_s("k,s\n"); for (int i = 0; i < 2; ++i) for (int r = 0; r < 3; ++r) if (n[r] != 2 && un[i] == n[r]) x_c(i ? 'q' : 'p'), x_c(','), x_c('a' + r), x_c('\n'); break;
	case 15: for (int r = 0; r < 3; ++r) if (n[r] != 2) x_c('a' + r), x_int(n[r]); break;
	case 18: for (int r = 0; r < 3; ++r) if (n[r] != 2) x_c('a' + r), x_c(','), x_int(n[r]), x_c('\n'); break;
	case 21: x_s("s\n"); break;
	case 22: x_s("k,s\n"); for (int r = 2; r > 0; --r) if (un[0] == n[r]) x_s("p,"), x_c('a' + r), x_c('\n'); break;
	}
	CHECKX(x_stdout());
	if (Q == 7) {
		x_reset();
		x_s("n,c\n");
		for (int r = 0; r < 3; ++r) { int c = 0, d = 0; for (int i = 0; i < 3; ++i) if (n[i] == n[r]) ++c, d |= i < r; if (!d) x_int(n[r]), x_c(','), x_int(c), x_c('\n'); }
		CHECKX(x_file("o.csv"));
	}
	x_reset();
	x_s("k,n\n");
	for (int i = 0; i < 2; ++i) {
		int m = 0, m2 = 0;
		for (int r = 0; r < 3; ++r) if (un[i] == n[r]) m = 1, m2 |= r != 1;
		if (Q == 6 && m) continue;
		x_c(Q == 5 && m2 ? 'w' : i ? 'q' : 'p'), x_c(','), x_int(un[i]), x_c('\n');
	}
	CHECKX(x_file("t.csv"));
	fql_free(h);
	CHECK(vfs_open_files() == 0);
	CHECK(vfs_count() == files + (Q == 7));
}
