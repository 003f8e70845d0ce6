// IN: a row is kept exactly when some value of the list (or of the subquery's rows) equals the left side, whatever the types.
//@ lib
//@ fs
//@ nolabels
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both q18 -DQ=18
//@ cfg both q19 -DQ=19
//@ cfg both q20 -DQ=20
//@ cfg both q21 -DQ=21
//@ cfg both q22 -DQ=22
//@ cfg both q23 -DQ=23
//@ cfg both q24 -DQ=24
//@ bounds 25 statements (lists and subqueries of every kind, in WHERE, CASE, HAVING, ON, UPDATE and DELETE) over a table of 3 rows and one of 2; numbers out of {1,65,97}, words out of 5 differing in case and trailing space, the subquery's filter column, all symbolic
//@ outside larger tables and lists, other values, NULL on the left side of NOT IN
//@ inst 30000000
//@ samples 4
#include "e2e.h"
static const char* const sql[] = {
	[0] = "SELECT s FROM t WHERE n IN (1, 65)",
	[1] = "SELECT s FROM t WHERE n NOT IN (1, 65)",
	[2] = "SELECT s FROM t WHERE n IN (NULL, 65, m)",
	[3] = "SELECT s FROM t WHERE n IN (m, m + 32)",
	[4] = "SELECT s FROM t WHERE n + 0 IN (SELECT n FROM u)",
	[5] = "SELECT s FROM t WHERE n + 0 IN (SELECT n + 0 FROM u)",
	[6] = "SELECT s FROM t WHERE n + 0.5 IN (SELECT n + 0.5 FROM u)",
	[7] = "SELECT s FROM t WHERE n + 0.0 IN (SELECT n + 0 FROM u)",
	[8] = "SELECT s FROM t WHERE n + 0 NOT IN (SELECT n + 0 FROM u WHERE k = 'x')",
	[9] = "SELECT s FROM t WHERE w IN ('aB', 'c')",
	[10] = "SELECT s FROM t WHERE w IN (SELECT w FROM u)",
	[11] = "SELECT s FROM t WHERE w NOT IN (SELECT w FROM u ORDER BY w)",
	[12] = "SELECT s FROM t WHERE n IN (SELECT CASE WHEN k = 'x' THEN n + 0 END FROM u)",
	[13] = "SELECT s FROM t WHERE n + 0 IN (SELECT n + 0 FROM u WHERE k = 'x' UNION ALL SELECT m + 0 FROM u WHERE k = 'y')",
	[14] = "SELECT s FROM t WHERE n IN (SELECT MAX(n + 0) FROM u WHERE k = 'x')",
	[15] = "SELECT s FROM t WHERE n IN (SELECT TOP 1 n FROM u ORDER BY n + 0 DESC) OR m IN (SELECT DISTINCT n FROM u WHERE k = 'y')",
	[16] = "SELECT CASE WHEN n IN (SELECT n FROM u WHERE k = 'x') THEN 'i' WHEN n IN (1, 97) THEN 'l' ELSE 'o' END FROM t",
	[17] = "SELECT n, COUNT(*) FROM t GROUP BY n HAVING n IN (SELECT n FROM u WHERE k = 'x') ORDER BY n",
	[18] = "SELECT t.s, u.k FROM t JOIN u ON t.n = u.n AND u.n IN (1, 65)",
	[19] = "DELETE FROM t WHERE n IN (SELECT n FROM u WHERE k = 'x')",
	[20] = "UPDATE t SET s = 'z' WHERE n NOT IN (SELECT n FROM u WHERE k = 'x')",
	[21] = "SELECT s FROM t WHERE n IN (SELECT n FROM u WHERE n IN (SELECT m FROM t WHERE s <> 'b'))",
	[22] = "SELECT s FROM t WHERE n IN (SELECT q.* FROM (SELECT n FROM u WHERE k = 'x') AS q) AND (m IN (1, 2, 97) OR s IN ('C'))",
	[23] = "SELECT s FROM t WHERE n IN ((SELECT MAX(n + 0) FROM u), 1)",
	[24] = "SELECT s FROM t WHERE NULL IN (NULL, 1) OR n IN (NULL)",
};
static struct et t, u;
static int tn[3], tm[3], un[2], um[2], ux[2], tw[3], uw[2];
static const char* const nv[] = {"1", "65", "97"};
static const int nvi[] = {1, 65, 97};
static const char* const wv[] = {"ab", "AB ", "c", "", "ab c"};
static const int wc[] = {0, 0, 1, 2, 3};
static int inu(int v, int x) { int r = 0; for (int p = 0; p < 2; ++p) r |= un[p] == v && (x < 0 || ux[p] == x); return r; }
#define WORDS (Q >= 9 && Q <= 11)
void harness(void)
{
	et_hdr(&t, "s,n,m,w");
	et_hdr(&u, "k,n,m,w");
	for (int r = 0; r < 3; ++r) {
		char d[2] = {'a' + r, 0};
		et_str(&t, r, 0, d);
		tn[r] = r < (Q == 15 || Q == 21 || Q == 22 ? 1 : 2) && !WORDS ? nvi[et_any(&t, r, 1, 3, nv)] : (et_str(&t, r, 1, "97"), 97);
		tm[r] = r == 0 && (Q == 2 || Q == 3 || Q == 15 || Q == 21 || Q == 22) ? nvi[et_any(&t, r, 2, 3, nv)] : (et_str(&t, r, 2, "65"), 65);
		tw[r] = r < 2 && WORDS ? wc[et_any(&t, r, 3, 5, wv)] : (et_str(&t, r, 3, "c"), 1);
	}
	for (int r = 0; r < 2; ++r) {
		if (WORDS) et_str(&u, r, 0, "x");
		else et_ch(&u, r, 0, 'x', 'y');
		ux[r] = (u.c[r][0][0] = vp_fix(u.c[r][0][0])) == 'x';
		un[r] = !WORDS ? nvi[et_any(&u, r, 1, 3, nv)] : (et_str(&u, r, 1, "1"), 1);
		et_str(&u, r, 2, "65");
		um[r] = 65;
		uw[r] = WORDS ? wc[et_any(&u, r, 3, 5, wv)] : (et_str(&u, r, 3, "c"), 1);
	}
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
	fqlhandle* f = e2e_new();
	fql_set_print_header(f, 0);
	CHECK(fql_exec(f, sql[Q]) == FQL_GOOD);
	x_reset();
	if (Q == 19 || Q == 20) x_s("s,n,m,w\n");
	int mx = un[0] > un[1] ? un[0] : un[1], mxx = 0;
	for (int p = 0; p < 2; ++p) if (ux[p] && un[p] > mxx) mxx = un[p];
	if (Q == 17) {
		for (int v = 0; v < 3; ++v) {
			int c = 0;
			for (int r = 0; r < 3; ++r) c += tn[r] == nvi[v];
			if (c && inu(nvi[v], 1)) { x_int(nvi[v]); x_c(','); x_int(c); x_c('\n'); }
		}
	} else for (int r = 0; r < 3; ++r) {
		int k = 0, n = tn[r], m = tm[r];
		switch (Q) {
		case 0: k = n == 1 || n == 65; break;
		case 1: k = n != 1 && n != 65; break;
		case 2: k = n == 65 || n == m; break;
		case 3: k = n == m || n == m + 32; break;
		case 4: case 5: case 6: case 7: k = inu(n, -1); break;
		case 8: k = !inu(n, 1); break;
		case 9: k = tw[r] < 2; break;
		case 10: k = tw[r] == uw[0] || tw[r] == uw[1]; break;
		case 11: k = tw[r] != uw[0] && tw[r] != uw[1]; break;
		case 12: k = inu(n, 1); break;
		case 13: k = inu(n, 1) || (n == 65 && (!ux[0] || !ux[1])); break;
		case 14: k = n == mxx; break;
		case 15: k = n == mx || inu(m, 0); break;
		case 19: k = !inu(n, 1); break;
		case 21: for (int p = 0; p < 2; ++p) k |= un[p] == n && (un[p] == tm[0] || un[p] == tm[2]); break;
		case 22: k = inu(n, 1) && (m == 1 || m == 97 || r == 2); break;
		case 23: k = n == 1 || n == mx; break;
		}
		if (Q == 16) { x_s(inu(n, 1) ? "i\n" : n != 65 ? "l\n" : "o\n"); continue; }
		if (Q == 18) { for (int p = 0; p < 2; ++p) if (un[p] == n && n != 97) { x_c('a' + r); x_c(','); x_c(ux[p] ? 'x' : 'y'); x_c('\n'); } continue; }
		if (Q == 19 || Q == 20) {
			if (Q == 19 && !k) continue;
			for (int c = 0; c < 4; ++c) { if (c) x_c(','); if (!c && Q == 20 && !inu(n, 1)) x_c('z'); else x_cell(&t, r, c); }
			x_c('\n');
			continue;
		}
		if (k) { x_c('a' + r); x_c('\n'); }
	}
	if (Q == 19 || Q == 20) CHECKX(x_file("t.csv"));
	else CHECKX(x_stdout());
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
