// GROUP BY as written in a statement: the select list, HAVING and ORDER BY refer to the keys they are equal to, and to no others.
//@ lib
//@ fs
//@ nolabels
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both q18 -DQ=18
//@ cfg both q19 -DQ=19
//@ cfg both q20 -DQ=20
//@ cfg both q21 -DQ=21
//@ cfg both q22 -DQ=22
//@ cfg both q23 -DQ=23
//@ inst 30000000
//@ samples 4
//@ bounds 24 statements over a table of 3 rows, keys 1..3 in two columns and words out of 3: keys that are columns, expressions, CASE, constants that differ only as letters would in case, aliases, aggregates within arithmetic, functions and CASE, variables, DISTINCT, keys over joins and subqueries
//@ outside other statements, NULL keys, float keys
#include "e2e.h"
static const char* const sql[] = {
	[0] = "SELECT n + 65, n + 97, COUNT(*) FROM t GROUP BY n + 65, n + 97 ORDER BY 1",
	[1] = "SELECT n + 97, COUNT(*) FROM t GROUP BY n + 65",
	[2] = "SELECT w + 'a', w + 'A', COUNT(*) FROM t GROUP BY w + 'a', w + 'A'",
	[3] = "SELECT m, n, COUNT(*) FROM t GROUP BY n, m ORDER BY n, m",
	[4] = "SELECT n, m, COUNT(*) FROM t GROUP BY n",
	[5] = "SELECT LEFT(w, 1) + 'x', n + 0 + 1, COUNT(*) FROM t GROUP BY LEFT(w, 1), n + 0 ORDER BY 1, 2",
	[6] = "SELECT SUM(m + 0) - COUNT(*), MAX(m + 0) + MIN(m + 0) * 10, n FROM t GROUP BY n ORDER BY 3",
	[7] = "SELECT -SUM(m + 0), LEN(MAX(w)), COUNT(*) * 2 FROM t",
	[8] = "DECLARE @v INT = 5; SELECT n + @v, @v, NULL, COUNT(*) FROM t GROUP BY n HAVING COUNT(*) < @v ORDER BY n",
	[9] = "SELECT n, COUNT(*) FROM t GROUP BY n HAVING SUM(m + 0) > 2 AND MIN(m + 0) < 3 ORDER BY n DESC",
	[10] = "SELECT n, SUM(m + 0) AS total FROM t GROUP BY n ORDER BY total DESC, n",
	[11] = "SELECT q.n + 0, COUNT(*) FROM (SELECT n, m FROM t WHERE m > 1) AS q GROUP BY q.n ORDER BY q.n",
	[12] = "SELECT a.n, b.m, COUNT(*) FROM t AS a JOIN t AS b ON a.n = b.m GROUP BY a.n, b.m ORDER BY 1",
	[13] = "SELECT DISTINCT n, m FROM t ORDER BY n, m",
	[14] = "SELECT COUNT(*), n FROM t WHERE m > n GROUP BY n ORDER BY n",
	[15] = "SELECT CASE WHEN n = m THEN w ELSE 'd' END, COUNT(*) FROM t GROUP BY CASE WHEN n = m THEN w ELSE 'd' END",
	[16] = "SELECT CASE n WHEN 1 THEN 'p' ELSE 'q' END, COUNT(*) FROM t GROUP BY CASE n WHEN 2 THEN 'p' ELSE 'q' END",
	[17] = "SELECT CAST(SUM(m + 0) AS FLOAT) / COUNT(*) FROM t",
	[18] = "SELECT COUNT(*), 'k', 7, SUM(n + 0) FROM t GROUP BY w",
	[19] = "SELECT n + 0, COUNT(*) FROM t GROUP BY n + 0 HAVING n + 0 > 1 AND COUNT(*) = 1 ORDER BY n + 0 DESC",
	[21] = "SELECT CAST(n AS FLOAT), COUNT(*) FROM t GROUP BY CAST(n AS INT)",
	[22] = "SELECT CAST(n AS FLOAT) / 2, CAST(n AS INT) / 2, COUNT(*) FROM t GROUP BY CAST(n AS INT), CAST(n AS FLOAT) ORDER BY 1",
	[23] = "SELECT n * 32 + 1, COUNT(*) FROM t GROUP BY n * 32 + 1 ORDER BY 1",
	[20] = "SELECT MAX(CASE WHEN n = 1 THEN m + 0 ELSE 0 END) + SUM(LEN(w)), AVG(n + 0.5) FROM t",
};
static struct et t;
static const char* const wv[] = {"ab", "AB", "c"};
static int n[3], m[3], w[3];
static int dig(int r, int c, int on)
{
	if (!on) { int v = 1 + (r + c) % 3; et_str(&t, r, c, v == 1 ? "1" : v == 2 ? "2" : "3"); return v; }
	et_ch(&t, r, c, '1', '3');
	t.c[r][c][0] = vp_fix(t.c[r][c][0]);
	return t.c[r][c][0] - '0';
}
static void bar(void) { x_c('|'); }
static void nl(void) { x_c('\n'); }
void harness(void)
{
	et_hdr(&t, "s,n,m,w");
	int words = Q == 2 || Q == 5 || Q == 15 || Q == 18;
	for (int r = 0; r < 3; ++r) {
		char d[2] = {'a' + r, 0};
		et_str(&t, r, 0, d);
		n[r] = dig(r, 1, !words || r == 0 || Q == 18);
		m[r] = dig(r, 2, !words && r < 2);
		w[r] = words && (Q != 18 || r < 2) ? et_any(&t, r, 3, 3, wv) : (et_str(&t, r, 3, "c"), 2);
	}
	et_put(&t, "t.csv");
	fqlhandle* f = e2e_new();
	fql_set_print_header(f, 0);
	int rc;
	if (Q == 8) { rc = fql_exec(f, sql[Q]); CHECK(rc == FQL_GOOD); }
	else rc = g_query(f, sql[Q]);
	x_reset();
	if (Q == 1 || Q == 4 || Q == 16 || Q == 21) { CHECK(rc < 0); fql_free(f); CHECK(vfs_open_files() == 0); return; }
	CHECK(rc >= 0);
	int c[4] = {0}, s[4] = {0}, mx[4] = {0}, mn[4] = {9, 9, 9, 9};
	for (int r = 0; r < 3; ++r) { int k = n[r]; ++c[k]; s[k] += m[r]; if (m[r] > mx[k]) mx[k] = m[r]; if (m[r] < mn[k]) mn[k] = m[r]; ++c[0]; s[0] += m[r]; if (m[r] > mx[0]) mx[0] = m[r]; }
	switch (Q) {
	case 0: for (int k = 1; k < 4; ++k) if (c[k]) { x_int(k + 65); bar(); x_int(k + 97); bar(); x_int(c[k]); nl(); } break;
	case 2: case 18: for (int r = 0; r < 3; ++r) {
		int g = 0, sum = 0, first = 1;
		for (int p = 0; p < 3; ++p) if ((w[p] == 2) == (w[r] == 2)) { if (p < r) first = 0; ++g; sum += n[p]; }
		if (!first) continue;
		if (Q == 2) { x_s(wv[w[r]]); x_s("a|"); x_s(wv[w[r]]); x_s("A|"); x_int(g); }
		else { x_int(g); x_s("|k|7|"); x_int(sum); }
		nl();
	} break;
	case 3: case 13: for (int k = 1; k < 4; ++k) for (int l = 1; l < 4; ++l) {
		int g = 0;
		for (int r = 0; r < 3; ++r) g += n[r] == k && m[r] == l;
		if (g) { x_int(Q == 3 ? l : k); bar(); x_int(Q == 3 ? k : l); if (Q == 3) { bar(); x_int(g); } nl(); }
	} break;
	case 5: for (int l = 0; l < 2; ++l) for (int k = 1; k < 4; ++k) {
		int g = 0, fst = -1;
		for (int r = 0; r < 3; ++r) if (n[r] == k && (w[r] == 2) == l) { ++g; if (fst < 0) fst = w[r]; }
		if (g) { x_c(wv[fst][0]); x_s("x|"); x_int(k + 1); bar(); x_int(g); nl(); }
	} break;
	case 22: for (int k = 1; k < 4; ++k) if (c[k]) { char b[32]; snprintf(b, sizeof(b), "%g", k / 2.0); x_s(b); bar(); x_int(k / 2); bar(); x_int(c[k]); nl(); } break;
	case 23: for (int k = 1; k < 4; ++k) if (c[k]) { x_int(k == 1 ? 33 : k == 2 ? 65 : 97); bar(); x_int(c[k]); nl(); } break;
	case 6: for (int k = 1; k < 4; ++k) if (c[k]) { x_int(s[k] - c[k]); bar(); x_int(mx[k] + mn[k] * 10); bar(); x_int(k); nl(); } break;
	case 7: x_int(-s[0]); x_s("|1|6\n"); break;
	case 8: for (int k = 1; k < 4; ++k) if (c[k]) { x_int(k + 5); x_s(",5,,"); x_int(c[k]); nl(); } break;
	case 9: for (int k = 3; k > 0; --k) if (c[k] && s[k] > 2 && mn[k] < 3) { x_int(k); bar(); x_int(c[k]); nl(); } break;
	case 10: for (int v = 9; v > 0; --v) for (int k = 1; k < 4; ++k) if (c[k] && s[k] == v) { x_int(k); bar(); x_int(v); nl(); } break;
	case 11: case 14: for (int k = 1; k < 4; ++k) {
		int g = 0;
		for (int r = 0; r < 3; ++r) g += n[r] == k && (Q == 11 ? m[r] > 1 : m[r] > n[r]);
		if (g) { x_int(Q == 11 ? k : g); bar(); x_int(Q == 11 ? g : k); nl(); }
	} break;
	case 12: for (int k = 1; k < 4; ++k) {
		int g = 0;
		for (int r = 0; r < 3; ++r) g += m[r] == k;
		if (g && c[k]) { x_int(k); bar(); x_int(k); bar(); x_int(g * c[k]); nl(); }
	} break;
	case 15: for (int r = 0; r < 3; ++r) {
		int g = 0, first = 1, kr = n[r] == m[r] ? w[r] == 2 ? 2 : 1 : 0;
		for (int p = 0; p < 3; ++p) { int kp = n[p] == m[p] ? w[p] == 2 ? 2 : 1 : 0; if (kp == kr) { if (p < r) first = 0; ++g; } }
		if (first) { x_s(kr ? wv[w[r]] : "d"); bar(); x_int(g); nl(); }
	} break;
	case 17: { char b[32]; snprintf(b, sizeof(b), "%g", (double)s[0] / 3); x_s(b); nl(); break; }
	case 19: for (int k = 3; k > 1; --k) if (c[k] == 1) { x_int(k); x_s("|1\n"); } break;
	case 20: { char b[32]; x_int(mx[1] + 3); bar(); snprintf(b, sizeof(b), "%g", (n[0] + n[1] + n[2] + 1.5) / 3); x_s(b); nl(); break; }
	}
	if (Q == 8) CHECKX(x_stdout());
	else CHECKX(x_api());
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
