// The built-in names __REC, __ROWNUM, __LF, __CR and __CRLF.
//@ lib
//@ fs
//@ pcre
//@ nolabels
//@ samples 4
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both q18 -DQ=18
//@ cfg both q19 -DQ=19
//@ cfg both q20 -DQ=20
//@ cfg both q21 -DQ=21
//@ cfg both q22 -DQ=22
//@ cfg both q23 -DQ=23
//@ cfg both q24 -DQ=24
//@ cfg both q25 -DQ=25
//@ cfg both q26 -DQ=26
//@ cfg both q27 -DQ=27
//@ cfg both q28 -DQ=28
//@ cfg both q29 -DQ=29
//@ cfg both q30 -DQ=30
//@ cfg both q31 -DQ=31
//@ cfg both q32 -DQ=32
//@ cfg both q33 -DQ=33
//@ cfg both q34 -DQ=34
//@ cfg both q35 -DQ=35
//@ cfg both q36 -DQ=36
//@ cfg both q37 -DQ=37
//@ cfg both q38 -DQ=38
//@ cfg both q39 -DQ=39
//@ cfg both q40 -DQ=40
//@ cfg both q41 -DQ=41
//@ cfg both q42 -DQ=42
//@ bounds 43 statements over tables of 3 and 2 rows, keys 1..3, texts a or b
//@ outside __ROWNUM in WHERE, ON, HAVING and aggregates
#include "pcre.h"
#include "e2e.h"
static const char* const sql[] = {
	[0] = "SELECT __REC FROM t",
	[1] = "SELECT s, __rec AS r FROM t WHERE __REC = 'a,1'",
	[2] = "SELECT t.__REC AS a, u.__REC AS b FROM t JOIN u ON t.n = u.n",
	[3] = "SELECT t.n FROM t JOIN u ON t.__REC = u.__REC",
	[4] = "SELECT __REC, COUNT(*) AS c FROM t GROUP BY __REC",
	[5] = "SELECT DISTINCT __REC FROM t",
	[6] = "SELECT s, n FROM t ORDER BY __REC DESC",
	[7] = "SELECT LEN(__REC) AS l, LEFT(__REC, 1) AS f, RIGHT(__REC, 2) AS g FROM t",
	[8] = "SELECT u.__REC AS b, COUNT(*) AS c FROM t JOIN u ON t.n = u.n GROUP BY u.__REC",
	[9] = "SELECT t.__REC AS a, u.__REC AS b, COUNT(*) AS c FROM t JOIN u ON t.n = u.n GROUP BY t.__REC, u.__REC",
	[10] = "SELECT s FROM t WHERE __REC IN ('a,1', 'b,2')",
	[11] = "SELECT s FROM t WHERE __REC LIKE '%2'",
	[12] = "SELECT x.r FROM (SELECT __REC AS r, n FROM t) AS x WHERE x.n <> '2'",
	[13] = "SELECT t.s, x.r FROM t JOIN (SELECT __REC AS r, n FROM u) AS x ON t.n = x.n AND x.r <> 'a,1'",
	[14] = "UPDATE t SET s = __REC",
	[15] = "SELECT MAX(__REC) AS m FROM t",
	[16] = "SELECT CASE WHEN __REC = 'a,1' THEN 'y' ELSE __REC END AS x FROM t",
	[17] = "SELECT t.s, u.__REC FROM t LEFT JOIN u ON t.n = u.n",
	[18] = "DELETE FROM t WHERE __REC = 'a,1'",
	[19] = "SELECT __REC FROM t JOIN u ON t.n = u.n",
	[20] = "SELECT __ROWNUM, s FROM t",
	[21] = "SELECT __ROWNUM AS r, s FROM t WHERE n <> '2'",
	[22] = "SELECT __ROWNUM AS r, s FROM t ORDER BY s DESC",
	[23] = "SELECT TOP 2 __ROWNUM AS r, s FROM t WHERE n <> '1'",
	[24] = "SELECT n, __ROWNUM AS r, COUNT(*) AS c FROM t GROUP BY n",
	[25] = "SELECT __ROWNUM AS r, s FROM t UNION ALL SELECT __ROWNUM, k FROM u",
	[26] = "UPDATE t SET s = __ROWNUM WHERE n <> '2'",
	[27] = "SELECT x.r, x.s FROM (SELECT __ROWNUM AS r, s FROM t) AS x WHERE x.r <> 2",
	[28] = "SELECT u.k, x.r FROM u JOIN (SELECT __ROWNUM AS r, n FROM t) AS x ON u.n = x.n",
	[29] = "SELECT k FROM u WHERE n IN (SELECT __ROWNUM FROM t WHERE n <> '3')",
	[30] = "SELECT __ROWNUM AS r, t.s, u.k FROM t JOIN u ON t.n = u.n",
	[31] = "SELECT __ROWNUM + 10 AS r, CASE __ROWNUM WHEN 2 THEN 'two' ELSE s END AS x FROM t",
	[32] = "SELECT s + __LF + n + __CR + '-' + __CRLF AS x FROM t",
	[33] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN SELECT __ROWNUM AS r, s FROM t; SET @i = @i + 1; END",
	[34] = "SELECT (SELECT __ROWNUM FROM u WHERE k = 'a') AS x, s FROM t",
	[35] = "SELECT t.__REC AS a FROM t JOIN u ON t.n = u.n GROUP BY u.__REC, t.__REC",
	[36] = "SELECT t.s FROM t JOIN u ON t.n <> u.n AND t.__REC <> u.__REC",
	[37] = "SELECT COUNT(__REC) AS c, MIN(u.__REC) AS m FROM u",
	[38] = "SELECT s FROM t WHERE s + __LF = 'a' + __LF",
	[39] = "SELECT x.__ROWNUM AS r, x.n FROM (SELECT n FROM t WHERE s = 'a') AS x",
	[40] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN UPDATE t SET s = __ROWNUM WHERE n <> '2'; SET @i = @i + 1; END",
	[41] = "SELECT t.s, t.__REC AS r FROM u JOIN t ON u.n = t.n WHERE t.__REC <> 'a,1'",
	[42] = "SELECT k, __REC AS r FROM u UNION ALL SELECT s, __REC FROM t",
};
static struct et t, u;
static int n[3], m[2], s[3], k[2];
static void rt(int r) { x_c(s[r]); x_c(','); x_int(n[r]); }
static void ru(int i) { x_c(k[i]); x_c(','); x_int(m[i]); }
#define BAR x_c('|')
#define NL x_c('\n')
#define FT for (int r = 0; r < 3; ++r)
#define FU for (int i = 0; i < 2; ++i)
static int same(int a, int b) { return s[a] == s[b] && n[a] == n[b]; }
static int key(int r) { return s[r] * 8 + n[r]; }
static int a1(int r) { return s[r] == 'a' && n[r] == 1; }
void harness(void)
{
	et_hdr(&t, "s,n");
	et_hdr(&u, "k,n");
	FT {
		if (r < 2) et_or(&t, r, 0, 'a', 'b'); else et_str(&t, r, 0, "b");
		et_ch(&t, r, 1, '1', '3');
		s[r] = t.c[r][0][0] = vp_fix(t.c[r][0][0]);
		n[r] = (t.c[r][1][0] = vp_fix(t.c[r][1][0])) - '0';
	}
	FU {
		et_str(&u, i, 0, i ? "b" : "a");
		k[i] = i ? 'b' : 'a';
		if (i) et_str(&u, i, 1, "2"); else et_ch(&u, i, 1, '1', '2');
		m[i] = (u.c[i][1][0] = vp_fix(u.c[i][1][0])) - '0';
	}
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
	fqlhandle* h = e2e_new();
	int mod = Q == 14 || Q == 18 || Q == 26 || Q == 40, run = mod || Q == 33, fail = Q == 19;
	int rc = run ? fql_exec(h, sql[Q]) : g_query(h, sql[Q]);
	CHECK((rc < 0) == fail);
	if (fail) { fql_free(h); return; }
	x_reset();
	int c = 0;
	switch (Q) {
	case 0: FT rt(r), NL; break;
	case 1: FT if (a1(r)) x_s("a|a,1\n"); break;
	case 2: FT FU if (n[r] == m[i]) rt(r), BAR, ru(i), NL; break;
	case 3: FT FU if (n[r] == m[i] && s[r] == k[i]) x_int(n[r]), NL; break;
	case 4: case 5: FT { int f = 1, q = 0; for (int j = 0; j < 3; ++j) if (same(j, r)) ++q, f &= j >= r; if (f) { rt(r); if (Q == 4) BAR, x_int(q); NL; } } break;
	case 6: for (int v = 'b' * 8 + 3; v >= 'a' * 8; --v) FT if (key(r) == v) x_c(s[r]), BAR, x_int(n[r]), NL; break;
	case 7: FT x_s("3|"), x_c(s[r]), x_s("|,"), x_int(n[r]), NL; break;
	case 8: { int f[2] = {9, 9}, q[2] = {0, 0}; FT FU if (n[r] == m[i]) { if (!q[i]++) f[i] = c++; } for (int j = 0; j < 2; ++j) FU if (f[i] == j) ru(i), BAR, x_int(q[i]), NL; break; }
	case 9: case 35: FT FU if (n[r] == m[i]) { int f = 1, q = 0; for (int j = 0; j < 3; ++j) if (same(j, r)) ++q, f &= j >= r; if (f) { rt(r); if (Q == 9) BAR, ru(i), BAR, x_int(q); NL; } } break;
	case 10: FT if (a1(r) || (s[r] == 'b' && n[r] == 2)) x_c(s[r]), NL; break;
	case 11: FT if (n[r] == 2) x_c(s[r]), NL; break;
	case 12: FT if (n[r] != 2) rt(r), NL; break;
	case 13: FT FU if (n[r] == m[i] && !(i == 0 && m[i] == 1)) x_c(s[r]), BAR, ru(i), NL; break;
	case 15: { int b = 0; FT if (key(r) > key(b)) b = r; rt(b), NL; break; }
	case 16: FT { if (a1(r)) x_c('y'); else rt(r); NL; } break;
	case 17: FT { int hit = 0; FU if (n[r] == m[i]) hit = 1, x_c(s[r]), BAR, ru(i), NL; if (!hit) x_c(s[r]), x_s("|~\n"); } break;
	case 20: FT x_int(r + 1), BAR, x_c(s[r]), NL; break;
	case 21: FT if (n[r] != 2) x_int(++c), BAR, x_c(s[r]), NL; break;
	case 22: for (int v = 'b'; v >= 'a'; --v) FT if (s[r] == v) x_int(r + 1), BAR, x_c(s[r]), NL; break;
	case 23: FT if (n[r] != 1 && c < 2) x_int(++c), BAR, x_c(s[r]), NL; break;
	case 24: FT { int f = 1, q = 0; for (int j = 0; j < 3; ++j) if (n[j] == n[r]) ++q, f &= j >= r; if (f) x_int(n[r]), BAR, x_int(++c), BAR, x_int(q), NL; } break;
	case 25: FT x_int(r + 1), BAR, x_c(s[r]), NL; FU x_int(i + 1), BAR, x_c(k[i]), NL; break;
	case 27: FT if (r != 1) x_int(r + 1), BAR, x_c(s[r]), NL; break;
	case 28: FU FT if (n[r] == m[i]) x_c(k[i]), BAR, x_int(r + 1), NL; break;
	case 29: FT if (n[r] != 3) ++c; FU if (m[i] <= c) x_c(k[i]), NL; break;
	case 30: FT FU if (n[r] == m[i]) x_int(++c), BAR, x_c(s[r]), BAR, x_c(k[i]), NL; break;
	case 31: FT { x_int(r + 11), BAR; if (r == 1) x_s("two"); else x_c(s[r]); NL; } break;
	case 32: FT x_c(s[r]), NL, x_int(n[r]), x_s("\r-\r\n\n"); break;
	case 33: for (int p = 0; p < 2; ++p) { x_s("r,s\n"); FT x_int(r + 1), x_c(','), x_c(s[r]), NL; } break;
	case 34: FT x_s("1|"), x_c(s[r]), NL; break;
	case 36: FT FU if (n[r] != m[i]) x_c(s[r]), NL; break;
	case 37: x_s("2|"), ru(0), NL; break;
	case 38: FT if (s[r] == 'a') x_s("a\n"); break;
	case 39: FT if (s[r] == 'a') x_int(++c), BAR, x_int(n[r]), NL; break;
	case 41: FU FT if (n[r] == m[i] && !a1(r)) x_c(s[r]), BAR, rt(r), NL; break;
	case 42: FU x_c(k[i]), BAR, ru(i), NL; FT x_c(s[r]), BAR, rt(r), NL; break;
	}
	if (!run) CHECKX(x_api());
	else { CHECKX(x_stdout()); }
	x_reset();
	x_s("s,n\n");
	c = 0;
	FT {
		if (Q == 18 && a1(r)) continue;
		if (Q == 14) rt(r);
		else if ((Q == 26 || Q == 40) && n[r] != 2) x_int(++c);
		else x_c(s[r]);
		x_c(','), x_int(n[r]), NL;
	}
	CHECKX(x_file("t.csv"));
	fql_free(h);
	CHECK(vfs_open_files() == 0);
}
