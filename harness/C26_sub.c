//@ lib
//@ fs
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both q18 -DQ=18
//@ cfg both q19 -DQ=19
//@ cfg both q20 -DQ=20
//@ cfg both q21 -DQ=21
//@ cfg both q22 -DQ=22
//@ cfg both q23 -DQ=23
//@ cfg both q24 -DQ=24
//@ cfg both q25 -DQ=25
//@ cfg both q26 -DQ=26
//@ cfg both q27 -DQ=27
//@ cfg both q28 -DQ=28
//@ cfg both q29 -DQ=29
//@ cfg both q30 -DQ=30
//@ cfg both q31 -DQ=31
//@ nolabels
// subqueries as sources and as values, UNION ALL
//@ bounds two tables of 2 rows: subqueries as sources (with WHERE, joins, UNION ALL, GROUP BY, computed columns, nested to depth 3), joined from either side, as scalar values; UNION ALL of up to three members, each with or without TOP
//@ outside correlated subqueries (not supported by the code); NULL read back from a temporary file
#include "e2e.h"
#ifndef R
#define R 2
#endif
static const char* const sql[] = {
	"SELECT s.a, s.b FROM (SELECT a, b FROM t WHERE b = '1') AS s",
	"SELECT s.b, s.n FROM (SELECT b + a AS n, b FROM t) AS s WHERE s.b <> '2'",
	"SELECT s.a, u.d FROM (SELECT a, b FROM t) AS s JOIN u ON s.a = u.c",
	"SELECT t.b, s.d FROM t JOIN (SELECT c, d FROM u WHERE d = '1') AS s ON t.a = s.c",
	"SELECT s.b, u.d FROM (SELECT t.a, t.b FROM t JOIN u ON t.a = u.c) AS s JOIN u ON s.b = u.d",
	"SELECT a, b FROM t UNION ALL SELECT c, d FROM u",
	"SELECT a, b FROM t WHERE b = '1' UNION ALL SELECT c, d FROM u WHERE d = '2' UNION ALL SELECT a, b FROM t",
	"SELECT s.a, s.n FROM (SELECT a, COUNT(*) AS n FROM t GROUP BY a) AS s",
	"SELECT s.x, s.y FROM (SELECT a AS x, b AS y FROM t UNION ALL SELECT c, d FROM u) AS s WHERE s.y = '1'",
	"SELECT s.n, s.a FROM (SELECT 7 AS n, a, CAST(b AS int) + 1 AS m FROM t) AS s WHERE s.m = 2",
	"SELECT s.a, s.k FROM (SELECT a, CASE WHEN b = '1' THEN LEFT(a + b, 2) ELSE 'no' END AS k FROM t) AS s",
	"SELECT r.a FROM (SELECT s.a, s.b FROM (SELECT a, b FROM t WHERE b = '1') AS s WHERE s.a = 'x') AS r",
	"SELECT a FROM t WHERE b = (SELECT d FROM u WHERE c = 'x')",
	"SELECT t.b, s.d FROM t LEFT JOIN (SELECT c, d FROM u WHERE d = '1') AS s ON t.a = s.c",
	"SELECT DISTINCT s.a FROM (SELECT a, b FROM t) AS s",
	"SELECT TOP 1 s.a, s.b FROM (SELECT a, b FROM t WHERE b = '2') AS s",
	"SELECT s.a, s.d FROM (SELECT t.a, u.d FROM t LEFT JOIN u ON t.a = u.c) AS s WHERE s.d IS NULL",
	"SELECT r.k, r.b FROM (SELECT s.k, s.b FROM (SELECT LEFT(a + b, 2) AS k, b FROM t) AS s) AS r",
	"SELECT r.k, u.d FROM (SELECT s.k, s.d FROM (SELECT RIGHT(a, 1) AS k, u.d FROM t JOIN u ON t.a = u.c) AS s) AS r JOIN u ON r.k = u.c",
	"SELECT s.k, s.b FROM (SELECT CASE WHEN b = '1' THEN a ELSE RIGHT(b, 1) END AS k, b FROM t) AS s",
	"SELECT a FROM t WHERE b = (SELECT CASE WHEN d = '1' THEN NULL ELSE d END FROM u WHERE c = 'x')",
	"SELECT a, ISNULL((SELECT CASE WHEN d = '1' THEN NULL ELSE d END FROM u WHERE c = 'x'), 'n') AS v FROM t",
	"SELECT a FROM t WHERE b = (SELECT TOP 2 d FROM u WHERE c = 'x' ORDER BY d)",
	"SELECT a FROM t WHERE b = (SELECT TOP 1 d FROM u ORDER BY d DESC)",
	"SELECT a FROM t WHERE b = (SELECT d FROM u WHERE c = 'x' UNION ALL SELECT b FROM t WHERE a = 'y')",
	"SELECT a FROM t WHERE b = (SELECT d FROM u WHERE c = 'x') OR b = (SELECT MAX(d) FROM u)",
	"SELECT a FROM t WHERE (SELECT d FROM u WHERE c = 'x') IS NULL",
	"SELECT a FROM t WHERE b + 0 = (SELECT CASE WHEN d = '1' THEN NULL ELSE d + 0 END FROM u WHERE c = 'x')",
	"SELECT a, b FROM t WHERE b = '1' UNION ALL SELECT TOP 1 c, d FROM u",
	"SELECT TOP 1 a, b FROM t UNION ALL SELECT TOP 2 c, d FROM u UNION ALL SELECT TOP 1 b, a FROM t WHERE b = '2'",
	"SELECT s.x FROM (SELECT TOP 1 a AS x FROM t WHERE b = '1' UNION ALL SELECT TOP 1 c FROM u WHERE d = '1' UNION ALL SELECT a FROM t) AS s",
	"SELECT a FROM t WHERE b IN (SELECT TOP 1 d FROM u WHERE c = 'x' UNION ALL SELECT TOP 1 d FROM u WHERE c = 'y')",
};
static struct et t, u;
static int k;
static void row(char x, char y) { ++k; x_c(x); if (y) { x_c('|'); x_c(y); } x_c('\n'); }
#define TA(r) (t.c[r][0][0])
#define TB(r) (t.c[r][1][0])
#define UC(r) (u.c[r][0][0])
#define UD(r) (u.c[r][1][0])
void harness(void)
{
	et_hdr(&t, "a,b");
	et_hdr(&u, "c,d");
	for (int r = 0; r < R; ++r) {
		et_ch(&t, r, 0, 'x', 'y'); et_ch(&t, r, 1, '1', '2');
		et_ch(&u, r, 0, 'x', 'y'); et_ch(&u, r, 1, '1', '2');
	}
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
	fqlhandle* f = e2e_new();
	int n = g_query(f, sql[Q]);
	x_reset();
	int m;
	switch (Q) {
	case 0: for (int r = 0; r < R; ++r) if (TB(r) == '1') row(TA(r), TB(r)); break;
	case 1: for (int r = 0; r < R; ++r) if (TB(r) != '2') { ++k; x_c(TB(r)); x_c('|'); x_c(TB(r)); x_c(TA(r)); x_c('\n'); } break;
	case 2: for (int r = 0; r < R; ++r) for (int s = 0; s < R; ++s) if (TA(r) == UC(s)) row(TA(r), UD(s)); break;
	case 3: for (int r = 0; r < R; ++r) for (int s = 0; s < R; ++s) if (TA(r) == UC(s) && UD(s) == '1') row(TB(r), UD(s)); break;
	case 4: for (int r = 0; r < R; ++r) for (int s = 0; s < R; ++s) if (TA(r) == UC(s)) for (int q = 0; q < R; ++q) if (TB(r) == UD(q)) row(TB(r), UD(q)); break;
	case 5: for (int r = 0; r < R; ++r) row(TA(r), TB(r)); for (int r = 0; r < R; ++r) row(UC(r), UD(r)); break;
	case 6: for (int r = 0; r < R; ++r) if (TB(r) == '1') row(TA(r), TB(r)); for (int r = 0; r < R; ++r) if (UD(r) == '2') row(UC(r), UD(r)); for (int r = 0; r < R; ++r) row(TA(r), TB(r)); break;
	case 7: for (int r = 0; r < R; ++r) { int c = 0, d = 0; for (int s = 0; s < R; ++s) if (TA(s) == TA(r)) { ++c; if (s < r) d = 1; } if (!d) row(TA(r), '0' + c); } break;
	case 8: for (int r = 0; r < R; ++r) if (TB(r) == '1') row(TA(r), TB(r)); for (int r = 0; r < R; ++r) if (UD(r) == '1') row(UC(r), UD(r)); break;
	case 9: for (int r = 0; r < R; ++r) if (TB(r) == '1') row('7', TA(r)); break;
	case 10: for (int r = 0; r < R; ++r) { ++k; x_c(TA(r)); x_c('|'); if (TB(r) == '1') { x_c(TA(r)); x_c('1'); } else x_s("no"); x_c('\n'); } break;
	case 11: for (int r = 0; r < R; ++r) if (TB(r) == '1' && TA(r) == 'x') row(TA(r), 0); break;
	case 12:
		m = 0;
		for (int r = 0; r < R; ++r) if (UC(r) == 'x') ++m;
		if (m > 1) { CHECK(n == FQL_FAIL); fql_free(f); return; }
		for (int r = 0; r < R; ++r) if (m == 1) for (int s = 0; s < R; ++s) if (UC(s) == 'x' && TB(r) == UD(s)) row(TA(r), 0);
		break;
	case 13: for (int r = 0; r < R; ++r) { m = 0; for (int s = 0; s < R; ++s) if (TA(r) == UC(s) && UD(s) == '1') { m = 1; row(TB(r), UD(s)); } if (!m) row(TB(r), '~'); } break;
	case 14: for (int r = 0; r < R; ++r) { m = 0; for (int s = 0; s < r; ++s) if (TA(s) == TA(r)) m = 1; if (!m) row(TA(r), 0); } break;
	case 15: for (int r = 0; r < R && k < 1; ++r) if (TB(r) == '2') row(TA(r), TB(r)); break;
	case 16: for (int r = 0; r < R; ++r) { m = 0; for (int s = 0; s < R; ++s) if (TA(r) == UC(s)) m = 1; if (!m) row(TA(r), '~'); } break;
	case 17: for (int r = 0; r < R; ++r) { ++k; x_c(TA(r)); x_c(TB(r)); x_c('|'); x_c(TB(r)); x_c('\n'); } break;
	case 18: for (int r = 0; r < R; ++r) for (int s = 0; s < R; ++s) if (TA(r) == UC(s)) for (int q = 0; q < R; ++q) if (TA(r) == UC(q)) row(TA(r), UD(q)); break;
	case 19: for (int r = 0; r < R; ++r) row(TB(r) == '1' ? TA(r) : TB(r), TB(r)); break;
	case 20: case 27:
		m = 0;
		for (int r = 0; r < R; ++r) if (UC(r) == 'x') ++m;
		if (m > 1) { CHECK(n == FQL_FAIL); fql_free(f); return; }
		for (int r = 0; r < R; ++r) for (int s = 0; s < R; ++s) if (UC(s) == 'x' && UD(s) != '1' && TB(r) == UD(s)) row(TA(r), 0);
		break;
	case 21:
		m = 0;
		for (int r = 0; r < R; ++r) if (UC(r) == 'x') { ++m; if (UD(r) != '1') m += 10; }
		if (m % 10 > 1) { CHECK(n == FQL_FAIL); fql_free(f); return; }
		for (int r = 0; r < R; ++r) row(TA(r), m < 10 ? 'n' : '2');
		break;
	case 22:
		m = 0;
		for (int r = 0; r < R; ++r) if (UC(r) == 'x') ++m;
		if (m > 1) { CHECK(n == FQL_FAIL); fql_free(f); return; }
		for (int r = 0; r < R; ++r) for (int s = 0; s < R; ++s) if (UC(s) == 'x' && TB(r) == UD(s)) row(TA(r), 0);
		break;
	case 23: for (int r = 0; r < R; ++r) { m = '1'; for (int s = 0; s < R; ++s) if (UD(s) == '2') m = '2'; if (TB(r) == m) row(TA(r), 0); } break;
	case 24: {
		char v = 0;
		m = 0;
		for (int r = 0; r < R; ++r) if (UC(r) == 'x') ++m, v = UD(r);
		for (int r = 0; r < R; ++r) if (TA(r) == 'y') ++m, v = TB(r);
		if (m > 1) { CHECK(n == FQL_FAIL); fql_free(f); return; }
		for (int r = 0; r < R; ++r) if (m && TB(r) == v) row(TA(r), 0);
		break;
	}
	case 25: {
		char v = 0, w = '1';
		m = 0;
		for (int r = 0; r < R; ++r) { if (UC(r) == 'x') ++m, v = UD(r); if (UD(r) == '2') w = '2'; }
		if (m > 1) { CHECK(n == FQL_FAIL); fql_free(f); return; }
		for (int r = 0; r < R; ++r) if ((m && TB(r) == v) || TB(r) == w) row(TA(r), 0);
		break;
	}
	case 28: for (int r = 0; r < R; ++r) if (TB(r) == '1') row(TA(r), TB(r)); row(UC(0), UD(0)); break;
	case 29: row(TA(0), TB(0)); for (int r = 0; r < R; ++r) row(UC(r), UD(r)); for (int r = m = 0; r < R && !m; ++r) if (TB(r) == '2') m = 1, row(TB(r), TA(r)); break;
	case 30:
		for (int r = m = 0; r < R && !m; ++r) if (TB(r) == '1') m = 1, row(TA(r), 0);
		for (int r = m = 0; r < R && !m; ++r) if (UD(r) == '1') m = 1, row(UC(r), 0);
		for (int r = 0; r < R; ++r) row(TA(r), 0);
		break;
	case 31:
		for (int r = 0; r < R; ++r) {
			char p = 0, q = 0;
			for (int s = R - 1; s >= 0; --s) if (UC(s) == 'x') p = UD(s); else q = UD(s);
			if (TB(r) == p || TB(r) == q) row(TA(r), 0);
		}
		break;
	case 26:
		m = 0;
		for (int r = 0; r < R; ++r) if (UC(r) == 'x') ++m;
		if (m > 1) { CHECK(n == FQL_FAIL); fql_free(f); return; }
		for (int r = 0; r < R; ++r) if (!m) row(TA(r), 0);
		break;
	}
	vp_obs(n);
	CHECK(n == k);
	CHECKX(x_api());
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
