// Aggregates around the empty group: no matching row, only NULLs, and what the rest of the query makes of it.
//@ lib
//@ fs
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both q18 -DQ=18
//@ nolabels
//@ samples 6
//@ time 300
//@ bounds aggregates over the 0 to 2 matching rows of a table of 2 (any of 2 texts and 3 numbers a row): alone, with ORDER BY, HAVING, GROUP BY, DISTINCT, TOP 0, a join without match, inside a member of UNION ALL, as a source, as a value and in IN; a count of nothing is 0, any other aggregate of nothing or of only NULLs is NULL, and GROUP BY over nothing has no row
//@ outside larger tables, aggregates of nothing without FROM
#include "e2e.h"
#define R 2
static const char* const sql[] = {
	"SELECT COUNT(*) AS c FROM t WHERE s = 'a'",
	"SELECT COUNT(*) AS c FROM t WHERE s = 'a' ORDER BY c",
	"SELECT COUNT(*) AS c FROM t WHERE s = 'a' HAVING COUNT(*) = 0",
	"SELECT q.c + 1 AS d FROM (SELECT COUNT(*) AS c FROM t WHERE s = 'a') AS q",
	"SELECT n + 0 AS c FROM t UNION ALL SELECT COUNT(*) FROM t WHERE s = 'a'",
	"SELECT COUNT(*) AS c FROM t WHERE s = 'a' UNION ALL SELECT n + 0 FROM t",
	"SELECT TOP 0 COUNT(*) AS c FROM t WHERE s = 'a'",
	"SELECT COUNT(*) AS c FROM t WHERE s = 'a' GROUP BY n",
	"SELECT MAX(n + 0) AS x, MIN(n + 0) AS y, SUM(n + 0) AS z, AVG(n + 0) AS v, MAX(s) AS w FROM t WHERE s = 'a'",
	"SELECT MAX(n + 0) AS x, MIN(n + 0) AS y, SUM(n + 0) AS z, AVG(n + 0) AS v, MIN(s) AS w FROM t WHERE s = 'a' ORDER BY x",
	"SELECT q.x FROM (SELECT MAX(n + 0) AS x FROM t WHERE s = 'a') AS q WHERE q.x IS NULL",
	"SELECT s AS s, MAX(CASE WHEN n = '1' THEN n + 0 END) AS x, COUNT(CASE WHEN n = '1' THEN 1 END) AS c FROM t GROUP BY s",
	"SELECT COUNT(*) AS c FROM t AS a JOIN t AS b ON a.n = b.n + 5",
	"SELECT n FROM t WHERE n > (SELECT COUNT(*) FROM t WHERE s = 'a')",
	"SELECT COUNT(*) + 1 AS c FROM t WHERE s = 'a'",
	"SELECT n FROM t WHERE n + 0 IN (SELECT MAX(n + 0) FROM t WHERE s = 'a')",
	"SELECT DISTINCT COUNT(*) AS c FROM t WHERE s = 'a'",
	"SELECT 7 AS k, COUNT(*) AS c FROM t WHERE s = 'a'",
	"SELECT ISNULL(MAX(n + 0), 9) AS m FROM t WHERE s = 'a'",
};
static const char* const ss[] = {"a", "b"};
static const char* const ns[] = {"1", "2", "3"};
static struct et t;
static void v(int null, int x) { if (null) x_c('~'); else x_int(x); }
void harness(void)
{
	int s[R], n[R], m = 0, mx = 0, mn = 9, sum = 0;
	et_hdr(&t, "s,n");
	for (int r = 0; r < R; ++r) {
		s[r] = et_any(&t, r, 0, 2, ss);
		n[r] = 1 + et_any(&t, r, 1, 3, ns);
		if (s[r]) continue;
		++m;
		sum += n[r];
		if (n[r] > mx) mx = n[r];
		if (n[r] < mn) mn = n[r];
	}
	et_put(&t, "t.csv");
	fqlhandle* f = e2e_new();
	CHECK(g_query(f, sql[Q]) >= 0);
	x_reset();
	switch (Q) {
	case 0: case 1: case 16: x_int(m); x_c('\n'); break;
	case 2: if (m == 0) x_s("0\n"); break;
	case 3: case 14: x_int(m + 1); x_c('\n'); break;
	case 4: for (int r = 0; r < R; ++r) { x_int(n[r]); x_c('\n'); } x_int(m); x_c('\n'); break;
	case 5: x_int(m); x_c('\n'); for (int r = 0; r < R; ++r) { x_int(n[r]); x_c('\n'); } break;
	case 6: break;
	case 7:
		if (m == 2 && n[0] == n[1]) x_s("2\n");
		else for (int r = 0; r < m; ++r) x_s("1\n");
		break;
	case 8: case 9:
		v(!m, mx); x_c('|'); v(!m, mn); x_c('|'); v(!m, sum); x_c('|'); v(!m, m ? sum / m : 0); x_c('|'); x_s(m ? "a" : "~"); x_c('\n');
		break;
	case 10: if (!m) x_s("~\n"); break;
	case 11:
		for (int r = 0; r < R; ++r) {
			int c = 0, first = 1;
			for (int i = 0; i < R; ++i) { if (s[i] != s[r]) continue; if (i < r) first = 0; c += n[i] == 1; }
			if (!first) continue;
			x_s(ss[s[r]]); x_c('|'); v(!c, 1); x_c('|'); x_int(c); x_c('\n');
		}
		break;
	case 12: x_s("0\n"); break;
	case 13: for (int r = 0; r < R; ++r) if (n[r] > m) { x_int(n[r]); x_c('\n'); } break;
	case 15: for (int r = 0; r < R; ++r) if (m && n[r] == mx) { x_int(n[r]); x_c('\n'); } break;
	case 17: x_s("7|"); x_int(m); x_c('\n'); break;
	case 18: x_int(m ? mx : 9); x_c('\n'); break;
	}
	CHECKX(x_api());
	fql_free(f);
}
