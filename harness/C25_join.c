//@ lib
//@ fs
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg thorough q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both c0 -DQ=0 -DCART=1
//@ cfg both c3 -DQ=3 -DCART=1
//@ nolabels
//@ bounds two tables of 2 rows and 2 columns (cells of 2 values): INNER and LEFT joins by one or two equalities, other comparisons, ORs, numbers, letter case, self joins, sides mixed in one expression, CASE, a scalar subquery, with WHERE; hash and cartesian plans
//@ outside join types other than INNER and LEFT; LEFT JOIN without an equality (refused by the code); more rows
#include "e2e.h"
#ifndef R
#define R 2
#endif
static const char* const sql[] = {
	"SELECT t.a, t.b, u.c, u.d FROM t JOIN u ON t.a = u.c",
	"SELECT t.a, t.b, u.c, u.d FROM t LEFT JOIN u ON t.a = u.c",
	"SELECT t.a, t.b, u.c, u.d FROM t JOIN u ON u.c = t.a AND t.b = u.d",
	"SELECT t.a, t.b, u.c, u.d FROM t JOIN u ON t.a = u.c WHERE u.d <> '1'",
	"SELECT t.a, t.b, u.c, u.d FROM t LEFT JOIN u ON t.a = u.c WHERE u.d <> '1'",
	"SELECT t.a, t.b, u.c, u.d FROM t JOIN u ON t.a <> u.c",
	"SELECT t.a, t.b, u.c, u.d FROM t LEFT JOIN u ON t.a = u.c AND u.d = '2'",
	"SELECT t.a, t.b, u.c, u.d FROM t JOIN u ON CAST(t.b AS int) = CAST(u.d AS int)",
	"SELECT t.a, t.b, u.c, u.d FROM t JOIN u ON t.a = u.c OR t.b = u.d",
	"SELECT t.a, t.b, u.c, u.d FROM t JOIN u ON t.a = u.c",
	"SELECT x.a, x.b, y.a, y.b FROM t AS x JOIN t AS y ON x.b = y.b",
	"SELECT t.a, t.b, u.c, u.d FROM t LEFT JOIN u ON t.a = u.c WHERE u.d IS NULL",
	"SELECT t.a, t.b, u.c, u.d FROM t JOIN u ON CAST(t.b AS float) = CAST(u.d AS int)",
	"SELECT t.a, t.b, u.c, u.d FROM t JOIN u ON t.b = u.d + LEFT(t.a, 0)",
	"SELECT t.a, t.b, u.c, u.d FROM t JOIN u ON (SELECT MAX(c) FROM u) = t.a",
	"SELECT t.a, t.b, u.c, u.d FROM t JOIN u ON t.a = CASE WHEN u.d = '1' THEN u.c ELSE t.a END",
	"SELECT t.a, t.b, u.c, u.d FROM t LEFT JOIN u ON t.b = u.d + LEFT(t.a, 0) AND t.a = u.c",
	"SELECT t.a, t.b, u.c, u.d FROM t LEFT JOIN u ON CASE u.d WHEN '1' THEN u.c ELSE 'x' END = t.a",
};
static char mx;
static int on(char a, char b, char c, char d)
{
	switch (Q) {
	case 0: case 1: case 3: case 4: return a == c;
	case 2: return a == c & b == d;
	case 5: return a != c;
	case 13: return b == d;
	case 14: return a == mx;
	case 15: return d != '1' | a == c;
	case 16: return b == d & a == c;
	case 17: return a == (d == '1' ? c : 'x');
	case 6: return a == c & d == '2';
	case 7: case 12: return b == d;
	case 9: return (a | 0x20) == (c | 0x20);
	case 10: return b == d;
	case 11: return a == c;
	case 8: return a == c | b == d;
	}
	return 0;
}
void harness(void)
{
	struct et t, u;
	et_hdr(&t, "a,b");
	et_hdr(&u, "c,d");
	for (int r = 0; r < R; ++r) { et_ch(&t, r, 0, 'x', 'y'); et_ch(&t, r, 1, '1', '2'); }
	if (Q == 9) for (int r = 0; r < R; ++r) { et_or(&t, r, 0, 'x', 'X'); et_or(&u, r, 0, r ? 'y' : 'x', 'X'); et_ch(&u, r, 1, '1', '2'); }
	else if (Q == 10) u = t;
	else for (int r = 0; r < R; ++r) { et_ch(&u, r, 0, 'x', 'y'); et_ch(&u, r, 1, '1', '2'); }
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
	fqlhandle* f = e2e_new();
#ifdef CART
	fql_set_force_cartesian(f, 1);
#endif
	int n = g_query(f, sql[Q]);
	int left = Q == 1 || Q == 4 || Q == 6 || Q == 11 || Q == 16 || Q == 17;
	x_reset();
	int k = 0;
	mx = 'x';
	for (int r = 0; r < R; ++r) if (Q == 14 && u.c[r][0][0] == 'y') mx = 'y';
	for (int r = 0; r < R; ++r) {
		char a = t.c[r][0][0], b = t.c[r][1][0];
		int m = 0;
		for (int s = 0; s < R; ++s) {
			char c = u.c[s][0][0], d = u.c[s][1][0];
			if (!on(a, b, c, d)) continue;
			m = 1;
			if ((Q == 3 || Q == 4) && d == '1') continue;
			if (Q == 11) continue;
			++k;
			x_c(a); x_c('|'); x_c(b); x_c('|'); x_c(c); x_c('|'); x_c(d); x_c('\n');
		}
		if (!m && left && Q != 4) { ++k; x_c(a); x_c('|'); x_c(b); x_s("|~|~\n"); }
	}
	vp_obs(n);
	CHECK(n == k);
	CHECKX(x_api());
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
