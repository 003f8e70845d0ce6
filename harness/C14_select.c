//@ lib
//@ fs
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ nolabels
//@ bounds SELECT … WHERE over a table of 3 rows and 2 columns of one symbolic character each (3 values): projections, *, repeated and computed columns, AND/OR/parentheses, arithmetic with CAST, TOP; 8 query shapes
//@ outside ANTLR parsing (rt/sql.h drives the analyser in its place); other query shapes; longer cells; threads
#include "e2e.h"
#ifndef R
#define R 3
#endif
static const char* const sql[] = {
	"SELECT b, a FROM t WHERE a = 'x'",
	"SELECT * FROM t WHERE a = 'x' AND b = '1' OR b = '2'",
	"SELECT a FROM t WHERE (a = 'x' OR b = '1') AND (a <> 'y' OR b = '3')",
	"SELECT a, b, a FROM t",
	"SELECT a + b AS c FROM t WHERE CAST(b AS int) + 1 > 2",
	"SELECT a FROM t WHERE 1 = 0",
	"SELECT a, 7 FROM t WHERE a = 'y' OR a = 'z' OR b <> '1' AND 1 = 1",
	"SELECT TOP 2 t.a FROM t WHERE a <> 'x'",
};
static int keep(char a, char b)
{
	switch (Q) {
	case 0: return a == 'x';
	case 1: return (a == 'x' & b == '1') | b == '2';
	case 2: return (a == 'x' | b == '1') & (a != 'y' | b == '3');
	case 4: return b - '0' + 1 > 2;
	case 5: return 0;
	case 6: return a == 'y' | a == 'z' | b != '1';
	case 7: return a != 'x';
	}
	return 1;
}
void harness(void)
{
	struct et t;
	et_hdr(&t, "a,b");
	for (int r = 0; r < R; ++r) { et_ch(&t, r, 0, 'x', 'z'); et_ch(&t, r, 1, '1', '3'); }
	et_put(&t, "t.csv");
	fqlhandle* f = e2e_new();
	int n = g_query(f, sql[Q]);
	x_reset();
	int k = 0;
	for (int r = 0; r < R; ++r) {
		char a = t.c[r][0][0], b = t.c[r][1][0];
		if (!keep(a, b) || (Q == 7 && k == 2)) continue;
		++k;
		switch (Q) {
		case 0: x_c(b); x_c('|'); x_c(a); break;
		case 1: x_c(a); x_c('|'); x_c(b); break;
		case 2: x_c(a); break;
		case 3: x_c(a); x_c('|'); x_c(b); x_c('|'); x_c(a); break;
		case 4: x_c(a); x_c(b); break;
		case 5: x_c(a); break;
		case 6: x_c(a); x_s("|7"); break;
		case 7: x_c(a); break;
		}
		x_c('\n');
	}
	vp_obs(n);
	CHECK(n == k);
	CHECKX(x_api());
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
