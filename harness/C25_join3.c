//@ lib
//@ fs
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both c0 -DQ=0 -DCART=1
//@ cfg both c4 -DQ=4 -DCART=1
//@ cfg both f0 -DQ=0 -DPF=1
//@ cfg both f4 -DQ=4 -DPF=1
//@ cfg both f5 -DQ=5 -DPF=1
//@ cfg both f6 -DQ=6 -DPF=1
//@ nolabels
// three sources, two rows each
//@ bounds three tables of 2 rows: INNER and LEFT chains, join through either earlier table, cartesian plans, pipe factor 1
//@ outside four or more tables
#include "e2e.h"
#ifndef R
#define R 2
#endif
#define D0 (Q == 7 ? '0' : '1')
static const char* const sql[] = {
	"SELECT t.a, t.b, u.c, u.d, v.e, v.g FROM t JOIN u ON t.a = u.c JOIN v ON u.d = v.g",
	"SELECT t.a, t.b, u.c, u.d, v.e, v.g FROM t LEFT JOIN u ON t.a = u.c LEFT JOIN v ON u.d = v.g",
	"SELECT t.a, t.b, u.c, u.d, v.e, v.g FROM t LEFT JOIN u ON t.a = u.c JOIN v ON t.b = v.g",
	"SELECT t.a, t.b, u.c, u.d, v.e, v.g FROM t JOIN u ON t.a = u.c LEFT JOIN v ON u.d = v.g AND t.b = v.g",
	"SELECT t.a, t.b, u.c, u.d, v.e, v.g FROM t JOIN u ON t.a = u.c JOIN v ON t.a = v.e WHERE t.b = '1' AND v.g = '2'",
	"SELECT t.a, t.b, u.c, u.d, v.e, v.g FROM t JOIN u ON t.a = u.c JOIN v ON t.a = v.e WHERE t.b = '1' OR v.g = '2'",
	"SELECT t.a, t.b, u.c, u.d, v.e, v.g FROM t LEFT JOIN u ON t.a = u.c AND t.b = u.d LEFT JOIN v ON u.d = v.g AND t.a = v.e",
	"SELECT t.a, t.b, u.c, u.d, v.e, v.g FROM t LEFT JOIN u ON t.a = u.c LEFT JOIN v ON CAST(u.d AS int) = CAST(v.g AS int)",
};
// does the u row (c,d) join to t row (a,b); the v row (e,g) to (a,b,c,d)? d == 0: u row is NULL
static int on1(char a, char b, char c, char d) { return Q == 6 ? a == c & b == d : a == c; }
static int on2(char a, char b, char c, char d, char e, char g)
{
	switch (Q) {
	case 0: case 1: case 7: return d != 0 & d == g;
	case 2: return b == g;
	case 3: return d == g & b == g;
	case 4: case 5: return a == e;
	case 6: return d != 0 & d == g & a == e;
	}
	return 0;
}
static const int left1[] = {0, 1, 1, 0, 0, 0, 1, 1}, left2[] = {0, 1, 0, 1, 0, 0, 1, 1};
static struct et t, u, v;
static int k;
static void third(char a, char b, char c, char d)
{
	int m = 0;
	for (int s = 0; s <= R; ++s) {
		char e = 0, g = 0;
		if (s < R) { e = v.c[s][0][0]; g = v.c[s][1][0]; }
		if (s < R ? !on2(a, b, c, d, e, g) : (m || !left2[Q])) continue;
		m = 1;
		if (Q == 4 && !(b == '1' & g == '2')) continue;
		if (Q == 5 && !(b == '1' | g == '2')) continue;
		++k;
		x_c(a); x_c('|'); x_c(b); x_c('|');
		if (d) { x_c(c); x_c('|'); x_c(d); } else x_s("~|~");
		x_c('|');
		if (s < R) { x_c(e); x_c('|'); x_c(g); } else x_s("~|~");
		x_c('\n');
	}
}
void harness(void)
{
	et_hdr(&t, "a,b");
	et_hdr(&u, "c,d");
	et_hdr(&v, "e,g");
	for (int r = 0; r < R; ++r) {
		et_ch(&t, r, 0, 'x', 'y'); et_ch(&t, r, 1, '1', '2');
		et_ch(&u, r, 0, 'x', 'y'); et_ch(&u, r, 1, D0, D0 + 1);
		et_ch(&v, r, 0, 'x', 'y'); et_ch(&v, r, 1, D0, D0 + 1);
	}
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
	et_put(&v, "v.csv");
	fqlhandle* f = e2e_new();
#ifdef CART
	fql_set_force_cartesian(f, 1);
#endif
#ifdef PF
	fql_set_pipe_factor(f, PF);
#endif
	int n = g_query(f, sql[Q]);
	x_reset();
	for (int r = 0; r < R; ++r) {
		char a = t.c[r][0][0], b = t.c[r][1][0];
		int m = 0;
		for (int s = 0; s < R; ++s) {
			char c = u.c[s][0][0], d = u.c[s][1][0];
			if (!on1(a, b, c, d)) continue;
			m = 1;
			third(a, b, c, d);
		}
		if (!m && left1[Q]) third(a, b, 0, 0);
	}
	vp_obs(n);
	CHECK(n == k);
	CHECKX(x_api());
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
