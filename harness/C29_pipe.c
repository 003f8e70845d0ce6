// The same result whatever the pipe factor: tables large enough that every record object is recycled many times.
//@ lib
//@ fs
//@ nolabels
//@ cfg both q0 -DQ=0 -DN=150
//@ cfg both q1 -DQ=1 -DN=14
//@ cfg both q2 -DQ=2 -DN=14
//@ cfg both q3 -DQ=3 -DN=7
//@ cfg both q4 -DQ=4 -DN=150
//@ cfg both q5 -DQ=5 -DN=100
//@ cfg both q6 -DQ=6 -DN=100
//@ cfg both q7 -DQ=7 -DN=12
//@ cfg both q8 -DQ=8 -DN=150
//@ cfg both q9 -DQ=9 -DN=14
//@ cfg both q10 -DQ=10 -DN=14
//@ cfg both q11 -DQ=11 -DN=7
//@ cfg both q12 -DQ=12 -DN=7
//@ cfg both q13 -DQ=13 -DN=6
//@ cfg both q14 -DQ=14 -DN=100 -DMM=3
//@ cfg both q15 -DQ=15 -DN=7
//@ cfg both x1 -DQ=1 -DN=14 -DOUT=1
//@ cfg both x2 -DQ=2 -DN=14 -DOUT=1
//@ cfg both x3 -DQ=3 -DN=7 -DOUT=1
//@ cfg both x5 -DQ=5 -DN=100 -DOUT=1
//@ cfg both x6 -DQ=6 -DN=100 -DOUT=1
//@ cfg both x11 -DQ=11 -DN=7 -DOUT=1
//@ inst 30000000
//@ samples 4
//@ bounds tables of 7 to 150 records whose keys are three symbolic values in turn; pipe factors 1, 2, 3 and the default; stepping and printing; selection, inner, left, cartesian and three-way joins, GROUP BY, ORDER BY, UNION ALL, subquery, UPDATE, DELETE
//@ outside other factors, larger tables, threads (C30)
#define ER 160
#include "e2e.h"
#ifndef MM
#define MM 14
#endif
#ifndef OUT
#define OUT 0
#endif
static const char* const sql[] = {
	"SELECT a, b FROM t WHERE a = 'x'",
	"SELECT t.b, u.b FROM t JOIN u ON t.a = u.a",
	"SELECT t.b, u.b FROM t LEFT JOIN u ON t.a = u.a AND u.b <> '3'",
	"SELECT t.b, u.b, w.b FROM t JOIN u ON t.a = u.a JOIN w ON u.a = w.a",
	"SELECT a, COUNT(*) FROM t GROUP BY a",
	"SELECT b, a FROM t ORDER BY b, a",
	"SELECT a, b FROM t WHERE a = 'x' UNION ALL SELECT b, a FROM t",
	"SELECT s.b, u.b FROM (SELECT t.a, t.b FROM t JOIN u ON t.a = u.a) AS s JOIN u ON s.a = u.a",
	"UPDATE t SET b = 'k' WHERE a = 'x'",
	"DELETE t FROM t JOIN u ON t.a = u.a WHERE u.b = '1'",
	"SELECT t.b, u.b FROM t JOIN u ON t.a <> u.a",
	"SELECT t.b, u.b, w.b FROM t JOIN u ON t.a <> u.a JOIN w ON w.a = t.a",
	"SELECT t.b, u.b, w.b FROM t JOIN u ON t.a <> u.a JOIN w ON w.a <> u.a",
	"SELECT s.b, s.c, u.b FROM (SELECT t.a a, t.b b, u.b c FROM t JOIN u ON t.a = u.a) AS s JOIN u ON s.a <> u.a",
	"SELECT s.b, u.b, w.b FROM (SELECT a, b + 'k' b FROM t WHERE b <> '9') AS s JOIN u ON s.a <> u.a JOIN w ON w.a <> s.a",
	"DECLARE @i INT = 0; WHILE @i < 30 BEGIN SELECT TOP 2 t.b, u.b FROM t JOIN u ON t.a <> u.a SET @i += 1; END",
};
static struct et t, u, w;
static int k;
#define A(x, i) (x.c[i][0][0])
#define B(x, i) (x.c[i][1][0])
static void row(char a, char b, char c)
{
	char sep = OUT ? ',' : '|';
	++k;
	x_c(a);
	x_c(sep);
	if (b != '~' || !OUT) x_c(b);
	if (c) { x_c(sep); x_c(c); }
	x_c('\n');
}
void harness(void)
{
	static struct et s;
	for (int i = 0; i < 3; ++i) et_ch(&s, i, 0, 'x', 'y');
	for (int i = 0; i < 3; ++i) s.c[i][0][0] = vp_fix(s.c[i][0][0]);
	et_hdr(&t, "a,b");
	et_hdr(&u, "a,b");
	et_hdr(&w, "a,b");
	for (int r = 0; r < N; ++r) {
		char d[2] = {'0' + r % 10, 0};
		et_str(&t, r, 1, d);
		t.c[r][0][0] = s.c[r % 3][0][0]; t.l[r][0] = 1;
		if (r >= MM) continue;
		et_str(&u, r, 1, d);
		u.c[r][0][0] = s.c[r % 2][0][0]; u.l[r][0] = 1;
		et_str(&w, r, 1, d);
		w.c[r][0][0] = s.c[(r + 1) % 3][0][0]; w.l[r][0] = 1;
	}
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
	et_put(&w, "w.csv");
	fqlhandle* f = e2e_new();
	int pf = vp_fix(vp_range(0, 3, "pf"));
	if (pf) fql_set_pipe_factor(f, pf);
	fql_set_print_header(f, 0);
	int n = 0;
	if (OUT || Q == 15 || Q == 8 || Q == 9) CHECK(fql_exec(f, sql[Q]) == FQL_GOOD);
	else n = g_query(f, sql[Q]);
	x_reset();
	int M = N > MM ? MM : N;
	switch (Q) {
	case 0: for (int r = 0; r < N; ++r) if (A(t, r) == 'x') row('x', B(t, r), 0); break;
	case 1: for (int r = 0; r < N; ++r) for (int q = 0; q < M; ++q) if (A(t, r) == A(u, q)) row(B(t, r), B(u, q), 0); break;
	case 10: for (int r = 0; r < N; ++r) for (int q = 0; q < M; ++q) if (A(t, r) != A(u, q)) row(B(t, r), B(u, q), 0); break;
	case 2:
		for (int r = 0; r < N; ++r) {
			int any = 0;
			for (int q = 0; q < M; ++q) if (A(t, r) == A(u, q) && B(u, q) != '3') { any = 1; row(B(t, r), B(u, q), 0); }
			if (!any) row(B(t, r), '~', 0);
		}
		break;
	case 3: case 11: case 12:
		for (int r = 0; r < N; ++r) for (int q = 0; q < M; ++q) for (int p = 0; p < M; ++p)
			if ((A(t, r) == A(u, q)) == (Q == 3) && (Q == 11 ? A(w, p) == A(t, r) : (A(w, p) == A(u, q)) == (Q == 3))) row(B(t, r), B(u, q), B(w, p));
		break;
	case 4: {
		int c[2] = {0, 0};
		for (int r = 0; r < N; ++r) ++c[A(t, r) == 'y'];
		int y = A(t, 0) == 'y';
		for (int i = 0; i < 2; ++i) { int z = i ^ y; if (c[z]) { ++k; x_c(z ? 'y' : 'x'); x_c('|'); x_int(c[z]); x_c('\n'); } }
		break;
	}
	case 5: for (char d = '0'; d <= '9'; ++d) for (char a = 'x'; a <= 'y'; ++a) for (int r = 0; r < N; ++r) if (B(t, r) == d && A(t, r) == a) row(d, a, 0); break;
	case 6: for (int r = 0; r < N; ++r) if (A(t, r) == 'x') row('x', B(t, r), 0); for (int r = 0; r < N; ++r) row(B(t, r), A(t, r), 0); break;
	case 7: for (int r = 0; r < N; ++r) for (int q = 0; q < M; ++q) if (A(t, r) == A(u, q)) for (int p = 0; p < M; ++p) if (A(t, r) == A(u, p)) row(B(t, r), B(u, p), 0); break;
	case 13: for (int r = 0; r < N; ++r) for (int p = 0; p < M; ++p) if (A(t, r) == A(u, p)) for (int q = 0; q < M; ++q) if (A(t, r) != A(u, q)) row(B(t, r), B(u, p), B(u, q)); break;
	case 14: for (int r = 0; r < N; ++r) if (B(t, r) != '9') for (int q = 0; q < M; ++q) for (int p = 0; p < M; ++p) if (A(t, r) != A(u, q) && A(w, p) != A(t, r)) { ++k; x_c(B(t, r)); x_c('k'); x_c('|'); x_c(B(u, q)); x_c('|'); x_c(B(w, p)); x_c('\n'); } break;
	case 15:
		for (int i = 0; i < 30; ++i) {
			int z = 0;
			for (int r = 0; r < N; ++r) for (int q = 0; q < M; ++q) if (A(t, r) != A(u, q) && z < 2) { ++z; x_c(B(t, r)); x_c(','); x_c(B(u, q)); x_c('\n'); }
		}
		break;
	case 8: x_s("a,b\n"); for (int r = 0; r < N; ++r) { x_c(A(t, r)); x_c(','); x_c(A(t, r) == 'x' ? 'k' : B(t, r)); x_c('\n'); } break;
	case 9:
		x_s("a,b\n");
		for (int r = 0; r < N; ++r) {
			int d = 0;
			for (int q = 0; q < M; ++q) if (A(t, r) == A(u, q) && B(u, q) == '1') d = 1;
			if (!d) { x_c(A(t, r)); x_c(','); x_c(B(t, r)); x_c('\n'); }
		}
		break;
	}
	if (Q == 8 || Q == 9) CHECKX(x_file("t.csv"));
	else if (OUT || Q == 15) CHECKX(x_stdout());
	else { vp_obs(n); CHECK(n == k); CHECKX(x_api()); }
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
