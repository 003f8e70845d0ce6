//@ lib
//@ fs
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both f1 -DQ=1 -DOUT=1
//@ cfg both f2 -DQ=2 -DOUT=1
//@ cfg both f3 -DQ=3 -DOUT=1
//@ cfg both f4 -DQ=4 -DOUT=1
//@ cfg both f9 -DQ=9 -DOUT=1
//@ cfg both f10 -DQ=10 -DOUT=1
//@ cfg both f15 -DQ=15 -DOUT=1
//@ nolabels
// ORDER BY and TOP; every ordering used here leaves only equal rows tied, so the expected result is unique
//@ bounds ORDER BY over 3 rows: ascending and descending, several keys, text, integer and float keys, ordinals, aliases, computed keys, with GROUP BY, DISTINCT, UNION ALL, LEFT JOIN, subqueries, WHERE, TOP; through fql_step and through printed output; ties only between rows that print alike
//@ outside stability between unequal rows that tie; more rows; temporary-file sizes beyond a few bytes
#include "e2e.h"
#ifndef OUT
#define OUT 0
#endif
#ifndef R
#define R 3
#endif
static const char* const sql[] = {
	"SELECT a, b FROM t ORDER BY b, a",
	"SELECT a, b FROM t ORDER BY b DESC, a",
	"SELECT b FROM n ORDER BY CAST(b AS int)",
	"SELECT TOP 2 a, b FROM t ORDER BY a DESC, b DESC",
	"SELECT CAST(b AS int) AS k FROM n ORDER BY k DESC",
	"SELECT b FROM t ORDER BY b + a, b",
	"SELECT a, b FROM t ORDER BY 2, 1 DESC",
	"SELECT b, COUNT(*) AS c FROM t GROUP BY b ORDER BY c DESC, b",
	"SELECT a, b FROM t UNION ALL SELECT b, a FROM t ORDER BY a, b",
	"SELECT a, b FROM t WHERE a = 'x' ORDER BY b",
	"SELECT TOP 0 a, b FROM t ORDER BY a, b",
	"SELECT a FROM t WHERE b = (SELECT TOP 1 b FROM t ORDER BY b DESC) ORDER BY a",
	"SELECT CAST(b AS float) AS k FROM n ORDER BY k",
	"SELECT DISTINCT a FROM t ORDER BY a DESC",
	"SELECT s.b FROM (SELECT b FROM t) AS s ORDER BY s.b DESC",
	"SELECT t.a, u.b FROM t LEFT JOIN u ON t.a = u.a ORDER BY t.a, t.b",
	"SELECT TOP 2 a, b FROM t WHERE b = '1' ORDER BY a",
	"SELECT b FROM t WHERE a = (SELECT TOP 1 a FROM t ORDER BY CAST(b AS int) DESC, a) ORDER BY b",
};
static const char* const nums[] = {"9", "10", "-1", "100"};
static const int numv[] = {9, 10, -1, 100};
static struct et t, n, u;
static int k, ix[2 * R], ni[R], m;
#define A(i) (t.c[i][0][0])
#define B(i) (t.c[i][1][0])
static void row(char x, char y) { ++k; x_c(x); if (y) { x_c(OUT ? ',' : '|'); if (y != '~' || !OUT) x_c(y); } x_c('\n'); }
// order of the rows i and j
static int before(int i, int j)
{
	switch (Q) {
	case 0: case 9: return B(i) != B(j) ? B(i) < B(j) : A(i) < A(j);
	case 1: return B(i) != B(j) ? B(i) > B(j) : A(i) < A(j);
	case 2: case 12: return numv[ni[i]] < numv[ni[j]];
	case 3: return A(i) != A(j) ? A(i) > A(j) : B(i) > B(j);
	case 4: return numv[ni[i]] > numv[ni[j]];
	case 5: return B(i) != B(j) ? B(i) < B(j) : A(i) < A(j);
	case 6: return B(i) != B(j) ? B(i) < B(j) : A(i) > A(j);
	case 14: return B(i) > B(j);
	case 11: case 16: return A(i) < A(j);
	case 13: return A(i) > A(j);
	case 17: return B(i) < B(j);
	case 15: return A(i) != A(j) ? A(i) < A(j) : B(i) < B(j);
	}
	return 0;
}
static void sort(void)
{
	for (int i = 1; i < m; ++i) for (int j = i; j > 0 && before(ix[j], ix[j - 1]); --j) { int h = ix[j]; ix[j] = ix[j - 1]; ix[j - 1] = h; }
}
void harness(void)
{
	et_hdr(&t, "a,b");
	et_hdr(&n, "b");
	et_hdr(&u, "a,b");
	for (int r = 0; r < R; ++r) {
		if (Q == 2 || Q == 4 || Q == 12) ni[r] = et_any(&n, r, 0, 4, nums);
		else { et_ch(&t, r, 0, 'x', 'y'); et_ch(&t, r, 1, '1', Q == 8 || Q == 15 ? '2' : '3'); }
	}
	if (Q == 15) { et_str(&u, 0, 0, "x"); et_ch(&u, 0, 1, '5', '6'); }
	et_put(&t, "t.csv");
	et_put(&n, "n.csv");
	et_put(&u, "u.csv");
	fqlhandle* f = e2e_new();
	x_reset();
	int rc;
	if (OUT) {
		fql_set_print_header(f, 0);
		rc = fql_exec(f, sql[Q]);
		CHECK(rc == FQL_GOOD);
	} else rc = g_query(f, sql[Q]);
	int top = Q == 3 || Q == 16 ? 2 : Q == 10 ? 0 : 1000;
	if (Q == 7) {
		int c[3] = {0, 0, 0};
		for (int r = 0; r < R; ++r) ++c[B(r) - '1'];
		for (int w = R; w > 0; --w) for (int v = 0; v < 3; ++v) if (c[v] == w) row('1' + v, '0' + w);
	} else if (Q == 8) {
		// the rows (a, b) and (b, a): all (b, a) first, as digits are below letters
		for (char b = '1'; b <= '3'; ++b) for (char a = 'x'; a <= 'y'; ++a) for (int r = 0; r < R; ++r) if (B(r) == b && A(r) == a) row(b, a);
		for (char a = 'x'; a <= 'y'; ++a) for (char b = '1'; b <= '3'; ++b) for (int r = 0; r < R; ++r) if (B(r) == b && A(r) == a) row(a, b);
	} else {
		char mx = '0';
		for (int r = 0; r < R; ++r) if (B(r) > mx) mx = B(r);
		char mi = 'z';
		if (Q == 17) for (int r = 0; r < R; ++r) if (B(r) == mx && A(r) < mi) mi = A(r);
		for (int r = 0; r < R; ++r) {
			if (Q == 17 && A(r) != mi) continue;
			if (Q == 9 && A(r) != 'x') continue;
			if (Q == 16 && B(r) != '1') continue;
			if (Q == 11 && B(r) != mx) continue;
			if (Q == 13) { int d = 0; for (int s = 0; s < r; ++s) if (A(s) == A(r)) d = 1; if (d) continue; }
			ix[m++] = r;
		}
		sort();
		for (int i = 0; i < m && k < top; ++i) {
			int r = ix[i];
			if (Q == 2 || Q == 4 || Q == 12) {
				++k;
				x_s(nums[ni[r]]);
				x_c('\n');
			}
			else if (Q == 5 || Q == 14 || Q == 17) row(B(r), 0);
			else if (Q == 11 || Q == 13) row(A(r), 0);
			else if (Q == 15) row(A(r), A(r) == 'x' ? u.c[0][1][0] : '~');
			else row(A(r), B(r));
		}
	}
	if (OUT) CHECKX(x_stdout());
	else { vp_obs(rc); CHECK(rc == k); CHECKX(x_api()); }
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
