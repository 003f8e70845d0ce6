//@ lib
//@ fs
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both p3 -DQ=3 -DPF=1
//@ cfg both p8 -DQ=8 -DPF=1
//@ cfg both p9 -DQ=9 -DPF=1
//@ cfg both p8c -DQ=8 -DPF=1 -DCART=1
//@ cfg both c8 -DQ=8 -DCART=1
//@ cfg both c10 -DQ=10 -DCART=1
//@ cfg both e3 -DQ=3 -DU=0
//@ cfg both ce3 -DQ=3 -DU=0 -DCART=1
//@ cfg both ce8 -DQ=8 -DU=0 -DCART=1
//@ cfg both q15 -DQ=15
//@ cfg both c15 -DQ=15 -DCART=1
//@ cfg both q16 -DQ=16
//@ cfg both c3 -DQ=3 -DCART=1
//@ cfg both c9 -DQ=9 -DCART=1
//@ nolabels
// UPDATE and DELETE: contents of the file afterwards
//@ bounds UPDATE and DELETE of a table of 3 rows and 2 columns, alone or joined with one of 2 rows: conditions, several assignments, computed values, CASE, subqueries as list and value; hash and cartesian plans, pipe factor 1
//@ outside TOP; fixed-width files; more rows
#include "e2e.h"
#ifndef R
#define R 3
#endif
#ifndef U
#define U 2
#endif
static const char* const sql[] = {
	"DELETE FROM t WHERE a = 'x'",
	"DELETE FROM t WHERE a = 'x' AND b <> '1'",
	"DELETE FROM t WHERE a = 'x' OR b = '1'",
	"DELETE t FROM t JOIN u ON t.a = u.c",
	"UPDATE t SET b = '9' WHERE a = 'x'",
	"UPDATE t SET b = a, a = b",
	"UPDATE t SET b = CAST(b AS int) + 7 WHERE b <> '2'",
	"DELETE FROM t",
	"UPDATE t SET b = u.d FROM t JOIN u ON t.a = u.c",
	"DELETE t FROM t JOIN u ON t.a = u.c WHERE u.d = '1'",
	"UPDATE t SET b = '9' FROM t JOIN u ON t.a = u.c WHERE u.d = '1' AND t.b <> '1'",
	"DELETE FROM t WHERE a IN (SELECT c FROM u)",
	"UPDATE t SET b = CASE WHEN b = '1' THEN 'k' ELSE a END WHERE a <> 'z'",
	"DELETE FROM t WHERE a NOT IN ('x', 'q')",
	"UPDATE t SET b = (SELECT TOP 1 d FROM u ORDER BY d) WHERE a = 'y'",
	"DELETE t FROM t JOIN u ON t.a = u.c JOIN w ON u.d = w.e WHERE t.b = '1'",
	"UPDATE t SET a = w.e FROM t JOIN u ON t.a = u.c JOIN w ON t.b = w.e AND u.d <> w.e",
};
static struct et t, u;
#define A(i) (t.c[i][0][0])
#define B(i) (t.c[i][1][0])
#define C(i) (u.c[i][0][0])
#define D(i) (u.c[i][1][0])
void harness(void)
{
	et_hdr(&t, "a,b");
	et_hdr(&u, "c,d");
	for (int r = 0; r < R; ++r) { et_ch(&t, r, 0, 'x', 'y'); et_ch(&t, r, 1, '1', '2'); }
	for (int r = 0; r < U; ++r) { et_ch(&u, r, 0, 'x', 'y'); et_ch(&u, r, 1, '1', '2'); }
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
	struct et w;
	if (Q > 14) {
		et_hdr(&w, "e");
		et_ch(&w, 0, 0, '1', '2');
		et_put(&w, "w.csv");
	}
	int files = vfs_count();
	fqlhandle* f = e2e_new();
#ifdef CART
	fql_set_force_cartesian(f, 1);
#endif
#ifdef PF
	fql_set_pipe_factor(f, PF);
#endif
	CHECK(fql_exec(f, sql[Q]) == FQL_GOOD);
	size_t n = 0;
	const char* out = vfs_get("t.csv", &n);
	x_reset();
	x_s("a,b\n");
	for (int r = 0; r < R; ++r) {
		char a = A(r), b = B(r), na = a, nb = b;
		int m = 0, m1 = 0, del = 0;
		for (int s = 0; s < U; ++s) { if (C(s) == a) { m = 1; if (D(s) == '1') m1 = 1; } }
		switch (Q) {
		case 0: del = a == 'x'; break;
		case 1: del = a == 'x' && b != '1'; break;
		case 2: del = a == 'x' || b == '1'; break;
		case 3: case 11: del = m; break;
		case 4: if (a == 'x') nb = '9'; break;
		case 5: na = b; nb = a; break;
		case 6: if (b != '2') nb = '8'; break;
		case 7: del = 1; break;
		case 8:
			if (m) {
				// one of the matching rows
				int ok = 0;
				char c = n == (size_t)(4 + 4 * R) ? out[4 + 4 * r + 2] : 0;
				for (int s = 0; s < U; ++s) if (C(s) == a) { nb = D(s); if (D(s) == c) ok = 1; }
				if (ok) nb = c;
			}
			break;
		case 9: del = m1; break;
		case 10: if (m1 && b != '1') nb = '9'; break;
		case 12: nb = b == '1' ? 'k' : a; break;
		case 13: del = a != 'x'; break;
		case 14: if (a == 'y') { nb = '2'; for (int s = 0; s < U; ++s) if (D(s) == '1') nb = '1'; } break;
		case 15: if (b == '1') for (int s = 0; s < U; ++s) if (C(s) == a && D(s) == w.c[0][0][0]) del = 1; break;
		case 16: for (int s = 0; s < U; ++s) if (C(s) == a && b == w.c[0][0][0] && D(s) != b) na = b; break;
		}
		if (del) continue;
		x_c(na); x_c(','); x_c(nb); x_c('\n');
	}
	CHECKX(x_file("t.csv"));
	x_reset();
	x_s("c,d\n");
	for (int r = 0; r < U; ++r) { x_c(C(r)); x_c(','); x_c(D(r)); x_c('\n'); }
	CHECKX(x_file("u.csv"));
	fql_free(f);
	CHECK(vfs_count() == files);
	CHECK(vfs_open_files() == 0);
}
