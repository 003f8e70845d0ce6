//@ lib
//@ fs
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both q18 -DQ=18
//@ cfg both q19 -DQ=19
//@ cfg both q20 -DQ=20
//@ cfg both q21 -DQ=21
//@ nolabels
// files of records of fixed width
//@ bounds 22 statements over a file of 3 records of a 1, a 2 and a 1 byte field and a CSV table of 2, with keys of 1..3
//@ outside standard input; other widths
#include "e2e.h"
static const char* const sql[] = {
	"SELECT name, n FROM fx.f",
	"SELECT * FROM fx.f WHERE n > '1'",
	"SELECT f.name, t.a, f.id FROM fx.f AS f JOIN t ON f.n = t.b",
	"SELECT t.a, f.name FROM t JOIN fx.f AS f ON t.b = f.n",
	"SELECT n, name INTO [o.txt] FROM fx.f; SELECT name FROM [o.txt] WHERE n = '1'",
	"DELETE x FROM fx.f AS x WHERE n = '1'",
	"UPDATE x SET name = 'w' FROM fx.f AS x WHERE n = '1'",
	"UPDATE x SET name = 'www' FROM fx.f AS x WHERE n = '1'",
	"SELECT id, n FROM fx.f ORDER BY n DESC, id",
	"SELECT n, COUNT(*) AS c FROM fx.f GROUP BY n HAVING COUNT(*) > 1",
	"SELECT a FROM t UNION ALL SELECT name FROM fx.f WHERE n = '2'",
	"SELECT name FROM fx.f UNION ALL SELECT a FROM t",
	"SELECT id FROM fx.e; SELECT COUNT(*) FROM fx.e; SELECT a FROM t",
	"SELECT id FROM fx.p",
	"SELECT DISTINCT n FROM fx.f",
	"SELECT TOP 2 * FROM fx.f WHERE n <> '3'",
	"SELECT q.name, q.id FROM (SELECT id, name, n FROM fx.f WHERE n = '1') AS q JOIN fx.f AS r ON q.id = r.id",
	"SELECT a FROM t WHERE b IN (SELECT n FROM fx.f WHERE name <> 'bb')",
	"SELECT id + name + '!', name INTO [o.txt] FROM fx.f ORDER BY n, id; SELECT name FROM [o.txt]",
	[20] = "SELECT id, name INTO [o.txt] FROM fx.f ORDER BY n, id; SELECT name FROM [o.txt] WHERE id <> 'b'",
	[21] = "SELECT id FROM fx.f WHERE name <> '  '; DELETE x FROM fx.f AS x WHERE n = '1' OR n = '2'; SELECT id FROM fx.f; SELECT COUNT(*) FROM fx.f AS f JOIN t ON f.n = t.b",
	[19] = "SELECT f.*, g.name FROM fx.f AS f JOIN fx.f AS g ON f.n = g.n",
};
static struct et t;
static char k[3];
#define N(r) (k[r])
#define TV(r) (t.c[r][1][0])
static void rec(int r) { x_c('a' + r); x_c('a' + r); x_c(r == 2 ? ' ' : 'b'); x_c(N(r)); }
static void name(int r) { x_c('a' + r); x_c(r == 2 ? ' ' : 'b'); }
void harness(void)
{
	static const char fx[] = "id,1,char\nname, 2 ,char\nn,1,char\n";
	char b[16];
	vfs_put("s/fx", fx, sizeof(fx) - 1);
	x_reset();
	for (int r = 0; r < 3; ++r) {
		char c = vp_byte("key");
		vp_assume((c >= '1') & (c <= '3'));
		N(r) = vp_fix(c);
		rec(r);
	}
	vfs_put("f.dat", x_b, x_n);
	vfs_put("p.dat", x_b, 10);
	vfs_put("e.dat", "", 0);
	et_hdr(&t, "a,b");
	for (int r = 0; r < 2; ++r) { et_str(&t, r, 0, r ? "q" : "p"); if (Q == 2 || Q == 3 || Q == 17 || Q == 21) { et_ch(&t, r, 1, '1', '3'); TV(r) = vp_fix(TV(r)); } else et_str(&t, r, 1, "2"); }
	et_put(&t, "t.csv");
	fqlhandle* f = e2e_new();
	fql_set_schema_path(f, "s");
	int files = vfs_count(), rc = fql_exec(f, sql[Q]), any = N(0) == '1' || N(1) == '1' || N(2) == '1';
	CHECK(rc == (Q == 18 || (Q == 7 && any) ? FQL_FAIL : FQL_GOOD));
	x_reset();
	switch (Q) {
	case 0: for (int r = 0; r < 3; ++r) name(r), x_c(N(r)); break;
	case 1: for (int r = 0; r < 3; ++r) if (N(r) > '1') rec(r); break;
	case 2: for (int r = 0; r < 3; ++r) for (int s = 0; s < 2; ++s) if (N(r) == TV(s)) name(r), x_c(s ? 'q' : 'p'), x_c('a' + r); break;
	case 3: x_s("a,name\n"); for (int s = 0; s < 2; ++s) for (int r = 0; r < 3; ++r) if (N(r) == TV(s)) x_c(s ? 'q' : 'p'), x_c(','), name(r), x_c('\n'); break;
	case 4: for (int r = 0; r < 3; ++r) if (N(r) == '1') name(r); break;
	case 5: case 6: case 7: break;
	case 8: for (int v = '3'; v >= '1'; --v) for (int r = 0; r < 3; ++r) if (N(r) == v) x_c('a' + r), x_c(v); break;
	case 9: for (int r = 0; r < 3; ++r) { int c = 0, d = 0; for (int s = 0; s < 3; ++s) if (N(s) == N(r)) { ++c; d |= s < r; } if (!d && c > 1) x_c(N(r)), x_c('0' + c); } break;
	case 10: x_s("a\np\nq\n"); for (int r = 0; r < 3; ++r) if (N(r) == '2') name(r), x_c('\n'); break;
	case 11: for (int r = 0; r < 3; ++r) name(r); x_s("pq"); break;
	case 12: x_s("0a\np\nq\n"); break;
	case 13: x_s("ab"); break;
	case 14: for (int r = 0; r < 3; ++r) { int d = 0; for (int s = 0; s < r; ++s) d |= N(s) == N(r); if (!d) x_c(N(r)); } break;
	case 15: { int c = 0; for (int r = 0; r < 3 && c < 2; ++r) if (N(r) != '3') rec(r), ++c; break; }
	case 16: for (int r = 0; r < 3; ++r) if (N(r) == '1') name(r), x_c('a' + r); break;
	case 17: x_s("a\n"); for (int s = 0; s < 2; ++s) { int h = 0; for (int r = 0; r < 3; ++r) h |= r != 1 && N(r) == TV(s); if (h) x_c(s ? 'q' : 'p'), x_c('\n'); } break;
	case 18: break;
	case 21: { int c = 0; x_s("abc"); for (int r = 0; r < 3; ++r) if (N(r) == '3') { x_c('a' + r); for (int p = 0; p < 2; ++p) c += TV(p) == '3'; } x_c('0' + c); break; }
	case 20: for (int v = '1'; v <= '3'; ++v) for (int r = 0; r < 3; ++r) if (N(r) == v && r != 1) name(r); break;
	case 19: for (int r = 0; r < 3; ++r) for (int s = 0; s < 3; ++s) if (N(r) == N(s)) rec(r), name(s); break;
	}
	CHECKX(x_stdout());
	fql_free(f);
	CHECK(vfs_open_files() == 0);
	CHECK(vfs_count() == files + (Q == 4 || Q == 20));
	x_reset();
	for (int r = 0; r < 3; ++r) {
		if ((Q == 5 && N(r) == '1') || (Q == 21 && N(r) != '3')) continue;
		if (Q == 6 && N(r) == '1') { x_c('a' + r); x_s("w "); x_c('1'); continue; }
		rec(r);
	}
	CHECKX(x_file("f.dat"));
}
