//@ lib
//@ fs
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both q18 -DQ=18
//@ cfg both q19 -DQ=19
//@ cfg both q20 -DQ=20
//@ cfg both q21 -DQ=21
//@ cfg both q22 -DQ=22
//@ cfg both q23 -DQ=23
//@ cfg both q24 -DQ=24
//@ cfg both q25 -DQ=25
//@ cfg both q26 -DQ=26
//@ cfg both q27 -DQ=27
//@ cfg both q28 -DQ=28
//@ cfg both q29 -DQ=29
//@ cfg both q30 -DQ=30
//@ nolabels
// files without a header, read by a schema that names their columns
//@ bounds 31 statements over a table of 3 records without a header and one of 2 with one, cells of 1..3, schemas given by name or as the default, headers on or off, an input delimiter given or detected
//@ outside quoting; schemas of other forms
#include "e2e.h"
static const char* const sql[] = {
	"SELECT * FROM noheader.n",
	"SELECT __2 AS x, __1 FROM noheader.n WHERE __1 <> 'b'",
	"SELECT __2 FROM n WHERE __2 <> '3'",
	"SELECT a FROM default.t",
	"SELECT x.__1, y.a FROM noheader.n AS x JOIN default.t AS y ON x.__2 = y.b",
	"SELECT y.a, x.__1 FROM default.t AS y JOIN noheader.n AS x ON x.__2 = y.b",
	"SELECT __3 FROM noheader.n",
	"SELECT __1 INTO [o.csv] FROM noheader.n WHERE __2 > '1'; SELECT COUNT(*) FROM [o.csv]",
	"DELETE FROM n WHERE __2 = '1'",
	"UPDATE x SET __1 = 'w' FROM noheader.n AS x WHERE __2 = '1'",
	"SELECT __2, COUNT(*) FROM noheader.n GROUP BY __2 HAVING COUNT(*) > 1",
	"SELECT __1 FROM noheader.n ORDER BY __2 DESC, __1",
	"SELECT __1, __2 FROM noheader.n WHERE __2 = '1' UNION ALL SELECT a, b FROM t",
	"SELECT id, v FROM two.n WHERE v > '1'",
	"SELECT v FROM wide.n",
	"SELECT x.*, y.* FROM two.n AS x JOIN default.t AS y ON x.v = y.b",
	"SELECT q.id FROM (SELECT id FROM two.n WHERE v = '2') AS q JOIN two.n AS r ON q.id = r.id",
	"SELECT id INTO [o.csv] FROM two.n; SELECT id FROM [o.csv] WHERE id <> 'b'",
	"SELECT COUNT(*) FROM noheader.n WHERE (SELECT MAX(b) FROM t) = __2",
	"SELECT * FROM noheader.e",
	"SELECT v, id, v FROM two.n WHERE id IN (SELECT __1 FROM noheader.n WHERE __2 = '2')",
	"SELECT TOP 2 * FROM two.n; SELECT a FROM t; SELECT __1 FROM noheader.t",
	"DELETE FROM n WHERE __2 = '1'; SELECT __1 FROM n",
	"UPDATE x SET __1 = 'w' FROM noheader.n AS x WHERE __2 = '1'; SELECT __1 FROM noheader.n",
	"SELECT * INTO [o.csv] FROM two.n; SELECT v FROM [o.csv] WHERE v > '1'",
	"SELECT * INTO [o.csv] FROM t; SELECT b FROM [o.csv]; DELETE FROM [o.csv] WHERE a = 'p'; SELECT a FROM [o.csv]; UPDATE [o.csv] SET a = 'u' WHERE b = '1'",
	"DELETE x FROM noheader.n AS x JOIN default.t AS y ON x.__2 = y.b",
	"UPDATE y SET a = 'w' FROM default.t AS y JOIN noheader.n AS x ON x.__2 = y.b",
	"DELETE FROM t WHERE b = '1'",
	"UPDATE t SET a = 'w' WHERE b = '1'",
	"DECLARE @i VARCHAR(9) = (SELECT MAX(b) FROM t); IF @i = '1' SET @i = '9' ELSE WHILE @i = '2' SET @i = '8'; SELECT a, @i AS b FROM t",
};
static struct et n, t;
#define NV(r) (n.c[r][1][0])
#define TV(r) (t.c[r][1][0])
static const char* D;
static void l1(char a) { x_c(a); x_c('\n'); }
static void l2(char a, char b) { x_c(a); x_s(D); x_c(b); x_c('\n'); }
static void hd(const char* s) { x_s(s); }
void harness(void)
{
	static const char nohdr[] = "__1\n__2\n__3\n", two[] = "id\nv\n", wide[] = "id, varchar\n k=1\n v , int\nw,x\n";
	vfs_put("s/noheader", nohdr, sizeof(nohdr) - 1);
	vfs_put("s/two.txt", two, sizeof(two) - 1);
	vfs_put("s/Wide", wide, sizeof(wide) - 1);
	n.nr = 0, n.nc = 2;
	for (int r = 0; r < 3; ++r) {
		char d[2] = {'a' + r, 0};
		et_str(&n, r, 0, d);
		et_ch(&n, r, 1, '1', '3');
		NV(r) = vp_fix(NV(r));
	}
	et_hdr(&t, "a,b");
	for (int r = 0; r < 2; ++r) { et_str(&t, r, 0, r ? "q" : "p"); if (Q == 4 || Q == 5 || Q == 15 || Q == 18 || Q >= 25) { et_ch(&t, r, 1, '1', '3'); TV(r) = vp_fix(TV(r)); } else et_str(&t, r, 1, "2"); }
	int give = Q == 0 || Q == 2 ? vp_fix(vp_range(0, 1, "indelim")) : 0;
	D = give ? "~" : Q & 1 ? "|" : ",";
	char nb[64];
	int nn = 0;
	for (int r = 0; r < 3; ++r) { nb[nn++] = 'a' + r; nb[nn++] = D[0]; nb[nn++] = NV(r); nb[nn++] = '\n'; }
	vfs_put("n.csv", nb, nn);
	vfs_put("e.csv", "", 0);
	et_delim = D;
	if (Q == 5 || Q == 26 || Q == 27) et_delim = ";";
	et_put(&t, "t.csv");
	fqlhandle* f = e2e_new();
	fql_set_schema_path(f, "s");
	if (give) fql_set_in_delim(f, "~");
	if (Q == 2 || Q == 3 || Q == 8 || Q == 22) fql_set_schema(f, "NoHeader");
	int noh = vp_fix(vp_range(0, 1, "nohdr")), add = Q < 13 ? vp_fix(vp_range(0, 1, "addhdr")) : 0;
	if (noh) fql_set_print_header(f, 0);
	if (add) fql_set_add_header(f, 1);
	if (Q >= 28) fql_set_out_delim(f, "::");
	if (Q == 30) fql_set_record_terminator(f, "#");
	int files = vfs_count(), rc = fql_exec(f, sql[Q]);
	x_reset();
	if (Q == 6 || Q == 14) { if (Q == 6) { CHECK(rc == FQL_FAIL); fql_free(f); CHECK(vfs_open_files() == 0); CHECK(vfs_count() == files); return; } }
	CHECK(rc == FQL_GOOD);
	switch (Q) {
	case 0: if (add) hd("__1"), hd(D), hd("__2\n"); for (int r = 0; r < 3; ++r) l2('a' + r, NV(r)); break;
	case 1: if (add) hd("x|__1\n"); for (int r = 0; r < 3; ++r) if (r != 1) l2(NV(r), 'a' + r); break;
	case 2: if (add) hd("__2\n"); for (int r = 0; r < 3; ++r) if (NV(r) != '3') l1(NV(r)); break;
	case 3: if (!noh) hd("a\n"); l1('p'), l1('q'); break;
	case 4: if (add) hd("__1,a\n"); for (int r = 0; r < 3; ++r) for (int s = 0; s < 2; ++s) if (NV(r) == TV(s)) l2('a' + r, s ? 'q' : 'p'); break;
	case 5: D = ";"; if (!noh) hd("a;__1\n"); for (int s = 0; s < 2; ++s) for (int r = 0; r < 3; ++r) if (NV(r) == TV(s)) l2(s ? 'q' : 'p', 'a' + r); break;
	case 7: { int c = 0; for (int r = 0; r < 3; ++r) c += NV(r) > '1'; if (add) hd("\n"); x_int(c); x_c('\n'); break; }
	case 8: case 9: break;
	case 10: if (add) hd("__2,\n"); for (int k = '1'; k <= '3'; ++k) ; for (int r = 0; r < 3; ++r) { int c = 0, d = 0; for (int s = 0; s < 3; ++s) if (NV(s) == NV(r)) { ++c; if (s < r) d = 1; } if (!d && c > 1) l2(NV(r), '0' + c); } break;
	case 11: if (add) hd("__1\n"); for (int k = '3'; k >= '1'; --k) for (int r = 0; r < 3; ++r) if (NV(r) == k) l1('a' + r); break;
	case 12: if (add) hd("__1,__2\n"); for (int r = 0; r < 3; ++r) if (NV(r) == '1') l2('a' + r, '1'); for (int s = 0; s < 2; ++s) l2(s ? 'q' : 'p', TV(s)); break;
	case 13: for (int r = 0; r < 3; ++r) if (NV(r) > '1') l2('a' + r, NV(r)); break;
	case 14: for (int r = 0; r < 3; ++r) l1(NV(r)); break;
	case 15: for (int r = 0; r < 3; ++r) for (int s = 0; s < 2; ++s) if (NV(r) == TV(s)) { x_c('a' + r); x_s(D); x_c(NV(r)); x_s(D); l2(s ? 'q' : 'p', TV(s)); } break;
	case 16: for (int r = 0; r < 3; ++r) if (NV(r) == '2') l1('a' + r); break;
	case 17: l1('a'), l1('c'); break;
	case 18: { int c = 0, m = TV(0) > TV(1) ? TV(0) : TV(1); for (int r = 0; r < 3; ++r) c += NV(r) == m; x_int(c); x_c('\n'); break; }
	case 19: case 26: case 27: case 28: case 29: break;
	case 30: if (!noh) hd("a::b#"); for (int s = 0; s < 2; ++s) { x_c(s ? 'q' : 'p'); x_s("::"); x_c(TV(0) == '3' || TV(1) == '3' ? '3' : TV(0) == '2' || TV(1) == '2' ? '8' : '9'); x_c('#'); } break;
	case 22: for (int r = 0; r < 3; ++r) if (NV(r) != '1') l1('a' + r); break;
	case 23: for (int r = 0; r < 3; ++r) l1(NV(r) == '1' ? 'w' : 'a' + r); break;
	case 24: for (int r = 0; r < 3; ++r) if (NV(r) > '1') l1(NV(r)); break;
	case 25: if (!noh) hd("b\n"); l1(TV(0)), l1(TV(1)); if (!noh) hd("a\n"); l1('q'); break;
	case 20: for (int r = 0; r < 3; ++r) if (NV(r) == '2') { x_c('2'); x_s(D); l2('a' + r, '2'); } break;
	case 21: l2('a', NV(0)), l2('b', NV(1)); if (!noh) hd("a\n"); l1('p'), l1('q'); l1('a'), l1('p'), l1('q'); break;
	}
	CHECKX(x_stdout());
	fql_free(f);
	CHECK(vfs_open_files() == 0);
	CHECK(vfs_count() == files + (Q == 7 || Q == 17 || Q == 24 || Q == 25));
	x_reset();
	if (Q == 7) {
		if (add) hd("__1\n");
		for (int r = 0; r < 3; ++r) if (NV(r) > '1') l1('a' + r);
		CHECKX(x_file("o.csv"));
	}
	if (Q == 17) { l1('a'), l1('b'), l1('c'); CHECKX(x_file("o.csv")); }
	if (Q == 24) { for (int r = 0; r < 3; ++r) l2('a' + r, NV(r)); CHECKX(x_file("o.csv")); }
	if (Q == 25) { if (!noh) hd("a|b\n"); l2(TV(1) == '1' ? 'u' : 'q', TV(1)); CHECKX(x_file("o.csv")); }
	if (Q == 26) {
		for (int r = 0; r < 3; ++r) if (NV(r) != TV(0) && NV(r) != TV(1)) l2('a' + r, NV(r));
		CHECKX(x_file("n.csv"));
	}
	if (Q >= 27 && Q < 30) {
		D = et_delim;
		hd("a"), hd(D), hd("b\n");
		for (int s = 0; s < 2; ++s) {
			int hit = 0;
			if (Q >= 28) hit = TV(s) == '1'; else for (int r = 0; r < 3; ++r) hit |= NV(r) == TV(s);
			if (!hit) l2(s ? 'q' : 'p', TV(s)); else if (Q & 1) l2('w', TV(s));
		}
		CHECKX(x_file("t.csv"));
	}
	if (Q == 8 || Q == 22) { for (int r = 0; r < 3; ++r) if (NV(r) != '1') l2('a' + r, NV(r)); CHECKX(x_file("n.csv")); }
	if (Q == 9 || Q == 23) { for (int r = 0; r < 3; ++r) l2(NV(r) == '1' ? 'w' : 'a' + r, NV(r)); CHECKX(x_file("n.csv")); }
}
