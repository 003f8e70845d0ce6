// The settings of a handle: what the command line's help says about each.
//@ lib
//@ fs
//@ nolabels
//@ samples 4
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both q18 -DQ=18
//@ cfg both q19 -DQ=19
//@ cfg both q20 -DQ=20
//@ cfg both q21 -DQ=21
//@ cfg both q22 -DQ=22
//@ cfg both q23 -DQ=23
//@ cfg both q24 -DQ=24
//@ cfg both q25 -DQ=25
//@ cfg both q26 -DQ=26
//@ cfg both q27 -DQ=27
//@ cfg both q28 -DQ=28
//@ cfg both q29 -DQ=29
//@ cfg both q30 -DQ=30
//@ cfg both q31 -DQ=31
//@ cfg both q32 -DQ=32
//@ cfg both q33 -DQ=33
//@ cfg both q34 -DQ=34
//@ cfg both q35 -DQ=35
//@ cfg both q36 -DQ=36
//@ cfg both q37 -DQ=37
//@ bounds 38 settings and statements, each over a table of 3 rows with cells out of 1..3 and a/b (every content), every choice among the values of the setting
//@ outside how libcsv quotes (a field is quoted whole, or not at all), -O (decided in the parser)
#define ER 4
#include "e2e.h"
static struct et t;
static char S(int i) { return t.c[i][0][0]; }
static char N(int i) { return t.c[i][1][0]; }
static const char* pick_std[] = {"ALL", "NONE", "WEAK", "RFC4180", "all", "rfc4180"};
static const char* bad_std[] = {"", "SOME", "ALL ", "QUOTE_ALL", NULL};
static void q_(int on) { if (on) x_c('"'); }
static void cell(int i, int c, int on) { q_(on); x_cell(&t, i, c); q_(on); }
static void hdr(const char* h, int on) { q_(on); x_s(h); q_(on); }
static const char* both = "SELECT s, n FROM t";
static void rows(int on) { hdr("s", on); x_c(','); hdr("n", on); x_c('\n'); for (int i = 0; i < 3; ++i) { cell(i, 0, on); x_c(','); cell(i, 1, on); x_c('\n'); } }
static int untouched(const char* f)
{
	x_reset();
	x_s("s,n\n");
	for (int i = 0; i < 3; ++i) { x_cell(&t, i, 0); x_c(','); x_cell(&t, i, 1); x_c('\n'); }
	return x_file(f);
}
void harness(void)
{
	int dup = Q >= 10 && Q <= 17;
	et_hdr(&t, dup ? "s,n,s" : "s,n");
	for (int i = 0; i < 3; ++i) {
		et_ch(&t, i, 0, 'a', 'b');
		et_ch(&t, i, 1, '1', '3');
		if (dup) et_ch(&t, i, 2, 'x', 'y');
		if ((Q >= 14 && Q <= 16) || (Q >= 26 && Q <= 29) || Q == 3 || Q == 24) for (int c = 0; c < 2; ++c) t.c[i][c][0] = vp_fix(t.c[i][c][0]);
	}
	et_put(&t, "t.csv");
	fqlhandle* f = e2e_new();
	int files = vfs_count();
	// a dry run does nothing; the next run, no longer dry, does all
	if (Q == 0) {
		fql_set_dry_run(f, 1);
		CHECK(fql_exec(f, "SELECT s INTO [o.csv] FROM t; SELECT n FROM t; DELETE FROM t; UPDATE t SET s = 'q'; SELECT s FROM t ORDER BY s") == FQL_GOOD);
		x_reset();
		CHECK(x_stdout());
		CHECK(vfs_count() == files && vfs_open_files() == 0);
		CHECKX(untouched("t.csv"));
		CHECK(fql_exec(f, "SELECT s FROM nothere") == FQL_FAIL);
		CHECK(fql_exec(f, "SELECT x FROM t") == FQL_FAIL);
		fql_set_dry_run(f, 0);
		CHECK(fql_exec(f, both) != FQL_FAIL);
		x_reset();
		rows(0);
		CHECKX(x_stdout());
	}
	// what is said on the side changes nothing of what is printed
	if (Q >= 1 && Q <= 3) {
		static const char* const sql[] = {"SELECT s, n FROM t", "DECLARE @i INT; SET @i = 1; IF @i = 1 SELECT s, n FROM (SELECT n, s FROM t) x WHERE s IN ('a', 'b') AND n > 0", "SELECT s, n FROM t ORDER BY s, n"};
		fql_set_verbose(f, vp_fix(vp_range(FQL_QUIET, FQL_DEBUG, "verbose")));
		fql_set_print_plan(f, vp_fix(vp_range(0, 1, "plan")));
		fql_set_stable(f, vp_fix(vp_range(0, 1, "stable")));
		CHECK(fql_exec(f, sql[Q - 1]) != FQL_FAIL);
		x_reset();
		if (Q < 3) rows(0);
		else {
			int o[3] = {0, 1, 2};
			for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) {
				int a = o[j], b = o[j + 1];
				if (S(a) > S(b) || (S(a) == S(b) && N(a) > N(b))) o[j] = b, o[j + 1] = a;
			}
			x_s("s,n\n");
			for (int i = 0; i < 3; ++i) { x_cell(&t, o[i], 0); x_c(','); x_cell(&t, o[i], 1); x_c('\n'); }
		}
		CHECKX(x_stdout());
	}
	// with quotes around every field, or without
	if (Q >= 4 && Q <= 9) {
		int k = vp_fix(vp_range(0, 5, "std"));
		int on = k == 0 || k == 4;
		CHECK(fql_set_out_std(f, pick_std[k]) == FQL_GOOD);
		int b = vp_fix(vp_range(0, 4, "bad"));
		CHECK(fql_set_out_std(f, bad_std[b]) == FQL_FAIL);
		CHECK(fql_set_in_std(f, bad_std[b]) == FQL_FAIL);
		vfs_quotes = 1;
		x_reset();
		if (Q == 4) {
			CHECK(fql_exec(f, both) != FQL_FAIL);
			rows(on);
			CHECKX(x_stdout());
		} else if (Q == 5) {
			CHECK(fql_exec(f, "SELECT s, n INTO [o.csv] FROM t") != FQL_FAIL);
			rows(on);
			CHECKX(x_file("o.csv"));
			CHECK(g_query(f, "SELECT n, s FROM [o.csv]") == 3);
			x_reset();
			for (int i = 0; i < 3; ++i) { x_cell(&t, i, 1); x_c('|'); x_cell(&t, i, 0); x_c('\n'); }
			CHECKX(x_api());
		} else if (Q == 6) {
			CHECK(fql_exec(f, "SELECT 1 AS i, 'k' AS k, NULL AS z FROM t WHERE n = '1'") != FQL_FAIL);
			hdr("i", on); x_c(','); hdr("k", on); x_c(','); hdr("z", on); x_c('\n');
			for (int i = 0; i < 3; ++i) if (vp_fix(N(i)) == '1') { hdr("1", on); x_c(','); hdr("k", on); x_s(",\n"); }
			CHECKX(x_stdout());
		} else if (Q == 7) {
			CHECK(fql_set_in_std(f, "NONE") == FQL_GOOD);
			CHECK(fql_exec(f, "SELECT s, n FROM (SELECT n, s FROM t) x") != FQL_FAIL);
			rows(on);
			CHECKX(x_stdout());
		} else if (Q == 8) {
			CHECK(fql_set_in_std(f, "NONE") == FQL_GOOD);
			CHECK(fql_exec(f, "SELECT s, n FROM (SELECT n, s FROM t) x ORDER BY 2, 1") != FQL_FAIL);
			int o[3] = {0, 1, 2};
			for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) {
				int a = o[j], b2 = o[j + 1];
				if (vp_fix((N(a) > N(b2)) | ((N(a) == N(b2)) & (S(a) > S(b2))))) o[j] = b2, o[j + 1] = a;
			}
			hdr("s", on); x_c(','); hdr("n", on); x_c('\n');
			for (int i = 0; i < 3; ++i) { cell(o[i], 0, on); x_c(','); cell(o[i], 1, on); x_c('\n'); }
			CHECKX(x_stdout());
		} else {
			CHECK(fql_exec(f, "SELECT s, n FROM t WHERE n IN (SELECT n FROM t) UNION ALL SELECT n, s FROM t") != FQL_FAIL);
			rows(on);
			for (int i = 0; i < 3; ++i) { cell(i, 1, on); x_c(','); cell(i, 0, on); x_c('\n'); }
			CHECKX(x_stdout());
		}
	}
	// a name two columns have: the first of them, or an error in strict mode
	if (dup) {
		static const char* const sql[] = {"SELECT s FROM [t.csv]", "SELECT n FROM [t.csv] WHERE s = 'a'", "SELECT n FROM [t.csv] ORDER BY s", "SELECT COUNT(*) AS c FROM [t.csv] GROUP BY s", "SELECT MAX(s) AS m FROM [t.csv]", "SELECT n FROM [t.csv] WHERE s IN ('a', 'x')", "SELECT n FROM [t.csv]", "SELECT t.s FROM [t.csv] t"};
		int strict = vp_fix(vp_range(0, 1, "strict"));
		fql_set_strict_mode(f, strict);
		const char* s = sql[Q - 10];
		if (strict && Q != 16) {
			int rc = g_query(f, s);
			CHECK(rc == FQL_FAIL);
			CHECK(vfs_open_files() == 0);
		} else {
			int rc = g_query(f, s);
			x_reset();
			int n = 0;
			if (Q == 10 || Q == 17) for (int i = 0; i < 3; ++i) { x_cell(&t, i, 0); x_c('\n'); ++n; }
			else if (Q == 11 || Q == 15) { for (int i = 0; i < 3; ++i) if (vp_fix(S(i)) == 'a') { x_cell(&t, i, 1); x_c('\n'); ++n; } }
			else if (Q == 12) { for (char c = 'a'; c <= 'b'; ++c) for (int i = 0; i < 3; ++i) if (vp_fix(S(i)) == c) { x_cell(&t, i, 1); x_c('\n'); ++n; } }
			else if (Q == 13) {
				int same = vp_fix((S(0) == S(1)) & (S(1) == S(2)));
				if (same) x_s("3\n"), n = 1;
				else { int k = vp_fix((S(1) == S(0)) + (S(2) == S(0))) + 1; x_int(k); x_c('\n'); x_int(3 - k); x_c('\n'); n = 2; }
			} else if (Q == 14) { char m = S(0); for (int i = 1; i < 3; ++i) if (S(i) > m) m = S(i); x_c(m); x_c('\n'); n = 1; }
			else for (int i = 0; i < 3; ++i) { x_cell(&t, i, 1); x_c('\n'); ++n; }
			CHECK(rc == n);
			CHECKX(x_api());
		}
	}
	// an UPDATE of a column whose name two columns have: the first of them, or nothing in strict mode
	if (Q == 36 || Q == 37) {
		vfs_put("d.csv", "s,S,n\na,b,1\nb,a,2\n", 18);
		int strict = vp_fix(vp_range(0, 1, "strict"));
		fql_set_strict_mode(f, strict);
		int rc = fql_exec(f, Q == 36 ? "UPDATE d SET s = 'x' FROM [d.csv] AS d" : "UPDATE d SET n = 'x' FROM [d.csv] AS d WHERE n <> '1'");
		CHECK(rc == (strict && Q == 36 ? FQL_FAIL : FQL_GOOD));
		x_reset();
		x_s(Q == 37 ? "s,S,n\na,b,1\nb,a,x\n" : strict ? "s,S,n\na,b,1\nb,a,2\n" : "s,S,n\nx,b,1\nx,a,2\n");
		CHECKX(x_file("d.csv"));
		CHECK(vfs_open_files() == 0);
	}
	// the name of a file: exact in strict mode
	if (Q == 18 || Q == 19) {
		static const char* const nm[] = {"t.csv", "T.csv", "t", "T", "[t.csv]", "[T.CSV]", "[t]"};
		int strict = vp_fix(vp_range(0, 1, "strict"));
		int k = vp_fix(vp_range(4, 6, "name"));
		if (Q == 19) k = vp_fix(vp_range(2, 3, "word"));
		fql_set_strict_mode(f, strict);
		char q[64];
		snprintf(q, sizeof q, "SELECT s FROM %s x", nm[k]);
		int rc = g_query(f, q);
		CHECK(rc == (strict && k != 4 ? FQL_FAIL : 3));
	}
	// text where a number belongs: an error in strict mode
	if (Q == 20) {
		int strict = vp_fix(vp_range(0, 1, "strict"));
		fql_set_strict_mode(f, strict);
		int rc = fql_exec(f, "SELECT n AS k FROM [t.csv] UNION ALL SELECT 7");
		CHECK(rc != FQL_FAIL);
		x_reset();
		x_s("k\n");
		for (int i = 0; i < 3; ++i) { x_cell(&t, i, 1); x_c('\n'); }
		x_s("7\n");
		CHECKX(x_stdout());
		rc = fql_exec(f, "SELECT s AS k FROM [t.csv] UNION ALL SELECT 7");
		CHECK((rc == FQL_FAIL) == strict);
		fql_set_strict_mode(f, 0);
		CHECK(g_query(f, both) == 3);
	}
	// quotes around what is read: taken off, unless told NONE
	if (Q >= 21 && Q <= 23) {
		char b[64];
		int n = 0;
		memcpy(b, "s,n\n", 4);
		n = 4;
		for (int i = 0; i < 3; ++i) { b[n++] = '"'; b[n++] = S(i); b[n++] = '"'; b[n++] = ','; b[n++] = N(i); b[n++] = '\n'; }
		vfs_put("q.csv", b, n);
		vfs_quotes = 1;
		int k = vp_fix(vp_range(0, 6, "std"));
		if (k < 6) CHECK(fql_set_in_std(f, pick_std[k]) == FQL_GOOD);
		int on = k == 1;
		int r = g_query(f, Q == 21 ? "SELECT s, n FROM q" : Q == 22 ? "SELECT n, LEN(s) AS l FROM q" : "SELECT s, n FROM (SELECT s, n FROM q) x");
		CHECK(r == 3);
		x_reset();
		for (int i = 0; i < 3; ++i) {
			if (Q == 22) { x_cell(&t, i, 1); x_c('|'); x_int(on ? 3 : 1); }
			else { cell(i, 0, on); x_c('|'); x_cell(&t, i, 1); }
			x_c('\n');
		}
		CHECKX(x_api());
	}
	// the setting of one handle is not that of another
	if (Q == 24) {
		fqlhandle* g = e2e_new();
		fql_set_print_header(f, 0);
		fql_set_out_delim(f, ";");
		fql_set_crlf_output(f, 1);
		fql_set_out_std(f, "ALL");
		fql_set_strict_mode(f, 1);
		fql_set_dry_run(f, 1);
		fql_set_in_delim(f, "|");
		CHECK(fql_exec(g, both) != FQL_FAIL);
		x_reset();
		rows(0);
		CHECKX(x_stdout());
		fql_free(g);
	}
	// characters, or bytes
	if (Q == 25) {
		char b[64] = "s\n\xc3\xa9";
		b[4] = S(0);
		b[5] = '\n';
		vfs_put("u.csv", b, 6);
		int byte = vp_fix(vp_range(0, 1, "bytes"));
		fql_set_char_as_byte(f, byte);
		CHECK(g_query(f, "SELECT LEN(s) AS l, LEFT(s, 2) AS a, RIGHT(s, 2) AS b, SUBSTRING(s, 2, 1) AS c FROM u") == 1);
		x_reset();
		x_int(byte ? 3 : 2);
		x_s("|\xc3\xa9"); if (!byte) x_c(S(0));
		x_c('|'); if (!byte) x_c('\xc3'); x_c('\xa9'); x_c(S(0));
		x_c('|'); if (byte) x_c('\xa9'); else x_c(S(0));
		x_c('\n');
		CHECKX(x_api());
	}
	// SELECT outside of groups: the first row of each
	if (Q >= 26 && Q <= 29) {
		static const char* const sql[] = {"SELECT s, n FROM t GROUP BY s", "SELECT n, s FROM t WHERE n <> '2' GROUP BY s", "SELECT * FROM t GROUP BY s", "SELECT n + 1 AS m FROM t GROUP BY s, n"};
		CHECK(g_query(f, sql[Q - 26]) == (Q == 29 ? FQL_FAIL : FQL_FAIL) || Q == 29);
		fql_reset(f);
		fql_set_loose_groups(f, 1);
		int n = 0;
		x_reset();
		for (int i = 0; i < 3; ++i) {
			int first = 1;
			if (Q == 27 && N(i) == '2') continue;
			for (int j = 0; j < i; ++j) first &= !(S(j) == S(i) && (Q != 29 || N(j) == N(i)) && (Q != 27 || N(j) != '2'));
			if (!first) continue;
			++n;
			if (Q == 29) x_int(N(i) - '0' + 1);
			else if (Q == 27) x_cell(&t, i, 1), x_c('|'), x_cell(&t, i, 0);
			else x_cell(&t, i, 0), x_c('|'), x_cell(&t, i, 1);
			x_c('\n');
		}
		CHECK(g_query(f, sql[Q - 26]) == n);
		CHECKX(x_api());
	}
	// a handle that is used again, set back
	if (Q == 30) {
		fql_set_out_std(f, "ALL");
		fql_set_print_header(f, 0);
		fql_set_crlf_output(f, 1);
		fql_reset(f);
		fql_set_out_std(f, "RFC4180");
		fql_set_print_header(f, 1);
		fql_set_crlf_output(f, 0);
		CHECK(fql_exec(f, both) != FQL_FAIL);
		x_reset();
		rows(0);
		CHECKX(x_stdout());
	}
	// the value of an imported variable, as the header writes it
	if (Q == 31) {
		static const char* const as[] = {"v=a", "v = a", " @v= a", "@v  =a", "\tv =\ta"};
		CHECK(fql_import_variable(f, as[vp_fix(vp_range(0, 4, "how"))]) == FQL_GOOD);
		int n = 0;
		x_reset();
		for (int i = 0; i < 3; ++i) if (vp_fix(S(i)) == 'a') { x_cell(&t, i, 1); x_s("|a\n"); ++n; }
		CHECK(g_query(f, "SELECT n, @v AS v FROM t WHERE s = @v") == n);
		CHECKX(x_api());
	}
	// delimiters and terminators as long as there is room for; no setting given leaves the old
	if (Q == 32) {
		char d[64];
		int l = vp_fix(vp_range(1, 31, "length"));
		memset(d, '-', l);
		d[l] = 0;
		fql_set_out_delim(f, d);
		fql_set_out_delim(f, NULL);
		fql_set_in_delim(f, ",");
		fql_set_in_delim(f, NULL);
		fql_set_record_terminator(f, NULL);
		fql_set_schema(f, NULL);
		fql_set_schema_path(f, NULL);
		CHECK(fql_import_variable(f, NULL) == FQL_FAIL);
		CHECK(fql_exec(f, both) != FQL_FAIL);
		x_reset();
		x_s("s"); x_s(d); x_s("n\n");
		for (int i = 0; i < 3; ++i) { x_cell(&t, i, 0); x_s(d); x_cell(&t, i, 1); x_c('\n'); }
		CHECKX(x_stdout());
	}
	// parts of the pipe: any number is made to fit
	if (Q == 33) {
		fql_set_pipe_factor(f, (int)vp_fix((int)vp_range(0, 7, "factor")) - 4);
		CHECK(fql_exec(f, both) != FQL_FAIL);
		x_reset();
		rows(0);
		CHECKX(x_stdout());
	}
	// table made over an existing one, or not
	if (Q == 34) {
		int ow = vp_fix(vp_range(0, 1, "overwrite"));
		fql_set_overwrite(f, ow);
		vfs_put("o.csv", "x\n", 2);
		int rc = fql_exec(f, "SELECT s, n INTO [o.csv] FROM t");
		CHECK((rc == FQL_FAIL) == !ow);
		x_reset();
		if (ow) rows(0); else x_s("x\n");
		CHECKX(x_file("o.csv"));
	}
	// a join held in memory, or not
	if (Q == 35) {
		fql_set_force_cartesian(f, vp_fix(vp_range(0, 1, "cartesian")));
		vfs_put("u.csv", "s,k\na,1\nb,2\na,3\n", 16);
		CHECK(g_query(f, "SELECT t.n, u.k FROM t JOIN u ON t.s = u.s WHERE u.k <> '3'") == 3);
		x_reset();
		for (int i = 0; i < 3; ++i) { x_cell(&t, i, 1); x_c('|'); x_c(vp_sel(S(i) == 'a', '1', '2')); x_c('\n'); }
		CHECKX(x_api());
	}
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
