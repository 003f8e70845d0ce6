// The calls that run a script piece by piece, mixed in every way.
//@ lib
//@ fs
//@ nolabels
//@ samples 6
//@ cfg both s0 -DSTART=0
//@ cfg both s1 -DSTART=1
//@ cfg both s2 -DSTART=2
//@ cfg both s3 -DSTART=3
//@ cfg both s4 -DSTART=4
//@ cfg both s5 -DSTART=5
//@ cfg thorough s0k4 -DSTART=0 -DK=4
//@ cfg thorough s2k4 -DSTART=2 -DK=4
//@ cfg thorough s4k4 -DSTART=4 -DK=4
//@ bounds a script of 6 statements, of which 0..5 were run before, then every sequence of 3 calls (4 in the thorough tier) out of 8, over a table of 2 rows
//@ outside the calls from several threads
#include "e2e.h"
#ifndef K
#define K 3
#endif
static struct et t;
static int n[2], z[2], alive[2];
static char orig[2] = {'a', 'b'};
static const enum fql_operation type[7] = {FQL_DELETE, FQL_SELECT, FQL_UPDATE, FQL_SELECT, FQL_SELECT, FQL_SELECT, FQL_NONE};
static const int nf[7] = {FQL_FAIL, 1, FQL_FAIL, 2, FQL_FAIL, 1, 0};
static char out[4096];
static int on, made;
// row r of SELECT statement p, or 0
static int row(int p, int r)
{
	x_reset();
	if (p == 5) { if (r == 0) x_int(alive[0] + alive[1]); return r == 0; }
	for (int i = 0; i < 2; ++i) if (alive[i] && r-- == 0) {
		x_c(z[i] ? 'z' : orig[i]);
		if (p == 3) x_c('|'), x_int(n[i]);
		return 1;
	}
	return 0;
}
static void sel(int p)   // what the statement prints
{
	for (const char* h = p == 1 ? "s\n" : p == 3 ? "s,n\n" : "c\n"; *h; ++h) out[on++] = *h;
	for (int r = 0; row(p, r); ++r) { for (int i = 0; i < x_n; ++i) out[on++] = x_b[i] == '|' ? ',' : x_b[i]; out[on++] = '\n'; }
}
static void did(int p)
{
	if (p == 0) for (int i = 0; i < 2; ++i) alive[i] &= n[i] != 1;
	else if (p == 2) for (int i = 0; i < 2; ++i) z[i] |= n[i] == 2;
	else if (p == 4) made = 1;
	else sel(p);
}
static int same_row(struct fql_field* f, int p)
{
	char b[64];
	int k = 0;
	for (int i = 0; i < nf[p]; ++i) {
		if (i) b[k++] = '|';
		if (f[i].type == FQL_INT) k += snprintf(b + k, 16, "%ld", f[i].data.i);
		else for (const char* s = f[i].data.s; *s; ++s) b[k++] = *s;
	}
	return k == x_n && memcmp(b, x_b, k) == 0;
}
void harness(void)
{
	et_hdr(&t, "s,n");
	for (int i = 0; i < 2; ++i) {
		et_str(&t, i, 0, i ? "b" : "a");
		et_ch(&t, i, 1, '1', '2');
		n[i] = (t.c[i][1][0] = vp_fix(t.c[i][1][0])) - '0';
		alive[i] = 1;
	}
	et_put(&t, "t.csv");
	fqlhandle* h = e2e_new();
	CHECK(fql_get_operation_type(h) == FQL_NONE);
	CHECK(fql_make_plans(h, "DELETE FROM t WHERE n = '1'; SELECT s FROM t; UPDATE t SET s = 'z' WHERE n = '2'; SELECT s, n FROM t; SELECT n INTO [o.csv] FROM t; SELECT COUNT(*) AS c FROM t") == 6);
	int pc = 0, at = -1;   // next statement; row reached when it is being stepped through
	if (START) { CHECK(fql_exec_plans(h, START) != FQL_FAIL); for (; pc < START; ++pc) did(pc); }
	for (int k = 0; k < K; ++k) {
		int op = vp_fix(vp_range(0, 7, "call"));
		CHECK(fql_get_operation_type(h) == type[pc]);
		if (op <= 1 || op == 7) {
			int rc = op == 7 ? fql_exec_all_plans(h) : fql_exec_plans(h, op + 1);
			CHECK((rc == FQL_FAIL) == (at >= 0));
			if (at < 0) for (int i = 0; i < (op == 7 ? 6 : op + 1) && pc < 6; ++i) did(pc++);
		} else if (op == 2) {
			int c = 0;
			for (int p = pc; p < 6 && !(type[p] == FQL_SELECT && p != 4); ++p) ++c;
			CHECK(fql_exec_until_select(h) == c);
			for (; c; --c) did(pc++);
		} else if (op == 3) {
			CHECK(fql_field_count(h) == nf[pc]);
		} else if (op <= 5) {
			struct fql_field* f = NULL;
			for (;;) {
				int rc = fql_step(h, &f);
				if (pc == 6) { CHECK(rc == 0); break; }
				if (nf[pc] < 0) { CHECK(rc == FQL_FAIL); break; }
				if (at < 0) at = 0;
				int more = row(pc, at);
				CHECK(rc == more);
				if (!more) { at = -1; ++pc; break; }
				CHECK(fql_field_count(h) == nf[pc]);
				CHECKX(same_row(f, pc));
				++at;
				if (op == 4) break;
			}
		} else {
			fql_reset(h);
			pc = 6;
			at = -1;
			CHECK(vfs_open_files() == 0);
		}
	}
	fql_reset(h);
	CHECK(vfs_open_files() == 0);
	size_t on_ = 0;
	const char* so = vfs_stdout(&on_);
	if (vp_native()) fprintf(stderr, "--- stdout\n%.*s--- expected\n%.*s---\n", (int)on_, so, on, out);
	CHECK(on_ == (size_t)on && (on == 0 || memcmp(so, out, on) == 0));
	x_reset();
	x_s("s,n\n");
	for (int i = 0; i < 2; ++i) if (alive[i]) x_c(z[i] ? 'z' : orig[i]), x_c(','), x_int(n[i]), x_c('\n');
	CHECKX(x_file("t.csv"));
	CHECK(vfs_exists("o.csv") == made);
	CHECK(g_query(h, "SELECT s, n FROM t") == alive[0] + alive[1]);
	for (int i = 0; i < x_n; ++i) if (x_b[i] == ',') x_b[i] = '|';
	CHECK(g_n == x_n - 4 && memcmp(g_b, x_b + 4, g_n) == 0);
	fql_free(h);
	CHECK(vfs_open_files() == 0);
}
