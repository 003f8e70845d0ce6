// The SELECT of a loop: each turn it is stepped through or run at once.
//@ lib
//@ fs
//@ nolabels
//@ samples 6
//@ cfg both plain -DQ=0
//@ cfg both order -DQ=1
//@ cfg both grp -DQ=2
//@ cfg both top -DQ=3
//@ cfg both subq -DQ=4
//@ cfg thorough plain4 -DQ=0 -DT=4
//@ bounds a WHILE of 3 turns (4 in the thorough tier), in each of which the SELECT (plain, ORDER BY, GROUP BY, TOP, with a subquery) is stepped through or run at once; a table of 2 rows
//@ outside leaving a loop by breaking off
#include "e2e.h"
#ifndef T
#define T 3
#endif
static struct et t;
static char out[4096];
static int on;
static void row(const char* s, int i)
{
	x_reset();
	x_s(s);
	x_c('|');
	x_int(i);
}
static char want[2][8];
static int nw;
static const char* SEL[] = {
	"SELECT s, @i AS i FROM t",
	"SELECT s, @i AS i FROM t ORDER BY s DESC",
	"SELECT s, @i AS i FROM t GROUP BY s",
	"SELECT TOP 1 s, @i AS i FROM t",
	"SELECT (SELECT MAX(s) FROM t) AS s, @i AS i FROM t",
};
void harness(void)
{
	et_hdr(&t, "s");
	for (int i = 0; i < 2; ++i) {
		et_ch(&t, i, 0, 'a', 'b');
		t.c[i][0][0] = vp_fix(t.c[i][0][0]);
	}
	et_put(&t, "t.csv");
	const char* a = t.c[0][0];
	const char* b = t.c[1][0];
	nw = 2;
	strcpy(want[0], a);
	strcpy(want[1], b);
	if (Q == 1 && strcmp(a, b) < 0) strcpy(want[0], b), strcpy(want[1], a);
	if ((Q == 2 && strcmp(a, b) == 0) || Q == 3) nw = 1;
	if (Q == 4) strcpy(want[0], strcmp(a, b) > 0 ? a : b), strcpy(want[1], want[0]);
	char q[256];
	snprintf(q, sizeof q, "DECLARE @i INT; SET @i = 0; WHILE @i < %d BEGIN %s; SET @i = @i + 1 END; SELECT s FROM t", T, SEL[Q]);
	fqlhandle* h = e2e_new();
	CHECK(fql_make_plans(h, q) > 0);
	for (int k = 0; k < T; ++k) {
		CHECK(fql_exec_until_select(h) >= 0);
		CHECK(fql_get_operation_type(h) == FQL_SELECT);
		CHECK(fql_field_count(h) == 2);
		if (vp_fix(vp_range(0, 1, "step"))) {
			struct fql_field* f = NULL;
			for (int r = 0; r < nw; ++r) {
				CHECK(fql_step(h, &f) == 1);
				CHECK(f[0].type == FQL_STRING && f[1].type == FQL_INT);
				CHECK(strcmp(f[0].data.s, want[r]) == 0 && f[1].data.i == k);
			}
			CHECK(fql_step(h, &f) == 0);
		} else {
			CHECK(fql_exec_plans(h, 1) != FQL_FAIL);
			for (const char* p = "s,i\n"; *p; ++p) out[on++] = *p;
			for (int r = 0; r < nw; ++r) {
				row(want[r], k);
				for (int i = 0; i < x_n; ++i) out[on++] = x_b[i] == '|' ? ',' : x_b[i];
				out[on++] = '\n';
			}
		}
	}
	CHECK(fql_exec_until_select(h) >= 0);
	CHECK(fql_field_count(h) == 1);
	CHECK(fql_exec_all_plans(h) != FQL_FAIL);
	for (const char* p = "s\n"; *p; ++p) out[on++] = *p;
	for (int i = 0; i < 2; ++i) out[on++] = t.c[i][0][0], out[on++] = '\n';
	size_t n = 0;
	const char* so = vfs_stdout(&n);
	if (vp_native()) fprintf(stderr, "--- stdout\n%.*s--- expected\n%.*s---\n", (int)n, so, on, out);
	CHECK(n == (size_t)on && memcmp(so, out, on) == 0);
	fql_free(h);
	CHECK(vfs_open_files() == 0);
}
