// A script run piece by piece ends where a statement fails, whichever call ran it; what it did before stays.
//@ lib
//@ fs
//@ nolabels
//@ samples 6
//@ cfg both s0 -DSTART=0
//@ cfg both s1 -DSTART=1
//@ cfg both s2 -DSTART=2
//@ cfg thorough s0k4 -DSTART=0 -DK=4
//@ cfg thorough s1k4 -DSTART=1 -DK=4
//@ bounds a script of 4 statements over 2 rows whose cells do or do not convert to a number, of which 0..2 were run before, then every sequence of 3 calls (4 in the thorough tier) out of 5: step once, step to the end, run one, run until a SELECT, run all
//@ outside other scripts, failures while planning (C34)
#include "e2e.h"
#ifndef K
#define K 3
#endif
static struct et t, u;
// UPDATE u; SELECT (may fail at either row); DELETE from t (may fail); SELECT from u
static const char script[] = "UPDATE u SET k = 'z'; SELECT 0 + n AS c FROM t; DELETE FROM t WHERE 0 + m = 1; SELECT k FROM u";
static char nn[2], mm[2], out[4096];
static int on, pc, at = -1, dead, gone[2], upd;
static void o_(const char* s) { while (*s) out[on++] = *s++; }
static void run_(void)   // the statement pc as a whole
{
	switch (pc) {
	case 0: upd = 1; break;
	case 1:
		o_("c\n");
		for (int r = 0; r < 2; ++r) { if (nn[r] == 'x') { dead = 1; return; } out[on++] = nn[r]; out[on++] = '\n'; }
		break;
	case 2: if (mm[0] == 'x' || mm[1] == 'x') { dead = 1; return; } for (int r = 0; r < 2; ++r) gone[r] = mm[r] == '1'; break;
	case 3: o_("k\n"); o_(upd ? "z\n" : "y\n"); break;
	}
	++pc;
}
void harness(void)
{
	static const char* const z[] = {"1", "x", "2"};
	et_hdr(&t, "n,m");
	for (int r = 0; r < 2; ++r) for (int c = 0; c < 2; ++c) {
		if (START == 2 && c == 0) { et_str(&t, r, c, "1"); nn[r] = '1'; continue; }   // that SELECT has run
		(c ? mm : nn)[r] = c == 0 || r ? z[et_any(&t, r, c, 2, z)][0] : z[et_any(&t, r, c, 3, z)][0];
	}
	et_hdr(&u, "k");
	et_str(&u, 0, 0, "y");
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
	fqlhandle* h = e2e_new();
	CHECK(fql_make_plans(h, script) == 4);
	if (START) { CHECK(fql_exec_plans(h, START) != FQL_FAIL); while (pc < START) run_(); }
	for (int k = 0; k < K; ++k) {
		int op = vp_fix(vp_range(0, 4, "call"));
		if (dead) { CHECK(fql_get_operation_type(h) == FQL_NONE); CHECK(vfs_open_files() == 0); }
		struct fql_field* f = NULL;
		int was = dead || pc == 4;
		if (op <= 1) {
			int rows = 0;
			for (;;) {
				int rc = fql_step(h, &f);
				if (was) { CHECK(rc == 0); break; }
				if (pc == 0 || pc == 2) { CHECK(rc == FQL_FAIL); break; }
				if (at < 0) at = 0;
				if (pc == 1 && at < 2 && nn[at] == 'x') { CHECK(rc == FQL_FAIL); dead = 1; break; }
				if (at == (pc == 1 ? 2 : 1)) { CHECK(rc == 0); at = -1; ++pc; break; }
				CHECK(rc == 1);
				if (pc == 1) CHECK(f[0].type == FQL_INT && f[0].data.i == nn[at] - '0');
				else CHECK(f[0].data.s[0] == (upd ? 'z' : 'y'));
				++at;
				++rows;
				if (op == 0) break;
			}
			(void)rows;
		} else if (op == 3) {
			long rc = fql_exec_until_select(h);
			int c = 0;
			if (!was && at < 0) while (pc < 4 && pc != 1 && pc != 3 && !dead) { run_(); if (!dead) ++c; }
			if (dead && !was) CHECK(rc == FQL_FAIL); else CHECK(rc == c);
		} else {
			int rc = op == 2 ? fql_exec_plans(h, 1) : fql_exec_all_plans(h);
			if (was) CHECK(rc != FQL_FAIL);
			else if (at >= 0) CHECK(rc == FQL_FAIL);
			else {
				do run_(); while (op == 4 && pc < 4 && !dead);
				CHECK((rc == FQL_FAIL) == dead);
			}
		}
	}
	fql_reset(h);
	CHECK(vfs_open_files() == 0);
	size_t n = 0;
	const char* so = vfs_stdout(&n);
	if (vp_native()) fprintf(stderr, "--- stdout\n%.*s--- expected\n%.*s---\n", (int)n, so, on, out);
	if (!dead) CHECK(n == (size_t)on && (on == 0 || memcmp(so, out, on) == 0));
	x_reset();
	x_s("n,m\n");
	for (int r = 0; r < 2; ++r) if (!gone[r]) x_c(nn[r]), x_c(','), x_c(mm[r]), x_c('\n');
	CHECKX(x_file("t.csv"));
	x_reset();
	x_s(upd ? "k\nz\n" : "k\ny\n");
	CHECKX(x_file("u.csv"));
	CHECK(g_query(h, "SELECT k FROM u") == 1);
	fql_free(h);
	CHECK(vfs_open_files() == 0);
}
