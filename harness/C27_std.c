// What UPDATE and DELETE write obeys the output standard; records they leave alone stay as they were, byte for byte.
//@ lib
//@ fs
//@ nolabels
//@ cfg both set -DQ=0
//@ cfg both copy -DQ=1
//@ cfg both join -DQ=2
//@ cfg both del -DQ=3
//@ cfg both all -DQ=4
//@ cfg both case -DQ=5
//@ cfg both set1 -DQ=0 -DPF=1
//@ cfg both join1 -DQ=2 -DPF=1
//@ samples 4
//@ inst 30000000
//@ bounds 6 statements over a table of 3 records whose cells are of 0 to 2 letters, every choice of the records that are met; output standards ALL, RFC4180 and the default
//@ outside other standards, how libcsv takes quotes off and decides that a field needs them
#include "e2e.h"
static const char* const sql[] = {
	"UPDATE t SET a = 'x' WHERE k = '1'",
	"UPDATE t SET b = a WHERE k = '1'",
	"UPDATE t SET a = u.d FROM t JOIN u ON t.k = u.c",
	"DELETE FROM t WHERE k = '1'",
	"UPDATE t SET a = b, b = a",
	"UPDATE t SET a = CASE WHEN k = '1' THEN 'yy' ELSE a END WHERE k <> '2'",
};
static const char* const raw[] = {"p", "qq", ""};
#define val raw
static int std_;
static void out(const char* s)
{
	int q = std_ == 0;
	if (q) x_c('"');
	x_s(s);
	if (q) x_c('"');
}
void harness(void)
{
	static struct et t, u;
	int k[3], a[3], b[3];
	et_hdr(&t, "k,a,b");
	et_hdr(&u, "c,d");
	for (int r = 0; r < 3; ++r) {
		et_ch(&t, r, 0, '0', Q == 5 ? '2' : '1');
		k[r] = t.c[r][0][0] = vp_fix(t.c[r][0][0]);
		if (r == 2) et_str(&t, r, 1, raw[a[r] = 2]); else a[r] = et_any(&t, r, 1, 3, raw);
		if (r == 1) b[r] = et_any(&t, r, 2, 2, raw + 1) + 1; else et_str(&t, r, 2, raw[b[r] = r ? 1 : 0]);
	}
	et_str(&u, 0, 0, "1");
	et_str(&u, 0, 1, "z");
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
	fqlhandle* f = e2e_new();
#ifdef PF
	fql_set_pipe_factor(f, PF);
#endif
	std_ = vp_fix(vp_range(0, 2, "std"));
	if (std_ < 2) fql_set_out_std(f, std_ ? "RFC4180" : "ALL");
	CHECK(fql_exec(f, sql[Q]) == FQL_GOOD);
	x_reset();
	out("k"); x_c(','); out("a"); x_c(','); out("b"); x_c('\n');
	for (int r = 0; r < 3; ++r) {
		int hit = Q == 4 || (Q == 5 ? k[r] != '2' : k[r] == '1');
		if (!hit) { x_cell(&t, r, 0); x_c(','); x_cell(&t, r, 1); x_c(','); x_cell(&t, r, 2); x_c('\n'); continue; }
		if (Q == 3) continue;
		char c[2] = {k[r], 0};
		const char* na = val[a[r]], *nb = val[b[r]];
		switch (Q) {
		case 0: na = "x"; break;
		case 1: nb = na; break;
		case 2: na = "z"; break;
		case 4: na = nb; nb = val[a[r]]; break;
		case 5: if (k[r] == '1') na = "yy"; break;
		}
		out(c); x_c(','); out(na); x_c(','); out(nb); x_c('\n');
	}
	CHECKX(x_file("t.csv"));
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
