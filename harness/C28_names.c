//@ lib
//@ fs
//@ cfg both n0 -DM=0 -DQ=0
//@ cfg both n1 -DM=0 -DQ=1
//@ cfg both n2 -DM=0 -DQ=2
//@ cfg both n3 -DM=0 -DQ=3
//@ cfg both n4 -DM=0 -DQ=4
//@ cfg both n5 -DM=0 -DQ=5
//@ cfg both s0 -DM=1 -DQ=0
//@ cfg both s1 -DM=1 -DQ=1
//@ cfg both s2 -DM=1 -DQ=2
//@ nolabels
// which file a table name or a schema name stands for
//@ bounds 6 spellings of a table name (case, extension, directory) against every subset of 7 files, strict and not, in two directory orders; a schema name in three schema directories, each with one of 6 sets of files
//@ outside symbolic links, other directory trees
//@ time 120
#include "e2e.h"
#include <ctype.h>
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int same(const char* a, const char* b, int ext, int ci)   // b with or without its extension
{
	int n = strlen(b);
	if (ext) for (int i = n - 1; i >= 0; --i) if (b[i] == '.') { n = i; break; }
	if ((int)strlen(a) != n) return 0;
	for (int i = 0; i < n; ++i) if (ci ? lo(a[i]) != lo(b[i]) : a[i] != b[i]) return 0;
	return 1;
}
// the index of the file meant, -1 none, -2 ambiguous
static int meant(const char* a, const char* const* f, const int* there, int n, int strict)
{
	for (int rule = 0; rule < 4; ++rule) {
		int c = 0, w = -1;
		for (int i = 0; i < n; ++i) if (there[i] && same(a, f[i], rule >= 2, rule & 1)) ++c, w = i;
		if (c) return c > 1 ? -2 : w;
		if (strict) return -1;
	}
	return -1;
}
#if M == 0
static const char* const fn[] = {"t1", "T1", "t1.txt", "T1.csv", "t1.CSV", "t1.b.c", "d/t1", "d/T1.x"};
static const char* const q[] = {"t1", "T1", "[t1.txt]", "[T1.CSV]", "[d/t1]", "[t1.B]"};
void harness(void)
{
	int there[8], rev = vp_fix(vp_range(0, 1, "order")), strict = vp_fix(vp_range(0, 1, "strict"));
	const char* base[8];
	for (int i = 0; i < 8; ++i) {
		there[i] = i == 5 ? Q == 5 || Q == 0 : vp_fix(vp_range(0, 1, "there"));
		base[i] = i > 5 ? fn[i] + 2 : fn[i];
	}
	for (int k = 0; k < 8; ++k) {
		int i = rev ? 7 - k : k;
		char b[] = "a\n?\n";
		b[2] = '0' + i;
		if (there[i]) vfs_put(fn[i], b, 4);
		if ((Q == 4) != (i > 5)) there[i] = 0;   // not in the directory looked into
	}
	char name[16];
	strcpy(name, q[Q][0] == '[' ? q[Q] + 1 : q[Q]);
	if (q[Q][0] == '[') name[strlen(name) - 1] = 0;
	int w = meant(Q == 4 ? name + 2 : name, base, there, 8, strict);
	char text[64];
	snprintf(text, sizeof(text), "SELECT a FROM %s", q[Q]);
	fqlhandle* f = e2e_new();
	fql_set_strict_mode(f, strict);
	int n = vfs_count(), rc = fql_exec(f, text);
	CHECK(rc == (w < 0 ? FQL_FAIL : FQL_GOOD));
	x_reset();
	if (w >= 0) { x_s("a\n"); x_int(w); x_c('\n'); }
	CHECKX(x_stdout());
	fql_free(f);
	CHECK(vfs_open_files() == 0);
	CHECK(vfs_count() == n);
}
#else
static const char* const fn[] = {"sch", "SCH", "sch.txt", "Sch.b"};
static const char* const set[] = {"", "0", "1", "2", "23", "3"};
void harness(void)
{
	static const char* const d[] = {"p", "e", "h/.config/fql/schema"};
	int w = -1, fail = 0, strict = vp_fix(vp_range(0, 1, "strict"));
	vfs_put("t.csv", "x,y\n", 4);
	for (int k = 0; k < 3; ++k) {
		char b[64];
		snprintf(b, sizeof(b), "%s/zz", d[k]);
		vfs_put(b, "", 0);
		int z = vp_fix(vp_range(0, 5, "set")), there[4] = {0};
		for (const char* s = set[z]; *s; ++s) {
			char c[] = "c?\nd\n";
			c[1] = '0' + k;
			snprintf(b, sizeof(b), "%s/%s", d[k], fn[*s - '0']);
			vfs_put(b, c, 5);
			there[*s - '0'] = 1;
		}
		int m = meant("sch", fn, there, 4, strict);
		if (w < 0 && !fail) { if (m == -2) fail = 1; if (m >= 0) w = k; }
	}
	vfs_setenv("HOME", "h");
	vfs_setenv("FQL_SCHEMA_PATH", "e");
	char text[64];
	snprintf(text, sizeof(text), "SELECT c%d, d FROM sch.[t.csv]", Q);
	fqlhandle* f = e2e_new();
	fql_set_strict_mode(f, strict);
	fql_set_schema_path(f, "p");
	int n = vfs_count(), rc = fql_exec(f, text);
	CHECK(rc == (w == Q ? FQL_GOOD : FQL_FAIL));
	x_reset();
	if (w == Q) x_s("x,y\n");
	CHECKX(x_stdout());
	fql_free(f);
	CHECK(vfs_open_files() == 0);
	CHECK(vfs_count() == n);
}
#endif
