// Running whole queries: tables of symbolic cells in the in-memory file system, results through the API or as output text.
#ifndef VP_E2E_H
#define VP_E2E_H
#include "sql.h"
#ifndef ER
#define ER 8
#endif
#define EC 6
#ifndef EL
#define EL 8
#endif
// a table whose cells are short strings with concrete lengths and (possibly) symbolic bytes
struct et { int nr, nc; char h[EC][EL]; char c[ER][EC][EL]; int l[ER][EC]; };
static void __attribute__((unused)) et_hdr(struct et* t, const char* names)   // "a,b"
{
	t->nr = 0;
	t->nc = 0;
	while (*names) {
		int n = 0;
		while (*names && *names != ',') t->h[t->nc][n++] = *names++;
		t->h[t->nc++][n] = 0;
		if (*names) ++names;
	}
}
static void __attribute__((unused)) et_ch(struct et* t, int r, int c, char lo, char hi)   // one symbolic character lo..hi
{
	char x = vp_byte("cell");
	vp_assume((x >= lo) & (x <= hi));
	t->c[r][c][0] = x;
	t->c[r][c][1] = 0;
	t->l[r][c] = 1;
	if (r >= t->nr) t->nr = r + 1;
}
static void __attribute__((unused)) et_str(struct et* t, int r, int c, const char* s)
{
	t->l[r][c] = strlen(s);
	strcpy(t->c[r][c], s);
	if (r >= t->nr) t->nr = r + 1;
}
static void __attribute__((unused)) et_or(struct et* t, int r, int c, char x, char y)   // one character, x or y
{
	t->c[r][c][0] = vp_sel(vp_byte("cell") & 1, x, y);
	t->c[r][c][1] = 0;
	t->l[r][c] = 1;
	if (r >= t->nr) t->nr = r + 1;
}
static int __attribute__((unused)) et_any(struct et* t, int r, int c, int n, const char* const* s)   // one of n texts (a path for each)
{
	unsigned char i = vp_byte("pick");
	vp_assume(i < n);
	i = vp_fix(i);
	et_str(t, r, c, s[i]);
	return i;
}
static const char* et_delim = ",";
static int et_text(struct et* t, char* b)
{
	int n = 0;
	for (int c = 0; c < t->nc; ++c) { if (c) for (const char* d = et_delim; *d; ++d) b[n++] = *d; for (int i = 0; t->h[c][i]; ++i) b[n++] = t->h[c][i]; }
	b[n++] = '\n';
	for (int r = 0; r < t->nr; ++r) {
		for (int c = 0; c < t->nc; ++c) { if (c) for (const char* d = et_delim; *d; ++d) b[n++] = *d; for (int i = 0; i < t->l[r][c]; ++i) b[n++] = t->c[r][c][i]; }
		b[n++] = '\n';
	}
	return n;
}
static void __attribute__((unused)) et_put(struct et* t, const char* name)
{
	static char b[ER * 128];
	vfs_put(name, b, et_text(t, b));
}
// expected output text, and comparison with a file (or standard output) under one assertion per byte
static char x_b[16384];
static int x_n;
static void __attribute__((unused)) x_reset(void) { x_n = 0; }
static void __attribute__((unused)) x_s(const char* s) { while (*s) x_b[x_n++] = *s++; }
static void __attribute__((unused)) x_c(char c) { x_b[x_n++] = c; }
static void __attribute__((unused)) x_cell(struct et* t, int r, int c) { for (int i = 0; i < t->l[r][c]; ++i) x_b[x_n++] = t->c[r][c][i]; }
static void __attribute__((unused)) x_int(long v) { char b[32]; snprintf(b, sizeof(b), "%ld", v); x_s(b); }
static int x_same(const char* d, size_t n)
{
	if (d == NULL || n != (size_t)x_n) return 0;
	int ok = 1;
	for (int i = 0; i < x_n; ++i) ok &= d[i] == x_b[i];
	return ok;
}
static int __attribute__((unused)) x_file(const char* name)
{
	size_t n = 0;
	const char* d = vfs_get(name, &n);
	if (vp_native()) { fprintf(stderr, "--- %s\n%.*s--- expected\n%.*s---\n", name, d ? (int)n : 7, d ? d : "(none)\n", x_n, x_b); }
	return x_same(d, n);
}
static int __attribute__((unused)) x_stdout(void)
{
	size_t n = 0;
	const char* d = vfs_stdout(&n);
	if (n == 0) d = "";
	if (vp_native()) { fprintf(stderr, "--- stdout\n%.*s--- expected\n%.*s---\n", (int)n, d, x_n, x_b); }
	return x_same(d, n);
}
// step through one SELECT, rendering every row as f1|f2|...\n (NULL as ~)
static char g_b[16384];
static int g_n;
static int __attribute__((unused)) g_step(fqlhandle* f)
{
	struct fql_field* fl = NULL;
	int rc, rows = 0;
	g_n = 0;
	int nf = fql_field_count(f);
	if (nf < 0) return FQL_FAIL;
	while ((rc = fql_step(f, &fl)) == 1) {
		for (int i = 0; i < nf; ++i) {
			if (i) g_b[g_n++] = '|';
			if (fl[i].is_null) { g_b[g_n++] = '~'; continue; }
			if (fl[i].type == FQL_STRING) { for (const char* p = fl[i].data.s; *p; ++p) g_b[g_n++] = *p; }
			else if (fl[i].type == FQL_INT) g_n += snprintf(g_b + g_n, 32, "%ld", fl[i].data.i);
			else g_n += snprintf(g_b + g_n, 64, "%g", fl[i].data.f);
		}
		g_b[g_n++] = '\n';
		if (++rows > 2000) { vp_fail("fql_step does not end"); return FQL_FAIL; }
	}
	return rc < 0 ? rc : rows;
}
static int __attribute__((unused)) x_api(void)
{
	if (vp_native()) { fprintf(stderr, "--- rows\n%.*s--- expected\n%.*s---\n", g_n, g_b, x_n, x_b); }
	return x_same(g_b, g_n);
}
// plan and step through the only statement; rows or FQL_FAIL
static int __attribute__((unused)) g_query(fqlhandle* f, const char* sql)
{
	int n = fql_make_plans(f, sql);
	if (n < 0) return FQL_FAIL;
	return g_step(f);
}
#endif
