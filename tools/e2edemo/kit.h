// Whole queries over an in-memory file system: put() tables, then compare what a script prints or leaves behind.
#include <stdarg.h>
#include "e2e.h"
long vp_sel(int c, long a, long b) { return c ? a : b; }
long vp_fix(long v) { return v; }
int vp_native(void) { return 0; }
void vp_fail(const char* m) { fprintf(stderr, "%s\n", m); exit(1); }
void vp_assert(int c, const char* m) { if (!c) vp_fail(m); }
void vp_assume(int c) { }
void vp_sym(void* p, unsigned long n, const char* name) { memset(p, 0, n); }
long vp_range(long lo, long hi, const char* name) { return lo; }
long vp_live(void) { return 0; }
void vp_reach(const char* l) { }
void vp_obs(long v) { }
void vp_allow_exit(void) { }
long vp_arg(int i) { return 0; }
void vp_unsupported(const char* m) { fprintf(stderr, "unsupported: %s\n", m); exit(4); }
static int bad;
static fqlhandle* H;
static void put(const char* name, const char* text) { vfs_put(name, text, strlen(text)); }
static void open_(void) { H = e2e_new(); }
static void expect(const char* what, const char* d, size_t n, const char* want)
{
	if (d && n == strlen(want) && !memcmp(d, want, n)) return;
	fprintf(stderr, "%s:\n--- got\n%.*s\n--- expected\n%s---\n", what, d ? (int)n : 6, d ? d : "(none)", want);
	bad = 1;
}
// run a script; its status and everything printed so far
static int run(const char* sql) { return fql_exec(H, sql); }
static void ok(const char* sql) { if (run(sql) != FQL_GOOD) { fprintf(stderr, "refused: %s\n", sql); bad = 1; } }
static void fails(const char* sql) { if (run(sql) != FQL_FAIL) { fprintf(stderr, "not refused: %s\n", sql); bad = 1; } }
static void printed(const char* want) { size_t n = 0; const char* d = vfs_stdout(&n); expect("printed", n ? d : "", n, want); }
static void file(const char* name, const char* want) { size_t n = 0; const char* d = vfs_get(name, &n); expect(name, d, n, want); }
static void rows(const char* sql, const char* want) { int r = g_query(H, sql); if (r < 0) { fprintf(stderr, "refused: %s\n", sql); bad = 1; return; } expect(sql, g_b, g_n, want); }
static int done(void) { if (H) fql_free(H); return bad; }
