// In-memory file system and a model of the external CSV library on top of it.
// Compiled both into the symbolic build and into the native replay build.
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <stdio.h>
#include <limits.h>
#include <sys/stat.h>
#include <dirent.h>
#include "csv.h"
#include "vfs.h"
#include "vp.h"
#define NF 16
static struct { char name[64]; char* d; size_t n, cap; int live; } fl[NF];
static int nopen;
int vfs_fail_at;
static int fails(void) { return vfs_fail_at > 0 && --vfs_fail_at == 0; }
static char* so; static size_t so_n, so_cap;
static const char* si; static size_t si_n, si_pos; static int si_eof;
void vfs_stdin(const char* d, size_t n) { si = d; si_n = n; si_pos = 0; si_eof = 0; }

static const char* nrm(const char* s)
{
	for (;;) {
		if (s[0] == '.' && s[1] == '/') s += 2;
		else if (s[0] == '/' && s[1] == 'v' && s[2] == '/') s += 3;
		else return s;
	}
}
static int look(const char* name)
{
	name = nrm(name);
	for (int i = 0; i < NF; ++i) if (fl[i].live && strcmp(fl[i].name, name) == 0) return i;
	return -1;
}
static int mk(const char* name)
{
	name = nrm(name);
	if (strlen(name) >= sizeof(fl[0].name)) vp_unsupported("long file name");
	for (int i = 0; i < NF; ++i) if (!fl[i].live && !fl[i].d) {
		fl[i].live = 1;
		strcpy(fl[i].name, name);
		fl[i].d = malloc(fl[i].cap = 32);
		fl[i].n = 0;
		return i;
	}
	vp_unsupported("too many files");
	return -1;
}
static void app(char** d, size_t* n, size_t* cap, const char* s, size_t k)
{
	if (*n + k > *cap) {
		size_t c = *cap;
		while (*n + k > c) c *= 2;
		char* x = malloc(c);
		memcpy(x, *d, *n);
		free(*d);
		*d = x;
		*cap = c;
	}
	memcpy(*d + *n, s, k);
	*n += k;
}
void vfs_put(const char* name, const char* data, size_t n)
{
	int i = look(name);
	if (i < 0) i = mk(name);
	fl[i].n = 0;
	app(&fl[i].d, &fl[i].n, &fl[i].cap, data, n);
}
const char* vfs_get(const char* name, size_t* n)
{
	int i = look(name);
	if (i < 0) return NULL;
	*n = fl[i].n;
	return fl[i].d;
}
int vfs_exists(const char* name) { return look(name) >= 0; }
int vfs_count(void) { int c = 0; for (int i = 0; i < NF; ++i) c += fl[i].live; return c; }
const char* vfs_name(int k) { for (int i = 0; i < NF; ++i) if (fl[i].live && k-- == 0) return fl[i].name; return NULL; }
int vfs_open_files(void) { return nopen; }
const char* vfs_stdout(size_t* n) { *n = so_n; return so; }

// ---- streams
// what is written to a stream reaches its file when the stream is flushed or closed, not before
struct vst { int used; int f; char** mp; size_t* mn; char* b; size_t bn, bcap; int err; };
static struct vst st[NF];
static struct vst* S(void* p)
{
	for (int i = 0; i < NF; ++i) if (p == &st[i]) { if (!st[i].used) vp_fail("use of a closed stream"); return &st[i]; }
	return NULL;
}
static void* mkst(int f)
{
	for (int i = 0; i < NF; ++i) if (!st[i].used) { st[i].used = 1; st[i].f = f; st[i].mp = NULL; st[i].bn = 0; st[i].err = 0; ++nopen; return &st[i]; }
	vp_unsupported("too many streams");
	return NULL;
}
void vfs_clear(void)
{
	for (int i = 0; i < NF; ++i) { free(fl[i].d); fl[i].d = NULL; fl[i].live = 0; fl[i].n = 0; fl[i].cap = 0; fl[i].name[0] = 0; }
	for (int i = 0; i < NF; ++i) if (!st[i].used) { free(st[i].b); st[i].b = NULL; st[i].bn = st[i].bcap = 0; }
	free(so);
	so = NULL;
	so_n = so_cap = 0;
}
// a directory exists when a file lies, or has lain, in it; "." always does
static int nodir(const char* name)
{
	name = nrm(name);
	const char* q = strrchr(name, '/');
	if (!q) return 0;
	size_t n = q - name;
	for (int i = 0; i < NF; ++i) {
		const char* e = strrchr(fl[i].name, '/');
		if (e && (size_t)(e - fl[i].name) == n && strncmp(fl[i].name, name, n) == 0) return 0;
	}
	return 1;
}
void* vp_fopen(const char* name, const char* mode)
{
	if (fails()) { errno = EACCES; return NULL; }
	int i = look(name);
	if (mode[0] == 'r') { if (i < 0) { errno = ENOENT; return NULL; } return mkst(i); }
	if (i < 0) { if (nodir(name)) { errno = ENOENT; return NULL; } i = mk(name); }
	else if (mode[0] == 'w') fl[i].n = 0;
	return mkst(i);
}
// a stream into memory: a file that has no name
void* vp_open_memstream(char** mp, size_t* mn)
{
	if (fails()) { errno = ENOMEM; return NULL; }
	int i = mk("");
	fl[i].live = 0;
	struct vst* s = mkst(i);
	s->mp = mp;
	s->mn = mn;
	*mp = NULL;
	*mn = 0;
	return s;
}
static int memout(struct vst* s)
{
	size_t k = s->bn;
	s->bn = 0;
	if (k && !s->mp && fails()) { errno = ENOSPC; s->err = 1; return EOF; }   // what was written is lost
	if (k) app(&fl[s->f].d, &fl[s->f].n, &fl[s->f].cap, s->b, k);
	if (!s->mp) return 0;
	size_t n = fl[s->f].n;
	free(*s->mp);
	*s->mp = malloc(n + 1);
	memcpy(*s->mp, fl[s->f].d, n);
	(*s->mp)[n] = 0;
	*s->mn = n;
	return 0;
}
int vp_fclose(void* p)
{
	struct vst* s = S(p);
	if (!s) { if (p == (void*)stdout || p == (void*)stderr) return 0; vp_fail("fclose of something that is no stream"); return 0; }
	int rc = memout(s);
	free(s->b);
	s->b = NULL;
	s->bcap = 0;
	s->used = 0;
	--nopen;
	return rc;
}
size_t vp_fwrite(const void* d, size_t sz, size_t n, void* p)
{
	struct vst* s = S(p);
	size_t k = vp_fix(sz * n);
	if (s) { if (!s->b) s->b = malloc(s->bcap = 32); if (k) app(&s->b, &s->bn, &s->bcap, d, k); }
	else if (p == (void*)stdout) { if (!so) so = malloc(so_cap = 32); if (k) app(&so, &so_n, &so_cap, d, k); }
	else if (p == NULL) vp_fail("write to no stream");
	return n;
}
int vp_fputs(const char* t, void* p) { if (p == (void*)stderr) fputs(t, stderr); else vp_fwrite(t, 1, strlen(t), p); return 1; }
int vp_fputc(int c, void* p) { char x = (char)c; if (p != (void*)stderr) vp_fwrite(&x, 1, 1, p); return c; }
int vp_fflush(void* p) { struct vst* s = p ? S(p) : NULL; return s ? memout(s) : 0; }
long vp_ftello(void* p) { struct vst* s = S(p); return s ? (long)(fl[s->f].n + s->bn) : 0; }
long vp_ftell(void* p) { return vp_ftello(p); }
int vp_ferror(void* p) { struct vst* s = S(p); return s ? s->err : 0; }
int vp_putc(int c, void* p) { return vp_fputc(c, p); }
size_t vp_fread(void* d, size_t sz, size_t n, void* p)
{
	if (p != (void*)stdin) { vp_unsupported("fread of a file"); return 0; }
	size_t k = vp_fix(sz * n);
	if (k > si_n - si_pos) { k = si_n - si_pos; si_eof = 1; }
	if (k) memcpy(d, si + si_pos, k);
	si_pos += k;
	size_t m = 0;
	for (size_t q = sz; q <= k; q += sz) ++m;
	return m;
}
int vp_feof(void* p) { return p == (void*)stdin && si_eof; }
// ---- descriptors
static struct { int used; int f; } fd[NF];
static int mkfd(int f)
{
	for (int i = 0; i < NF; ++i) if (!fd[i].used) { fd[i].used = 1; fd[i].f = f; ++nopen; return 100 + i; }
	vp_unsupported("too many descriptors");
	return -1;
}
static int F(int d)
{
	if (d < 100 || d >= 100 + NF || !fd[d - 100].used) { vp_fail("use of a closed descriptor"); return 0; }
	return fd[d - 100].f;
}
int vp_open(const char* name, int flags, ...)
{
	if (fails()) { errno = EACCES; return -1; }
	int i = look(name);
	if (i < 0) { errno = ENOENT; return -1; }
	return mkfd(i);
}
int vp_close(int d) { F(d); fd[d - 100].used = 0; --nopen; return 0; }
void* vp_fdopen(int d, const char* mode) { if (d == -1) { errno = EBADF; return NULL; } int f = F(d); fd[d - 100].used = 0; --nopen; return mkst(f); }
int vp_fstat(int d, struct stat* sb) { int f = F(d); memset(sb, 0, sizeof(*sb)); sb->st_size = fl[f].n; return 0; }
int vp_fsync(int d) { F(d); return 0; }
static int tmpno;
int vp_mkstemp(char* t)
{
	size_t n = strlen(t);
	if (fails()) { errno = EACCES; return -1; }
	if (n < 6 || strcmp(t + n - 6, "XXXXXX")) { errno = EINVAL; return -1; }
	if (nodir(t)) { errno = ENOENT; return -1; }
	memcpy(t + n - 6, "tmp00", 5);
	t[n - 1] = 'a' + tmpno++;
	return mkfd(mk(t));
}
void* vp_mmap(void* a, size_t n, int prot, int fl_, int d, long off)
{
	int f = F(d);
	if (n == 0) { errno = EINVAL; return (void*)-1; }
	if (off != 0 || n > fl[f].n) vp_unsupported("mapping other than the whole file");
	char* p = malloc(n);
	memcpy(p, fl[f].d, n);
	++nopen;
	return p;
}
int vp_munmap(void* p, size_t n) { if (!p) { vp_fail("unmapping nothing"); return -1; } if (n) { free(p); --nopen; } return 0; }
int vp_madvise(void* p, size_t n, int a) { return 0; }
// ---- names
static void del(int i) { fl[i].live = 0; }
int vp_remove(const char* name)
{
	int i = look(name);
	if (i < 0) { errno = ENOENT; return -1; }
	del(i);
	return 0;
}
int vp_unlink(const char* name) { return vp_remove(name); }
int vp_rename(const char* a, const char* b)
{
	if (fails()) { errno = EACCES; return -1; }
	int i = look(a), j = look(b);
	if (i < 0) { errno = ENOENT; return -1; }
	if (i == j) return 0;
	if (j >= 0) del(j);
	strcpy(fl[i].name, nrm(b));
	return 0;
}
int vp_access(const char* name, int m) { if (look(name) < 0) { errno = ENOENT; return -1; } return 0; }
int vp_chmod(const char* name, unsigned m) { return vp_access(name, 0); }
char* vp_realpath(const char* name, char* r)
{
	if (look(name) < 0) { errno = ENOENT; return NULL; }
	if (!r) r = malloc(PATH_MAX);
	strcpy(r, "/v/");
	strcpy(r + 3, nrm(name));
	return r;
}
// directories exist when a file lies in them; "." always does
static struct { int i; char d[64]; struct dirent e; int used; } dir;
static int inside(const char* d, const char* name, const char** base)
{
	const char* q = strrchr(name, '/');
	*base = q ? q + 1 : name;
	if (!q) return strcmp(d, ".") == 0;
	return strlen(d) == (size_t)(q - name) && strncmp(d, name, q - name) == 0;
}
void* vp_opendir(const char* d)
{
	const char* b;
	if (strcmp(d, ".")) d = nrm(d);
	if (!*d) d = ".";
	int any = strcmp(d, ".") == 0;
	for (int i = 0; i < NF; ++i) if (fl[i].live && inside(d, fl[i].name, &b)) any = 1;
	if (!any) { errno = ENOENT; return NULL; }
	if (dir.used) vp_unsupported("two directories open");
	if (strlen(d) >= sizeof(dir.d)) vp_unsupported("long directory name");
	strcpy(dir.d, d);
	dir.i = -2;
	dir.used = 1;
	++nopen;
	return &dir;
}
struct dirent* vp_readdir(void* p)
{
	const char* b;
	if (dir.i < 0) { strcpy(dir.e.d_name, dir.i == -2 ? "." : ".."); ++dir.i; return &dir.e; }
	for (; dir.i < NF; ++dir.i) if (fl[dir.i].live && inside(dir.d, fl[dir.i].name, &b)) { strcpy(dir.e.d_name, b); ++dir.i; return &dir.e; }
	return NULL;
}
static const char* ev[4][2];
void vfs_setenv(const char* name, const char* value)
{
	for (int i = 0; i < 4; ++i) if (!ev[i][0] || !strcmp(ev[i][0], name)) { ev[i][0] = name; ev[i][1] = value; return; }
}
char* vp_getenv(const char* name)
{
	for (int i = 0; i < 4; ++i) if (ev[i][0] && !strcmp(ev[i][0], name)) return (char*)ev[i][1];
	return NULL;
}
int vp_closedir(void* p) { dir.used = 0; --nopen; return 0; }

// ---- the CSV library.  Fields are separated by the (possibly multi-byte) delimiter, records by \n or \r\n; no quoting.
struct rd { char* d; size_t n, pos; char delim[32]; int open; };   // reads standard input when no file is open
struct csv_reader* csv_reader_new(void)
{
	struct csv_reader* r = calloc(1, sizeof(*r));
	struct rd* i = calloc(1, sizeof(*i));
	r->quotes = QUOTE_RFC4180;
	r->_in = i;
	return r;
}
int csv_reader_close(struct csv_reader* r)
{
	struct rd* i = r->_in;
	if (i->open) { free(i->d); i->d = NULL; i->open = 0; --nopen; }
	return CSV_GOOD;
}
void csv_reader_free(struct csv_reader* r) { csv_reader_close(r); free(r->_in); free(r); }
int csv_reader_open(struct csv_reader* r, const char* name)
{
	struct rd* i = r->_in;
	int f = look(name);
	if (i->open || f < 0) return CSV_FAIL;
	i->d = malloc(fl[f].n + 1);
	memcpy(i->d, fl[f].d, fl[f].n);
	i->n = fl[f].n;
	i->pos = 0;
	i->open = 1;
	++nopen;
	return CSV_GOOD;
}
int csv_reader_open_mmap(struct csv_reader* r, const char* name) { r->offset = 0; return csv_reader_open(r, name); }
int csv_reader_seek(struct csv_reader* r, size_t off) { struct rd* i = r->_in; i->pos = off; r->offset = off; return CSV_GOOD; }
int csv_reader_reset(struct csv_reader* r) { struct rd* i = r->_in; i->pos = 0; r->offset = 0; return CSV_GOOD; }
void csv_reader_set_delim(struct csv_reader* r, const char* d) { struct rd* i = r->_in; if (strlen(d) < 32) { strcpy(i->delim, d); strcpy(r->delim, d); } }
const char* csv_reader_get_delim(struct csv_reader* r) { struct rd* i = r->_in; return i->delim; }
size_t csv_reader_get_file_size(const struct csv_reader* r) { struct rd* i = r->_in; return i->n; }
struct csv_record* csv_record_new(void) { return calloc(1, sizeof(struct csv_record)); }
static void clr(struct csv_record* c) { free((void*)c->rec); free(c->fields); c->rec = NULL; c->fields = NULL; c->size = 0; c->reclen = 0; }
void csv_record_free(struct csv_record* c) { clr(c); free(c); }
static int pred_nl(const char* d, size_t p, size_t n) { return d[p] == '\n' || (d[p] == '\r' && p + 1 < n && d[p + 1] == '\n'); }
int vfs_quotes;   // set by a harness whose files hold quoted fields
static int split(struct csv_record* c, const char* d, size_t k, const char* delim, int lim, int trim, int quotes)
{
	clr(c);
	char* b = malloc(k + 1);
	memcpy(b, d, k);
	b[k] = 0;
	c->rec = b;
	c->reclen = k;
	size_t dl = strlen(delim);
	int nf = 1;
	for (size_t p = 0; p + dl <= k;) { if (memcmp(b + p, delim, dl) == 0) { ++nf; p += dl; } else ++p; }
	c->fields = calloc(nf, sizeof(*c->fields));
	size_t p = 0, s = 0;
	int f = 0;
	for (;;) {
		int at = p + dl <= k && memcmp(b + p, delim, dl) == 0;
		if (at || p == k) {
			size_t s2 = s, e2 = p;
			if (trim) { while (s2 < e2 && b[s2] == ' ') ++s2; while (e2 > s2 && b[e2 - 1] == ' ') --e2; }
			if (vfs_quotes && quotes != QUOTE_NONE && e2 > s2 + 1 && b[s2] == '"' && b[e2 - 1] == '"') { ++s2; --e2; }
			if (f < lim) { c->fields[f].data = b + s2; c->fields[f].len = (unsigned)(e2 - s2); ++f; }
			if (p == k) break;
			p += dl;
			s = p;
		} else ++p;
	}
	c->size = f;
	return CSV_GOOD;
}
int csv_get_record_to(struct csv_reader* r, struct csv_record* c, unsigned lim)
{
	struct rd* i = r->_in;
	if (!i->open) {
		if (!si) return EOF;
		struct rd in = {(char*)si, si_n, si_pos, "", 1};
		strcpy(in.delim, i->delim);
		r->_in = &in;
		int rc = csv_get_record_to(r, c, lim);
		r->_in = i;
		si_pos = in.pos;
		strcpy(i->delim, in.delim);
		return rc;
	}
	if (i->pos >= i->n) { c->size = 0; return EOF; }
	size_t e = i->pos;
	while (e < i->n && !pred_nl(i->d, e, i->n)) ++e;
	if (!i->delim[0]) {   // found from the first record: the most frequent of , | tab ; or ,
		static const char cand[] = ",|\t;:";
		int best = 0, bn = -1;
		for (int x = 0; cand[x]; ++x) {
			int n = 0;
			for (size_t p = i->pos; p < e; ++p) n += i->d[p] == cand[x];
			if (n > bn) { bn = n; best = x; }
		}
		i->delim[0] = r->delim[0] = cand[best];
		i->delim[1] = r->delim[1] = 0;
	}
	split(c, i->d + i->pos, e - i->pos, i->delim, lim > INT_MAX ? INT_MAX : (int)lim, r->trim, r->quotes);
	if (e < i->n) e += i->d[e] == '\r' ? 2 : 1;
	i->pos = e;
	r->offset = e;
	return CSV_GOOD;
}
int csv_get_record(struct csv_reader* r, struct csv_record* c) { return csv_get_record_to(r, c, INT_MAX); }
int csv_nparse(struct csv_reader* r, struct csv_record* c, const char* d, size_t n) { struct rd* i = r->_in; return split(c, d, n, i->delim[0] ? i->delim : ",", INT_MAX, r->trim, r->quotes); }

struct wr { FILE* f; char delim[32]; char term[8]; char name[64]; char tmp[64]; int detached, set; };
struct csv_writer* csv_writer_new(void)
{
	struct csv_writer* w = calloc(1, sizeof(*w));
	struct wr* i = calloc(1, sizeof(*i));
	w->quotes = QUOTE_RFC4180;
	strcpy(i->delim, ",");
	strcpy(i->term, "\n");
	i->f = stdout;
	w->_in = i;
	return w;
}
void csv_writer_free(struct csv_writer* w)
{
	struct wr* i = w->_in;
	if (i->f && i->f != stdout) vp_fclose(i->f);
	if (i->tmp[0] && !i->detached) vp_remove(i->tmp);
	free(i);
	free(w);
}
int csv_writer_isopen(struct csv_writer* w) { struct wr* i = w->_in; return i->f && i->f != stdout; }
int csv_writer_mktmp(struct csv_writer* w)
{
	struct wr* i = w->_in;
	const char* q = strrchr(i->name, '/');
	size_t k = q ? (size_t)(q - i->name) + 1 : 0;
	memcpy(i->tmp, i->name, k);
	strcpy(i->tmp + k, "csv_XXXXXX");
	int d = vp_mkstemp(i->tmp);
	if (d < 0) { i->tmp[0] = 0; return CSV_FAIL; }
	i->f = vp_fdopen(d, "w");
	return CSV_GOOD;
}
int csv_writer_open(struct csv_writer* w, const char* name)
{
	struct wr* i = w->_in;
	if (csv_writer_isopen(w) || strlen(name) >= sizeof(i->name)) return CSV_FAIL;
	strcpy(i->name, name);
	i->detached = 0;
	return csv_writer_mktmp(w);
}
int csv_writer_close(struct csv_writer* w)
{
	struct wr* i = w->_in;
	if (!i->f || i->f == stdout) return CSV_GOOD;
	int bad = vp_fclose(i->f);
	i->f = stdout;
	if (bad) return CSV_FAIL;
	if (i->detached) { i->detached = 0; i->tmp[0] = 0; return CSV_GOOD; }
	if (!i->name[0]) return CSV_FAIL;
	int rc = vp_rename(i->tmp, i->name);
	if (!rc) i->tmp[0] = 0;
	return rc ? CSV_FAIL : CSV_GOOD;
}
char* csv_writer_detach_filename(struct csv_writer* w)
{
	struct wr* i = w->_in;
	i->detached = 1;
	if (!i->name[0]) return NULL;
	char* r = strdup(i->name);
	i->name[0] = 0;
	return r;
}
char* csv_writer_export_tmp(struct csv_writer* w)
{
	struct wr* i = w->_in;
	i->detached = 1;
	return i->tmp[0] ? strdup(i->tmp) : NULL;
}
void csv_writer_set_delim(struct csv_writer* w, const char* d) { struct wr* i = w->_in; if (strlen(d) < 32) strcpy(i->delim, d); }
void csv_writer_set_line_ending(struct csv_writer* w, const char* d) { struct wr* i = w->_in; if (strlen(d) < 8) strcpy(i->term, d); }
void csv_writer_set_file(struct csv_writer* w, FILE* f) { struct wr* i = w->_in; i->f = f; }
FILE* csv_writer_get_file(struct csv_writer* w) { struct wr* i = w->_in; return i->f; }
struct csv_field csv_writer_get_delim_field(struct csv_writer* w) { struct wr* i = w->_in; struct csv_field f = {i->delim, (unsigned)strlen(i->delim)}; return f; }
struct csv_field csv_writer_get_terminator_field(struct csv_writer* w) { struct wr* i = w->_in; struct csv_field f = {i->term, (unsigned)strlen(i->term)}; return f; }
int csv_write_field(struct csv_writer* w, const struct csv_field* f)
{
	struct wr* i = w->_in;
	int q = w->quotes == QUOTE_ALL;
	if (q) vp_fwrite("\"", 1, 1, i->f);
	vp_fwrite(f->data, 1, f->len, i->f);
	if (q) vp_fwrite("\"", 1, 1, i->f);
	return (int)f->len + 2 * q;
}
void csv_perror(void) {}
