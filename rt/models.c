// Models of the C library functions the code under test calls, executed symbolically together with it.
// Written against the C standard / glibc documentation; each is cross-checked against the real library
// because sampled paths are replayed natively (traces_validated_against_impl).
#include <stddef.h>
#include <stdarg.h>
#include <errno.h>
#include <limits.h>
#include "vp.h"
#define W __attribute__((weak))
typedef unsigned char uc;
void* malloc(size_t);
void free(void*);
void* memcpy(void* restrict, const void* restrict, size_t);
void* memset(void*, int, size_t);

static int my_errno;
W int* __errno_location(void) { return &my_errno; }

// ---- ctype ("C" locale), branch free
#define B(c) ((long)(c))
W int isspace(int c) { return ((unsigned)c - 9u < 5u) | (c == ' '); }
W int isdigit(int c) { return (unsigned)c - '0' < 10u; }
W int isupper(int c) { return (unsigned)c - 'A' < 26u; }
W int islower(int c) { return (unsigned)c - 'a' < 26u; }
W int isalpha(int c) { return ((unsigned)c | 32u) - 'a' < 26u; }
W int isalnum(int c) { return isalpha(c) | isdigit(c); }
W int isprint(int c) { return (unsigned)c - 32u < 95u; }
W int ispunct(int c) { return isprint(c) & !isalnum(c) & (c != ' '); }
W int isxdigit(int c) { return isdigit(c) | (((unsigned)c | 32u) - 'a' < 6u); }
W int iscntrl(int c) { return ((unsigned)c < 32u) | (c == 127); }
W int isgraph(int c) { return (unsigned)c - 33u < 94u; }
W int isblank(int c) { return (c == 32) | (c == 9); }
W int tolower(int c) { return c + 32 * ((unsigned)c - 'A' < 26u); }
W int toupper(int c) { return c - 32 * ((unsigned)c - 'a' < 26u); }

// ---- strings
W size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
W size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
W int memcmp(const void* a, const void* b, size_t n)
{
	const uc *p = a, *q = b;
	long r = 0;
	n = vp_fix(n);
	for (size_t i = n; i-- > 0;) r = vp_sel(p[i] != q[i], (long)p[i] - (long)q[i], r);
	return (int)r;
}
W int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
W int strcmp(const char* a, const char* b)
{
	for (;; ++a, ++b) {
		if (*a != *b) return (int)(uc)*a - (int)(uc)*b;
		if (!*a) return 0;
	}
}
W int strncmp(const char* a, const char* b, size_t n)
{
	for (; n > 0; --n, ++a, ++b) {
		if (*a != *b) return (int)(uc)*a - (int)(uc)*b;
		if (!*a) return 0;
	}
	return 0;
}
W int strcasecmp(const char* a, const char* b)
{
	for (;; ++a, ++b) {
		int x = tolower((uc)*a), y = tolower((uc)*b);
		if (x != y) return x - y;
		if (!x) return 0;
	}
}
W int strncasecmp(const char* a, const char* b, size_t n)
{
	for (; n > 0; --n, ++a, ++b) {
		int x = tolower((uc)*a), y = tolower((uc)*b);
		if (x != y) return x - y;
		if (!x) return 0;
	}
	return 0;
}
W char* strchr(const char* s, int c)
{
	for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; }
}
W char* strrchr(const char* s, int c)
{
	char* r = 0;
	for (;; ++s) { if (*s == (char)c) r = (char*)s; if (!*s) return r; }
}
W void* memchr(const void* s, int c, size_t n)
{
	const uc* p = s;
	for (; n > 0; --n, ++p) if (*p == (uc)c) return (void*)p;
	return 0;
}
W char* strstr(const char* h, const char* n)
{
	size_t k = strlen(n);
	for (;; ++h) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return 0; }
}
W char* strcasestr(const char* h, const char* n)
{
	size_t k = strlen(n);
	for (;; ++h) { if (!strncasecmp(h, n, k)) return (char*)h; if (!*h) return 0; }
}
W void* memmem(const void* h, size_t hl, const void* n, size_t nl)
{
	if (nl == 0) return (void*)h;
	for (size_t i = 0; i + nl <= hl; ++i) if (memcmp((const uc*)h + i, n, nl) == 0) return (uc*)h + i;
	return 0;
}
W char* strcpy(char* d, const char* s) { size_t i = 0; while ((d[i] = s[i])) ++i; return d; }
W char* stpcpy(char* d, const char* s) { size_t i = 0; while ((d[i] = s[i])) ++i; return d + i; }
W char* strncpy(char* d, const char* s, size_t n)
{
	size_t i = 0;
	for (; i < n && s[i]; ++i) d[i] = s[i];
	for (; i < n; ++i) d[i] = 0;
	return d;
}
W char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
W char* strncat(char* d, const char* s, size_t n)
{
	size_t k = strlen(d), i = 0;
	for (; i < n && s[i]; ++i) d[k + i] = s[i];
	d[k + i] = 0;
	return d;
}
W char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = malloc(n); memcpy(p, s, n); return p; }
W char* strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
W size_t strcspn(const char* s, const char* r) { size_t n = 0; while (s[n] && !strchr(r, s[n])) ++n; return n; }
W size_t strspn(const char* s, const char* r) { size_t n = 0; while (s[n] && strchr(r, s[n])) ++n; return n; }
W char* strpbrk(const char* s, const char* r) { for (; *s; ++s) if (strchr(r, *s)) return (char*)s; return 0; }

// ---- numbers
W unsigned long strtoul_(const char* s, char** end, int base, int* neg, int* any, int* ovf)
{
	const char* p = s;
	while (isspace((uc)*p)) ++p;
	*neg = 0;
	if (*p == '-') { *neg = 1; ++p; } else if (*p == '+') ++p;
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((uc)p[2])) { p += 2; base = 16; }
	if (base == 0) base = *p == '0' ? 8 : 10;
	unsigned long v = 0;
	*any = 0;
	*ovf = 0;
	for (;; ++p) {
		unsigned c = (uc)*p, d;
		if (isdigit(c)) d = c - '0';
		else if (isalpha(c)) d = (c | 32u) - 'a' + 10;
		else break;
		if (d >= (unsigned)base) break;
		*any = 1;
		unsigned long x, y;
		if (__builtin_umull_overflow(v, base, &x) | __builtin_uaddl_overflow(x, d, &y)) *ovf = 1;
		v = y;
	}
	if (end) *end = (char*)(*any ? p : s);
	return v;
}
W long strtol(const char* s, char** end, int base)
{
	int neg, any, ovf;
	unsigned long v = strtoul_(s, end, base, &neg, &any, &ovf);
	if (!any) return 0;
	if (!neg && (ovf || v > (unsigned long)LONG_MAX)) { *__errno_location() = ERANGE; return LONG_MAX; }
	if (neg && (ovf || v > (unsigned long)LONG_MAX + 1)) { *__errno_location() = ERANGE; return LONG_MIN; }
	return neg ? (long)(0 - v) : (long)v;
}
W long long strtoll(const char* s, char** end, int base) { return strtol(s, end, base); }
W unsigned long strtoul(const char* s, char** end, int base)
{
	int neg, any, ovf;
	unsigned long v = strtoul_(s, end, base, &neg, &any, &ovf);
	if (!any) return 0;
	if (ovf) { *__errno_location() = ERANGE; return ULONG_MAX; }
	return neg ? 0 - v : v;
}
W long __isoc23_strtol(const char* s, char** end, int base) { if (base == 0 || base == 2) vp_unsupported("binary literals"); return strtol(s, end, base); }
W long long __isoc23_strtoll(const char* s, char** end, int base) { return __isoc23_strtol(s, end, base); }
W unsigned long __isoc23_strtoul(const char* s, char** end, int base) { if (base == 0 || base == 2) vp_unsupported("binary literals"); return strtoul(s, end, base); }
W int atoi(const char* s) { return (int)strtol(s, 0, 10); }
W long atol(const char* s) { return strtol(s, 0, 10); }
// exact for up to 15 significant digits and small exponents (both factors then fit a double exactly)
W double strtod(const char* s, char** end)
{
	static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
	const char* p = s;
	while (isspace((uc)*p)) ++p;
	int neg = 0;
	if (*p == '-') { neg = 1; ++p; } else if (*p == '+') ++p;
	if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && (isxdigit((uc)p[2]) || p[2] == '.')) vp_unsupported("hexadecimal floating literal");
	if (((p[0] | 32) == 'i' && (p[1] | 32) == 'n') || ((p[0] | 32) == 'n' && (p[1] | 32) == 'a')) vp_unsupported("inf/nan literal");
	unsigned long m = 0;
	int nd = 0, frac = 0, ex = 0, any = 0;
	for (; isdigit((uc)*p); ++p) { m = m * 10 + (*p - '0'); ++nd; any = 1; }
	if (*p == '.') {
		const char* q = p + 1;
		for (; isdigit((uc)*q); ++q) { m = m * 10 + (*q - '0'); ++nd; ++frac; any = 1; }
		if (any) p = q;
	}
	if (!any) { if (end) *end = (char*)s; return 0.0; }
	if (*p == 'e' || *p == 'E') {
		const char* q = p + 1;
		int en = 0;
		if (*q == '-') { en = 1; ++q; } else if (*q == '+') ++q;
		if (isdigit((uc)*q)) {
			for (; isdigit((uc)*q); ++q) { ex = ex * 10 + (*q - '0'); if (ex > 9999) vp_unsupported("huge exponent"); }
			ex = vp_fix(ex);
			if (en) ex = -ex;
			p = q;
		}
	}
	if (end) *end = (char*)p;
	if (nd > 15) vp_unsupported("floating literal with more than 15 digits");
	ex -= frac;
	double r = (double)(long)m;
	if (ex > 22 || ex < -22) { if (m == 0) r = 0; else vp_unsupported("floating literal with a large exponent"); }
	else if (ex > 0) r = r * p10[ex];
	else if (ex < 0) r = r / p10[-ex];
	return neg ? -r : r;
}
W double atof(const char* s) { return strtod(s, 0); }

// ---- sorting
W void qsort_r(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*, void*), void* arg)
{
	// stable insertion sort: one order the real function may produce for equal elements
	char* b = base;
	char tmp[256];
	if (sz > sizeof(tmp)) vp_unsupported("sort element size");
	for (size_t i = 1; i < n; ++i) {
		size_t j = i;
		memcpy(tmp, b + i * sz, sz);
		while (j > 0 && cmp(b + (j - 1) * sz, tmp, arg) > 0) { memcpy(b + j * sz, b + (j - 1) * sz, sz); --j; }
		memcpy(b + j * sz, tmp, sz);
	}
}
static int (*q_cmp)(const void*, const void*);
static int q_tr(const void* a, const void* b, void* c) { return q_cmp(a, b); }
W void qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*)) { q_cmp = cmp; qsort_r(base, n, sz, q_tr, 0); }

// ---- printf family
struct sink { char* b; size_t cap; size_t n; };
static void put(struct sink* s, char c) { if (s->n + 1 < s->cap) s->b[s->n] = c; ++s->n; }
static void pad(struct sink* s, const char* t, int n, int width, int left, char fill)
{
	if (!left) for (int i = n; i < width; ++i) put(s, fill);
	for (int i = 0; i < n; ++i) put(s, t[i]);
	if (left) for (int i = n; i < width; ++i) put(s, ' ');
}
W int vsnprintf(char* b, size_t cap, const char* f, va_list ap)
{
	struct sink s = {b, cap, 0};
	for (; *f; ++f) {
		if (*f != '%') { put(&s, *f); continue; }
		++f;
		if (*f == '%') { put(&s, '%'); continue; }
		int left = 0, zero = 0, plus = 0, width = 0, prec = -1, lng = 0;
		for (;; ++f) {
			if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ' || *f == '#') vp_unsupported("printf flag"); else break;
		}
		if (*f == '*') { width = va_arg(ap, int); ++f; if (width < 0) { left = 1; width = -width; } }
		else for (; isdigit((uc)*f); ++f) width = width * 10 + (*f - '0');
		if (*f == '.') {
			++f;
			prec = 0;
			if (*f == '*') { prec = va_arg(ap, int); ++f; }
			else for (; isdigit((uc)*f); ++f) prec = prec * 10 + (*f - '0');
		}
		while (*f == 'l' || *f == 'h' || *f == 'z') { if (*f != 'h') lng = 1; ++f; }
		char t[400];
		int n = 0;
		switch (*f) {
		case 'c': t[0] = (char)va_arg(ap, int); pad(&s, t, 1, width, left, ' '); break;
		case 's': {
			const char* p = va_arg(ap, const char*);
			if (!p) p = "(null)";
			size_t k = prec >= 0 ? strnlen(p, prec) : strlen(p);
			pad(&s, p, (int)k, width, left, ' ');
			break;
		}
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': {
			unsigned long v;
			int neg = 0;
			unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : 10;
			if (*f == 'd' || *f == 'i') {
				long x = lng ? va_arg(ap, long) : (long)va_arg(ap, int);
				neg = x < 0;
				v = neg ? 0ul - (unsigned long)x : (unsigned long)x;
			} else v = lng || *f == 'p' ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned);
			char r[32];
			int k = 0;
			do {
				unsigned d = (unsigned)(v % base);
				r[k++] = base == 10 ? '0' + d : (char)vp_sel(d < 10, '0' + d, (*f == 'X' ? 'A' : 'a') - 10 + d);
				v /= base;
			} while (v);
			while (k < prec && k < 32) r[k++] = '0';
			if (*f == 'p') { put(&s, '0'); put(&s, 'x'); }
			if (neg) t[n++] = '-'; else if (plus) t[n++] = '+';
			if (zero && !left && prec < 0) while (n + k < width) t[n++] = '0';
			while (k) t[n++] = r[--k];
			pad(&s, t, n, width, left, ' ');
			break;
		}
		case 'f': case 'g': case 'e': case 'F': case 'G': case 'E':
			n = vp_dtoa(t, sizeof(t), *f, prec, va_arg(ap, double));
			if (zero || plus) vp_unsupported("printf flag on a floating value");
			pad(&s, t, n, width, left, ' ');
			break;
		default: vp_unsupported("printf conversion");
		}
	}
	if (cap) b[s.n < cap ? s.n : cap - 1] = 0;
	return (int)s.n;
}
W int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, 1u << 30, f, ap); }
W int snprintf(char* b, size_t cap, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, cap, f, ap); va_end(ap); return r; }
W int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1u << 30, f, ap); va_end(ap); return r; }
// diagnostics go nowhere
struct _IO_FILE;
static char io_[3];
struct _IO_FILE* W stderr = (void*)&io_[0];
struct _IO_FILE* W stdout = (void*)&io_[1];
struct _IO_FILE* W stdin = (void*)&io_[2];
W int fprintf(void* fp, const char* f, ...) { return 0; }
W int vfprintf(void* fp, const char* f, va_list ap) { return 0; }
W int printf(const char* f, ...) { return 0; }
W int fputs(const char* s, void* fp) { return 0; }
W int fputc(int c, void* fp) { return c; }
W int putc(int c, void* fp) { return c; }
W int puts(const char* s) { return 0; }
W int putchar(int c) { return c; }
W void perror(const char* s) {}
W int fflush(void* fp) { return 0; }
W char* strerror(int e) { return "error"; }
W char* getenv(const char* n) { return 0; }
W char* basename(char* p) { char* q = strrchr(p, '/'); return q ? q + 1 : p; }
W char* __xpg_basename(char* p) { return basename(p); }
W char* dirname(char* p)
{
	static char dot[2] = ".";
	if (!p) return dot;
	char* q = strrchr(p, '/');
	if (!q) return dot;
	if (!q[1]) vp_unsupported("dirname of a name ending in /");
	if (q == p) q[1] = 0;
	else *q = 0;
	return p;
}
W int sigaction(int s, const void* a, void* o) { if (o) memset(o, 0, 152); return 0; }
W long sysconf(int n) { return 8; }
