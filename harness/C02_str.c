// Growable byte string against a reference; sources are exactly-sized, unterminated blocks where the
// interface takes a length.
//@ cfg both ops -DOPS=2 -DPRE=3 -DSRC=3
//@ cfg thorough ops3 -DOPS=3 -DPRE=2 -DSRC=2
//@ time 300
//@ bounds any string of 0..PRE bytes, then any OPS operations out of push, append (terminated, limited, string, view), assign (terminated, limited, view, string), clear, resize, export; sources of 0..SRC arbitrary bytes (a terminator may occur anywhere)
//@ outside longer strings and histories, allocation failure, formatted printing
#include "vp.h"
#include <stringy.h>
#include <stringview.h>
#include <string.h>
static unsigned char ref[32];
static unsigned n;
static void same(string* s)
{
	CHECK(s->size == n);
	CHECK(string_empty(s) == (n == 0));
	const unsigned char* p = (const unsigned char*)string_c_str(s);
	for (unsigned i = 0; i < n; ++i) CHECKX(p[i] == ref[i]);
	CHECKX(p[n] == 0);
	stringview v = string_get_stringview(s);
	CHECK(v.len == n && v.data == (const char*)p);
}
static char* block(unsigned k)
{
	char* b = malloc(k ? k : 1);
	if (k) vp_sym(b, k, "src");
	return k ? b : b + 1;
}
static void freeblock(char* b, unsigned k) { free(k ? b : b - 1); }
static char* term(unsigned k)
{
	char* b = malloc(k + 1);
	if (k) vp_sym(b, k, "src");
	for (unsigned i = 0; i < k; ++i) vp_assume(b[i] != 0);
	b[k] = 0;
	return b;
}
void harness(void)
{
	long live = vp_live();
	string sb, *s = string_construct(&sb);
	unsigned pre = vp_fix(vp_range(0, PRE, "pre"));
	for (unsigned i = 0; i < pre; ++i) { char c = vp_byte("c"); string_push_back(s, c); ref[n++] = c; }
	same(s);
	for (int op = 0; op < OPS; ++op) {
		int which = vp_range(0, 12, "op");
		unsigned k = vp_fix(vp_range(0, SRC, "k"));
		unsigned m = 0; // length up to a terminator
		char* b;
		switch (which) {
		case 0: { char c = vp_byte("c"); string_push_back(s, c); ref[n++] = c; vp_reach("push"); break; }
		case 1: { b = term(k); CHECK(string_strcat(s, b) == k); memcpy(ref + n, b, k); n += k; free(b); vp_reach("strcat"); break; }
		case 2: { b = block(k); while (m < k && b[m]) ++m; CHECK(string_strncat(s, b, k) == m); memcpy(ref + n, b, m); n += m; freeblock(b, k); vp_reach("strncat"); break; }
		case 3: { b = term(k); CHECK(string_strcpy(s, b) == k); memcpy(ref, b, k); n = k; free(b); vp_reach("strcpy"); break; }
		case 4: { b = block(k); while (m < k && b[m]) ++m; string_strncpy(s, b, k); memcpy(ref, b, m); n = m; freeblock(b, k); vp_reach("strncpy"); break; }
		case 5: { b = block(k); while (m < k && b[m]) ++m; stringview v = {b, k}; string_copy_from_stringview(s, &v); memcpy(ref, b, m); n = m; freeblock(b, k); vp_reach("copy view"); break; }
		case 6: { b = block(k); stringview v = {b, k}; string_append_stringview(s, &v); memcpy(ref + n, b, k); n += k; freeblock(b, k); vp_reach("append view"); break; }
		case 7: { b = term(k); string t; string_construct_from_char_ptr(&t, b); string_copy(s, &t); memcpy(ref, b, k); n = k; CHECK(t.size == k); string_destroy(&t); free(b); vp_reach("copy"); break; }
		case 8: { b = term(k); string* t = string_from_char_ptr(b); string_append(s, t); memcpy(ref + n, b, k); n += k; string_destroy(t); free(t); free(b); vp_reach("append"); break; }
		case 9: string_clear(s); n = 0; vp_reach("clear"); break;
		case 10: { string_resize(s, k); if (k > n) { memset((char*)string_c_str(s) + n, 'x', k - n); memset(ref + n, 'x', k - n); } n = k; vp_reach("resize"); break; }
		case 11: { char* e = string_export(s); for (unsigned i = 0; i < n; ++i) CHECKX((unsigned char)e[i] == ref[i]); CHECKX(e[n] == 0); free(e); n = 0; vp_reach("export"); break; }
		case 12: { string t; string_construct_from_string(&t, s); same(&t); string_destroy(s); *s = t; b = term(k); string* u = string_take(b); CHECK(u->size == k); string_copy(s, u); memcpy(ref, b, k); n = k; string_destroy(u); free(u); vp_reach("take"); break; }
		}
		same(s);
	}
	string_destroy(s);
	CHECK(vp_live() == live);
}
