// Stand-in for libpcre2 under the symbolic executor: matches a concrete expression against symbolic
// text without forking. The native build (VP_NATIVE) links the real library, so replayed samples
// compare the two. Covers the part of the syntax a LIKE translation can need; anything else stops the check.
#ifndef VP_PCRE_H
#define VP_PCRE_H
#ifndef PCRE2_CODE_UNIT_WIDTH
#define PCRE2_CODE_UNIT_WIDTH 8
#endif
#include "vp.h"
#include <pcre2.h>
#include <stdlib.h>
#include <string.h>
#ifndef VP_NATIVE
#define RX_MAX 48
struct rx_atom { unsigned char in[256]; int many, opt; };
struct pcre2_real_code_8 { struct rx_atom* a; int n, bol, eol; };
struct pcre2_real_match_data_8 { int dummy; };
static struct rx_atom* rx_add(pcre2_code* c)
{
	if (c->n >= RX_MAX) vp_unsupported("pcre: expression too long");
	struct rx_atom* a = &c->a[c->n++];
	memset(a, 0, sizeof(*a));
	return a;
}
static void rx_range(struct rx_atom* a, int lo, int hi) { for (int i = lo; i <= hi; ++i) a->in[i] = 1; }
static void rx_esc(struct rx_atom* a, int c)
{
	int neg = c == 'D' || c == 'W' || c == 'S';
	if (c == 'd' || c == 'D') rx_range(a, '0', '9');
	else if (c == 'w' || c == 'W') { rx_range(a, '0', '9'); rx_range(a, 'a', 'z'); rx_range(a, 'A', 'Z'); a->in['_'] = 1; }
	else if (c == 's' || c == 'S') { rx_range(a, 9, 13); a->in[' '] = 1; }
	else if (c == 'n') a->in['\n'] = 1;
	else if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) vp_unsupported("pcre: escape");
	else a->in[c] = 1;
	if (neg) for (int i = 0; i < 256; ++i) a->in[i] = !a->in[i];
}
static void rx_fold(struct rx_atom* a)
{
	for (int i = 'a'; i <= 'z'; ++i) a->in[i] = a->in[i - 32] = a->in[i] | a->in[i - 32];
}
static const char* rx_err(int* code, PCRE2_SIZE* off) { *code = 101; *off = 0; return NULL; }
pcre2_code* pcre2_compile_8(PCRE2_SPTR s, PCRE2_SIZE len, uint32_t opt, int* ec, PCRE2_SIZE* eo, pcre2_compile_context* ctx)
{
	if (len == PCRE2_ZERO_TERMINATED) len = strlen((const char*)s);
	if (opt & ~(uint32_t)(PCRE2_CASELESS | PCRE2_DOTALL | PCRE2_DOLLAR_ENDONLY | PCRE2_ANCHORED | PCRE2_ENDANCHORED | PCRE2_NO_AUTO_CAPTURE)) vp_unsupported("pcre: option");
	pcre2_code* c = calloc(1, sizeof(*c));
	c->a = calloc(RX_MAX, sizeof(*c->a));
	int fail = 0, rep = 0, quote = 0; // rep: the last item can be repeated
	PCRE2_SIZE i = 0;
	int caseless = !!(opt & PCRE2_CASELESS), dotall = !!(opt & PCRE2_DOTALL);
	c->bol = !!(opt & PCRE2_ANCHORED);
	c->eol = opt & PCRE2_ENDANCHORED ? 2 : 0;
	while (i < len && !fail) {
		int ch = s[i++];
		if (quote) {
			if (ch == '\\' && i < len && s[i] == 'E') { quote = 0; ++i; continue; }
			struct rx_atom* a = rx_add(c);
			a->in[ch] = 1;
			if (caseless) rx_fold(a);
			rep = 1;
			continue;
		}
		if (c->eol == 1 || c->eol == 2) if (!(opt & PCRE2_ENDANCHORED)) vp_unsupported("pcre: text after $");
		switch (ch) {
		case '^': if (c->n) vp_unsupported("pcre: ^ inside"); c->bol = 1; rep = 0; break;
		case '$': if (c->eol != 2) c->eol = opt & PCRE2_DOLLAR_ENDONLY ? 2 : 1; rep = 0; break;
		case '.': { struct rx_atom* a = rx_add(c); rx_range(a, 0, 255); if (!dotall) a->in['\n'] = 0; rep = 1; break; }
		case '*': case '+': case '?':
			if (!rep) { fail = 1; break; }
			if (ch == '+') {
				struct rx_atom* a = rx_add(c);
				memcpy(a, &c->a[c->n - 2], sizeof(*a));
			}
			c->a[c->n - 1].opt = 1;
			c->a[c->n - 1].many = ch != '?';
			rep = 0;
			if (i < len && s[i] == '?') ++i;
			else if (i < len && s[i] == '+') vp_unsupported("pcre: possessive");
			break;
		case '(':
			if (i + 2 < len && s[i] == '?' && s[i + 1] == '!' && s[i + 2] == ')') { rx_add(c); i += 3; rep = 0; break; }
			if (i + 2 < len && s[i] == '?' && s[i + 1] == 's' && s[i + 2] == ')') { dotall = 1; i += 3; rep = 0; break; }
			if (i + 2 < len && s[i] == '?' && s[i + 1] == 'i' && s[i + 2] == ')') { caseless = 1; i += 3; rep = 0; break; }
			vp_unsupported("pcre: group");
			break;
		case ')': fail = 1; break;
		case '|': vp_unsupported("pcre: alternatives"); break;
		case '{':
			if (i < len && s[i] >= '0' && s[i] <= '9') vp_unsupported("pcre: counted repeat");
			goto literal;
		case '[': {
			struct rx_atom* a = rx_add(c);
			int neg = i < len && s[i] == '^', first = 1, prev = -1;
			i += neg;
			for (;; first = 0) {
				if (i >= len) { fail = 1; break; }
				int d = s[i++];
				if (d == ']' && !first) break;
				if (d == '[' && i < len && (s[i] == ':' || s[i] == '.' || s[i] == '=')) {
					for (PCRE2_SIZE k = i + 1; k + 1 < len && s[k] != ']'; ++k) if (s[k] == s[i] && s[k + 1] == ']') vp_unsupported("pcre: POSIX class");
				}
				if (d == '-' && prev >= 0 && i < len && s[i] != ']') {
					int e = s[i++];
					if (e == '\\') {
						if (i >= len) { fail = 1; break; }
						e = s[i++];
						if ((e >= '0' && e <= '9') || (e >= 'a' && e <= 'z') || (e >= 'A' && e <= 'Z')) vp_unsupported("pcre: escape in range");
					}
					if (e < prev) { fail = 1; break; }
					rx_range(a, prev, e);
					prev = -1;
					continue;
				}
				if (d == '\\') {
					if (i >= len) { fail = 1; break; }
					d = s[i++];
					rx_esc(a, d);
					prev = (d >= '0' && d <= '9') || (d >= 'a' && d <= 'z') || (d >= 'A' && d <= 'Z') ? -1 : d;
					continue;
				}
				a->in[d] = 1;
				prev = d;
			}
			if (caseless) rx_fold(a);
			if (neg) for (int k = 0; k < 256; ++k) a->in[k] = !a->in[k];
			rep = 1;
			break;
		}
		case '\\': {
			if (i >= len) { fail = 1; break; }
			int d = s[i++];
			if (d == 'A') { if (c->n) vp_unsupported("pcre: \\A inside"); c->bol = 1; rep = 0; break; }
			if (d == 'z' || d == 'Z') { c->eol = d == 'z' ? 2 : 1; rep = 0; break; }
			if (d == 'Q') { quote = 1; break; }
			struct rx_atom* a = rx_add(c);
			rx_esc(a, d);
			if (caseless && !(d == 'W' || d == 'S' || d == 'D')) rx_fold(a);
			rep = 1;
			break;
		}
		default: literal: {
			struct rx_atom* a = rx_add(c);
			a->in[ch] = 1;
			if (caseless) rx_fold(a);
			rep = 1;
		}
		}
	}
	if (fail) { free(c->a); free(c); rx_err(ec, eo); return NULL; }
	return c;
}
void pcre2_code_free_8(pcre2_code* c) { if (c) { free(c->a); free(c); } }
int pcre2_jit_compile_8(pcre2_code* c, uint32_t o) { return 0; }
pcre2_match_data* pcre2_match_data_create_from_pattern_8(const pcre2_code* c, pcre2_general_context* g) { return calloc(1, sizeof(pcre2_match_data)); }
pcre2_match_data* pcre2_match_data_create_8(uint32_t n, pcre2_general_context* g) { return calloc(1, sizeof(pcre2_match_data)); }
void pcre2_match_data_free_8(pcre2_match_data* m) { free(m); }
int pcre2_get_error_message_8(int e, PCRE2_UCHAR* b, PCRE2_SIZE n) { if (n) b[0] = 0; return 0; }
static int rx_in(const struct rx_atom* a, int b)
{
	int r = 0;
	for (int i = 0; i < 256; ++i) {
		if (!a->in[i]) continue;
		int lo = i;
		while (i < 255 && a->in[i + 1]) ++i;
		r |= lo == 0 && i == 255 ? 1 : lo == i ? b == lo : (b >= lo) & (b <= i);
	}
	return r;
}
int pcre2_match_8(const pcre2_code* c, PCRE2_SPTR s, PCRE2_SIZE len, PCRE2_SIZE start, uint32_t opt, pcre2_match_data* m, pcre2_match_context* ctx)
{
	if (len == PCRE2_ZERO_TERMINATED) len = strlen((const char*)s);
	if (!c) return PCRE2_ERROR_NULL;
	if (start || (opt & ~(uint32_t)(PCRE2_ANCHORED | PCRE2_ENDANCHORED | PCRE2_NO_UTF_CHECK))) vp_unsupported("pcre: match option");
	int bol = c->bol || (opt & PCRE2_ANCHORED), eol = opt & PCRE2_ENDANCHORED ? 2 : c->eol;
	int on[RX_MAX + 1] = {0}, ok = 0;
	for (PCRE2_SIZE p = 0; p <= len; ++p) {
		int nx[RX_MAX + 1] = {0};
		on[0] |= p == 0 || !bol;
		for (int k = 0; k < c->n; ++k) if (c->a[k].opt) on[k + 1] |= on[k];
		if (p == len || eol == 0) ok |= on[c->n];
		else if (eol == 1 && p + 1 == len) ok |= on[c->n] & (s[p] == '\n');
		if (p == len) break;
		int b = s[p];
		for (int k = 0; k < c->n; ++k) {
			int h = on[k] & rx_in(&c->a[k], b);
			nx[c->a[k].many ? k : k + 1] |= h;
		}
		memcpy(on, nx, sizeof(on));
	}
	return vp_sel(ok, 1, PCRE2_ERROR_NOMATCH);
}
#endif
#endif
