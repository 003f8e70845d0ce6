// LIKE: the whole text matches the pattern, for constant patterns and for patterns that change from record to record.
//@ lib
//@ pcre
//@ nolabels
//@ cfg both plain -DM=0 -DK=2 -DN=3
//@ cfg both column -DM=1 -DK=2 -DN=3
//@ cfg both set -DM=2 -DN=2
//@ cfg both nset -DM=3 -DN=2
//@ cfg both tail -DM=4 -DN=2
//@ cfg both open -DM=5 -DN=2
//@ cfg both two -DM=6 -DN=3
//@ cfg thorough plain3 -DM=0 -DK=3 -DN=4
//@ cfg thorough column3 -DM=1 -DK=3 -DN=4
//@ time 600
//@ samples 30
//@ bounds every pattern of up to 2 (thorough 3) of 14 characters (wildcards, brackets, caret, hyphen, letters, characters special to regular expressions, newline), sets [xy], [xyz], [^xy] with any of 7 characters inside and a wildcard before or behind, unclosed brackets, two sets in one pattern, against every text of up to 3 (thorough 4) bytes of any value; the second pattern of a record after another first one
//@ outside pcre2 itself (replaced by rt/pcre.h, compared with the real library on sampled paths); patterns longer than 9; ranges between letters of different case; characters of several bytes
#include "vp.h"
#include "fq.h"
#include <process.h>
#include <fqlplan.h>
#include "pcre.h"
#ifndef K
#define K 1
#endif
static int low(int c) { return vp_sel((c >= 'A') & (c <= 'Z'), c + 32, c); }
// does text t[0..n) match pattern p[0..m)?  -1: not a pattern
static int want(const char* p, int m, const unsigned char* t, int n)
{
	int on[8] = {1}, nx[8];
	for (int i = 0; i < m; ++i) {
		int e = -1;
		if (p[i] == '[') for (int k = i + 1; k < m; ++k) if (p[k] == ']') { e = k; break; }
		memset(nx, 0, sizeof(nx));
		if (p[i] == '%') {
			nx[0] = on[0];
			for (int k = 1; k <= n; ++k) nx[k] = nx[k - 1] | on[k];
		} else for (int k = 0; k < n; ++k) {
			int in = 0, c = low(t[k]);
			if (p[i] == '_') in = 1;
			else if (e < 0) in = c == low((unsigned char)p[i]);
			else {
				int neg = p[i + 1] == '^', j = i + 1 + neg;
				while (j < e) {
					if (j + 2 < e && p[j + 1] == '-') {
						int lo = (unsigned char)p[j], hi = (unsigned char)p[j + 2];
						if (lo > hi) return -1;
						// a letter is in the range if either of its cases is
						int up = vp_sel((c >= 'a') & (c <= 'z'), c - 32, c);
						in |= ((c >= lo) & (c <= hi)) | ((up >= lo) & (up <= hi));
						j += 3;
					} else in |= c == low((unsigned char)p[j++]);
				}
				in ^= neg;
			}
			nx[k + 1] = on[k] & in;
		}
		if (e >= 0 && n == 0) { // the range is checked all the same
			int j = i + 1 + (p[i + 1] == '^');
			while (j < e) { if (j + 2 < e && p[j + 1] == '-') { if ((unsigned char)p[j] > (unsigned char)p[j + 2]) return -1; j += 3; } else ++j; }
		}
		memcpy(on, nx, sizeof(on));
		if (e >= 0) i = e;
	}
	return on[n];
}
static char pick(const char* from, const char* name) { return from[vp_fix(vp_range(0, strlen(from) - 1, name))]; }
static const char all[] = "%_[]^-.aB\\*$(\n", inset[] = "ac^-.[%";
static int pattern(char* p)
{
	int n = 0;
	switch (M) {
	case 0: case 1:
		n = vp_fix(vp_range(0, K, "n"));
		for (int i = 0; i < n; ++i) p[i] = pick(all, "p");
		break;
	case 2: case 3: {
		int pre = vp_fix(vp_range(0, 1, "pre")), k = vp_fix(vp_range(0, 3, "k"));
		if (pre) p[n++] = pick("%a", "pc");
		p[n++] = '[';
		if (M == 3) p[n++] = '^';
		for (int i = 0; i < k; ++i) p[n++] = pick(inset, "s");
		p[n++] = ']';
		break;
	}
	case 4: {
		p[n++] = '[';
		p[n++] = pick(inset, "s");
		p[n++] = pick(inset, "s");
		p[n++] = ']';
		p[n++] = pick("%_[]a.-", "t");
		if (vp_fix(vp_range(0, 1, "post"))) p[n++] = pick("%]b", "u");
		break;
	}
	case 5: {
		static const char* const f[] = {"[a", "a[", "]a", "[[]", "[]]", "[", "]", "][", "[^", "[a]]", "[[a]", "[]", "[^]", "a[]", "[[]]", "a]b[", "[a-c", "%[", "[_]", "[%]_", "[a-c-e]", "[\\d]", "[.-0]"};
		const char* s = f[vp_fix(vp_range(0, sizeof(f) / sizeof(*f) - 1, "f"))];
		n = strlen(s);
		memcpy(p, s, n);
		break;
	}
	case 6:
		p[n++] = '[';
		if (vp_fix(vp_range(0, 1, "neg"))) p[n++] = '^';
		p[n++] = pick("ab-", "s");
		p[n++] = ']';
		if (vp_fix(vp_range(0, 1, "mid"))) p[n++] = pick("%_a", "t");
		p[n++] = '[';
		p[n++] = 'b';
		p[n++] = '-';
		p[n++] = pick("bcd", "s");
		p[n++] = ']';
		break;
	}
	return n;
}
void harness(void)
{
	plan pl = {0};
	process* pr = new_(process, "", &pl);
	char p[16];
	unsigned char t[8];
	int m = pattern(p), n = vp_fix(vp_range(0, N, "len"));
	vp_sym(t, N, "t");
	expression* src0 = fq_source(0, 0), *src1 = fq_source(0, 1);
	logic* l = new_(logic);
	logic_add_expression(l, fq_col(src0));
	int first = vp_fix(vp_range(0, 1, "const"));
	logic_add_expression(l, first ? fq_str(p, m) : fq_col(src1));
	l->comp_type = COMP_LIKE;
	int rc = logic_assign_process(l, pr), w = want(p, m, t, n);
	if (first && w < 0) CHECK(rc < 0);
	else {
		CHECK(rc == FQL_GOOD);
		record* r = fq_rec(0);
		fq_field(r, (char*)t, n);
		node* rg = NULL;
		if (!first && M == 1) { // another pattern before
			record* q = fq_rec(0);
			const char* o = vp_fix(vp_range(0, 1, "other")) ? "[ab]_" : "%x";
			fq_field(q, "ay", 2);
			fq_field(q, o, strlen(o));
			node* qg = NULL;
			node_enqueue(&qg, q);
			CHECK(fq_eval(l, qg) == (o[0] == '['));
			fq_field(r, p, m);
		} else fq_field(r, p, m);
		node_enqueue(&rg, r);
		if (w == -1) CHECK(fq_eval(l, rg) == FQL_FAIL);
		else CHECKX(fq_eval(l, rg) == w);
		if (first) CHECKX(fq_eval(l, rg) == w);
	}
	delete_(logic, l);
}
