// REPLACE(text, search, replacement), arguments from columns or constants.
//@ lib
//@ nolabels
//@ cfg both col -DHN=3 -DNN=2 -DRN=2 -DCN=0
//@ cfg both const -DHN=3 -DNN=2 -DRN=2 -DCN=1
//@ cfg thorough col4 -DHN=4 -DNN=2 -DRN=2 -DCN=0
//@ cfg thorough const4 -DHN=4 -DNN=2 -DRN=2 -DCN=1
//@ time 500
//@ bounds texts of up to 3 (thorough 4) letters, search texts of up to 2, replacements of up to 2, over the letters a A b %, each in a block of exactly its length or a constant
//@ outside longer texts, other letters
#include "vp.h"
#include "fq.h"
static const char A[] = "aAb%";
static int mk(char* d, int m, const char* nm)
{
	int n = vp_fix(vp_range(0, m, nm));
	for (int i = 0; i < n; ++i) { int k = vp_range(0, 3, nm); d[i] = A[k]; }
	return n;
}
static int low(int c) { return c == 'A' ? 'a' : c; }
void harness(void)
{
	char h[8], f[4], w[4], x[32];
	int hn = mk(h, HN, "h"), fn = mk(f, NN, "f"), wn = mk(w, RN, "w"), xn = 0;
	record* r = fq_rec(0);
	fq_field(r, h, hn);
	fq_field(r, f, fn);
	fq_field(r, w, wn);
	node* rg = NULL;
	node_enqueue(&rg, r);
	for (int i = 0; i < hn;) {
		int eq = fn > 0 && i + fn <= hn;
		for (int j = 0; eq && j < fn; ++j) eq = low(h[i + j]) == low(f[j]);
		if (eq) { for (int j = 0; j < wn; ++j) x[xn++] = w[j]; i += fn; }
		else x[xn++] = h[i++];
	}
	expression* a = fq_col(fq_source(0, 0));
	expression* b = CN ? fq_str(f, fn) : fq_col(fq_source(0, 1));
	expression* c = CN ? fq_str(w, wn) : fq_col(fq_source(0, 2));
	expression* e = fq_call(SCALAR_REPLACE, 0, a, b, c);
	CHECK(e && e->field_type == FIELD_STRING);
	for (int t = 0; t < 2; ++t) {
		stringview sv;
		CHECK(expression_get_stringview(&sv, e, rg) == FQL_GOOD);
		CHECK(sv.len == xn);
		for (int i = 0; i < xn; ++i) CHECKX(sv.data[i] == x[i]);
	}
	delete_(expression, e);
}
