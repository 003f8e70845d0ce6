// Floating operators and mixed operands.
//@ lib
//@ nolabels
//@ cfg both plus -DOP=SCALAR_OP_PLUS
//@ cfg both minus -DOP=SCALAR_OP_MINUS
//@ cfg both mult -DOP=SCALAR_OP_MULTIPY
//@ cfg both div -DOP=SCALAR_OP_DIVIDE
//@ cfg both neg -DOP=SCALAR_OP_UNARY_MINUS
//@ cfg both mod -DOP=SCALAR_OP_MODULE
//@ cfg both or -DOP=SCALAR_OP_BIT_OR
//@ cfg both text -DTEXT
//@ bounds all pairs of doubles, and all pairs of a 64-bit integer and a double, for plus, minus, times, divide (integers in -3..3) and unary minus; operators without a meaning for floats are refused; texts of up to 2 letters for concatenation, numeric texts 0..99 with integers
//@ outside rounding modes other than to nearest
#include "vp.h"
#include "fq.h"
#ifdef TEXT
#define OP SCALAR_OP_PLUS
#endif
static int same(double a, double b) { return (a == b) | ((a != a) & (b != b)); }
void harness(void)
{
#ifdef TEXT
	char a[4] = {0}, b[4] = {0};
	int n = vp_fix(vp_range(0, 2, "n")), m = vp_fix(vp_range(0, 2, "m"));
	for (int i = 0; i < n; ++i) { a[i] = vp_byte("a"); vp_assume(a[i] != 0); }
	for (int i = 0; i < m; ++i) { b[i] = vp_byte("b"); vp_assume(b[i] != 0); }
	record* r = fq_rec(0);
	fq_field(r, a, n);
	node* rg = NULL;
	node_enqueue(&rg, r);
	// text + text concatenates
	expression* e = fq_op(OP, fq_col(fq_source(0, 0)), fq_str(b, m));
	CHECK(e && e->field_type == FIELD_STRING);
	for (int k = 0; k < 2; ++k) {
		stringview sv;
		CHECK(expression_get_stringview(&sv, e, rg) == FQL_GOOD);
		CHECK(sv.len == n + m);
		for (int i = 0; i < n; ++i) CHECKX(sv.data[i] == a[i]);
		for (int i = 0; i < m; ++i) CHECKX(sv.data[n + i] == b[i]);
	}
	delete_(expression, e);
	// every other operator refuses two texts
	for (int o = SCALAR_OP_MINUS; o <= SCALAR_OP_UNARY_MINUS; ++o) {
		int un = o >= SCALAR_OP_UNARY_BIT_NOT;
		CHECK(fq_op(o, fq_str(a, n), un ? NULL : fq_str(b, m)) == NULL);
	}
	// numeric text with an integer is a sum of integers
	vp_assume(n >= 1);
	long v = 0, w = vp_long("w"), x = 0;
	for (int i = 0; i < n; ++i) { vp_assume((a[i] >= '0') & (a[i] <= '9')); v = v * 10 + a[i] - '0'; }
	vp_assume((w > -1000) & (w < 1000));
	e = fq_op(OP, fq_col(fq_source(0, 0)), fq_int(w));
	CHECK(e && e->field_type == FIELD_INT);
	if (a[0] == '0' && n == 2 && a[1] == 'x') return;
	CHECK(expression_get_int(&x, e, rg) == FQL_GOOD);
	CHECKX(x == v + w);
#else
	int un = OP == SCALAR_OP_UNARY_MINUS;
	double a, b, v = 1, x = 0;
	vp_sym(&a, 8, "a");
	vp_sym(&b, 8, "b");
	long i = OP == SCALAR_OP_DIVIDE ? vp_fix(vp_range(-3, 3, "i")) : vp_long("i");
	for (int k = 0; k < (un ? 1 : 3); ++k) {
		double p = k == 1 ? (double)i : a, q = k == 2 ? (double)i : b;
		expression* e = fq_op(OP, k == 1 ? fq_int(i) : fq_float(a), un ? NULL : k == 2 ? fq_int(i) : fq_float(b));
		if (OP == SCALAR_OP_MODULE || OP == SCALAR_OP_BIT_OR) { CHECK(e == NULL); continue; }
		CHECK(e && e->field_type == FIELD_FLOAT);
		int ok = 1;
		switch (OP) {
		case SCALAR_OP_PLUS: x = p + q; break;
		case SCALAR_OP_MINUS: x = p - q; break;
		case SCALAR_OP_MULTIPY: x = p * q; break;
		case SCALAR_OP_DIVIDE: ok = q != 0; x = p / q; break;
		case SCALAR_OP_UNARY_MINUS: x = -p; break;
		}
		for (int t = 0; t < 2; ++t) {
			int rc = expression_get_float(&v, e, NULL);
			CHECKX(rc == (ok ? FQL_GOOD : FQL_FAIL));
			if (ok) CHECKX(same(v, x));
		}
		delete_(expression, e);
	}
#endif
}
