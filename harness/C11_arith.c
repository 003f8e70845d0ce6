// Integer operators: exact or an error, never wrapped, never a trap.
//@ lib
//@ ub
//@ nolabels
//@ cfg both plus -DOP=SCALAR_OP_PLUS
//@ cfg both minus -DOP=SCALAR_OP_MINUS
//@ cfg both mult_ca -DOP=SCALAR_OP_MULTIPY -DKC=0
//@ cfg both mult_cb -DOP=SCALAR_OP_MULTIPY -DKC=1
//@ cfg both div_ca -DOP=SCALAR_OP_DIVIDE -DKC=0
//@ cfg both div_cb -DOP=SCALAR_OP_DIVIDE -DKC=1
//@ cfg both mod_ca -DOP=SCALAR_OP_MODULE -DKC=0
//@ cfg both mod_cb -DOP=SCALAR_OP_MODULE -DKC=1
//@ cfg both or -DOP=SCALAR_OP_BIT_OR
//@ cfg both and -DOP=SCALAR_OP_BIT_AND
//@ cfg both xor -DOP=SCALAR_OP_BIT_XOR
//@ cfg both not -DOP=SCALAR_OP_UNARY_BIT_NOT
//@ cfg both neg -DOP=SCALAR_OP_UNARY_MINUS
//@ time 300
//@ query 150000
//@ bounds all pairs of 64-bit integers for plus, minus, or, and, xor, not and unary minus; for times, divide and modulo all 64-bit values of one operand against a table of 15 values (extremes, zero, small, powers of two, 100) for the other
//@ outside times, divide and modulo on operands both outside the table
#include "vp.h"
#include "fq.h"
static const long T[] = {0, 1, -1, 2, -2, 3, -3, 10, -10, LONG_MAX, LONG_MIN, LONG_MIN + 1, 1L << 32, 1L << 62, 6};
#define NT (sizeof(T) / sizeof(*T))
#ifndef KC
#define KC 2
#endif
void harness(void)
{
	long a = KC == 0 ? T[vp_fix(vp_range(0, NT - 1, "ka"))] : vp_long("a");
	long b = KC == 1 ? T[vp_fix(vp_range(0, NT - 1, "kb"))] : vp_long("b");
	int unary = OP == SCALAR_OP_UNARY_MINUS || OP == SCALAR_OP_UNARY_BIT_NOT;
	expression* e = fq_op(OP, fq_int(a), unary ? NULL : fq_int(b));
	CHECK(e != NULL && e->field_type == FIELD_INT);
	long x = 0, v = 0;
	int ok = 1;
	switch (OP) {
	case SCALAR_OP_PLUS: ok = !__builtin_saddl_overflow(a, b, &x); break;
	case SCALAR_OP_MINUS: ok = !__builtin_ssubl_overflow(a, b, &x); break;
	case SCALAR_OP_MULTIPY: ok = !__builtin_smull_overflow(a, b, &x); break;
	case SCALAR_OP_DIVIDE: case SCALAR_OP_MODULE:
		ok = !(b == 0) & !((OP == SCALAR_OP_DIVIDE) & (a == LONG_MIN) & (b == -1));
		break;
	case SCALAR_OP_BIT_OR: x = a | b; break;
	case SCALAR_OP_BIT_AND: x = a & b; break;
	case SCALAR_OP_BIT_XOR: x = a ^ b; break;
	case SCALAR_OP_UNARY_BIT_NOT: x = ~a; break;
	case SCALAR_OP_UNARY_MINUS: ok = !__builtin_ssubl_overflow(0, a, &x); break;
	}
	for (int i = 0; i < 2; ++i) {
		int r = expression_get_int(&v, e, NULL);
		CHECKX((r == FQL_GOOD) == ok);
		CHECKX(r == FQL_GOOD || r == FQL_FAIL);
		if (r == FQL_GOOD) {
			if (OP == SCALAR_OP_DIVIDE || OP == SCALAR_OP_MODULE) {
				if (b == -1) x = OP == SCALAR_OP_DIVIDE ? -a : 0;
				else x = OP == SCALAR_OP_DIVIDE ? a / b : a % b;
			}
			CHECKX(v == x);
		}
	}
	delete_(expression, e);
}
