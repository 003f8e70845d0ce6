// NULL: a missing row or field, or the literal, makes operators and functions NULL and comparisons unsatisfied.
//@ lib
//@ nolabels
//@ cfg both ops -DM=1
//@ cfg both fns -DM=2
//@ cfg both cmp -DM=3
//@ cfg both isnull -DM=4
//@ cfg both isnullf -DM=5
//@ cfg both nest -DM=6
//@ time 400
//@ bounds every operator and implemented function, every comparison, IS NULL, IN, ISNULL and CASE branch, with NULL (literal, missing row, missing field) at either argument and any value at the other
//@ outside negated comparisons with NULL (two-valued in this code base), aggregates of NULL
#include "vp.h"
#include "fq.h"
static node* rg;
static expression* nul(int how)
{
	switch (how) {
	case 0: return fq_null();
	case 1: return fq_col(fq_source(7, 0)); // no record of source 7: the unmatched side of an outer join
	default: return fq_col(fq_source(0, 3)); // record too short
	}
}
static int get(expression* e, int as)
{
	long i;
	double d;
	stringview sv;
	if (as == 0) return expression_get_int(&i, e, rg);
	if (as == 1) return expression_get_float(&d, e, rg);
	return expression_get_stringview(&sv, e, rg);
}
void harness(void)
{
	record* r = fq_rec(0);
	char s[2] = {vp_byte("c"), vp_byte("c")};
	vp_assume((s[0] != 0) & (s[1] != 0));
	fq_field(r, "5", 1);
	fq_field(r, s, 2);
	node_enqueue(&rg, r);
	int how = vp_fix(vp_range(0, 2, "how"));
	int pos = vp_fix(vp_range(0, 1, "pos"));
	int as = vp_fix(vp_range(0, 2, "as"));
	long k = vp_long("k");
	vp_assume((k > -100) & (k < 100));
	if (M == 1) {
		static const int OPS[] = {SCALAR_OP_PLUS, SCALAR_OP_MINUS, SCALAR_OP_MULTIPY, SCALAR_OP_DIVIDE, SCALAR_OP_MODULE, SCALAR_OP_BIT_OR, SCALAR_OP_BIT_AND, SCALAR_OP_BIT_XOR, SCALAR_OP_UNARY_BIT_NOT, SCALAR_OP_UNARY_MINUS};
		int o = vp_fix(vp_range(0, 9, "op"));
		int fl = vp_fix(vp_range(0, 1, "float"));
		if (o >= 4 && o <= 8 && fl) return;
		expression* other = fl ? fq_float(2.5) : fq_int(k);
		expression* n = nul(how);
		if (o >= 8) n->field_type = fl ? FIELD_FLOAT : FIELD_INT;
		expression* e = fq_op(OPS[o], pos ? other : n, o >= 8 ? NULL : pos ? n : other);
		if (o >= 8 && pos) return;
		CHECK(e != NULL);
		CHECK(get(e, as) == FQL_NULL);
		delete_(expression, e);
	} else if (M == 2) {
		int f = vp_fix(vp_range(0, 8, "fn"));
		expression *n = nul(how), *e = NULL, *tx = fq_str("ab", 2);
		switch (f) {
		case 0: e = fq_call(SCALAR_LEN, 0, n, NULL, NULL); break;
		case 1: e = pos ? fq_call(SCALAR_LEFT, 0, tx, n, NULL) : fq_call(SCALAR_LEFT, 0, n, fq_int(1), NULL); break;
		case 2: e = pos ? fq_call(SCALAR_RIGHT, 0, tx, n, NULL) : fq_call(SCALAR_RIGHT, 0, n, fq_int(1), NULL); break;
		case 3: e = pos ? fq_call(SCALAR_SUBSTRING, 0, tx, n, fq_int(1)) : fq_call(SCALAR_SUBSTRING, 0, n, fq_int(1), fq_int(1)); break;
		case 4: e = pos ? fq_call(SCALAR_REPLACE, 0, tx, n, fq_str("x", 1)) : fq_call(SCALAR_REPLACE, 0, n, tx, fq_str("x", 1)); break;
		case 5: e = pos ? fq_call(SCALAR_SUBSTRING, 0, tx, fq_int(1), n) : fq_call(SCALAR_REPLACE, 0, tx, fq_str("a", 1), n); break;
		case 6: e = fq_call(SCALAR_DATALENGTH, 0, n, NULL, NULL); break;
		default: {
			static const scalar_fn FN[] = {&fql_cast_int, &fql_cast_float, &fql_cast_string, &fql_cast_char, &fql_cast_bit};
			static const int TY[] = {FIELD_INT, FIELD_FLOAT, FIELD_STRING, FIELD_STRING, FIELD_INT};
			int q = vp_fix(vp_range(0, 4, "cast"));
			enum field_type ft = FIELD_UNDEFINED;
			function* fn = new_(function, SCALAR_CAST, &ft, 0);
			fn->call__ = FN[q];
			function_add_expression(fn, n);
			if (q == 3 && pos) function_add_expression(fn, fq_int(4));
			e = new_(expression, EXPR_FUNCTION, fn, "");
			e->field_type = TY[q];
		}
		}
		CHECK(e != NULL);
		CHECK(get(e, as) == FQL_NULL);
	} else if (M == 3) {
		static const char* C[] = {"=", "<>", "!=", ">", ">=", "<", "<="};
		int o = vp_fix(vp_range(0, 7, "cmp"));
		int ty = vp_fix(vp_range(0, 2, "type"));
		expression* other = ty == 0 ? fq_int(k) : ty == 1 ? fq_float(1.5) : fq_col(fq_source(0, 1));
		expression* n = nul(how);
		logic* l;
		if (o < 7) l = pos ? fq_logic(C[o], n, other) : fq_logic(C[o], other, n);
		else {
			l = new_(logic);
			logic_add_expression(l, n);
			l->in_data = new_(inlist);
			logic_add_expression(l, other);
			logic_add_expression(l, nul(as));
			logic_set_comparison(l, "IN");
			CHECK(logic_assign_process(l, NULL) == FQL_GOOD);
		}
		CHECK(l != NULL);
		CHECK(fq_eval(l, rg) == 0);
		CHECK(logicgroup_eval(fq_pred(l, 0), rg, NULL) == 0);
	} else if (M == 4) {
		// IS [NOT] NULL holds exactly for NULL
		expression* v = pos ? nul(how) : how == 0 ? fq_int(k) : how == 1 ? fq_col(fq_source(0, 1)) : fq_op(SCALAR_OP_PLUS, fq_col(fq_source(0, 0)), fq_int(k));
		logic* l = fq_logic("NULL", v, NULL);
		CHECK(l != NULL);
		int neg = vp_fix(vp_range(0, 1, "not"));
		CHECK(logicgroup_eval(fq_pred(l, neg), rg, NULL) == (pos ^ neg));
	} else if (M == 5) {
		// ISNULL(a, b): a when it is not NULL, else b
		long x = -1;
		double d = -1;
		stringview sv;
		expression *a, *b, *e;
		int ty = vp_fix(vp_range(0, 2, "type"));
		if (ty == 0) {
			a = pos ? nul(how) : fq_int(k);
			a->field_type = FIELD_INT;
			b = fq_int(1234);
			e = fq_call(SCALAR_ISNULL, 0, a, b, NULL);
			CHECK(e && expression_get_int(&x, e, rg) == FQL_GOOD);
			CHECKX(x == (pos ? 1234 : k));
		} else if (ty == 1) {
			double y;
			vp_sym(&y, 8, "y");
			vp_assume(y == y);
			a = pos ? nul(how) : fq_float(y);
			a->field_type = FIELD_FLOAT;
			e = fq_call(SCALAR_ISNULL, 0, a, fq_float(7.25), NULL);
			CHECK(e && expression_get_float(&d, e, rg) == FQL_GOOD);
			CHECKX(d == (pos ? 7.25 : y));
		} else {
			e = fq_call(SCALAR_ISNULL, 0, pos ? nul(how) : fq_col(fq_source(0, 1)), fq_str("xyz", 3), NULL);
			CHECK(e && expression_get_stringview(&sv, e, rg) == FQL_GOOD);
			CHECK(sv.len == (pos ? 3 : 2));
			CHECKX((sv.data[0] == (pos ? 'x' : s[0])) & (sv.data[1] == (pos ? 'y' : s[1])));
		}
		// both NULL
		expression* z = nul(as);
		e = fq_call(SCALAR_ISNULL, 0, nul(how), z, NULL);
		CHECK(e && get(e, 2) == FQL_NULL);
	} else {
		// nested: (NULL + a) * b, and as an argument of a function; CASE
		expression* e = fq_op(SCALAR_OP_MULTIPY, fq_op(SCALAR_OP_PLUS, nul(how), fq_int(k)), fq_int(3));
		CHECK(e && get(e, as) == FQL_NULL);
		switchcase* sc = new_(switchcase);
		e = new_(expression, EXPR_SWITCH_CASE, sc, "");
		logic* l = fq_logic("=", fq_int(k), fq_int(5));
		switchcase_add_logicgroup(sc, fq_pred(l, 0));
		switchcase_add_value(sc, pos ? nul(how) : fq_int(9));
		if (pos) switchcase_add_value(sc, fq_int(8));
		CHECK(switchcase_resolve_type(sc, e) == FQL_GOOD);
		int rc = get(e, as);
		// WHEN taken: its value (NULL if pos); otherwise ELSE, and NULL without one
		CHECK(rc == ((k == 5) == (pos == 1) ? FQL_NULL : FQL_GOOD));
	}
}
