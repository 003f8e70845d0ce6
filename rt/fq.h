// Builders for expressions and records, through the public constructors of lib/.
#ifndef FQ_H
#define FQ_H
#include <fql.h>
#include <expression.h>
#include <function.h>
#include <logic.h>
#include <switchcase.h>
#include <aggregate.h>
#include <record.h>
#include <variable.h>
#include <util.h>
#include <node.h>
#include <limits.h>
#include <stdbool.h>
#include <string.h>
static expression* __attribute__((unused)) fq_int(long v)
{
	expression* e = new_(expression, EXPR_CONST, NULL, "");
	e->field_type = FIELD_INT;
	e->field.i = v;
	return e;
}
static expression* __attribute__((unused)) fq_float(double v)
{
	expression* e = new_(expression, EXPR_CONST, NULL, "");
	e->field_type = FIELD_FLOAT;
	e->field.f = v;
	return e;
}
static expression* __attribute__((unused)) fq_str(const char* s, unsigned n)
{
	expression* e = new_(expression, EXPR_CONST, NULL, "");
	string_strncpy(&e->buf, s, n);
	e->field_type = FIELD_STRING;
	e->field.s = &e->buf;
	return e;
}
static expression* __attribute__((unused)) fq_null(void) { return new_(expression, EXPR_NULL, NULL, ""); }
// column idx of source src; src stays owned by the caller
static expression* __attribute__((unused)) fq_source(int src, unsigned idx)
{
	expression* e = new_(expression, EXPR_COLUMN_NAME, "c", "");
	e->field_type = FIELD_STRING;
	e->src_idx = src;
	e->index = idx;
	return e;
}
static expression* __attribute__((unused)) fq_col(expression* source)
{
	expression* e = new_(expression, EXPR_COLUMN_NAME, "c", "");
	expression_link(e, source, NULL);
	return e;
}
static record* __attribute__((unused)) fq_rec(int src)
{
	record* r = new_(record, 0);
	r->src_idx = src;
	return r;
}
// n bytes in a block of exactly n bytes: reading past them is an error
static void __attribute__((unused)) fq_field(record* r, const char* s, unsigned n)
{
	char* p = malloc(n ? n : 1);
	if (n) memcpy(p, s, n);
	else p = p + 1;
	stringview sv = {p, n};
	vec_push_back(&r->fields, &sv);
}
static function* __attribute__((unused)) fq_fn(enum scalar_function t, enum field_type* ft, int bytes)
{
	return new_(function, t, ft, bytes);
}
// an expression that calls the operator on the arguments; NULL when the types do not fit
static expression* __attribute__((unused)) fq_op(enum scalar_function t, expression* a, expression* b)
{
	enum field_type ft = FIELD_UNDEFINED;
	function* f = new_(function, t, &ft, 0);
	function_add_expression(f, a);
	if (b) function_add_expression(f, b);
	expression* e = new_(expression, EXPR_FUNCTION, f, "");
	int rc = function_op_resolve(f, &ft);
	e->field_type = ft;
	if (rc != FQL_GOOD) { delete_(expression, e); return NULL; }
	return e;
}
static expression* __attribute__((unused)) fq_call(enum scalar_function t, int bytes, expression* a, expression* b, expression* c)
{
	enum field_type ft = FIELD_UNDEFINED;
	function* f = new_(function, t, &ft, bytes);
	function_add_expression(f, a);
	if (b) function_add_expression(f, b);
	if (c) function_add_expression(f, c);
	expression* e = new_(expression, EXPR_FUNCTION, f, "");
	e->field_type = ft;
	if (function_validate(f, e) != FQL_GOOD) { delete_(expression, e); return NULL; }
	return e;
}
// condition `a op b`; NULL when refused
static logic* __attribute__((unused)) fq_logic(const char* op, expression* a, expression* b)
{
	logic* l = new_(logic);
	logic_add_expression(l, a);
	if (b) logic_add_expression(l, b);
	logic_set_comparison(l, op);
	if (logic_assign_process(l, NULL) != FQL_GOOD) { delete_(logic, l); return NULL; }
	return l;
}
static int __attribute__((unused)) fq_eval(logic* l, node* rg) { return l->logic__(l, rg); }
// a condition as a predicate of its own
static logicgroup* __attribute__((unused)) fq_pred(logic* l, int neg)
{
	logicgroup* g = new_(logicgroup, LG_PREDICATE);
	g->condition = l;
	g->negation = neg;
	return g;
}
#endif
