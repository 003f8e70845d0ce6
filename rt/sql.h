// A front end for the SQL subset the checks use, in place of the ANTLR parser (not installed here): it makes the same
// calls of lib/query.h in the same order as lib/antlr/listenerinterface.cpp does when it walks the parse tree.
#ifndef VP_SQL_H
#define VP_SQL_H
#include <fql.h>
#include <fqlhandle.h>
#include <query.h>
#include <antlr/antlr.h>
#include <node.h>
#include <vec.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <stdio.h>
#include <limits.h>
#include <ctype.h>
#include "vp.h"
#include "vfs.h"
enum sq_tok { T_END, T_ID, T_NUM, T_STR, T_VAR, T_PUN };
static const char* sq_p;
static enum sq_tok sq_t;
static char sq_s[64];
static int sq_br;                     // a bracketed or quoted name: not a keyword
static fqlhandle* sq_fql;
static query* sq_q;
static node* sq_stack;
static int sq_id, sq_fail;
static int sq_enter_blk, sq_exit_blk;
// the walker stops at the first step that fails
#define SQ(x) do { if (!sq_fail && (x)) sq_fail = 1; } while (0)
#define SV(x) do { if (!sq_fail) { x; } } while (0)

static int sq_al(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '#'; }
static int sq_dg(int c) { return c >= '0' && c <= '9'; }
static void sq_next(void)
{
	const char* p = sq_p;
	int n = 0;
	sq_br = 0;
	while (*p == ' ' || *p == '\n') ++p;
	if (!*p) { sq_t = T_END; sq_s[0] = 0; sq_p = p; return; }
	if (*p == '[') {
		for (++p; *p && *p != ']'; ++p) sq_s[n++] = *p;
		++p;
		sq_t = T_ID;
		sq_br = 1;
	} else if (*p == '\'') {
		for (++p; *p; ++p) {
			if (*p == '\'') { if (p[1] != '\'') break; ++p; }
			sq_s[n++] = *p;
		}
		++p;
		sq_t = T_STR;
	} else if (*p == '@' || sq_al(*p)) {
		sq_t = *p == '@' ? T_VAR : T_ID;
		sq_s[n++] = *p++;
		while (sq_al(*p) || sq_dg(*p)) sq_s[n++] = *p++;
	} else if (sq_dg(*p)) {
		while (sq_dg(*p) || *p == '.') sq_s[n++] = *p++;
		sq_t = T_NUM;
	} else {
		sq_t = T_PUN;
		sq_s[n++] = *p++;
		if ((sq_s[0] == '<' || sq_s[0] == '>' || sq_s[0] == '!' || sq_s[0] == '+' || sq_s[0] == '-' || sq_s[0] == '*' || sq_s[0] == '/' || sq_s[0] == '%' || sq_s[0] == '&' || sq_s[0] == '|' || sq_s[0] == '^') && (*p == '=' || (sq_s[0] == '<' && *p == '>'))) sq_s[n++] = *p++;
	}
	sq_s[n] = 0;
	sq_p = p;
}
static int sq_kw(const char* k) { return sq_t == T_ID && !sq_br && strcasecmp(sq_s, k) == 0; }
static int sq_pu(const char* k) { return sq_t == T_PUN && strcmp(sq_s, k) == 0; }
static int sq_acc(const char* k) { if (sq_kw(k) || sq_pu(k)) { sq_next(); return 1; } return 0; }
static void sq_want(const char* k) { if (!sq_fail && !sq_acc(k)) { vp_fail(k); } }

// ---- expressions and conditions: trees first (the listener sees an operator before its operands)
enum sq_k { X_NUM, X_STR, X_VAR, X_NULL, X_COL, X_STAR, X_OP, X_UN, X_FN, X_AGG, X_CAST, X_CASE, X_SUB, X_PAREN, C_AND, C_OR, C_CMP, C_IN, C_LIKE, C_ISNULL };
struct sq_n { enum sq_k k; char s[32], t[16]; int op, neg, nc; struct sq_n* c[16]; const char* pos; };
static struct sq_n* sq_mk(enum sq_k k) { struct sq_n* n = calloc(1, sizeof(*n)); n->k = k; return n; }
static void sq_free(struct sq_n* n) { if (!n) return; for (int i = 0; i < n->nc; ++i) sq_free(n->c[i]); free(n); }
static void sq_add(struct sq_n* n, struct sq_n* c) { n->c[n->nc++] = c; }
static struct sq_n* sq_expr(int lvl);
static struct sq_n* sq_cond(int lvl);
static void sq_save(const char** p) { *p = sq_p; }
static void sq_skip_paren(void)   // just after '(': to just after its ')'
{
	int d = 1;
	while (sq_t != T_END) {
		if (sq_pu("(")) ++d;
		if (sq_pu(")") && --d == 0) { sq_next(); return; }
		sq_next();
	}
}
static int sq_scalar(const char* s)
{
	static const struct { const char* n; enum scalar_function f; } t[] = {{"ABS", SCALAR_ABS}, {"ASCII", SCALAR_ASCII}, {"CEILING", SCALAR_CEILING}, {"CHAR", SCALAR_CHAR}, {"CHARINDEX", SCALAR_CHARINDEX}, {"DATALENGTH", SCALAR_DATALENGTH}, {"FLOOR", SCALAR_FLOOR}, {"ISNUMERIC", SCALAR_ISNUMERIC}, {"ISNULL", SCALAR_ISNULL}, {"LEFT", SCALAR_LEFT}, {"LEN", SCALAR_LEN}, {"LOWER", SCALAR_LOWER}, {"LTRIM", SCALAR_LTRIM}, {"PATINDEX", SCALAR_PATINDEX}, {"REPLACE", SCALAR_REPLACE}, {"RIGHT", SCALAR_RIGHT}, {"ROUND", SCALAR_ROUND}, {"RTRIM", SCALAR_RTRIM}, {"SIGN", SCALAR_SIGN}, {"SPACE", SCALAR_SPACE}, {"SUBSTRING", SCALAR_SUBSTRING}, {"UPPER", SCALAR_UPPER}};
	for (unsigned i = 0; i < sizeof(t) / sizeof(t[0]); ++i) if (!strcasecmp(t[i].n, s)) return t[i].f;
	return -2;
}
static int sq_agg(const char* s)
{
	static const struct { const char* n; enum aggregate_function f; } t[] = {{"AVG", AGG_AVG}, {"COUNT", AGG_COUNT}, {"COUNT_BIG", AGG_COUNT_BIG}, {"MAX", AGG_MAX}, {"MIN", AGG_MIN}, {"SUM", AGG_SUM}};
	for (unsigned i = 0; i < sizeof(t) / sizeof(t[0]); ++i) if (!strcasecmp(t[i].n, s)) return t[i].f;
	return 0;
}
static struct sq_n* sq_prim(void)
{
	struct sq_n* n;
	if (sq_pu("-") || sq_pu("~")) {
		int m = sq_s[0] == '-';
		sq_next();
		if (m && sq_t == T_NUM) { n = sq_mk(X_NUM); n->s[0] = '-'; strcpy(n->s + 1, sq_s); sq_next(); return n; }
		n = sq_mk(X_UN);
		n->op = m ? SCALAR_OP_UNARY_MINUS : SCALAR_OP_UNARY_BIT_NOT;
		sq_add(n, sq_prim());
		return n;
	}
	if (sq_pu("(")) {
		const char* p = sq_p;
		sq_next();
		if (sq_kw("SELECT")) {
			n = sq_mk(X_SUB);
			n->pos = p;
			sq_skip_paren();
			return n;
		}
		n = sq_mk(X_PAREN);
		sq_add(n, sq_expr(0));
		sq_want(")");
		return n;
	}
	if (sq_t == T_NUM || sq_t == T_STR || sq_t == T_VAR) {
		n = sq_mk(sq_t == T_NUM ? X_NUM : sq_t == T_STR ? X_STR : X_VAR);
		strcpy(n->s, sq_s);
		sq_next();
		return n;
	}
	if (sq_kw("NULL")) { sq_next(); return sq_mk(X_NULL); }
	if (sq_kw("CASE")) {
		sq_next();
		n = sq_mk(X_CASE);
		if (!sq_kw("WHEN")) { n->op = 1; sq_add(n, sq_expr(0)); }
		while (sq_acc("WHEN")) {
			sq_add(n, n->op ? sq_expr(0) : sq_cond(0));
			sq_want("THEN");
			sq_add(n, sq_expr(0));
		}
		if (sq_acc("ELSE")) { n->neg = 1; sq_add(n, sq_expr(0)); }
		sq_want("END");
		return n;
	}
	if (sq_t != T_ID) { vp_fail("expression expected"); return NULL; }
	char id[32];
	int br = sq_br;
	strcpy(id, sq_s);
	sq_next();
	if (!br && sq_pu("(")) {
		sq_next();
		if (!strcasecmp(id, "CAST")) {
			n = sq_mk(X_CAST);
			sq_add(n, sq_expr(0));
			sq_want("AS");
			strcpy(n->s, sq_s);
			sq_next();
			if (sq_acc("(")) { strcpy(n->t, sq_s); sq_next(); sq_want(")"); }
			sq_want(")");
			return n;
		}
		int a = sq_agg(id);
		n = sq_mk(a ? X_AGG : X_FN);
		n->op = a ? a : sq_scalar(id);
		if (n->op == -2) vp_fail(id);
		if (sq_acc("*")) { sq_want(")"); return n; }
		if (!sq_acc(")")) {
			do sq_add(n, sq_expr(0)); while (sq_acc(","));
			sq_want(")");
		}
		return n;
	}
	n = sq_mk(X_COL);
	strcpy(n->s, id);
	if (sq_pu(".")) {
		sq_next();
		strcpy(n->t, id);
		strcpy(n->s, sq_s);
		sq_next();
	}
	return n;
}
static int sq_opn(int lvl)
{
	if (sq_t != T_PUN || sq_s[1]) return -1;
	if (lvl == 1) { if (sq_s[0] == '*') return SCALAR_OP_MULTIPY; if (sq_s[0] == '/') return SCALAR_OP_DIVIDE; if (sq_s[0] == '%') return SCALAR_OP_MODULE; }
	else { if (sq_s[0] == '+') return SCALAR_OP_PLUS; if (sq_s[0] == '-') return SCALAR_OP_MINUS; if (sq_s[0] == '&') return SCALAR_OP_BIT_AND; if (sq_s[0] == '|') return SCALAR_OP_BIT_OR; if (sq_s[0] == '^') return SCALAR_OP_BIT_XOR; }
	return -1;
}
static struct sq_n* sq_expr(int lvl)
{
	struct sq_n* a = lvl == 1 ? sq_prim() : sq_expr(1);
	int op;
	while ((op = sq_opn(lvl)) >= 0) {
		struct sq_n* n = sq_mk(X_OP);
		sq_next();
		n->op = op;
		sq_add(n, a);
		sq_add(n, lvl == 1 ? sq_prim() : sq_expr(1));
		a = n;
	}
	return a;
}
static struct sq_n* sq_pred(void)
{
	// a parenthesised condition: told from a parenthesised expression by what follows the closing parenthesis
	if (sq_pu("(")) {
		const char* p = sq_p;
		sq_next();
		int sub = sq_kw("SELECT");
		sq_skip_paren();
		int cond = !sub && (sq_t == T_END || sq_pu(")") || sq_pu(";") || (sq_t == T_ID && !sq_br && !sq_kw("IN") && !sq_kw("NOT") && !sq_kw("LIKE") && !sq_kw("IS")));
		sq_p = p;
		sq_t = T_PUN;
		strcpy(sq_s, "(");
		sq_br = 0;
		if (cond) {
			sq_next();
			struct sq_n* c = sq_cond(0);
			sq_want(")");
			return c;
		}
	}
	struct sq_n* a = sq_expr(0);
	struct sq_n* n;
	int neg = 0;
	if (sq_acc("IS")) {
		n = sq_mk(C_ISNULL);
		n->neg = sq_acc("NOT");
		sq_want("NULL");
		sq_add(n, a);
		return n;
	}
	if (sq_acc("NOT")) neg = 1;
	if (sq_acc("LIKE")) {
		n = sq_mk(C_LIKE);
		n->neg = neg;
		sq_add(n, a);
		sq_add(n, sq_expr(0));
		return n;
	}
	if (sq_acc("IN")) {
		n = sq_mk(C_IN);
		n->neg = neg;
		sq_add(n, a);
		const char* p = sq_p;
		sq_want("(");
		if (sq_kw("SELECT")) { struct sq_n* s = sq_mk(X_SUB); s->pos = p; n->op = 1; sq_add(n, s); sq_skip_paren(); return n; }
		do sq_add(n, sq_expr(0)); while (sq_acc(","));
		sq_want(")");
		return n;
	}
	n = sq_mk(C_CMP);
	strcpy(n->s, sq_s);
	sq_next();
	sq_add(n, a);
	sq_add(n, sq_expr(0));
	return n;
}
static struct sq_n* sq_cond(int lvl)
{
	struct sq_n* a = lvl == 1 ? sq_pred() : sq_cond(1);
	while (sq_acc(lvl == 1 ? "AND" : "OR")) {
		struct sq_n* n = sq_mk(lvl == 1 ? C_AND : C_OR);
		sq_add(n, a);
		sq_add(n, lvl == 1 ? sq_pred() : sq_cond(1));
		a = n;
	}
	return a;
}
static void sq_select(int orderby);
static void sq_emitc(struct sq_n* n);
// a nested SELECT at the recorded position; leaves the popped query
static query* sq_sub(struct sq_n* n, int in_list)
{
	const char* p = sq_p;
	enum sq_tok t = sq_t;
	char s[64];
	int br = sq_br;
	memcpy(s, sq_s, sizeof(s));
	query* sub = query_new(sq_fql, ++sq_id);
	node_push(&sq_stack, sub);
	if (in_list) SV(query_assign_in_subquery(sq_q, sub));
	query* up = sq_q;
	sq_q = sub;
	sq_p = n->pos;
	sq_next();
	sq_select(1);
	sub = node_pop(&sq_stack);
	sq_q = up;
	sq_p = p;
	sq_t = t;
	sq_br = br;
	memcpy(sq_s, s, sizeof(s));
	return sub;
}
static void sq_emit(struct sq_n* n)
{
	int i = 0;
	switch (n->k) {
	case X_NUM: SQ(query_add_constant(sq_q, n->s, strlen(n->s))); break;
	case X_STR: SQ(query_add_constant_string(sq_q, n->s, strlen(n->s))); break;
	case X_VAR: SQ(query_add_variable_expression(sq_q, n->s)); break;
	case X_NULL: SV(query_add_null_expression(sq_q)); break;
	case X_COL: { char c[32]; strcpy(c, n->s); SQ(query_add_expression(sq_q, c, n->t)); break; }
	case X_OP:
	case X_UN: SQ(query_enter_operator(sq_q, n->op)); for (; i < n->nc; ++i) sq_emit(n->c[i]); SV(query_exit_function(sq_q)); break;
	case X_FN: SQ(query_enter_function(sq_q, n->op, sq_fql->props.char_as_byte)); for (; i < n->nc; ++i) sq_emit(n->c[i]); SV(query_exit_function(sq_q)); break;
	case X_CAST:
		SQ(query_enter_function(sq_q, SCALAR_CAST, sq_fql->props.char_as_byte));
		sq_emit(n->c[0]);
		if (n->t[0]) SQ(query_add_constant(sq_q, n->t, strlen(n->t)));
		SQ(query_apply_data_type(sq_q, n->s));
		SV(query_exit_function(sq_q));
		break;
	case X_AGG: SQ(query_enter_aggregate(sq_q, n->op)); for (; i < n->nc; ++i) sq_emit(n->c[i]); SV(query_exit_aggregate(sq_q)); break;
	case X_PAREN: sq_q->in_bracket_expression = true; sq_emit(n->c[0]); sq_q->in_bracket_expression = false; break;
	case X_SUB: {
		sq_q->in_bracket_expression = true;
		query* s = sq_sub(n, 0);
		SV(query_add_subquery_const(sq_q, s));
		sq_q->in_bracket_expression = false;
		break;
	}
	case X_CASE: {
		SQ(query_enter_case_expression(sq_q));
		if (n->op) sq_emit(n->c[i++]);
		for (; i + 1 < n->nc; i += 2) {
			if (n->op) { SQ(query_enter_switch_section(sq_q)); sq_emit(n->c[i]); sq_emit(n->c[i + 1]); SQ(query_exit_switch_section(sq_q)); }
			else { SQ(query_enter_switch_search(sq_q)); sq_emitc(n->c[i]); sq_emit(n->c[i + 1]); SQ(query_exit_switch_search(sq_q)); }
		}
		if (n->neg) sq_emit(n->c[i]);
		SQ(query_exit_case_expression(sq_q));
		break;
	}
	default: vp_fail("expression");
	}
}
static void sq_emitc(struct sq_n* n)
{
	if (sq_q->logic_mode == LOGIC_UNDEFINED) {
		if (sq_q->mode == MODE_IF || sq_q->mode == MODE_WHILE) sq_q->logic_mode = LOGIC_IF;
		else if (sq_q->expect_where && !sq_q->where) sq_q->logic_mode = LOGIC_WHERE;
		else { sq_q->logic_mode = LOGIC_HAVING; if (!sq_q->groupby) sq_fail = 1; }
	}
	switch (n->k) {
	case C_AND:
	case C_OR:
		if (n->k == C_AND) SV(query_enter_search_and(sq_q));
		else SV(query_enter_search_or(sq_q));
		sq_emitc(n->c[0]);
		sq_emitc(n->c[1]);
		SV(query_exit_search_item(sq_q));
		break;
	case C_CMP:
		SV(query_enter_predicate(sq_q, 0, false));
		sq_emit(n->c[0]);
		SV(query_set_logic_comparison(sq_q, n->s));
		sq_emit(n->c[1]);
		SV(query_exit_predicate(sq_q, false, false));
		break;
	case C_LIKE:
		SV(query_enter_predicate(sq_q, n->neg, false));
		sq_emit(n->c[0]);
		sq_emit(n->c[1]);
		SV(query_exit_predicate(sq_q, false, true));
		break;
	case C_ISNULL:
		SV(query_enter_predicate(sq_q, 0, false));
		sq_emit(n->c[0]);
		SV(query_set_logic_isnull(sq_q, n->neg));
		SV(query_exit_predicate(sq_q, false, false));
		break;
	case C_IN:
		SV(query_enter_predicate(sq_q, n->neg, true));
		for (int i = 0; i < n->nc; ++i) {
			if (n->op && i > 0) sq_sub(n->c[i], 1);
			else sq_emit(n->c[i]);
		}
		SV(query_exit_predicate(sq_q, true, false));
		break;
	default: vp_fail("condition");
	}
}
static void sq_condition(void) { struct sq_n* c = sq_cond(0); if (!sq_fail) sq_emitc(c); sq_free(c); }
static void sq_expression(void) { struct sq_n* c = sq_expr(0); if (!sq_fail) sq_emit(c); sq_free(c); }
static int sq_clausekw(void)
{
	static const char* const k[] = {"FROM", "WHERE", "GROUP", "ORDER", "HAVING", "UNION", "INTO", "JOIN", "LEFT", "INNER", "ON", "SET", "ELSE", "END", "SELECT", "UPDATE", "DELETE", "DECLARE", "IF", "WHILE", "BEGIN"};
	for (unsigned i = 0; i < sizeof(k) / sizeof(k[0]); ++i) if (sq_kw(k[i])) return 1;
	return 0;
}
static void sq_source(void)
{
	char alias[32] = "";
	if (sq_pu("(")) {
		struct sq_n n;
		memset(&n, 0, sizeof(n));
		n.pos = sq_p;
		sq_next();
		sq_skip_paren();
		query* s = sq_sub(&n, 0);
		sq_acc("AS");
		if (sq_t == T_ID && !sq_clausekw()) { strcpy(alias, sq_s); sq_next(); }
		SV(query_add_subquery_source(sq_q, s, alias));
		return;
	}
	node* st = NULL;
	int var = sq_t == T_VAR;
	node_push(&st, strdup(sq_s));
	sq_next();
	if (sq_acc(".")) { node_push(&st, strdup(sq_s)); sq_next(); }
	sq_acc("AS");
	if (sq_t == T_ID && !sq_clausekw()) { strcpy(alias, sq_s); sq_next(); }
	SQ(query_add_source(sq_q, &st, alias, var) == FQL_FAIL);
}
static void sq_sources(void)
{
	sq_q->mode = MODE_SOURCES;
	sq_source();
	for (;;) {
		int left = 0;
		if (sq_acc("LEFT")) left = 1;
		else sq_acc("INNER");
		if (!sq_acc("JOIN")) break;
		sq_q->join = left ? JOIN_LEFT : JOIN_INNER;
		sq_q->logic_mode = LOGIC_JOIN;
		sq_source();
		sq_want("ON");
		sq_condition();
		sq_q->logic_mode = LOGIC_UNDEFINED;
	}
	sq_q->mode = MODE_UNDEFINED;
}
// is there a WHERE of this very query before its end?
static int sq_haswhere(void)
{
	const char* p = sq_p;
	enum sq_tok t = sq_t;
	char s[64];
	int br = sq_br, d = 0, r = 0;
	memcpy(s, sq_s, sizeof(s));
	while (sq_t != T_END && !r) {
		if (sq_pu("(")) ++d;
		if (sq_pu(")") && --d < 0) break;
		if (d == 0 && (sq_pu(";") || sq_kw("UNION"))) break;
		if (d == 0 && sq_kw("WHERE")) r = 1;
		sq_next();
	}
	sq_p = p;
	sq_t = t;
	sq_br = br;
	memcpy(sq_s, s, sizeof(s));
	return r;
}
static void sq_spec(void)
{
	sq_want("SELECT");
	if (sq_acc("DISTINCT")) SV(query_set_distinct(sq_q));
	if (sq_haswhere()) sq_q->expect_where = true;
	if (sq_acc("TOP")) {
		sq_q->mode_store = sq_q->mode;
		sq_q->mode = MODE_TOP;
		if (sq_t == T_NUM) { SQ(query_set_top_count(sq_q, sq_s)); sq_next(); }
		else { sq_want("("); sq_expression(); sq_want(")"); }
		sq_q->mode = sq_q->mode_store;
	}
	do {
		sq_q->mode = MODE_SELECTLIST;
		if (sq_acc("*")) { SQ(query_add_asterisk(sq_q, "")); continue; }
		struct sq_n* e = NULL;
		if (sq_t == T_ID && !sq_br) {   // t.*
			const char* p = sq_p;
			char id[64];
			memcpy(id, sq_s, sizeof(id));
			sq_next();
			if (sq_acc(".") && sq_acc("*")) { SQ(query_add_asterisk(sq_q, id)); continue; }
			sq_p = p;
			sq_t = T_ID;
			sq_br = 0;
			memcpy(sq_s, id, sizeof(id));
		}
		e = sq_expr(0);
		if (!sq_fail) sq_emit(e);
		sq_free(e);
		if (sq_acc("AS")) { SV(query_apply_expression_alias(sq_q, sq_s)); sq_next(); }
		else if (sq_t == T_ID && !sq_clausekw()) { SV(query_apply_expression_alias(sq_q, sq_s)); sq_next(); }
	} while (sq_acc(","));
	sq_q->mode = MODE_INTO;
	if (sq_acc("INTO")) {
		if (sq_t == T_VAR) SQ(query_set_into_table_var(sq_q, sq_s));
		else SQ(query_set_into_table(sq_q, strdup(sq_s)));
		sq_next();
	}
	if (sq_acc("FROM")) sq_sources();
	if (sq_acc("WHERE")) sq_condition();
	if (sq_acc("GROUP")) {
		sq_want("BY");
		do {
			SV(query_init_groupby(sq_q));
			sq_expression();
			sq_q->mode = MODE_UNDEFINED;
		} while (sq_acc(","));
	}
	if (sq_acc("HAVING")) sq_condition();
}
static void sq_select(int orderby)
{
	sq_q->mode = MODE_SELECTLIST;
	SQ(query_init_op(sq_q, sq_stack, FQL_SELECT));
	sq_spec();
	while (sq_acc("UNION")) {
		sq_want("ALL");
		query* u = query_new(sq_fql, ++sq_id);
		SQ(query_enter_union(sq_q, u));
		query* up = sq_q;
		sq_q = u;
		node_push(&sq_stack, u);
		u->mode = MODE_SELECTLIST;
		sq_spec();
		node_pop(&sq_stack);
		sq_q = up;
		SQ(query_exit_union(sq_q, u));
	}
	if (sq_acc("ORDER")) {
		sq_want("BY");
		sq_q->mode = MODE_ORDERBY;
		SV(query_init_orderby(sq_q));
		do {
			sq_expression();
			if (sq_acc("DESC")) SV(query_set_order_desc(sq_q));
			else sq_acc("ASC");
		} while (sq_acc(","));
	}
}
static int sq_assign(void)
{
	static const struct { const char* s; enum scalar_function f; } t[] = {{"+=", SCALAR_OP_PLUS}, {"-=", SCALAR_OP_MINUS}, {"*=", SCALAR_OP_MULTIPY}, {"/=", SCALAR_OP_DIVIDE}, {"%=", SCALAR_OP_MODULE}, {"|=", SCALAR_OP_BIT_OR}, {"&=", SCALAR_OP_BIT_AND}, {"^=", SCALAR_OP_BIT_XOR}};
	for (unsigned i = 0; i < sizeof(t) / sizeof(t[0]); ++i) if (sq_pu(t[i].s)) {
		sq_next();
		sq_q->in_assignment_function = true;
		SQ(query_enter_assignment_operator(sq_q, t[i].f));
		return 1;
	}
	sq_want("=");
	return 0;
}
static void sq_assigned(void) { if (sq_q->in_assignment_function) { SV(query_exit_function(sq_q)); sq_q->in_assignment_function = false; } }
static void sq_datatype(int decl)
{
	char t[32], n[16] = "";
	strcpy(t, sq_s);
	sq_next();
	if (sq_acc("(")) { strcpy(n, sq_s); sq_next(); sq_want(")"); }
	if (n[0]) SQ(libfql_set_variable_limit(sq_fql, n));
	SQ(libfql_set_variable_type(sq_fql, t));
}
static void sq_clauses(void)
{
	while (sq_acc(";")) {}
	if (sq_enter_blk) sq_enter_blk = 0;
	else {
		sq_q = query_enter_query(sq_fql, 0, strlen(sq_fql->query_str) - 1);
		sq_id = 0;
		node_push(&sq_stack, sq_q);
	}
	if (sq_kw("SELECT")) sq_select(1);
	else if (sq_acc("UPDATE")) {
		sq_q->mode = MODE_UPDATELIST;
		SQ(query_init_op(sq_q, sq_stack, FQL_UPDATE));
		if (sq_haswhere()) sq_q->expect_where = true;
		SQ(query_set_op_table(sq_q, sq_s));
		sq_next();
		sq_want("SET");
		do {
			struct sq_n* c = sq_prim();
			sq_emit(c);
			sq_free(c);
			sq_assign();
			sq_expression();
			sq_assigned();
		} while (sq_acc(","));
		if (sq_acc("FROM")) sq_sources();
		if (sq_acc("WHERE")) sq_condition();
		SV(query_exit_non_select_op(sq_q));
	} else if (sq_acc("DELETE")) {
		SQ(query_init_op(sq_q, sq_stack, FQL_DELETE));
		if (sq_haswhere()) sq_q->expect_where = true;
		sq_acc("FROM");
		SQ(query_set_op_table(sq_q, sq_s));
		sq_next();
		if (sq_acc("FROM")) sq_sources();
		if (sq_acc("WHERE")) sq_condition();
		SV(query_exit_non_select_op(sq_q));
	} else if (sq_acc("DECLARE")) {
		sq_q->mode = MODE_DECLARE;
		SQ(query_init_op(sq_q, sq_stack, FQL_SET));
		int idx = libfql_declare_variable(sq_fql, sq_s);
		if (idx == FQL_FAIL) sq_fail = 1;
		else SV(query_set_variable_idx(sq_q, idx));
		sq_next();
		sq_acc("AS");
		sq_datatype(1);
		if (sq_acc("=")) sq_expression();
		sq_q->mode = MODE_UNDEFINED;
	} else if (sq_acc("SET")) {
		sq_q->mode = MODE_SET;
		SQ(query_enter_set(sq_q, sq_stack, FQL_SET, sq_s));
		sq_next();
		if (!sq_fail) {
			sq_assign();
			sq_expression();
			sq_assigned();
		}
	} else if (sq_acc("IF")) {
		sq_q->mode = MODE_IF;
		// does an ELSE belong to this IF?  (the checks put one statement or one block in each branch)
		const char* p = sq_p;
		enum sq_tok t = sq_t;
		char s[64];
		int br = sq_br, d = 0, els = 0, nif = 0;
		memcpy(s, sq_s, sizeof(s));
		for (; sq_t != T_END && !els; sq_next()) {
			if (sq_kw("BEGIN") || sq_kw("CASE")) ++d;
			else if (sq_kw("END")) { if (--d < 0) break; }
			else if (d == 0 && sq_kw("IF")) ++nif;
			else if (d == 0 && sq_kw("ELSE")) { if (nif-- == 0) els = 1; }
			else if (d == 0 && sq_pu(";")) break;
		}
		sq_p = p;
		sq_t = t;
		sq_br = br;
		memcpy(sq_s, s, sizeof(s));
		SQ(query_enter_if(sq_q, sq_stack, FQL_IF, els));
		sq_condition();
		if (!sq_fail) sq_clauses();
		if (!sq_fail && sq_acc("ELSE")) sq_clauses();
		if (!sq_fail) SV(query_exit_branch(sq_q));
	} else if (sq_acc("WHILE")) {
		sq_q->mode = MODE_WHILE;
		SQ(query_init_op(sq_q, sq_stack, FQL_WHILE));
		sq_condition();
		if (!sq_fail) sq_clauses();
		if (!sq_fail) SV(query_exit_branch(sq_q));
	} else if (sq_acc("BEGIN")) {
		sq_enter_blk = 1;
		SV(query_enter_block(sq_q));
		while (sq_acc(";")) {}
		while (!sq_fail && !sq_kw("END") && sq_t != T_END) { sq_clauses(); while (sq_acc(";")) {} }
		sq_want("END");
		sq_exit_blk = 1;
		SV(query_exit_block(sq_q));
	} else vp_fail("statement");
	if (sq_fail) return;
	if (sq_exit_blk) { sq_exit_blk = 0; return; }
	sq_q->query_total = sq_id + 1;
	query* prev = node_pop(&sq_stack);
	sq_q = sq_stack ? sq_stack->data : NULL;
	SQ(query_exit_query(sq_q, prev));
}
int analyze_query(fqlhandle* fql)
{
	sq_fql = fql;
	sq_q = NULL;
	sq_stack = NULL;
	sq_fail = sq_enter_blk = sq_exit_blk = 0;
	sq_p = fql->query_str;
	sq_next();
	while (!sq_fail && sq_t != T_END) {
		sq_clauses();
		while (sq_acc(";")) {}
	}
	while (sq_stack) node_pop(&sq_stack);
	return sq_fail ? FQL_FAIL : 0;
}
// ---- driving
static fqlhandle* __attribute__((unused)) e2e_new(void)
{
	fqlhandle* f = fql_new();
	fql_set_verbose(f, FQL_QUIET);
	return f;
}
#endif
