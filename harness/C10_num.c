// Text to number: exactly the texts that are numbers convert, to exactly their value.
//@ lib
//@ nolabels
//@ cfg both i3_col -DN=3 -DHOW=0
//@ cfg both i3_const -DN=3 -DHOW=1
//@ cfg both i3_rec -DN=3 -DHOW=2
//@ cfg both i3_cast -DN=3 -DHOW=3
//@ cfg thorough i4_col -DN=4 -DHOW=0
//@ cfg thorough i5_col -DN=5 -DHOW=0
//@ cfg both edge_col -DEDGE=1 -DN=2 -DHOW=0
//@ cfg both edge_neg -DEDGE=2 -DN=2 -DHOW=1
//@ cfg both edge_hex -DEDGE=3 -DN=2 -DHOW=0
//@ time 400
//@ bounds all texts of up to 3 (thorough 5) bytes without NUL as a column, whole record, constant or CAST argument; at the limits of a long, every two final bytes of 19 and 20 character decimal and 18 character hexadecimal texts
//@ outside other long texts, NUL bytes inside text
#include "vp.h"
#include "fq.h"
#ifndef EDGE
#define EDGE 0
#endif
static int digit(int c, int base)
{
	int d = -1;
	if (c >= '0' && c <= '9') d = c - '0';
	else if (c >= 'a' && c <= 'f') d = c - 'a' + 10;
	else if (c >= 'A' && c <= 'F') d = c - 'A' + 10;
	return d < base ? d : -1;
}
// the documented reading: optional blanks, sign, digits (0x: hexadecimal); nothing else; empty is 0
static int want(const char* s, int n, long* v)
{
	*v = 0;
	if (n == 0) return 1;
	int i = 0, base = 10, neg = 0, lead = n >= 2 && s[0] == '0' && s[1] == 'x';
	if (lead) { base = 16; i = 2; }
	else {
		while (i < n && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) ++i;
		if (i < n && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
	}
	if (i == n) return 0;
	for (; i < n; ++i) {
		int d = digit(s[i], base);
		if (d < 0) return 0;
		if (__builtin_smull_overflow(*v, base, v)) return 0;
		if (neg ? __builtin_ssubl_overflow(*v, d, v) : __builtin_saddl_overflow(*v, d, v)) return 0;
	}
	return 1;
}
void harness(void)
{
	char s[32];
	int n = 0;
	if (EDGE == 1) { memcpy(s, "922337203685477580", 18); n = 17; }
	if (EDGE == 2) { memcpy(s, "-922337203685477580", 19); n = 18; }
	if (EDGE == 3) { memcpy(s, "0x7fffffffffffffff", 18); n = 16; }
	int k = EDGE ? N : vp_fix(vp_range(0, N, "len"));
	if (EDGE == 1 || EDGE == 2) ++n;
	for (int i = 0; i < k; ++i) { s[n] = vp_byte("c"); vp_assume(s[n] != 0); ++n; }
	long w, v = 77;
	int ok = want(s, n, &w);
	record* r = fq_rec(0);
	fq_field(r, s, n);
	r->rec_ref = *(stringview*)vec_at(&r->fields, 0);
	node* rg = NULL;
	node_enqueue(&rg, r);
	expression* src = fq_source(0, 0);
	expression* e;
	if (HOW == 0) e = fq_col(src);
	else if (HOW == 1) e = fq_str(s, n);
	else if (HOW == 2) { e = new_(expression, EXPR_FULL_RECORD, "__REC", ""); e->src_idx = 0; }
	else {
		enum field_type ft = FIELD_UNDEFINED;
		function* f = new_(function, SCALAR_CAST, &ft, 0);
		f->call__ = &fql_cast_int;
		function_add_expression(f, fq_col(src));
		e = new_(expression, EXPR_FUNCTION, f, "");
		e->field_type = FIELD_INT;
	}
	for (int i = 0; i < 2; ++i) {
		int rc = expression_get_int(&v, e, rg);
		CHECK(rc == (ok ? FQL_GOOD : FQL_FAIL));
		if (ok) CHECKX(v == w);
	}
	delete_(expression, e);
}
