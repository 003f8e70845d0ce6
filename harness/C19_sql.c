// LIKE within whole statements: every clause, constant, column and variable patterns, NOT, NULL.
//@ lib
//@ fs
//@ pcre
//@ nolabels
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ inst 30000000
//@ samples 4
//@ bounds 12 statements over a table of 3 rows (5 texts, 5 patterns) and one of 2
//@ outside larger tables, other statements
#include "pcre.h"
#include "e2e.h"
static const char* const sql[] = {
	"SELECT s FROM t WHERE s LIKE '%a_'",
	"SELECT s FROM t WHERE s NOT LIKE 'a%'",
	"SELECT s, p FROM t WHERE s LIKE p",
	"SELECT s FROM t WHERE s NOT LIKE p OR p LIKE s",
	"SELECT CASE WHEN s LIKE '[^x]%' THEN 'y' WHEN s LIKE p THEN 'p' ELSE 'n' END FROM t",
	"SELECT t.s, u.k FROM t JOIN u ON t.s LIKE u.k",
	"UPDATE t SET p = 'z' WHERE s LIKE p AND s LIKE '%a%'",
	"SELECT s FROM t WHERE s + 'q' LIKE '%' + p + 'q'",
	"DECLARE @v VARCHAR(9) = '_a%'; SELECT s FROM t WHERE s LIKE @v; SET @v = 'x'; SELECT s FROM t WHERE s LIKE @v",
	"SELECT p, COUNT(*) FROM t GROUP BY p HAVING p LIKE '%[%]%' OR COUNT(*) > 2",
	"SELECT s FROM t WHERE s LIKE (SELECT k FROM u WHERE k LIKE 'xa' OR k LIKE '_')",
	"DECLARE @i INT = 0; WHILE @i < 2 BEGIN IF 'xab' LIKE '%a' + LEFT('bc', @i) SELECT s FROM t WHERE s LIKE LEFT('xa', @i) + '%'; SET @i = @i + 1; END",
};
static const char* const tv[] = {"ab", "xa", "XAB", "a", ""};
static const char* const pv[] = {"xa", "%a_", "_[ab]%", "%[%]%", "A%"};
static const unsigned char mt[5][5] = { // text i like pattern k
	{0, 1, 1, 0, 1}, {1, 0, 1, 0, 0}, {0, 1, 1, 0, 0}, {0, 0, 0, 0, 1}, {0, 0, 0, 0, 0}};
static const unsigned char mp[5][5] = { // pattern k like text i taken as a pattern
	{0, 1, 0, 0, 0}, {0}, {0}, {0}, {0}};
static struct et t, u;
void harness(void)
{
	int s[3], p[3], k[2] = {0};
	et_hdr(&t, "s,p");
	et_hdr(&u, "k");
	int needp = Q == 2 || Q == 3 || Q == 4 || Q == 6 || Q == 7 || Q == 9, rows = needp && Q != 9 ? 2 : 3;
	for (int r = 0; r < 3; ++r) {
		if (Q == 9 || r >= rows || (Q == 5 && r > 1)) { s[r] = r; et_str(&t, r, 0, tv[r]); } else s[r] = et_any(&t, r, 0, 5, tv);
		if (needp && r < rows) p[r] = et_any(&t, r, 1, 5, pv); else { p[r] = 1; et_str(&t, r, 1, pv[1]); }
	}
	for (int r = 0; r < 2; ++r) if (Q == 5) k[r] = et_any(&u, r, 0, 5, pv); else et_str(&u, r, 0, r ? "xa" : "XAB");
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
	fqlhandle* f = e2e_new();
	fql_set_print_header(f, 0);
	int api = Q != 6 && Q != 8 && Q != 11;
	if (api) CHECK(g_query(f, sql[Q]) >= 0);
	else CHECK(fql_exec(f, sql[Q]) == FQL_GOOD);
	x_reset();
	if (Q == 6) x_s("s,p\n");
	for (int pass = 0; pass < 2; ++pass) for (int r = 0; r < 3; ++r) {
		const char* e = tv[s[r]];
		int hit = 0;
		if (pass && Q != 8) continue;
		switch (Q) {
		case 0: hit = mt[s[r]][1]; break;
		case 1: hit = !mt[s[r]][4]; break;
		case 2: if (mt[s[r]][p[r]]) { x_s(e); x_c('|'); x_s(pv[p[r]]); x_c('\n'); } break;
		case 3: hit = !mt[s[r]][p[r]] || mp[p[r]][s[r]]; break;
		case 4: x_s(s[r] == 0 || s[r] == 3 ? "y\n" : mt[s[r]][p[r]] ? "p\n" : "n\n"); break;
		case 5: for (int q = 0; q < 2; ++q) if (mt[s[r]][k[q]]) { x_s(e); x_c('|'); x_s(pv[k[q]]); x_c('\n'); } break;
		case 6: x_s(e); x_c(','); x_s(mt[s[r]][p[r]] && s[r] != 4 ? "z" : pv[p[r]]); x_c('\n'); break;
		case 7: // a text that ends in a match of the pattern
			hit = p[r] == 0 ? s[r] == 1 : p[r] == 1 ? mt[s[r]][1] : p[r] == 2 ? s[r] == 0 || s[r] == 1 || s[r] == 2 : p[r] == 3 ? 0 : s[r] != 4;
			break;
		case 8: hit = pass ? 0 : s[r] == 1 || s[r] == 2; break;
		case 10: hit = s[r] == 1; break;
		case 11: hit = s[r] == 1 || s[r] == 2; break;
		}
		if (hit) { x_s(e); x_c('\n'); }
	}
	if (Q == 9) for (int i = 0; i < 3; ++i) {
		int c = 0, seen = 0;
		for (int j = 0; j < 3; ++j) { c += p[j] == p[i]; seen |= j < i && p[j] == p[i]; }
		if (!seen && (p[i] != 0 || c > 2)) { x_s(pv[p[i]]); x_c('|'); x_int(c); x_c('\n'); }
	}
	if (Q == 6) CHECKX(x_file("t.csv"));
	else if (!api) CHECKX(x_stdout());
	else CHECKX(x_api());
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
