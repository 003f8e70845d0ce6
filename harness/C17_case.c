// CASE: the first branch whose condition (or value) holds gives the result, ELSE if none, NULL without ELSE, in the common type of the branches.
//@ lib
//@ fs
//@ nolabels
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both q18 -DQ=18
//@ cfg both q19 -DQ=19
//@ cfg both q20 -DQ=20
//@ cfg both q21 -DQ=21
//@ cfg both q22 -DQ=22
//@ cfg both q23 -DQ=23
//@ cfg both q24 -DQ=24
//@ cfg both q25 -DQ=25
//@ cfg both q26 -DQ=26
//@ cfg both q27 -DQ=27
//@ cfg both q28 -DQ=28
//@ cfg both q29 -DQ=29
//@ cfg both q30 -DQ=30
//@ cfg both q31 -DQ=31
//@ cfg both q32 -DQ=32
//@ cfg both q33 -DQ=33
//@ cfg both q34 -DQ=34
//@ inst 30000000
//@ samples 4
//@ bounds 35 statements with CASE (searched and simple, nested, in every clause, over constants, variables, subqueries, aggregates, joins) over a table of 3 rows and one of 2; cells 1..3, words out of 5
//@ outside larger tables, other statements; CASE WHEN over an aggregate in a select list (refused by the code)
#include "e2e.h"
static const char* const sql[] = {
	[0] = "SELECT CASE WHEN n > m THEN 'gt' WHEN n = m THEN 'eq' ELSE 'lt' END FROM t",
	[1] = "SELECT s, CASE WHEN n = 1 THEN 'one' WHEN m = 2 THEN 'two' END FROM t",
	[2] = "SELECT CASE n WHEN 1 THEN 'one' WHEN m THEN 'same' ELSE 'none' END FROM t",
	[3] = "SELECT CASE n + 0 WHEN m + 1 THEN 1 WHEN 2 THEN 2.5 ELSE 0 END FROM t",
	[4] = "SELECT CASE WHEN n = 1 THEN 5 WHEN n = 2 THEN '7' ELSE m END FROM t",
	[5] = "SELECT CASE WHEN n = 1 THEN CASE m WHEN 1 THEN 'a' WHEN 2 THEN 'b' END ELSE CASE WHEN m > 1 THEN 'c' ELSE 'd' END END, s FROM t",
	[6] = "SELECT s FROM t WHERE CASE WHEN n > m THEN 1 ELSE 0 END = 1",
	[7] = "SELECT s FROM t WHERE 2 = CASE n WHEN 1 THEN m + 0 WHEN 2 THEN 2 END AND s <> 'b'",
	[8] = "SELECT s FROM t ORDER BY CASE WHEN n = 2 THEN 0 ELSE 1 END, CASE m WHEN 3 THEN 1 WHEN 1 THEN 2 ELSE 3 END DESC, s",
	[9] = "SELECT CASE WHEN n > 1 THEN 'hi' ELSE 'lo' END AS g, COUNT(*) FROM t GROUP BY CASE WHEN n > 1 THEN 'hi' ELSE 'lo' END",
	[10] = "SELECT CASE WHEN n = 1 THEN 1 ELSE 0 END, COUNT(*) FROM t GROUP BY CASE WHEN m = 1 THEN 1 ELSE 0 END",
	[11] = "SELECT SUM(CASE WHEN n = 1 THEN m ELSE 0 END), COUNT(CASE WHEN n = 1 THEN 1 END), MAX(CASE n WHEN m THEN 9 ELSE n END) FROM t",
	[12] = "SELECT LEN(CASE WHEN n = 1 THEN 'abc' ELSE s END), 'x' + CASE m WHEN 1 THEN 'y' ELSE s END + 'z' FROM t",
	[13] = "SELECT t.s, u.k FROM t JOIN u ON t.n = CASE WHEN u.k = 'x' THEN u.n ELSE u.m END",
	[14] = "UPDATE t SET m = CASE n WHEN 1 THEN 'p' WHEN 2 THEN s + m ELSE s END WHERE CASE WHEN m = 3 THEN 0 ELSE 1 END = 1",
	[15] = "SELECT CASE WHEN n > 0 THEN n + 0 ELSE CAST(s AS INT) END, CASE WHEN n > 0 THEN 1 WHEN CAST(s AS INT) = 1 THEN 2 END FROM t",
	[16] = "SELECT CASE WHEN n = 1 AND (m = 2 OR s = 'a') THEN 'p' WHEN n IN (2, m) THEN 'q' ELSE 'r' END, CASE WHEN NULL = n THEN 1 WHEN NULL IS NULL THEN 2 END FROM t",
	[17] = "SELECT CASE LEFT(s, 1) WHEN 'A' THEN n WHEN 'B' THEN m ELSE '0' END, CASE n + 0 + m WHEN 2 THEN 'two' WHEN 3 THEN 'three' WHEN 6 THEN 'six' END FROM t",
	[18] = "SELECT CASE (SELECT MAX(n + 0) FROM u) WHEN 1 THEN 'one' WHEN n THEN 'same' ELSE 'other' END FROM t",
	[19] = "SELECT CASE WHEN n = 1 THEN (SELECT MAX(n + 0) FROM u) ELSE m END FROM t",
	[20] = "SELECT q.c, CASE q.c WHEN 'x' THEN 1 ELSE 2 END FROM (SELECT CASE n WHEN 1 THEN 'x' END AS c FROM t) AS q",
	[21] = "SELECT CASE 2 WHEN 1 THEN 'a' WHEN 2 THEN 'b' END, CASE WHEN 1 = 2 THEN 'y' END, CASE NULL WHEN NULL THEN 'bad' ELSE 'ok' END, n FROM t",
	[22] = "SELECT n, COUNT(*) FROM t GROUP BY n HAVING CASE n WHEN 1 THEN COUNT(*) ELSE 2 END > 1 ORDER BY n",
	[23] = "DECLARE @v INT = %; DECLARE @w VARCHAR(9); SET @w = CASE @v WHEN 1 THEN 'one' WHEN 2 THEN 'two' ELSE 'more' END; IF CASE WHEN @v > 1 THEN 1 ELSE 0 END = 1 SELECT @w ELSE SELECT CASE @w WHEN 'one' THEN 'first' ELSE 'zero' END",
	[24] = "SELECT t.s, CASE u.n WHEN 1 THEN 'm' ELSE 'none' END, CASE WHEN u.n IS NULL THEN 'null' ELSE u.k END, ISNULL(CASE WHEN u.k = 'x' THEN 'X' END, 'no') FROM t LEFT JOIN u ON t.n = u.n",
	[25] = "SELECT DISTINCT CASE WHEN n = m THEN 'e' ELSE 'd' END FROM t",
	[26] = "SELECT CASE WHEN n = 1 THEN 'a' END FROM t UNION ALL SELECT CASE k WHEN 'x' THEN n ELSE k END FROM u",
	[27] = "SELECT CASE WHEN w = 'ab' THEN 1 WHEN w > 'ab' THEN 2 ELSE 3 END, CASE w WHEN 'AB' THEN 1 WHEN 'c ' THEN 2 END FROM t",
	[29] = "DECLARE @v INT = 2; SELECT CASE @v WHEN n THEN 'v' ELSE 'o' END, CASE WHEN n + 0 < @v THEN 1 ELSE 0 END FROM t",
	[30] = "SELECT n + 0 + (SELECT MAX(n + 0) FROM u), COUNT(*), MAX(m + 0) + 1, CASE n WHEN 1 THEN NULL ELSE 7 END FROM t GROUP BY n HAVING COUNT(*) > 0 ORDER BY n",
	[31] = "SELECT t.s, u.k FROM t JOIN u ON t.n = CASE WHEN u.k = 'x' THEN t.m ELSE u.n END",
	[32] = "SELECT CASE WHEN n > 2 THEN 'p' WHEN n > 1 THEN 'q' WHEN n > 0 THEN 'r' WHEN m > 0 THEN 'z' END, CASE WHEN m = 3 THEN 1 WHEN m > 1 THEN 2 WHEN m <> 9 THEN 3 ELSE 4 END FROM t",
	[33] = "SELECT CASE n WHEN 3 THEN 'a' WHEN m THEN 'b' WHEN n THEN 'c' WHEN 1 THEN 'z' ELSE 'y' END, CASE 1 WHEN m THEN 1 WHEN n - 1 THEN 2 WHEN m - 1 THEN 3 WHEN 1 THEN 4 ELSE 5 END FROM t",
	[34] = "UPDATE t SET m = CASE WHEN n = 3 THEN 'p' WHEN n < 3 THEN 'q' WHEN n < 9 THEN 'z' END WHERE CASE WHEN m > 2 THEN 0 WHEN m > 1 THEN 1 WHEN m > 0 THEN 2 ELSE 1 END = 1",
	[28] = "SELECT n, CASE WHEN n = 1 THEN COUNT(*) ELSE MAX(m + 0) END FROM t GROUP BY n ORDER BY n",
};
static struct et t, u;
static const char* const wv[] = {"ab", "AB ", "c", "", "ab c"};
static int n[3], m[3], un[2], um[2], ux[2], w[3];
static int dig(struct et* e, int r, int c, int on) { if (!on) { int v = 1 + (r + c) % 3; et_str(e, r, c, v == 1 ? "1" : v == 2 ? "2" : "3"); return v; } et_ch(e, r, c, '1', '3'); e->c[r][c][0] = vp_fix(e->c[r][c][0]); return e->c[r][c][0] - '0'; }
static void line(const char* s) { x_s(s); x_c('\n'); }
void harness(void)
{
	et_hdr(&t, "s,n,m,w");
	et_hdr(&u, "k,n,m");
	int needu = Q == 13 || Q == 18 || Q == 19 || Q == 24 || Q == 26 || Q == 31;
	for (int r = 0; r < 3; ++r) {
		char d[2] = {'a' + r, 0};
		et_str(&t, r, 0, d);
		n[r] = dig(&t, r, 1, Q != 27 && (!needu || r < 1 + (Q == 18)));
		m[r] = dig(&t, r, 2, Q != 27 && !needu && r < 2);
		if (Q == 27) w[r] = et_any(&t, r, 3, 5, wv); else et_str(&t, r, 3, "c");
	}
	for (int r = 0; r < 2; ++r) {
		if (needu) { et_ch(&u, r, 0, 'x', 'y'); u.c[r][0][0] = vp_fix(u.c[r][0][0]); } else et_str(&u, r, 0, "x");
		ux[r] = u.c[r][0][0] == 'x';
		un[r] = dig(&u, r, 1, needu);
		um[r] = dig(&u, r, 2, Q == 13 && r == 0);
	}
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
	fqlhandle* f = e2e_new();
	fql_set_print_header(f, 0);
	int rc, api = Q != 14 && Q != 34 && Q != 23 && Q != 29, v = 0;
	static char sq[400];
	strcpy(sq, sql[Q]);
	if (Q == 23) { char c = vp_byte("v"); vp_assume((c >= '0') & (c <= '3')); c = vp_fix(c); v = c - '0'; *strchr(sq, '%') = c; }
	if (api) rc = g_query(f, sq);
	else CHECK(fql_exec(f, sq) == FQL_GOOD);
	x_reset();
	if (Q == 10) { CHECK(rc < 0); fql_free(f); CHECK(vfs_open_files() == 0); return; }
	if (api) CHECK(rc >= 0);
	int mx = un[0] > un[1] ? un[0] : un[1];
	switch (Q) {
	case 8:
		for (int k = 0; k < 6; ++k) for (int r = 0; r < 3; ++r)
			if ((n[r] == 2 ? 0 : 1) == k / 3 && (m[r] == 3 ? 1 : m[r] == 1 ? 2 : 3) == 3 - k % 3) { x_c('a' + r); x_c('\n'); }
		break;
	case 9: {
		int h = 0;
		for (int r = 0; r < 3; ++r) h += n[r] > 1;
		for (int p = 0; p < 2; ++p) {
			int hi = (n[0] > 1) ^ p, c = hi ? h : 3 - h;
			if (c) { x_s(hi ? "hi|" : "lo|"); x_int(c); x_c('\n'); }
		}
		break;
	}
	case 11: {
		int s = 0, c = 0, mm = 0;
		for (int r = 0; r < 3; ++r) { s += n[r] == 1 ? m[r] : 0; c += n[r] == 1; int y = n[r] == m[r] ? 9 : n[r]; if (y > mm) mm = y; }
		x_int(s); x_c('|'); x_int(c); x_c('|'); x_int(mm); x_c('\n');
		break;
	}
	case 14: case 34: x_s("s,n,m,w\n"); break;
	case 22: case 28: case 30:
		for (int k = 1; k <= 3; ++k) {
			int c = 0, mm = 0;
			for (int r = 0; r < 3; ++r) if (n[r] == k) { ++c; if (m[r] > mm) mm = m[r]; }
			if (!c || (Q == 22 && k == 1 && c < 2)) continue;
			if (Q == 30) { x_int(k + mx); x_c('|'); x_int(c); x_c('|'); x_int(mm + 1); x_s(k == 1 ? "|~\n" : "|7\n"); continue; }
			x_int(k); x_c('|'); x_int(Q == 28 && k > 1 ? mm : c); x_c('\n');
		}
		break;
	case 23: line(v == 2 ? "two" : v == 3 ? "more" : v == 1 ? "first" : "zero"); break;
	case 25: { int e = 0, d = 0; for (int r = 0; r < 3; ++r) { if (n[r] == m[r] && !e) { e = 1; line("e"); } if (n[r] != m[r] && !d) { d = 1; line("d"); } } break; }
	}
	for (int r = 0; r < 3; ++r) {
		int a = n[r], b = m[r], e = 'a' + r;
		switch (Q) {
		case 0: line(a > b ? "gt" : a == b ? "eq" : "lt"); break;
		case 1: x_c(e); x_c('|'); line(a == 1 ? "one" : b == 2 ? "two" : "~"); break;
		case 2: line(a == 1 ? "one" : a == b ? "same" : "none"); break;
		case 3: line(a == b + 1 ? "1" : a == 2 ? "2.5" : "0"); break;
		case 4: x_int(a == 1 ? 5 : a == 2 ? 7 : b); x_c('\n'); break;
		case 5: x_s(a == 1 ? b == 1 ? "a" : b == 2 ? "b" : "~" : b > 1 ? "c" : "d"); x_c('|'); x_c(e); x_c('\n'); break;
		case 6: if (a > b) { x_c(e); x_c('\n'); } break;
		case 7: if ((a == 1 ? b == 2 : a == 2) && r != 1) { x_c(e); x_c('\n'); } break;
		case 12: x_int(a == 1 ? 3 : 1); x_s("|x"); x_c(b == 1 ? 'y' : e); x_s("z\n"); break;
		case 13: for (int p = 0; p < 2; ++p) if (a == (ux[p] ? un[p] : um[p])) { x_c(e); x_c('|'); x_c(ux[p] ? 'x' : 'y'); x_c('\n'); } break;
		case 32: line(a > 2 ? "p|" : a > 1 ? "q|" : "r|"); --x_n; line(b == 3 ? "1" : b > 1 ? "2" : "3"); break;
		case 33: line(a == 3 ? "a|" : a == b ? "b|" : "c|"); --x_n; line(b == 1 ? "1" : a == 2 ? "2" : b == 2 ? "3" : "4"); break;
		case 34: x_c(e); x_c(','); x_int(a); x_c(','); if (b == 2) x_c(a == 3 ? 'p' : 'q'); else x_int(b); x_s(",c\n"); break;
		case 14: x_c(e); x_c(','); x_int(a); x_c(','); if (b == 3) x_c('3'); else if (a == 1) x_c('p'); else { x_c(e); if (a == 2) x_int(b); } x_s(",c\n"); break;
		case 15: x_int(a); x_s("|1\n"); break;
		case 16: x_c(a == 1 && (b == 2 || r == 0) ? 'p' : a == 2 || a == b ? 'q' : 'r'); x_s("|2\n"); break;
		case 17: x_int(r == 0 ? a : r == 1 ? b : 0); x_c('|'); line(a + b == 2 ? "two" : a + b == 3 ? "three" : a + b == 6 ? "six" : "~"); break;
		case 18: line(mx == 1 ? "one" : mx == a ? "same" : "other"); break;
		case 19: x_int(a == 1 ? mx : b); x_c('\n'); break;
		case 20: line(a == 1 ? "x|1" : "~|2"); break;
		case 21: x_s("b|~|ok|"); x_int(a); x_c('\n'); break;
		case 24: { int hit = 0;
			for (int p = 0; p < 3; ++p) if (p < 2 ? un[p] == a : !hit) {
				int y = p < 2;
				hit = 1;
				x_c(e); x_s(y && a == 1 ? "|m|" : "|none|"); x_s(y ? ux[p] ? "x|X" : "y|no" : "null|no"); x_c('\n');
			}
			break; }
		case 29: line(a == 2 ? "v|0" : a < 2 ? "o|1" : "o|0"); break;
		case 31: for (int p = 0; p < 2; ++p) if (a == (ux[p] ? b : un[p])) { x_c(e); x_c('|'); x_c(ux[p] ? 'x' : 'y'); x_c('\n'); } break;
		case 26: line(a == 1 ? "a" : "~"); break;
		case 27: x_s(w[r] < 2 ? "1|" : w[r] == 3 ? "3|" : "2|"); line(w[r] < 2 ? "1" : w[r] == 2 ? "2" : "~"); break;
		}
	}
	if (Q == 26) for (int p = 0; p < 2; ++p) { if (ux[p]) x_int(un[p]); else x_c('y'); x_c('\n'); }
	if (Q == 14 || Q == 34) CHECKX(x_file("t.csv"));
	else if (Q == 29) { for (int i = 0; i < x_n; ++i) if (x_b[i] == '|') x_b[i] = ','; CHECKX(x_stdout()); }
	else if (Q == 23) CHECKX(x_stdout());
	else CHECKX(x_api());
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
