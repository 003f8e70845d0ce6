// Numbers with fractions in every clause.
//@ lib
//@ fs
//@ nolabels
//@ samples 4
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both q18 -DQ=18
//@ cfg both q19 -DQ=19
//@ cfg both q20 -DQ=20
//@ cfg both q21 -DQ=21
//@ cfg both q22 -DQ=22
//@ cfg both q23 -DQ=23
//@ cfg both q24 -DQ=24
//@ cfg both q25 -DQ=25
//@ cfg both q26 -DQ=26
//@ cfg both q27 -DQ=27
//@ cfg both q28 -DQ=28
//@ cfg both q29 -DQ=29
//@ cfg both q30 -DQ=30
//@ cfg both q31 -DQ=31
//@ cfg both q32 -DQ=32
//@ cfg both q33 -DQ=33
//@ cfg both q34 -DQ=34
//@ cfg both q35 -DQ=35
//@ cfg both q36 -DQ=36
//@ cfg both q37 -DQ=37
//@ cfg both q38 -DQ=38
//@ cfg both q39 -DQ=39
//@ cfg both q40 -DQ=40
//@ cfg both q41 -DQ=41
//@ cfg both q42 -DQ=42
//@ cfg both q43 -DQ=43
//@ cfg both q44 -DQ=44
//@ cfg both q45 -DQ=45
//@ cfg both q46 -DQ=46
//@ cfg both q47 -DQ=47
//@ cfg both q48 -DQ=48
//@ cfg both q49 -DQ=49
//@ cfg both q50 -DQ=50
//@ cfg both q51 -DQ=51
//@ cfg both q52 -DQ=52
//@ cfg both q53 -DQ=53
//@ cfg both q54 -DQ=54
//@ cfg both q55 -DQ=55
//@ cfg both q56 -DQ=56
//@ cfg both q57 -DQ=57
//@ cfg both q58 -DQ=58
//@ cfg both q59 -DQ=59
//@ cfg both q60 -DQ=60
//@ cfg both q61 -DQ=61
//@ cfg both q62 -DQ=62
//@ cfg both q63 -DQ=63
//@ cfg both q64 -DQ=64
//@ cfg both q65 -DQ=65
//@ cfg both q66 -DQ=66
//@ cfg both q67 -DQ=67
//@ cfg both q68 -DQ=68
//@ bounds 69 statements over a table of 3 rows, keys a/b, numbers out of 1, 2, 1.5, -2.25 (every content, each in its own path)
//@ outside numbers that are not binary fractions, the digits printed (tied to %f), overflow
#include "e2e.h"
static struct et t;
static double N[3], M[3];
static char S[3];
static int L[3];
static void f_(double v) { char b[64]; snprintf(b, sizeof b, "%g", v); x_s(b); }
static void i_(long v) { x_int(v); }
static void c_(char c) { x_c(c); }
static void b_(void) { x_c('|'); }
static void nl(void) { x_c('\n'); }
static int __attribute__((unused)) in_(double v) { return M[0] == v || M[1] == v || M[2] == v; }
static int __attribute__((unused)) lf(double v) { char b[64]; return snprintf(b, sizeof b, "%f", v); }
static const char* const pre[] = {
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"",
	"DECLARE @f FLOAT; SET @f = 1.25",
	"DECLARE @f FLOAT = 1.5",
	"DECLARE @f FLOAT",
	"DECLARE @f FLOAT; SET @f = 3",
	"DECLARE @i INT; SET @i = 3.75",
	"DECLARE @v VARCHAR(20); SET @v = 2.5",
	"DECLARE @f FLOAT; SET @f = (SELECT MAX(CAST(n AS FLOAT)) FROM t)",
	"DECLARE @f FLOAT; SET @f = -1.5",
	"DECLARE @f FLOAT = 0.5; WHILE @f < 4.5 SET @f = @f + 1.5",
	"DECLARE @f FLOAT = 1.5",
	"",
	"",
	"",
	"",
};
static const char* const sql[] = {
	"SELECT n + 0.5 AS x FROM t",
	"SELECT CAST(n AS FLOAT) AS x FROM t",
	"SELECT n * 2.0 - 0.25 AS x, s FROM t",
	"SELECT n / 2.0 AS x FROM t",
	"SELECT -(n + 0.5) AS x FROM t",
	"SELECT CAST(n + 0.0 AS INT) AS x FROM t",
	"SELECT s FROM t WHERE n = 1.5",
	"SELECT s FROM t WHERE n <> 1.5",
	"SELECT s FROM t WHERE n < 1.5",
	"SELECT s FROM t WHERE n <= 1.5",
	"SELECT s FROM t WHERE n > 1.5",
	"SELECT s FROM t WHERE n >= 1.5",
	"SELECT s FROM t WHERE 1.25 < n AND n < 2.5",
	"SELECT s FROM t WHERE CAST(n AS FLOAT) = CAST(m AS FLOAT)",
	"SELECT s FROM t WHERE n IN (1.5, 2)",
	"SELECT s FROM t WHERE n NOT IN (1.5, 2)",
	"SELECT s FROM t WHERE n + 0.5 IN (1.5, 2)",
	"SELECT s FROM t WHERE n + 0.5 IN (m, 2.5)",
	"SELECT s FROM t WHERE n IN (SELECT CAST(m AS FLOAT) FROM t)",
	"SELECT s FROM t WHERE n + 0.0 IN (SELECT m FROM t)",
	"SELECT s FROM t WHERE 1.5 IN (SELECT m FROM t)",
	"SELECT MIN(n + 0.0) AS a, MAX(CAST(n AS FLOAT)) AS b, SUM(n * 1.0) AS c, COUNT(n + 0.5) AS d FROM t",
	"SELECT SUM(CAST(n AS FLOAT)) + 0.5 AS a, MAX(n + 0.0) - MIN(n + 0.0) AS b FROM t",
	"SELECT AVG(CAST(n AS FLOAT)) AS a FROM t",
	"SELECT s, SUM(n + 0.0) AS x FROM t GROUP BY s",
	"SELECT s, SUM(n + 0.0) AS x FROM t GROUP BY s HAVING SUM(n + 0.0) > 1.5",
	"SELECT s, COUNT(*) AS x FROM t GROUP BY s HAVING MAX(n * 0.5) >= 0.75",
	"SELECT n + 0.5 AS x, COUNT(*) AS c FROM t GROUP BY n + 0.5",
	"SELECT DISTINCT n + 0.5 AS x FROM t",
	"SELECT COUNT(*) AS c FROM t GROUP BY CAST(n AS FLOAT)",
	"SELECT CAST(n AS FLOAT) AS x FROM t ORDER BY x",
	"SELECT n + 0.5 AS x, m FROM t ORDER BY n + 0.5 DESC, CAST(m AS FLOAT)",
	"SELECT TOP 1 n * 1.0 AS x FROM t ORDER BY 1 DESC",
	"SELECT n + 0.5 AS x FROM t UNION ALL SELECT 1 FROM t WHERE s = 'a'",
	"SELECT 1 AS x FROM t WHERE s = 'a' UNION ALL SELECT n + 0.5 FROM t",
	"SELECT n AS x FROM t UNION ALL SELECT 2.5 FROM t WHERE s = 'a'",
	"SELECT 3 AS x FROM t WHERE s = 'a' UNION ALL SELECT 2.5 FROM t WHERE s = 'b' UNION ALL SELECT n FROM t",
	"SELECT n + 0.5 AS x FROM t UNION ALL SELECT 1 FROM t WHERE s = 'a' ORDER BY 1",
	"SELECT CASE WHEN s = 'a' THEN 1 ELSE 2.5 END AS x FROM t",
	"SELECT CASE WHEN s = 'a' THEN 2.5 ELSE 1 END AS x FROM t",
	"SELECT CASE s WHEN 'a' THEN n ELSE 1.5 END AS x FROM t",
	"SELECT CASE n WHEN 1.5 THEN 'p' WHEN 2.0 THEN 'q' ELSE 'r' END AS x FROM t",
	"SELECT CASE n + 0.5 WHEN 2 THEN 'p' WHEN 1.5 THEN 'q' END AS x FROM t",
	"SELECT CASE WHEN s = 'a' THEN n + 0.5 END AS x FROM t",
	"SELECT s FROM t WHERE CASE WHEN s = 'a' THEN n ELSE 1.5 END = 1.5",
	"SELECT s, (SELECT MAX(n + 0.0) FROM t) AS x FROM t",
	"SELECT s, (SELECT TOP 1 n + 0.5 FROM t ORDER BY n + 0.5) AS x FROM t",
	"SELECT s FROM t WHERE n = (SELECT MIN(CAST(n AS FLOAT)) FROM t)",
	"SELECT s FROM t WHERE n > (SELECT AVG(n + 0.0) FROM t)",
	"SELECT x.v + 0.5 AS v FROM (SELECT n + 0.5 AS v FROM t) AS x",
	"SELECT x.v FROM (SELECT n + 0.5 AS v FROM t) AS x WHERE x.v > 1.5",
	"SELECT t.s, u.s FROM t JOIN t AS u ON CAST(t.n AS FLOAT) = CAST(u.m AS FLOAT)",
	"SELECT t.s, u.s FROM t JOIN t AS u ON t.n + 0.5 < u.m",
	"SELECT t.s, u.m + 0.5 AS x FROM t LEFT JOIN t AS u ON t.n + 0.0 = u.m + 0.0",
	"SELECT ISNULL(u.m, 0.5) AS x FROM t LEFT JOIN t AS u ON t.n + 0.0 = u.m + 0.0",
	"SELECT @f + n AS x FROM t",
	"SELECT @f AS x FROM t WHERE n > @f",
	"SELECT @f AS x FROM t",
	"SELECT @f + 0.5 AS x",
	"SELECT @i AS x",
	"SELECT @v AS x",
	"SELECT @f AS x",
	"SELECT @f * 2 AS x",
	"SELECT @f AS x",
	"SELECT s FROM t WHERE n IN (@f, 2)",
	"SELECT DATALENGTH(n + 0.5) AS a, DATALENGTH(n) AS b, DATALENGTH(1) AS c FROM t",
	"SELECT LEN(CAST(n + 0.5 AS VARCHAR(20))) AS a FROM t",
	"SELECT 1.5 AS a, 0.25 AS b, -2.5 AS c FROM t WHERE s = 'a'",
	"SELECT s FROM t WHERE n - 0.0 = 0.0 OR s = 'b'",
};
static const char* const ty[] = {
	"f",
	"f",
	"fs",
	"f",
	"f",
	"i",
	"s",
	"s",
	"s",
	"s",
	"s",
	"s",
	"s",
	"s",
	"s",
	"s",
	"s",
	"s",
	"s",
	"s",
	"s",
	"fffi",
	"ff",
	"f",
	"sf",
	"sf",
	"si",
	"fi",
	"f",
	"i",
	"f",
	"fs",
	"f",
	"f",
	"f",
	"f",
	"f",
	"f",
	"f",
	"f",
	"f",
	"s",
	"s",
	"f",
	"s",
	"sf",
	"sf",
	"s",
	"s",
	"f",
	"f",
	"ss",
	"ss",
	"sf",
	"s",
	"f",
	"f",
	"f",
	"f",
	"i",
	"s",
	"f",
	"f",
	"f",
	"s",
	"iii",
	"i",
	"fff",
	"s",
};
void harness(void)
{
	static const char* const num[] = {"1", "2", "1.5", "-2.25"};
	static const double val[] = {1, 2, 1.5, -2.25};
	et_hdr(&t, "s,n,m");
	for (int i = 0; i < 3; ++i) {
		et_ch(&t, i, 0, 'a', 'b');
		S[i] = t.c[i][0][0] = vp_fix(t.c[i][0][0]);
		int k = et_any(&t, i, 1, 4, num);
		N[i] = val[k];
		L[i] = strlen(num[k]);
		int m = i == 0 ? 2 : i == 1 ? 0 : 3;   // a column of fixed numbers beside
		et_str(&t, i, 2, num[m]);
		M[i] = val[m];
	}
	et_put(&t, "t.csv");
	fqlhandle* f = e2e_new();
	char q[512];
	snprintf(q, sizeof q, "%s%s%s", pre[Q], pre[Q][0] ? "; " : "", sql[Q]);
	int n = fql_make_plans(f, q);
	CHECK(n > 0);
	CHECK(fql_exec_until_select(f) == n - 1 || Q == 63);
	const char* want = ty[Q];
	int nf = strlen(want);
	CHECK(fql_field_count(f) == nf);
	struct fql_field* fl = NULL;
	int rc;
	g_n = 0;
	while ((rc = fql_step(f, &fl)) == 1) {
		for (int i = 0; i < nf; ++i) {
			if (i) g_b[g_n++] = '|';
			CHECK(want[i] == '?' || fl[i].type == (want[i] == 'f' ? FQL_FLOAT : want[i] == 'i' ? FQL_INT : FQL_STRING));
			if (fl[i].is_null) { g_b[g_n++] = '~'; continue; }
			if (fl[i].type == FQL_FLOAT) g_n += snprintf(g_b + g_n, 64, "%g", fl[i].data.f);
			else if (fl[i].type == FQL_INT) g_n += snprintf(g_b + g_n, 32, "%ld", fl[i].data.i);
			else for (const char* p = fl[i].data.s; *p; ++p) g_b[g_n++] = *p;
		}
		g_b[g_n++] = '\n';
		if (g_n > 4000) vp_fail("fql_step does not end");
	}
	CHECK(rc == 0);
	x_reset();
	switch (Q) {
	case 0: { for (int i = 0; i < 3; ++i) f_(N[i] + 0.5), nl(); break; }
	case 1: { for (int i = 0; i < 3; ++i) f_(N[i]), nl(); break; }
	case 2: { for (int i = 0; i < 3; ++i) f_(N[i] * 2 - 0.25), b_(), c_(S[i]), nl(); break; }
	case 3: { for (int i = 0; i < 3; ++i) f_(N[i] / 2), nl(); break; }
	case 4: { for (int i = 0; i < 3; ++i) f_(-(N[i] + 0.5)), nl(); break; }
	case 5: { for (int i = 0; i < 3; ++i) i_((long)N[i]), nl(); break; }
	case 6: { for (int i = 0; i < 3; ++i) if (N[i] == 1.5) c_(S[i]), nl(); break; }
	case 7: { for (int i = 0; i < 3; ++i) if (N[i] != 1.5) c_(S[i]), nl(); break; }
	case 8: { for (int i = 0; i < 3; ++i) if (N[i] < 1.5) c_(S[i]), nl(); break; }
	case 9: { for (int i = 0; i < 3; ++i) if (N[i] <= 1.5) c_(S[i]), nl(); break; }
	case 10: { for (int i = 0; i < 3; ++i) if (N[i] > 1.5) c_(S[i]), nl(); break; }
	case 11: { for (int i = 0; i < 3; ++i) if (N[i] >= 1.5) c_(S[i]), nl(); break; }
	case 12: { for (int i = 0; i < 3; ++i) if (N[i] > 1.25 && N[i] < 2.5) c_(S[i]), nl(); break; }
	case 13: { for (int i = 0; i < 3; ++i) if (N[i] == M[i]) c_(S[i]), nl(); break; }
	case 14: { for (int i = 0; i < 3; ++i) if (N[i] == 1.5 || N[i] == 2) c_(S[i]), nl(); break; }
	case 15: { for (int i = 0; i < 3; ++i) if (!(N[i] == 1.5 || N[i] == 2)) c_(S[i]), nl(); break; }
	case 16: { for (int i = 0; i < 3; ++i) if (N[i] == 1 || N[i] == 1.5) c_(S[i]), nl(); break; }
	case 17: { for (int i = 0; i < 3; ++i) if (N[i] + 0.5 == M[i] || N[i] == 2) c_(S[i]), nl(); break; }
	case 18: { for (int i = 0; i < 3; ++i) if (in_(N[i])) c_(S[i]), nl(); break; }
	case 19: { for (int i = 0; i < 3; ++i) if (in_(N[i])) c_(S[i]), nl(); break; }
	case 20: { for (int i = 0; i < 3; ++i) if (in_(1.5)) c_(S[i]), nl(); break; }
	case 21: { double mn = N[0], mx = N[0], su = 0; for (int i = 0; i < 3; ++i) { if (N[i] < mn) mn = N[i]; if (N[i] > mx) mx = N[i]; su += N[i]; } f_(mn), b_(), f_(mx), b_(), f_(su), b_(), i_(3), nl(); break; }
	case 22: { double mn = N[0], mx = N[0], su = 0; for (int i = 0; i < 3; ++i) { if (N[i] < mn) mn = N[i]; if (N[i] > mx) mx = N[i]; su += N[i]; } f_(su + 0.5), b_(), f_(mx - mn), nl(); break; }
	case 23: { double mn = N[0], mx = N[0], su = 0; for (int i = 0; i < 3; ++i) { if (N[i] < mn) mn = N[i]; if (N[i] > mx) mx = N[i]; su += N[i]; } char b[64]; snprintf(b, sizeof b, "%f", su / 3); f_(strtod(b, NULL)), nl(); break; }
	case 24: { for (int i = 0; i < 3; ++i) { int new = 1, k = 0; double su = 0; for (int j = 0; j < 3; ++j) { if (S[j] == S[i]) { if (j < i) new = 0; ++k; su += N[j]; } } if (new) c_(S[i]), b_(), f_(su), nl(); }  break; }
	case 25: { for (int i = 0; i < 3; ++i) { int new = 1, k = 0; double su = 0; for (int j = 0; j < 3; ++j) { if (S[j] == S[i]) { if (j < i) new = 0; ++k; su += N[j]; } } if (new) if (su > 1.5) c_(S[i]), b_(), f_(su), nl(); }  break; }
	case 26: { for (int i = 0; i < 3; ++i) { int new = 1, k = 0; double mx = -99; for (int j = 0; j < 3; ++j) if (S[j] == S[i]) { if (j < i) new = 0; ++k; if (N[j] > mx) mx = N[j]; } if (new && mx >= 1.5) c_(S[i]), b_(), i_(k), nl(); } break; }
	case 27: { for (int i = 0; i < 3; ++i) { int new = 1, k = 0; for (int j = 0; j < 3; ++j) if (N[j] == N[i]) { if (j < i) new = 0; ++k; } if (new) f_(N[i] + 0.5), b_(), i_(k), nl(); }  break; }
	case 28: { for (int i = 0; i < 3; ++i) { int new = 1, k = 0; for (int j = 0; j < 3; ++j) if (N[j] == N[i]) { if (j < i) new = 0; ++k; } if (new) f_(N[i] + 0.5), nl(); }  break; }
	case 29: { for (int i = 0; i < 3; ++i) { int new = 1, k = 0; for (int j = 0; j < 3; ++j) if (N[j] == N[i]) { if (j < i) new = 0; ++k; } if (new) i_(k), nl(); }  break; }
	case 30: { int o[3] = {0, 1, 2}; for (int a = 0; a < 3; ++a) for (int j = 0; j < 2; ++j) if (N[o[j]] > N[o[j + 1]]) { int x = o[j]; o[j] = o[j + 1]; o[j + 1] = x; } for (int i = 0; i < 3; ++i) f_(N[o[i]]), nl(); break; }
	case 31: { int o[3] = {0, 1, 2}; for (int a = 0; a < 3; ++a) for (int j = 0; j < 2; ++j) if (N[o[j]] < N[o[j + 1]] || (N[o[j]] == N[o[j + 1]] && M[o[j]] > M[o[j + 1]])) { int x = o[j]; o[j] = o[j + 1]; o[j + 1] = x; } for (int i = 0; i < 3; ++i) f_(N[o[i]] + 0.5), b_(), f_(M[o[i]]), nl(); break; }
	case 32: { double mn = N[0], mx = N[0], su = 0; for (int i = 0; i < 3; ++i) { if (N[i] < mn) mn = N[i]; if (N[i] > mx) mx = N[i]; su += N[i]; } f_(mx), nl(); break; }
	case 33: { for (int i = 0; i < 3; ++i) f_(N[i] + 0.5), nl(); for (int i = 0; i < 3; ++i) if (S[i] == 'a') f_(1), nl(); break; }
	case 34: { for (int i = 0; i < 3; ++i) if (S[i] == 'a') f_(1), nl(); for (int i = 0; i < 3; ++i) f_(N[i] + 0.5), nl(); break; }
	case 35: { for (int i = 0; i < 3; ++i) f_(N[i]), nl(); for (int i = 0; i < 3; ++i) if (S[i] == 'a') f_(2.5), nl(); break; }
	case 36: { for (int i = 0; i < 3; ++i) if (S[i] == 'a') f_(3), nl(); for (int i = 0; i < 3; ++i) if (S[i] == 'b') f_(2.5), nl(); for (int i = 0; i < 3; ++i) f_(N[i]), nl(); break; }
	case 37: { double v[6]; int k = 0; for (int i = 0; i < 3; ++i) v[k++] = N[i] + 0.5; for (int i = 0; i < 3; ++i) if (S[i] == 'a') v[k++] = 1; for (int a = 0; a < k; ++a) for (int j = 0; j + 1 < k; ++j) if (v[j] > v[j + 1]) { double x = v[j]; v[j] = v[j + 1]; v[j + 1] = x; } for (int i = 0; i < k; ++i) f_(v[i]), nl(); break; }
	case 38: { for (int i = 0; i < 3; ++i) f_(S[i] == 'a' ? 1 : 2.5), nl(); break; }
	case 39: { for (int i = 0; i < 3; ++i) f_(S[i] == 'a' ? 2.5 : 1), nl(); break; }
	case 40: { for (int i = 0; i < 3; ++i) f_(S[i] == 'a' ? N[i] : 1.5), nl(); break; }
	case 41: { for (int i = 0; i < 3; ++i) c_(N[i] == 1.5 ? 'p' : N[i] == 2 ? 'q' : 'r'), nl(); break; }
	case 42: { for (int i = 0; i < 3; ++i) { if (N[i] == 1.5) c_('p'); else if (N[i] == 1) c_('q'); else c_('~'); nl(); } break; }
	case 43: { for (int i = 0; i < 3; ++i) { if (S[i] == 'a') f_(N[i] + 0.5); else c_('~'); nl(); } break; }
	case 44: { for (int i = 0; i < 3; ++i) if (S[i] != 'a' || N[i] == 1.5) c_(S[i]), nl(); break; }
	case 45: { double mn = N[0], mx = N[0], su = 0; for (int i = 0; i < 3; ++i) { if (N[i] < mn) mn = N[i]; if (N[i] > mx) mx = N[i]; su += N[i]; } for (int i = 0; i < 3; ++i) c_(S[i]), b_(), f_(mx), nl(); break; }
	case 46: { double mn = N[0], mx = N[0], su = 0; for (int i = 0; i < 3; ++i) { if (N[i] < mn) mn = N[i]; if (N[i] > mx) mx = N[i]; su += N[i]; } for (int i = 0; i < 3; ++i) c_(S[i]), b_(), f_(mn + 0.5), nl(); break; }
	case 47: { double mn = N[0], mx = N[0], su = 0; for (int i = 0; i < 3; ++i) { if (N[i] < mn) mn = N[i]; if (N[i] > mx) mx = N[i]; su += N[i]; } for (int i = 0; i < 3; ++i) if (N[i] == mn) c_(S[i]), nl(); break; }
	case 48: { double mn = N[0], mx = N[0], su = 0; for (int i = 0; i < 3; ++i) { if (N[i] < mn) mn = N[i]; if (N[i] > mx) mx = N[i]; su += N[i]; } for (int i = 0; i < 3; ++i) if (N[i] > su / 3) c_(S[i]), nl(); break; }
	case 49: { for (int i = 0; i < 3; ++i) f_(N[i] + 1), nl(); break; }
	case 50: { for (int i = 0; i < 3; ++i) if (N[i] > 1) f_(N[i] + 0.5), nl(); break; }
	case 51: { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (N[i] == M[j]) c_(S[i]), b_(), c_(S[j]), nl(); break; }
	case 52: { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (N[i] + 0.5 < M[j]) c_(S[i]), b_(), c_(S[j]), nl(); break; }
	case 53: { for (int i = 0; i < 3; ++i) { int k = 0; for (int j = 0; j < 3; ++j) if (N[i] == M[j]) ++k, c_(S[i]), b_(), f_(M[j] + 0.5), nl(); if (!k) c_(S[i]), b_(), c_('~'), nl(); } break; }
	case 54: { for (int i = 0; i < 3; ++i) { int k = 0; for (int j = 0; j < 3; ++j) if (N[i] == M[j]) ++k, f_(M[j]), nl(); if (!k) x_s("0.500000"), nl(); } break; }
	case 55: { for (int i = 0; i < 3; ++i) f_(1.25 + N[i]), nl(); break; }
	case 56: { for (int i = 0; i < 3; ++i) if (N[i] > 1.5) f_(1.5), nl(); break; }
	case 57: { for (int i = 0; i < 3; ++i) c_('~'), nl(); break; }
	case 58: { f_(3.5), nl(); break; }
	case 59: { i_(3), nl(); break; }
	case 60: { x_s("2.500000"), nl(); break; }
	case 61: { double mn = N[0], mx = N[0], su = 0; for (int i = 0; i < 3; ++i) { if (N[i] < mn) mn = N[i]; if (N[i] > mx) mx = N[i]; su += N[i]; } f_(mx), nl(); break; }
	case 62: { f_(-3), nl(); break; }
	case 63: { f_(5), nl(); break; }
	case 64: { for (int i = 0; i < 3; ++i) if (N[i] == 1.5 || N[i] == 2) c_(S[i]), nl(); break; }
	case 65: { for (int i = 0; i < 3; ++i) i_(8), b_(), i_(L[i]), b_(), i_(8), nl(); break; }
	case 66: { for (int i = 0; i < 3; ++i) i_(lf(N[i] + 0.5)), nl(); break; }
	case 67: { for (int i = 0; i < 3; ++i) if (S[i] == 'a') f_(1.5), b_(), f_(0.25), b_(), f_(-2.5), nl(); break; }
	case 68: { for (int i = 0; i < 3; ++i) if (S[i] == 'b') c_(S[i]), nl(); break; }
	}
	CHECKX(x_api());
	// printed as text, the same rows
	int rows = 0;
	for (int i = 0; i < x_n; ++i) rows += x_b[i] == '\n';
	CHECK(fql_exec(f, q) != FQL_FAIL);
	size_t on = 0;
	const char* o = vfs_stdout(&on);
	int ln = 0;
	for (size_t i = 0; i < on; ++i) ln += o[i] == '\n';
	CHECK(ln == rows + 1);
	// and each value the same again when it is read back
	static char w[4096];
	int wn = 0;
	size_t p = 0;
	while (p < on && o[p] != '\n') ++p;
	++p;
	while (p < on) {
		for (int i = 0; i < nf; ++i) {
			char v[64];
			int k = 0;
			while (o[p] != ',' && o[p] != '\n') v[k++] = o[p++];
			++p;
			v[k] = 0;
			if (i) w[wn++] = '|';
			if (k == 0) w[wn++] = '~';
			else if (want[i] == 'f') wn += snprintf(w + wn, 64, "%g", strtod(v, NULL));
			else { memcpy(w + wn, v, k); wn += k; }
		}
		w[wn++] = '\n';
	}
	if (vp_native()) fprintf(stderr, "--- printed\n%.*s", (int)on, o);
	CHECK(ty[Q][0] == '?' || (wn == g_n && memcmp(w, g_b, wn) == 0));
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
