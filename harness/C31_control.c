// Scripts: variables, IF, WHILE and blocks behave as the statements say, and every pass of a loop sees a fresh query.
//@ lib
//@ fs
//@ nolabels
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both q18 -DQ=18
//@ cfg both q19 -DQ=19
//@ cfg both q20 -DQ=20
//@ cfg both q21 -DQ=21
//@ cfg both q22 -DQ=22
//@ cfg both q23 -DQ=23
//@ cfg both q24 -DQ=24
//@ cfg both q25 -DQ=25
//@ cfg both q26 -DQ=26
//@ cfg both q27 -DQ=27
//@ cfg both q28 -DQ=28
//@ cfg both q29 -DQ=29
//@ cfg both q30 -DQ=30
//@ cfg both q31 -DQ=31
//@ cfg both q32 -DQ=32
//@ cfg both q33 -DQ=33
//@ cfg both q34 -DQ=34
//@ cfg both q39 -DQ=39
//@ cfg both q35 -DQ=35
//@ cfg both q36 -DQ=36
//@ cfg both q37 -DQ=37
//@ cfg both q38 -DQ=38
//@ cfg both q40 -DQ=40
//@ cfg both q41 -DQ=41
//@ cfg both q42 -DQ=42
//@ cfg both q43 -DQ=43
//@ cfg both q44 -DQ=44
//@ inst 30000000
//@ samples 4
//@ bounds 45 scripts: DECLARE/SET and compound assignment, IF/ELSE chains, nested IF and WHILE with and without blocks, names declared again in inner scopes, every kind of SELECT, UPDATE and DELETE re-run by a loop, table variables, imported variables re-declared; start values 0..9 (text: 6 lengths) or tables of 3 and 2 rows with keys 0..2, all symbolic
//@ outside other scripts, larger tables, the ANTLR parser itself (a front end over the same query_* calls is used), % & | ^ in expressions (assignment forms only)
#include "e2e.h"
static const char* const sql[] = {
	[0] = "DECLARE @x INT = (SELECT n FROM t); IF @x > 3 SELECT 'hi' ELSE SELECT 'lo'; SELECT @x",
	[1] = "DECLARE @x INT = (SELECT n FROM t); IF @x > 6 BEGIN SELECT 'a'; SELECT 'b'; END ELSE BEGIN IF @x > 3 SELECT 'c'; SELECT 'd'; END; SELECT 'e'",
	[2] = "DECLARE @x INT = (SELECT n FROM t); DECLARE @s INT = 0; WHILE @x > 0 BEGIN SET @s += @x; SET @x -= 1; END; SELECT @s, @x",
	[3] = "DECLARE @x INT = (SELECT n FROM t); DECLARE @i INT = 0; DECLARE @c INT = 0; WHILE @i < @x BEGIN DECLARE @j INT = 0; WHILE @j < @i BEGIN SET @j += 1; SET @c += 1; END; SET @i += 1; END; SELECT @c",
	[4] = "DECLARE @x INT = (SELECT n FROM t); DECLARE @e VARCHAR(20) = ''; WHILE @x > 0 BEGIN IF @x / 2 * 2 = @x SET @e += 'e' ELSE SET @e += 'o'; SET @x -= 1; END; SELECT @e",
	[5] = "DECLARE @s VARCHAR(3) = (SELECT s FROM t); DECLARE @c CHAR(4) = (SELECT s FROM t); SELECT @s, @c, @s + '!'",
	[6] = "DECLARE @x INT; DECLARE @y INT = (SELECT n FROM t); SET @x = @x + 1; SELECT ISNULL(@x, 77); SET @x = @y; SELECT @x; SET @x = NULL; SELECT ISNULL(@x, 78)",
	[7] = "DECLARE @x INT = (SELECT n FROM t); SET @x += 3; SELECT @x; SET @x -= 1; SELECT @x; SET @x *= 2; SELECT @x; SET @x |= 1; SELECT @x; SET @x &= 6; SELECT @x; SET @x ^= 2; SELECT @x",
	[8] = "DECLARE @i INT = 0; WHILE @i < 3 BEGIN SELECT s FROM t WHERE n = @i; SET @i += 1; END",
	[9] = "DECLARE @i INT = 0; WHILE @i < 3 BEGIN SELECT n, COUNT(*) FROM t WHERE n <> @i GROUP BY n ORDER BY n; SET @i += 1; END",
	[10] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN SELECT t.s, u.s FROM t JOIN u ON t.n = u.n AND u.n <> @i; SET @i += 1; END",
	[11] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN SELECT s FROM t WHERE n = @i UNION ALL SELECT s FROM u WHERE n <> @i; SET @i += 1; END",
	[12] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN SELECT q.s FROM (SELECT s, n FROM t WHERE n <> @i) AS q WHERE q.n < 3; SET @i += 1; END",
	[13] = "DECLARE @i INT = 0; WHILE @i < 3 BEGIN IF (SELECT COUNT(*) FROM t WHERE n = @i) > 1 SELECT @i; SET @i += 1; END",
	[14] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN UPDATE t SET s = 'k' WHERE n = @i; SELECT COUNT(*) FROM t WHERE s = 'k'; SET @i += 1; END",
	[15] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN DELETE FROM t WHERE n = @i; SELECT s FROM t; SET @i += 1; END",
	[16] = "DECLARE @i INT = 0; WHILE @i < 3 BEGIN SELECT TOP 1 s FROM t WHERE n >= @i ORDER BY n DESC, s; SET @i += 1; END",
	[17] = "DECLARE @i INT = 0; WHILE @i < 3 BEGIN SELECT DISTINCT n FROM t WHERE n <> @i; SET @i += 1; END",
	[18] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN SELECT s FROM t WHERE n IN (SELECT n FROM u WHERE n <> @i); SET @i += 1; END",
	[19] = "DECLARE @x INT = (SELECT n FROM t); IF @x = 1 SELECT 'one'; IF @x = 2 BEGIN SELECT 'two'; END; WHILE @x > 7 BEGIN SELECT 'w'; SET @x -= 1; END; IF @x < 3 AND (@x > 0 OR @x = 0) SELECT 'z'",
	[20] = "DECLARE @b BIT = (SELECT n FROM t); DECLARE @f FLOAT = (SELECT n FROM t); SELECT @b; IF @f > 4.5 SELECT 'g'; SET @f = @f / 2; IF @f > 4.25 SELECT 'h'",
	[21] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN SELECT q.s, u.s FROM u JOIN (SELECT s, n FROM t WHERE n <> @i) AS q ON q.n = u.n; SET @i += 1; END",
	[22] = "DECLARE @i INT = 0; WHILE @i < 3 BEGIN SELECT COUNT(*) FROM t WHERE n = @i AND s <> 'c'; SET @i += 1; END",
	[23] = "BEGIN SELECT s FROM t; SELECT s FROM u; END; BEGIN BEGIN SELECT n FROM t; END; SELECT n FROM u; END",
	[24] = "DECLARE @x INT = (SELECT n FROM t); IF @x < 2 SELECT 'a' ELSE IF @x < 4 SELECT 'b' ELSE IF @x < 6 BEGIN SELECT 'c'; SELECT 'd'; END ELSE BEGIN SELECT 'e'; SELECT 'f'; SELECT 'g'; END; SELECT 'h'",
	[25] = "DECLARE @x INT = (SELECT n FROM t); WHILE @x > 0 BEGIN SET @x -= 1; IF @x > 4 BEGIN IF @x = 6 SELECT 'six' ELSE SELECT 'big'; END ELSE IF @x = 2 SELECT 'two'; END; SELECT 'x'",
	[26] = "DECLARE @x INT = (SELECT n FROM t); WHILE @x > 0 IF @x > 5 SET @x -= 5 ELSE IF @x = 3 SET @x = 0 ELSE SET @x -= 1; SELECT @x; IF @x = 0 IF @x < 5 SELECT 'y' ELSE SELECT 'n'",
	[27] = "DECLARE @x INT = (SELECT n FROM t); DECLARE @c INT = 0; IF @x > 4 BEGIN WHILE @x > 0 BEGIN SET @x -= 1; SET @c += 2; END; END ELSE WHILE @x > 0 BEGIN SET @x -= 1; SET @c += 1; END; SELECT @c",
	[29] = "DECLARE @i INT = 0; DECLARE @s VARCHAR(9) = 'z'; WHILE @i < 3 BEGIN SET @s = (SELECT TOP 1 s FROM t WHERE n = @i); SELECT ISNULL(@s, '-'); SET @i += 1; END",
	[30] = "DECLARE @i INT = 0; WHILE (SELECT COUNT(*) FROM t WHERE n >= @i) > 0 SET @i += 1; SELECT @i",
	[31] = "DECLARE @i INT = 0; DECLARE @s VARCHAR(20) = ''; WHILE @i < 3 BEGIN SET @s += CASE WHEN (SELECT COUNT(*) FROM t WHERE n = @i) = 0 THEN 'n' WHEN @i = 1 THEN 'o' ELSE 'e' END; SET @i += 1; END; SELECT @s",
	[32] = "DECLARE @i INT = 0; WHILE @i < 3 BEGIN SELECT s FROM t WHERE n IN (@i, 2); SET @i += 1; END",
	[33] = "DECLARE @i INT = 0; WHILE @i < 3 BEGIN IF @i IN (SELECT n FROM t) SELECT 'in' ELSE IF @i IN (SELECT n FROM u) SELECT 'u' ELSE SELECT 'out'; SET @i += 1; END",
	[37] = "DECLARE @a INT; DECLARE @b VARCHAR(1); DECLARE @d CHAR(3); DECLARE @e BIT; DECLARE @c INT = 2; SELECT ISNULL(@g, 'null'), @d + '.', @e; SELECT @a + 1, @b + 'x', @a + @c, @b; SET @b = 'long'; SELECT @b",
	[38] = "DECLARE @c INT; DECLARE @b INT; DECLARE @a VARCHAR(30); SELECT @b + @a, @a + 'x', @a + @a; SET @a = 'longer'; SELECT @a",
	[34] = "SELECT s FROM @f; SET @f = 'u.csv'; SELECT s FROM @f; DECLARE @i INT = 0; WHILE @i < 2 BEGIN IF @i = 1 SET @f = 't.csv'; SELECT n FROM @f; SET @i += 1; END",
	[35] = "DECLARE @i INT = 0; DECLARE @a INT = 0; DECLARE @b INT; WHILE @i < 3 BEGIN SET @a = (SELECT SUM(0+n) FROM t WHERE n > @i); SET @b = (SELECT MAX(n) FROM u WHERE n > @i); SELECT ISNULL(@a, 50), ISNULL(@b, 60); SET @i += 1; END",
	[36] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN SELECT t.s, q.c FROM t JOIN (SELECT n, COUNT(*) AS c FROM u WHERE n >= @i GROUP BY n) AS q ON q.n = t.n ORDER BY t.s DESC; SET @i += 1; END",
	[39] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN SELECT x.s, y.s, z.s FROM @f AS x JOIN @g AS y ON x.n = y.n JOIN @g AS z ON y.n <> z.n; SET @f = 'u.csv'; SET @g = 't.csv'; SET @i += 1; END",
	[40] = "DECLARE @x INT = (SELECT n FROM t); DECLARE @b BIT = @x - 5; DECLARE @c BIT; SELECT @b; SET @c = 5 - @x; SELECT @c; SET @b = @x * 2 - 9; SELECT @b; SET @b = 0; SELECT @b; SET @c = @b; IF @c = 0 SELECT 'z'",
	[41] = "DECLARE @x INT = (SELECT n FROM t); DECLARE @y INT = 4 - @x; DECLARE @f FLOAT = @y; DECLARE @s VARCHAR(3) = @y; SELECT @y, @s; SET @y -= @x; SET @f -= @x; IF @f = @y SELECT @y; SET @s = @y; SELECT @s; SET @y *= @y; SET @y /= 2; SELECT @y",
	[42] = "DECLARE @x INT = (SELECT n FROM t); DECLARE @y INT = 0; IF @x > 4 BEGIN DECLARE @y INT = 50; SET @y += @x; SELECT @y; SET @x = @y; END ELSE BEGIN DECLARE @y VARCHAR(3) = 'l'; SET @y += 'z'; SELECT @y; SET @x += 1; END; SELECT @x, @y",
	[43] = "DECLARE @x INT = (SELECT n FROM t); DECLARE @i INT = 0; DECLARE @s INT = 100; WHILE @i < @x BEGIN DECLARE @s INT = @i; SET @s += 1; IF @i > 3 BEGIN DECLARE @s VARCHAR(3) = 'v'; SET @s += 'w'; SELECT @s; END; SELECT @s; SET @i += 1; END; SELECT @s, @i",
	[44] = "DECLARE @x INT = (SELECT n FROM t); IF @x > 2 BEGIN DECLARE @y INT = @x; WHILE @y > 2 BEGIN DECLARE @X INT = @y; SET @y -= 1; SET @x = @y; SELECT @x; END; SELECT @x, @y; END; DECLARE @y INT = 9; SELECT @x, @y",
	[28] = "DECLARE @x INT = (SELECT n FROM t); IF @x > 3 BEGIN IF @x > 7 SELECT 'a' ELSE SELECT 'b'; END ELSE BEGIN WHILE @x > 1 SET @x -= 1; IF @x = 1 SELECT 'c' ELSE BEGIN SELECT 'd'; END; END; SELECT 'e'",
};
static struct et t, u;
#define ROWS (Q >= 8 && Q != 19 && Q != 20 && (Q < 24 || (Q > 28 && Q != 37 && Q != 38 && Q < 40)))
#define CH(x, i) (x.c[i][0][0])
#define NV(x, i) (x.c[i][1][0] - '0')
#define OUTC(x, i) (x_c(CH(x, i)), x_c('\n'))
void harness(void)
{
	et_hdr(&t, "s,n");
	et_hdr(&u, "s,n");
	if (ROWS) {
		for (int r = 0; r < 3; ++r) { char d[2] = {'a' + r, 0}; et_str(&t, r, 0, d); et_ch(&t, r, 1, '0', '2'); t.c[r][1][0] = vp_fix(t.c[r][1][0]); }
		for (int r = 0; r < 2; ++r) { char d[2] = {'p' + r, 0}; et_str(&u, r, 0, d); et_ch(&u, r, 1, '0', '2'); u.c[r][1][0] = vp_fix(u.c[r][1][0]); }
	} else {
		if (Q == 5) {
			static const char* const z[] = {"", "a", "bc", "def", "ghij", "klmno"};
			et_any(&t, 0, 0, 6, z);
		} else et_str(&t, 0, 0, "a");
		et_ch(&t, 0, 1, '0', '9');
		t.c[0][1][0] = vp_fix(t.c[0][1][0]);
	}
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
	fqlhandle* f = e2e_new();
	fql_set_print_header(f, 0);
	if (Q == 39) CHECK(fql_import_variable(f, "g=u.csv") == FQL_GOOD);
	if (Q == 34 || Q == 39) CHECK(fql_import_variable(f, "f=t.csv") == FQL_GOOD);
	if (Q == 37 || Q == 38) {
		char a[] = "  a =?", b[] = "@b=??";
		a[5] = t.c[0][1][0];
		b[3] = b[4] = t.c[0][1][0];
		CHECK(fql_import_variable(f, a) == FQL_GOOD);
		CHECK(fql_import_variable(f, b) == FQL_GOOD);
		if (Q == 37) {
			char d[] = "d=?", e[] = "e=?";
			d[2] = e[2] = a[5];
			CHECK(fql_import_variable(f, d) == FQL_GOOD);
			CHECK(fql_import_variable(f, e) == FQL_GOOD);
			CHECK(fql_import_variable(f, " g ") == FQL_GOOD);
		}
		CHECK(fql_import_variable(f, "=3") != FQL_GOOD);
	}
	CHECK(fql_exec(f, sql[Q]) == FQL_GOOD);
	x_reset();
	int n = NV(t, 0), c = 0;
#define OI(v) (x_int(v), x_c('\n'))
	switch (Q) {
	case 0: x_s(n > 3 ? "hi\n" : "lo\n"); OI(n); break;
	case 1: if (n > 6) x_s("a\nb\n"); else { if (n > 3) x_s("c\n"); x_s("d\n"); } x_s("e\n"); break;
	case 2: x_int(n * (n + 1) / 2); x_s(",0\n"); break;
	case 3: OI(n * (n - 1) / 2); break;
	case 4: for (; n > 0; --n) x_c(n % 2 ? 'o' : 'e'); x_c('\n'); break;
	case 5: {
		int l = t.l[0][0], a = l < 3 ? l : 3, b = l < 4 ? l : 4;
		for (int i = 0; i < a; ++i) x_c(t.c[0][0][i]);
		x_c(',');
		for (int i = 0; i < b; ++i) x_c(t.c[0][0][i]);
		for (int i = b; i < 4; ++i) x_c(' ');
		x_c(',');
		for (int i = 0; i < a; ++i) x_c(t.c[0][0][i]);
		x_s("!\n");
		break;
	}
	case 6: x_s("77\n"); OI(n); x_s("78\n"); break;
	case 7: n += 3; OI(n); n -= 1; OI(n); n *= 2; OI(n); n |= 1; OI(n); n &= 6; OI(n); n ^= 2; OI(n); break;
	case 8: for (int i = 0; i < 3; ++i) for (int r = 0; r < 3; ++r) if (NV(t, r) == i) OUTC(t, r); break;
	case 9: for (int i = 0; i < 3; ++i) for (int v = 0; v < 3; ++v) { for (int r = c = 0; r < 3; ++r) c += NV(t, r) == v; if (c && v != i) { x_int(v); x_c(','); OI(c); } } break;
	case 10: for (int i = 0; i < 2; ++i) for (int r = 0; r < 3; ++r) for (int p = 0; p < 2; ++p) if (NV(t, r) == NV(u, p) && NV(u, p) != i) { x_c(CH(t, r)); x_c(','); OUTC(u, p); } break;
	case 11: for (int i = 0; i < 2; ++i) { for (int r = 0; r < 3; ++r) if (NV(t, r) == i) OUTC(t, r); for (int r = 0; r < 2; ++r) if (NV(u, r) != i) OUTC(u, r); } break;
	case 12: for (int i = 0; i < 2; ++i) for (int r = 0; r < 3; ++r) if (NV(t, r) != i && NV(t, r) < 3) OUTC(t, r); break;
	case 13: for (int i = 0; i < 3; ++i) { for (int r = c = 0; r < 3; ++r) c += NV(t, r) == i; if (c > 1) OI(i); } break;
	case 14: for (int i = 0; i < 2; ++i) { for (int r = 0; r < 3; ++r) c += NV(t, r) == i; OI(c); } break;
	case 15: for (int i = 0; i < 2; ++i) for (int r = 0; r < 3; ++r) if (NV(t, r) > i) OUTC(t, r); break;
	case 16: for (int i = 0; i < 3; ++i) { int b = -1; for (int r = 0; r < 3; ++r) if (NV(t, r) >= i && (b < 0 || NV(t, r) > NV(t, b))) b = r; if (b >= 0) OUTC(t, b); } break;
	case 17: for (int i = 0; i < 3; ++i) for (int r = 0; r < 3; ++r) { int d = 0; for (int p = 0; p < r; ++p) d |= NV(t, p) == NV(t, r); if (!d && NV(t, r) != i) OI(NV(t, r)); } break;
	case 18: for (int i = 0; i < 2; ++i) for (int r = 0; r < 3; ++r) { int d = 0; for (int p = 0; p < 2; ++p) d |= NV(u, p) == NV(t, r) && NV(u, p) != i; if (d) OUTC(t, r); } break;
	case 19: if (n == 1) x_s("one\n"); if (n == 2) x_s("two\n"); for (; n > 7; --n) x_s("w\n"); if (n < 3) x_s("z\n"); break;
	case 20: OI(n != 0); if (n > 4) x_s("g\n"); if (n / 2.0 > 4.25) x_s("h\n"); break;
	case 22: for (int i = 0; i < 3; ++i) OI((NV(t, 0) == i) + (NV(t, 1) == i)); break;
	case 23: x_s("a\nb\nc\np\nq\n"); for (int r = 0; r < 3; ++r) OI(NV(t, r)); for (int r = 0; r < 2; ++r) OI(NV(u, r)); break;
	case 24: x_s(n < 2 ? "a\n" : n < 4 ? "b\n" : n < 6 ? "c\nd\n" : "e\nf\ng\n"); x_s("h\n"); break;
	case 25: while (n-- > 0) x_s(n == 6 ? "six\n" : n > 4 ? "big\n" : n == 2 ? "two\n" : ""); x_s("x\n"); break;
	case 26: x_s("0\ny\n"); break;
	case 27: OI(n > 4 ? 2 * n : n); break;
	case 28: x_s(n > 7 ? "a\n" : n > 3 ? "b\n" : n >= 1 ? "c\n" : "d\n"); x_s("e\n"); break;
	case 29: for (int i = 0; i < 3; ++i) { int b = -1; for (int r = 2; r >= 0; --r) if (NV(t, r) == i) b = r; x_c(b < 0 ? '-' : CH(t, b)); x_c('\n'); } break;
	case 30: for (int r = 0; r < 3; ++r) if (NV(t, r) >= c) c = NV(t, r) + 1; OI(c); break;
	case 31: for (int i = 0; i < 3; ++i) { for (int r = c = 0; r < 3; ++r) c += NV(t, r) == i; x_c(!c ? 'n' : i == 1 ? 'o' : 'e'); } x_c('\n'); break;
	case 32: for (int i = 0; i < 3; ++i) for (int r = 0; r < 3; ++r) if (NV(t, r) == i || NV(t, r) == 2) OUTC(t, r); break;
	case 33: for (int i = 0; i < 3; ++i) { int a = 0, b = 0; for (int r = 0; r < 3; ++r) a |= NV(t, r) == i; for (int r = 0; r < 2; ++r) b |= NV(u, r) == i; x_s(a ? "in\n" : b ? "u\n" : "out\n"); } break;
	case 39:
		for (int i = 0; i < 2; ++i) {
			struct et* x = i ? &u : &t, *y = i ? &t : &u;
			for (int a = 0; a < (i ? 2 : 3); ++a) for (int b = 0; b < (i ? 3 : 2); ++b) for (int k = 0; k < (i ? 3 : 2); ++k)
				if (NV((*x), a) == NV((*y), b) && NV((*y), b) != NV((*y), k)) x_c(CH((*x), a)), x_c(','), x_c(CH((*y), b)), x_c(','), OUTC((*y), k);
		}
		break;
	case 40: OI(n != 5); OI(n != 5); OI(1); OI(0); x_s("z\n"); break;
	case 41: x_int(4 - n); x_c(','); OI(4 - n); OI(4 - 2 * n); { int l = x_n; OI(4 - 2 * n); if (x_n - l > 4) { x_n = l + 3; x_c('\n'); } } OI((4 - 2 * n) * (4 - 2 * n) / 2); break;
	case 42: if (n > 4) { OI(50 + n); n += 50; } else { x_s("lz\n"); ++n; } x_int(n); x_s(",0\n"); break;
	case 43: for (int i = 0; i < n; ++i) { if (i > 3) x_s("vw\n"); OI(i + 1); } x_s("100,"); OI(n); break;
	case 44: if (n > 2) { for (int y = n; y > 2;) { --y; OI(y); } x_int(n); x_s(",2\n"); } x_int(n); x_s(",9\n"); break;
	case 34: x_s("a\nb\nc\np\nq\n"); for (int r = 0; r < 2; ++r) OI(NV(u, r)); for (int r = 0; r < 3; ++r) OI(NV(t, r)); break;
	case 37: x_s("null,"); x_int(n); x_s("  .,"); OI(n != 0); OI(n + 1); x_n -= 1; x_c(','); x_int(n); x_s("x,"); x_int(n + 2); x_c(','); OI(n); x_s("l\n"); break;
	case 38: OI(n * 12); x_n -= 1; x_c(','); x_int(n); x_s("x,"); x_int(n); x_int(n); x_s("\nlonger\n"); break;
	case 35: for (int i = 0; i < 3; ++i) { int a = 0, b = 0; for (int r = 0; r < 3; ++r) a += NV(t, r) > i ? NV(t, r) : 0; for (int r = 0; r < 2; ++r) if (NV(u, r) > i && NV(u, r) > b) b = NV(u, r); x_int(a ? a : 50); x_c(','); OI(b ? b : 60); } break;
	case 36: for (int i = 0; i < 2; ++i) for (int r = 2; r >= 0; --r) { for (int p = c = 0; p < 2; ++p) c += NV(u, p) == NV(t, r) && NV(u, p) >= i; if (c) { x_c(CH(t, r)); x_c(','); OI(c); } } break;
	case 21: for (int i = 0; i < 2; ++i) for (int p = 0; p < 2; ++p) for (int r = 0; r < 3; ++r) if (NV(t, r) == NV(u, p) && NV(t, r) != i) { x_c(CH(t, r)); x_c(','); OUTC(u, p); } break;
	}
	CHECKX(x_stdout());
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
