// A handle gives back the memory it took: after a script it holds no more than before it, and nothing once it is freed.
//@ lib
//@ fs
//@ nolabels
//@ pcre
//@ cfg both q0 -DQ=0
//@ cfg both q1 -DQ=1
//@ cfg both q2 -DQ=2
//@ cfg both q3 -DQ=3
//@ cfg both q4 -DQ=4
//@ cfg both q5 -DQ=5
//@ cfg both q6 -DQ=6
//@ cfg both q7 -DQ=7
//@ cfg both q8 -DQ=8
//@ cfg both q9 -DQ=9
//@ cfg both q10 -DQ=10
//@ cfg both q11 -DQ=11
//@ cfg both q12 -DQ=12
//@ cfg both q13 -DQ=13
//@ cfg both q14 -DQ=14
//@ cfg both q15 -DQ=15
//@ cfg both q16 -DQ=16
//@ cfg both q17 -DQ=17
//@ cfg both q18 -DQ=18
//@ cfg both q19 -DQ=19
//@ cfg both q20 -DQ=20
//@ cfg both q21 -DQ=21
//@ cfg both q22 -DQ=22
//@ cfg both q23 -DQ=23
//@ cfg both q24 -DQ=24
//@ cfg both q25 -DQ=25
//@ cfg both q26 -DQ=26
//@ cfg both q27 -DQ=27
//@ cfg both q28 -DQ=28
//@ cfg both q29 -DQ=29
//@ cfg both q30 -DQ=30
//@ cfg both q31 -DQ=31
//@ cfg both q32 -DQ=32
//@ cfg both q33 -DQ=33
//@ cfg both q34 -DQ=34
//@ cfg both q35 -DQ=35
//@ cfg both q36 -DQ=36
//@ cfg both q37 -DQ=37
//@ cfg both q38 -DQ=38
//@ cfg both q39 -DQ=39
//@ cfg both q40 -DQ=40
//@ cfg both q41 -DQ=41
//@ cfg both q42 -DQ=42
//@ cfg both q43 -DQ=43
//@ cfg both q44 -DQ=44
//@ cfg both q45 -DQ=45
//@ cfg both q46 -DQ=46
//@ cfg both q47 -DQ=47
//@ cfg both q48 -DQ=48
//@ inst 30000000
//@ samples 4
//@ bounds 49 scripts over a table of 3 rows and one of 2 with keys 0..2 (0..1 in three of the five rows), run twice on one handle (the second time from the start, whatever became of the first: some fail on some tables), or planned and stepped through the interface until any row and then left
//@ outside scripts refused while they are read or planned, other scripts, larger tables, what the ANTLR parser, the CSV library and PCRE2 allocate
#include "e2e.h"
#include "pcre.h"
static const char* const sql[] = {
	[0] = "SELECT s, n FROM t",
	[1] = "SELECT n + 1 AS x, LEFT(s, 1) + '!' AS y, LEN(s) FROM t WHERE n > 0 AND (s = 'a' OR n <> 2)",
	[2] = "SELECT t.*, u.k FROM t JOIN u ON t.n = u.n",
	[3] = "SELECT t.s, u.k FROM t LEFT JOIN u ON t.n = u.n AND t.s <> u.k",
	[4] = "SELECT t.s, u.k FROM t JOIN u ON t.n > u.n",
	[5] = "SELECT t.s FROM t JOIN u ON t.n + 0 = u.n + 0 JOIN t AS v ON v.n = u.n",
	[6] = "SELECT n, COUNT(*), MAX(s), SUM(n + 0), AVG(n + 0) FROM t GROUP BY n HAVING COUNT(*) > 1 ORDER BY n DESC",
	[7] = "SELECT DISTINCT n, s + 'q' AS e FROM t ORDER BY e",
	[8] = "SELECT TOP 2 s, n FROM t ORDER BY n DESC, s",
	[9] = "SELECT s FROM t WHERE n = 1 UNION ALL SELECT k FROM u WHERE n = 1",
	[10] = "SELECT s, n FROM t UNION ALL SELECT k, n FROM u UNION ALL SELECT s, n + 5 FROM t WHERE n <> 2 ORDER BY 2, 1",
	[11] = "SELECT CASE WHEN n = 1 THEN 'one' WHEN n IN (0, 2) THEN s ELSE NULL END AS c FROM t",
	[12] = "SELECT s FROM t WHERE n IN (SELECT n FROM u WHERE k <> 'q')",
	[13] = "SELECT s FROM t WHERE s IN (SELECT TOP 1 k FROM u ORDER BY n DESC) OR n NOT IN (1, '2')",
	[14] = "SELECT s FROM t WHERE n = (SELECT MAX(n) FROM u)",
	[15] = "SELECT q.x, q.y FROM (SELECT n AS x, s + 'w' AS y FROM t WHERE n > 0) AS q WHERE q.x < 2",
	[16] = "SELECT q.x, u.k FROM (SELECT n AS x, COUNT(*) AS c FROM t GROUP BY n) AS q JOIN u ON u.n = q.x",
	[17] = "SELECT u.k, q.y FROM u JOIN (SELECT n AS x, s AS y FROM t WHERE n < 2) AS q ON q.x = u.n",
	[18] = "SELECT u.k, q.y FROM u JOIN (SELECT n AS x, s AS y FROM t UNION ALL SELECT n, k FROM u) AS q ON q.x = u.n",
	[19] = "SELECT s, n INTO [o.csv] FROM t WHERE n > 0",
	[20] = "SELECT s, n INTO [o.csv] FROM t WHERE n > 0 ORDER BY n; SELECT COUNT(*) FROM [o.csv]",
	[21] = "SELECT n, s INTO #w FROM t; UPDATE #w SET s = 'z' WHERE n = 1; DELETE FROM #w WHERE n = 2; SELECT * FROM #w",
	[22] = "UPDATE t SET s = 'x', n = n + 1 WHERE n = 1",
	[23] = "UPDATE t SET s = u.k FROM t JOIN u ON t.n = u.n WHERE u.k <> 'q'",
	[24] = "DELETE FROM t WHERE n = 1",
	[25] = "DELETE FROM t",
	[26] = "DELETE t FROM t JOIN u ON t.n = u.n",
	[27] = "DECLARE @i INT = 0; WHILE @i < 3 BEGIN SELECT s FROM t WHERE n = @i; SET @i += 1; END",
	[28] = "DECLARE @i INT = (SELECT MAX(n) FROM t); DECLARE @s VARCHAR(5) = 'v' + (SELECT MIN(s) FROM t); IF @i > 1 SELECT @s + 'a', @i ELSE BEGIN SELECT 'no'; SET @s = NULL; END SELECT @s, @i",
	[29] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN SELECT n, COUNT(*), MIN(s) FROM t WHERE n > @i GROUP BY n ORDER BY n; SELECT t.s, u.k FROM t JOIN u ON t.n = u.n AND t.n >= @i; SET @i = @i + 1; END",
	[30] = "DECLARE @i INT = 0; WHILE @i < 2 BEGIN SELECT DISTINCT s FROM t WHERE n IN (SELECT n FROM u WHERE n >= @i) UNION ALL SELECT k FROM u; UPDATE t SET s = 'b' WHERE n = @i; DELETE FROM u WHERE n = @i; SET @i = @i + 1; END",
	[31] = "DECLARE @c CHAR(3) = 'q'; DECLARE @f FLOAT = 1.5; DECLARE @b BIT = 7; DECLARE @t TEXT = 'abc'; SELECT @c + '|', @f + 1, @b, LEN(@t)",
	[32] = "SELECT 'x', 1, NULL, 2.5, __LF",
	[33] = "SELECT COUNT(*), SUM(n + 0) FROM t WHERE n > 1",
	[34] = "SELECT __REC, __ROWNUM, s FROM t",
	[35] = "SELECT s, REPLACE(s, 'a', 'zz'), SUBSTRING(s, 1, 1), RIGHT(s, 1), ISNULL(s, 'e') FROM t",
	[36] = "SELECT s FROM t WHERE s LIKE '%a' OR s LIKE '_' AND n > 1",
	[37] = "SELECT s FROM t WHERE 'xa' LIKE '%' + s",
	[38] = "SELECT s FROM t; SELECT k FROM u; SELECT COUNT(*) FROM t",
	[39] = "SELECT 10 / n FROM t",
	[40] = "SELECT s + 0 FROM t WHERE n > 1",
	[41] = "UPDATE t SET n = s + 1 WHERE n = 2",
	[42] = "SELECT s, n INTO [o.csv] FROM t WHERE 10 / n > 0",
	[43] = "SELECT u.k, 10 / t.n FROM t JOIN u ON t.n = u.n ORDER BY k",
	[44] = "SELECT n, 4 / n FROM t GROUP BY n",
	[45] = "SELECT s FROM t WHERE n = (SELECT n FROM u)",
	[46] = "SELECT CAST(n AS VARCHAR), CAST(s AS CHAR(3)), CAST(n AS FLOAT) FROM t",
	[47] = "SELECT a.s, b.s FROM t AS a JOIN (SELECT n, s FROM t WHERE n > 0) AS b ON a.n = b.n JOIN u ON u.n = b.n AND u.k <> a.s",
	[48] = "SELECT q.a FROM (SELECT r.x AS a FROM (SELECT n AS x FROM t) AS r WHERE r.x > 0) AS q",
};
static struct et t, u;
static void put(void)
{
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
}
void harness(void)
{
	et_hdr(&t, "s,n");
	et_hdr(&u, "k,n");
	for (int r = 0; r < 3; ++r) { char d[2] = {'a' + r, 0}; et_str(&t, r, 0, d); et_ch(&t, r, 1, '0', r < 2 ? '2' : '1'); }
	for (int r = 0; r < 2; ++r) { char d[2] = {'p' + r, 0}; et_str(&u, r, 0, d); et_ch(&u, r, 1, '0', '1'); }
	int how = vp_fix(vp_range(0, 3, "how"));   // whole script, or left after so many rows
	long l0 = vp_live(), l1 = 0;
	{
		fqlhandle* h = e2e_new();
		fql_set_overwrite(h, 1);
		for (int i = 0; i < 2; ++i) {
			put();
			if (how == 0) fql_exec(h, sql[Q]);
			else {
				CHECK(fql_make_plans(h, sql[Q]) > 0);
				struct fql_field* f = NULL;
				while (fql_exec_until_select(h) >= 0 && fql_field_count(h) > 0) {
					int k = 0;
					while (k < how - 1 && fql_step(h, &f) == 1) ++k;
					if (k == how - 1) break;
				}
				fql_reset(h);
			}
			CHECK(vfs_open_files() == 0);
			vfs_clear();
			if (i) CHECK(vp_live() == l1);
			l1 = vp_live();
		}
		fql_free(h);
	}
	CHECK(vp_live() == l0);
}
