// Whole numbers beyond 32 bits in every clause: values alike in their low halves, apart in their high ones.
#define EL 24
#include "e2e.h"
#ifndef R
#define R 3
#endif
static const char* const W[] = {"1", "4294967297", "4294967296", "-4294967295", "9223372036854775807"};
static const long V[] = {1, 4294967297L, 4294967296L, -4294967295L, 9223372036854775807L};
static const char* const sql[] = {
	[0] = "SELECT CAST(v AS INT) AS k FROM n ORDER BY k",
	[1] = "SELECT v FROM n ORDER BY 0 + v DESC",
	[2] = "SELECT MIN(0 + v), MAX(CAST(v AS INT)) FROM n",
	[3] = "SELECT 0 + v, COUNT(*) FROM n GROUP BY 0 + v ORDER BY 1",
	[4] = "SELECT DISTINCT 0 + v AS k FROM n ORDER BY k DESC",
	[5] = "SELECT v FROM n WHERE 0 + v IN (1, 4294967296)",
	[6] = "SELECT v FROM n WHERE 0 + v IN (SELECT 0 + w FROM m)",
	[7] = "SELECT n.v, m.w FROM n JOIN m ON 0 + n.v = 0 + m.w",
	[8] = "SELECT CASE WHEN v > 4294967296 THEN 'g' WHEN 0 + v = 4294967296 THEN 'e' ELSE 'l' END FROM n",
	[9] = "SELECT v FROM n WHERE v >= 4294967297",
	[10] = "SELECT v FROM n WHERE 0 + v <> (SELECT MAX(0 + w) FROM m)",
	[11] = "UPDATE n SET v = v - 1 WHERE v > 1",
	[12] = "SELECT q.k FROM (SELECT 0 + v AS k FROM n) AS q WHERE q.k < 4294967297",
	[13] = "DECLARE @m INT = 4294967297; DECLARE @k INT = @m - 1; SELECT v FROM n WHERE v = @m OR 0 + v = @k; SET @m -= 4294967296; SELECT @m, @k",
	[14] = "SELECT COUNT(*) AS c FROM n GROUP BY n.i HAVING MAX(0 + v) > 4294967296",
	[15] = "SELECT 0 + v AS k FROM n WHERE v > 1 UNION ALL SELECT 0 + w FROM m ORDER BY k",
	[16] = "SELECT TOP 4294967297 v FROM n",
	[17] = "SELECT TOP 4294967296 v FROM n ORDER BY 0 + v",
	[18] = "DELETE FROM n WHERE 0 + v = 4294967297 OR 0 + v < 0",
	[19] = "SELECT ISNULL(CAST(v AS INT), 0), LEFT(CAST(CAST(v AS INT) AS VARCHAR(20)), 30) FROM n",
	[20] = "SELECT SUM(0 + v), AVG(0 + v) FROM n WHERE v < 4294967298",
	[21] = "SELECT n.v FROM n LEFT JOIN m ON 0 + n.v = 0 + m.w WHERE m.w IS NULL",
};
static struct et n, m;
static int ni[R], mi[1], k;
static void x_l(long v) { char b[32]; snprintf(b, sizeof b, "%ld", v); x_s(b); }
static void row(long v) { ++k; x_l(v); x_c('\n'); }
static int sorted[R + 1], ns;
static void sort(int desc)   // the values of sorted[] in order
{
	for (int i = 1; i < ns; ++i) for (int j = i; j && (desc ? V[sorted[j]] > V[sorted[j - 1]] : V[sorted[j]] < V[sorted[j - 1]]); --j) { int s = sorted[j]; sorted[j] = sorted[j - 1]; sorted[j - 1] = s; }
}
void harness(void)
{
	et_hdr(&n, "v,i");
	et_hdr(&m, "w,i");
	for (int r = 0; r < R; ++r) { ni[r] = et_any(&n, r, 0, 5, W); et_str(&n, r, 1, "x"); }
	if (strstr(sql[Q], " m")) mi[0] = et_any(&m, 0, 0, 5, W);
	else et_str(&m, 0, 0, "1");
	et_str(&m, 0, 1, "y");
	et_put(&n, "n.csv");
	et_put(&m, "m.csv");
	fqlhandle* f = e2e_new();
	x_reset();
	int got = -1, script = Q == 13, dml = Q == 11 || Q == 18;
	if (script) fql_set_print_header(f, 0);
	if (script || dml) CHECK(fql_exec(f, sql[Q]) == FQL_GOOD);
	else got = g_query(f, sql[Q]);
	long w = V[mi[0]], mn = V[ni[0]], mx = mn, s = 0;
	int c = 0;
	for (int r = 0; r < R; ++r) { long v = V[ni[r]]; mn = v < mn ? v : mn; mx = v > mx ? v : mx; sorted[r] = ni[r]; if (v < 4294967298) s += v, ++c; }
	ns = R;
	switch (Q) {
	case 0: case 17: sort(0); for (int r = 0; r < R; ++r) row(V[sorted[r]]); break;
	case 1: sort(1); for (int r = 0; r < R; ++r) row(V[sorted[r]]); break;
	case 2: ++k; x_l(mn); x_c('|'); x_l(mx); x_c('\n'); break;
	case 3: case 4: sort(Q == 4);
		for (int r = 0; r < R; ++r) {
			if (r && V[sorted[r]] == V[sorted[r - 1]]) continue;
			int q = 0;
			for (int z = 0; z < R; ++z) q += sorted[z] == sorted[r];
			++k; x_l(V[sorted[r]]);
			if (Q == 3) x_c('|'), x_l(q);
			x_c('\n');
		}
		break;
	case 14: if (mx > 4294967296) { ++k; x_l(R); x_c('\n'); } break;
	case 15: { int z = 0; for (int r = 0; r < R; ++r) if (V[ni[r]] > 1) sorted[z++] = ni[r]; sorted[z++] = mi[0]; ns = z; sort(0); for (int r = 0; r < ns; ++r) row(V[sorted[r]]); break; }
	case 20: ++k; if (c) { x_l(s); x_c('|'); x_l(s / c); } x_c('\n'); break;
	default:
		if (dml) x_s("v,i\n");
		for (int r = 0; r < R; ++r) {
			long v = V[ni[r]];
			switch (Q) {
			case 5: if (v == 1 || v == 4294967296) row(v); break;
			case 6: if (v == w) row(v); break;
			case 7: if (v == w) { ++k; x_l(v); x_c('|'); x_l(w); x_c('\n'); } break;
			case 8: ++k; x_c(v > 4294967296 ? 'g' : v == 4294967296 ? 'e' : 'l'); x_c('\n'); break;
			case 9: if (v >= 4294967297) row(v); break;
			case 10: if (v != w) row(v); break;
			case 11: x_l(v > 1 ? v - 1 : v); x_s(",x\n"); break;
			case 12: if (v < 4294967297) row(v); break;
			case 13: if (v == 4294967297 || v == 4294967296) row(v); break;
			case 16: row(v); break;
			case 18: if (v != 4294967297 && v >= 0) x_l(v), x_s(",x\n"); break;
			case 19: ++k; x_l(v); x_c('|'); x_l(v); x_c('\n'); break;
			case 21: if (v != w) row(v); break;
			}
		}
		if (script) x_s("1,4294967296\n");
	}
	if (script) CHECKX(x_stdout());
	else if (dml) CHECKX(x_file("n.csv"));
	else if (Q == 20 && !c) ;   // a sum of nothing: see C20
	else { vp_obs(got); CHECK(got == k); CHECKX(x_api()); }
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
