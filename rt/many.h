// Tables of some hundred records with distinct keys, and a few more records whose keys are picked among them by the solver: tables, groups, lists and queues outgrow every fixed size.
#define ER 330
#include "e2e.h"
#ifndef N
#define N 290
#endif
#define M 3
static const char* const sql[] = {
	[0] = "SELECT g, COUNT(*), SUM(v + 0) FROM t GROUP BY g",
	[1] = "SELECT g, MAX(v + 0), MIN(v + 0) FROM t GROUP BY g HAVING COUNT(*) > 1",
	[2] = "SELECT DISTINCT g FROM t",
	[3] = "SELECT g, v FROM t ORDER BY g DESC, v",
	[4] = "SELECT g, v FROM t WHERE g IN (SELECT g FROM u)",
	[5] = "SELECT u.v, t.g FROM u JOIN t ON u.g = t.g",
	[6] = "SELECT t.g, u.v FROM t LEFT JOIN u ON t.g = u.g WHERE u.v IS NOT NULL",
	[7] = "SELECT COUNT(*), SUM(v + 0), MAX(g), MIN(g), AVG(v + 0) FROM t",
	[8] = "SELECT u.v FROM u WHERE g NOT IN (SELECT g FROM t WHERE v = '2')",
	[9] = "SELECT q.g, q.c FROM (SELECT g, COUNT(*) AS c FROM t GROUP BY g) AS q WHERE q.c > 1",
	[10] = "SELECT g FROM u UNION ALL SELECT g FROM t WHERE v <> '1'",
	[11] = "SELECT i + 0, COUNT(*) FROM t GROUP BY i + 0 ORDER BY 2 DESC, 1 DESC",
	[12] = "SELECT TOP 3 g, v FROM t ORDER BY v DESC, g",
	[13] = "UPDATE t SET v = 'z' WHERE g IN (SELECT g FROM u)",
	[14] = "DELETE t FROM t JOIN u ON t.g = u.g",
	[15] = "SELECT DISTINCT g, v FROM t ORDER BY g",
	[16] = "SELECT x.v, y.g FROM u AS x JOIN t AS y ON x.g = y.g JOIN t AS z ON z.g = y.g AND z.v = '1'",
};
static struct et t, u;
static int key[N + M], val[N + M], ukey[2];
static const int at[] = {0, 37, 255, 256, N - 1};
static int k;
static void kname(int n, char* b) { b[0] = 'k'; b[1] = '0' + n / 100; b[2] = '0' + n / 10 % 10; b[3] = '0' + n % 10; b[4] = 0; }
static void x_k(int n) { char b[8]; kname(n, b); x_s(b); }
static int in_u(int n) { return ukey[0] == n || ukey[1] == n; }
void harness(void)
{
	et_hdr(&t, "g,v,i");
	et_hdr(&u, "g,v");
	for (int r = 0; r < N + M; ++r) {
		char b[8];
		if (r < N) key[r] = r;
		else {
			int p = r == N ? vp_fix(vp_range(0, 4, "key")) : (r - N) * 2;
			key[r] = at[p];
		}
		val[r] = r < N ? 1 : r - N == 1 ? 2 : 3;
		if (r == N) val[r] = vp_fix(vp_range(1, 3, "v"));
		kname(key[r], b);
		et_str(&t, r, 0, b);
		et_str(&t, r, 1, val[r] == 1 ? "1" : val[r] == 2 ? "2" : "3");
		et_str(&t, r, 2, b + 1);
	}
	for (int r = 0; r < 2; ++r) {
		char b[8];
		ukey[r] = r ? at[1] : at[strstr(sql[Q], " u") ? vp_fix(vp_range(0, 4, "ukey")) : 3];
		kname(ukey[r], b);
		et_str(&u, r, 0, b);
		et_str(&u, r, 1, r ? "b" : "a");
	}
	et_put(&t, "t.csv");
	et_put(&u, "u.csv");
	fqlhandle* f = e2e_new();
#ifdef PF
	fql_set_pipe_factor(f, PF);
#endif
	int n = 0, dml = Q == 13 || Q == 14;
	if (dml) CHECK(fql_exec(f, sql[Q]) == FQL_GOOD);
	else n = g_query(f, sql[Q]);
	x_reset();
	switch (Q) {
	case 0: case 1: case 9: case 2: case 15:
		for (int i = 0; i < N; ++i) {
			int c = 0, s = 0, mx = 0, mn = 9, has[4] = {0};
			for (int r = 0; r < N + M; ++r) if (key[r] == i) ++c, s += val[r], mx = val[r] > mx ? val[r] : mx, mn = val[r] < mn ? val[r] : mn, has[val[r]] = 1;
			if ((Q == 1 || Q == 9) && c < 2) continue;
			if (Q == 15) {
				// the order among equal keys is that of the table
				int seen[4] = {0};
				for (int r = 0; r < N + M; ++r) if (key[r] == i && !seen[val[r]]) { seen[val[r]] = 1; ++k; x_k(i); x_c('|'); x_int(val[r]); x_c('\n'); }
				continue;
			}
			++k;
			x_k(i);
			if (Q == 0) { x_c('|'); x_int(c); x_c('|'); x_int(s); }
			if (Q == 1) { x_c('|'); x_int(mx); x_c('|'); x_int(mn); }
			if (Q == 9) { x_c('|'); x_int(c); }
			x_c('\n');
		}
		break;
	case 3: for (int i = N - 1; i >= 0; --i) for (int v = 1; v < 4; ++v) for (int r = 0; r < N + M; ++r) if (key[r] == i && val[r] == v) { ++k; x_k(i); x_c('|'); x_int(v); x_c('\n'); } break;
	case 4: for (int r = 0; r < N + M; ++r) if (in_u(key[r])) { ++k; x_k(key[r]); x_c('|'); x_int(val[r]); x_c('\n'); } break;
	case 5: for (int p = 0; p < 2; ++p) for (int r = 0; r < N + M; ++r) if (ukey[p] == key[r]) { ++k; x_c('a' + p); x_c('|'); x_k(key[r]); x_c('\n'); } break;
	case 16: for (int p = 0; p < 2; ++p) for (int r = 0; r < N + M; ++r) if (ukey[p] == key[r]) for (int z = 0; z < N + M; ++z) if (key[z] == key[r] && val[z] == 1) { ++k; x_c('a' + p); x_c('|'); x_k(key[r]); x_c('\n'); } break;
	case 6: for (int r = 0; r < N + M; ++r) for (int p = 0; p < 2; ++p) if (ukey[p] == key[r]) { ++k; x_k(key[r]); x_c('|'); x_c('a' + p); x_c('\n'); } break;
	case 7: {
		int s = 0;
		for (int r = 0; r < N + M; ++r) s += val[r];
		++k;
		x_int(N + M); x_c('|'); x_int(s); x_c('|'); x_k(N - 1); x_c('|'); x_k(0); x_c('|'); x_int(s / (N + M)); x_c('\n');
		break;
	}
	case 8:
		for (int p = 0; p < 2; ++p) {
			int in = 0;
			for (int r = 0; r < N + M; ++r) in |= key[r] == ukey[p] && val[r] == 2;
			if (!in) { ++k; x_c('a' + p); x_c('\n'); }
		}
		break;
	case 10: for (int p = 0; p < 2; ++p) { ++k; x_k(ukey[p]); x_c('\n'); } for (int r = 0; r < N + M; ++r) if (val[r] != 1) { ++k; x_k(key[r]); x_c('\n'); } break;
	case 11:
		for (int c = M + 1; c; --c) for (int i = N - 1; i >= 0; --i) {
			int z = 0;
			for (int r = 0; r < N + M; ++r) z += key[r] == i;
			if (z == c) { ++k; x_int(i); x_c('|'); x_int(c); x_c('\n'); }
		}
		break;
	case 12: for (int v = 3; v; --v) for (int i = 0; i < N; ++i) for (int r = 0; r < N + M; ++r) if (key[r] == i && val[r] == v && k < 3) { ++k; x_k(i); x_c('|'); x_int(v); x_c('\n'); } break;
	case 13: case 14:
		x_s("g,v,i\n");
		for (int r = 0; r < N + M; ++r) {
			int in = in_u(key[r]);
			if (in && Q == 14) continue;
			x_k(key[r]); x_c(','); if (in) x_c('z'); else x_int(val[r]); x_c(','); x_cell(&t, r, 2); x_c('\n');
		}
		break;
	}
	if (dml) CHECKX(x_file("t.csv"));
	else { vp_obs(n); CHECK(n == k); CHECKX(x_api()); }
	fql_free(f);
	CHECK(vfs_open_files() == 0);
}
