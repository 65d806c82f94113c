// C24: strongly connected components.
#include "pat.h"
#include "big.h"
const char *harness_property = "C24";
const char *harness_assumptions[] = {"graphs larger than the stated sizes are covered only by the structured families", NULL};
static void one(const Pat &P, int order)
{
	if (want_sample()) describe("%s order %d", pat_str(P).c_str(), order);
	int n = P.n; struct spasm_csr *A = pat_csr(P, order, order == 1); u64 h0 = snap_csr(A); auto comp = ref_scc(P); int nc = 0; for (int i = 0; i < n; i++) nc += comp[i] == i;
	struct spasm_dm *D = spasm_strongly_connected_components(A); step(); mc_traces++;
	EXPECT(D->nb == nc, "%d components reported, %d exist", D->nb, nc);
	std::vector<char> s(n, 0), t(n, 0); for (int k = 0; k < n; k++) { EXPECT(D->p[k] >= 0 && D->p[k] < n && !s[D->p[k]], "row order is not a permutation"); s[D->p[k]] = 1; EXPECT(D->q[k] == D->p[k], "row and column orders differ at %d", k); }
	EXPECT(D->r[0] == 0 && D->r[nc] == n, "blocks do not tile: start %d end %d", D->r[0], D->r[nc]);
	std::vector<int> blk(n, -1);
	for (int b = 0; b < nc; b++) { EXPECT(D->r[b] < D->r[b + 1], "block %d is empty", b); for (int k = D->r[b]; k < D->r[b + 1]; k++) { blk[D->p[k]] = b; EXPECT(comp[D->p[k]] == comp[D->p[D->r[b]]], "block %d mixes components of %d and %d", b, D->p[k], D->p[D->r[b]]); } }
	for (int b = 0; b <= nc; b++) EXPECT(D->c[b] == D->r[b], "row and column block limits differ");
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (P.a[i][j]) EXPECT(blk[i] <= blk[j], "entry (%d,%d) below the diagonal blocks (%d > %d)", i, j, blk[i], blk[j]);
	EXPECT(snap_csr(A) == h0, "the matrix was modified"); state(hash_bytes(D->p, n * 4, hash_bytes(D->r, (nc + 1) * 4, h0))); 
}
static void long_scc(const SpM &S, int order, const char *nm)
{
	int n = S.n; describe("%s with %d vertices, order %d", nm, n, order); auto g = sp_adj(S); auto comp = sp_scc(g); int nc = 0; for (int c : comp) nc = std::max(nc, c + 1); struct spasm_csr *A = sp_csr(S, order, order == 1); u64 h0 = snap_csr(A);
	struct spasm_dm *D = spasm_strongly_connected_components(A); step(); mc_traces++; EXPECT(D->nb == nc, "%d components reported, %d exist", D->nb, nc); std::vector<int> blk(n, -1);
	EXPECT(D->r[0] == 0 && D->r[nc] == n, "blocks do not tile"); for (int b = 0; b <= nc; b++) EXPECT(D->c[b] == D->r[b], "row and column block limits differ");
	for (int b = 0; b < nc; b++) { EXPECT(D->r[b] < D->r[b + 1], "block %d is empty", b); for (int k = D->r[b]; k < D->r[b + 1]; k++) { int v = D->p[k]; EXPECT(v >= 0 && v < n && blk[v] < 0, "row order is not a permutation"); EXPECT(D->q[k] == v, "row and column orders differ at %d", k); blk[v] = b; EXPECT(comp[v] == comp[D->p[D->r[b]]], "block %d mixes components", b); } }
	for (int i = 0; i < n; i++) for (int j : g[i]) EXPECT(blk[i] <= blk[j], "entry (%d,%d) below the diagonal blocks", i, j); EXPECT(snap_csr(A) == h0, "the matrix was modified"); state(hash_bytes(D->p, n * 4, nc)); spasm_dm_free(D); spasm_csr_free(A);
}
void harness_register()
{
	for (int n = 0; n <= 3; n++) family("graphs-" + std::to_string(n), ipow(2, n * n) * 3, [=](uint64_t k) { Ix x(k); int o = x.take(3); one(pat_enum(n, n, x.k), o); }, {false, 0, "all directed graphs x entry orders"});
	family("graphs-4", 65536 * 3, [=](uint64_t k) { Ix x(k); int o = x.take(3); one(pat_enum(4, 4, x.k), o); }, {false, 0, "all directed graphs x entry orders"});
	// all loop-free graphs on 5 vertices
	family("graphs-5-noloop", (u64) 1 << 20, [](uint64_t k) { Pat P(5, 5); u64 z = k; for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) if (i != j) { P.a[i][j] = z & 1; z >>= 1; } one(P, k % 3); });
	static auto rows = [](int m) { std::vector<int> v = {0}; for (int a = 0; a < m; a++) { v.push_back(1 << a); for (int b = 0; b < a; b++) v.push_back(1 << a | 1 << b); } return v; };
	static auto r6 = rows(6);
	family("graphs-6-outdegree-2", ipow(r6.size(), 4) * 16, [](uint64_t k) { int o = k % 3; Pat P(6, 6); for (int i = 0; i < 4; i++) { int w = r6[k % r6.size()]; k /= r6.size(); for (int j = 0; j < 6; j++) P.a[i][j] = w >> j & 1; } P.a[4][k & 3] = 1; P.a[5][4 - (k >> 2 & 3)] = 1; one(P, o); }, {true});
	family("functional-graphs-7", ipow(7, 6), [](uint64_t k) { int o = k % 3; Pat P(7, 7); P.a[6][3] = 1; for (int i = 0; i < 6; i++) { P.a[i][k % 7] = 1; k /= 7; } one(P, o); }, {false, 0, "out-degree one"});
	family("larger", 400, [](uint64_t k) { Ix x(k); int o = x.take(2), kind = x.take(5), n = 5 + (int) x.k; Pat P(n, n); for (int i = 0; i < n; i++) { if (kind == 0) P.a[i][(i + 1) % n] = 1; else if (kind == 1) { if (i + 1 < n) P.a[i][i + 1] = 1; if (i % 5 == 4) P.a[i][i - 3] = 1; } else if (kind == 2) { P.a[i][tex(i, n) % n] = 1; P.a[i][tex(i, n, 1) % n] = 1; } else if (kind == 3) { if (i) P.a[i][i - 1] = 1; if (i % 4 == 0 && i + 2 < n) P.a[i][i + 2] = 1; } else { P.a[i][i] = 1; if (i % 3) P.a[i][i / 2] = 1; P.a[i / 2][i] = tex(i, n, 3) % 2; } } one(P, o); });
	static const int SZ[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025};
	family("sizes", (tier_thorough() ? 30 : 24) * 7 * 3, [](uint64_t k) { Ix x(k); int o = x.take(3), kind = x.take(7), n = SZ[x.k], h = 1; while (h * h < n) h++; Pat P(n, n);
		for (int i = 0; i < n; i++) { if (kind == 0 && i) P.a[i][i - 1] = 1; else if (kind == 1) P.a[i][(i + n - 1) % n] = 1; else if (kind == 2) { P.a[i][i / h * h + (i + 1) % h < n ? i / h * h + (i + 1) % h : i / h * h] = 1; if (i % h == 0 && i >= h) P.a[i][i - h] = 1; } else if (kind == 3) { P.a[0][i] = 1; if (i % 2) P.a[i][0] = 1; } else if (kind == 4) { P.a[i][tex(i, n) % n] = 1; P.a[i][tex(i, n, 1) % n] = 1; } else if (kind == 5) { if (i + 1 < n) P.a[i][i + 1] = 1; if (i % 17 == 16) P.a[i][i - 16] = 1; } else { for (int j = 0; j < i; j += 1 + i / 8) P.a[i][j] = 1; } } one(P, o); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	family("long", long_sizes().size() * LP_SHAPES * 3, [](uint64_t k) { Ix x(k); int kind = x.take(LP_SHAPES), o = x.take(3); long_scc(sp_pattern(kind, long_sizes()[x.k], 257), o, LP_NAME[kind]); }, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
