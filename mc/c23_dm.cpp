// C23: Dulmage-Mendelsohn decomposition.
#include "pat.h"
#include "sweep.h"
#include "big.h"
const char *harness_property = "C23";
const char *harness_assumptions[] = {"patterns larger than the stated sizes are covered only by the structured families", NULL};
static void one(const Pat &P, int order)
{
	if (want_sample()) describe("%s order %d", pat_str(P).c_str(), order);
	int n = P.n, m = P.m; struct spasm_csr *A = pat_csr(P, order, order == 1); u64 h0 = snap_csr(A);
	// canonical coarse sets (do not depend on the matching)
	std::vector<int> rm, cm; ref_matching(P, rm, cm);
	std::vector<int> rs(n, 2), cs(m, 2), st;   // row set: 1,2,3 (0 = unmatched); column set: 0,1,2,3
	for (int i = 0; i < n; i++) if (rm[i] < 0) { rs[i] = 0; st.push_back(i); }
	while (!st.empty()) { int i = st.back(); st.pop_back(); for (int j = 0; j < m; j++) if (P.a[i][j] && cs[j] == 2) { cs[j] = 3; int k = cm[j]; if (rs[k] == 2) { rs[k] = 3; st.push_back(k); } } }
	for (int j = 0; j < m; j++) if (cm[j] < 0) { cs[j] = 0; st.push_back(j); }
	while (!st.empty()) { int j = st.back(); st.pop_back(); for (int i = 0; i < n; i++) if (P.a[i][j] && rs[i] == 2) { rs[i] = 1; int k = rm[i]; if (cs[k] == 2) { cs[k] = 1; st.push_back(k); } } }
	// vertical part is {3, 0-rows}, horizontal part {1, 0-columns}: membership of the parts is canonical
	struct spasm_dm *D = spasm_dulmage_mendelsohn(A); step(); mc_traces++;
	std::vector<int> pr(n, -1), pc(m, -1);
	for (int k = 0; k < n; k++) { EXPECT(D->p[k] >= 0 && D->p[k] < n && pr[D->p[k]] < 0, "row order is not a permutation"); pr[D->p[k]] = k; }
	for (int k = 0; k < m; k++) { EXPECT(D->q[k] >= 0 && D->q[k] < m && pc[D->q[k]] < 0, "column order is not a permutation"); pc[D->q[k]] = k; }
	const int *rr = D->rr, *cc = D->cc; EXPECT(rr[0] == 0 && rr[4] == n && cc[0] == 0 && cc[4] == m, "coarse limits %d..%d, %d..%d", rr[0], rr[4], cc[0], cc[4]);
	for (int k = 0; k < 4; k++) EXPECT(rr[k] <= rr[k + 1] && cc[k] <= cc[k + 1], "coarse limits decrease");
	// rows: [rr0,rr1)=R1, [rr1,rr2)=R2, [rr2,rr4)=R3+R0 ; columns: [cc0,cc2)=C0+C1, [cc2,cc3)=C2, [cc3,cc4)=C3
	int nR0 = 0, nC0 = 0; for (int i = 0; i < n; i++) { int part = pr[i] < rr[1] ? 1 : pr[i] < rr[2] ? 2 : 3; int w = rs[i] == 0 ? 3 : rs[i]; EXPECT(part == w, "row %d placed in part %d, canonical part is %d", i, part, w); nR0 += rm[i] < 0; }
	for (int j = 0; j < m; j++) { int part = pc[j] < cc[2] ? 1 : pc[j] < cc[3] ? 2 : 3; int w = cs[j] == 0 ? 1 : cs[j]; EXPECT(part == w, "column %d placed in part %d, canonical part is %d", j, part, w); nC0 += cm[j] < 0; }
	EXPECT(rr[4] - rr[3] == nR0, "%d unmatched rows, block of %d", nR0, rr[4] - rr[3]); EXPECT(cc[1] - cc[0] == nC0, "%d unmatched columns, block of %d", nC0, cc[1]);
	// matched diagonals
	auto at = [&](int k, int l) { return P.a[D->p[k]][D->q[l]]; };
	EXPECT(rr[1] - rr[0] == cc[2] - cc[1] && rr[2] - rr[1] == cc[3] - cc[2] && rr[3] - rr[2] == cc[4] - cc[3], "coarse blocks do not correspond");
	for (int t = 0; t < rr[1]; t++) EXPECT(at(t, cc[1] + t), "zero on the matched diagonal of the horizontal part");
	for (int t = 0; t < rr[2] - rr[1]; t++) EXPECT(at(rr[1] + t, cc[2] + t), "zero on the diagonal of the square part");
	for (int t = 0; t < rr[3] - rr[2]; t++) EXPECT(at(rr[2] + t, cc[3] + t), "zero on the matched diagonal of the vertical part");
	for (int k = rr[1]; k < n; k++) for (int l = 0; l < cc[2]; l++) EXPECT(!at(k, l), "non-zero below the horizontal block");
	for (int k = rr[2]; k < n; k++) for (int l = 0; l < cc[3]; l++) EXPECT(!at(k, l), "non-zero below the square block");
	int S = rr[2] - rr[1];
	if (S > 0) {
		// reference fine structure: SCC of the square part with any perfect matching contracted
		Pat G(S, S); for (int a = 0; a < S; a++) for (int b = 0; b < S; b++) G.a[a][b] = at(rr[1] + a, cc[2] + b);
		auto comp = ref_scc(G); int nc = 0; for (int a = 0; a < S; a++) nc += comp[a] == a;
		EXPECT(D->nb == nc + 2, "%d fine blocks, expected %d", D->nb, nc + 2);
		EXPECT(D->r[0] == 0 && D->c[0] == 0 && D->r[D->nb] == n && D->c[D->nb] == m && D->r[1] == rr[1] && D->c[1] == cc[2] && D->r[nc + 1] == rr[2] && D->c[nc + 1] == cc[3], "fine blocks do not tile the matrix");
		for (int b = 1; b <= nc; b++) { EXPECT(D->r[b] < D->r[b + 1] && D->r[b + 1] - D->r[b] == D->c[b + 1] - D->c[b] && D->r[b] - rr[1] == D->c[b] - cc[2], "fine block %d is not square or misplaced", b); for (int a = D->r[b]; a < D->r[b + 1]; a++) EXPECT(comp[a - rr[1]] == comp[D->r[b] - rr[1]], "fine block %d is reducible", b); 
			for (int k = D->r[b + 1]; k < rr[2]; k++) for (int l = D->c[b]; l < D->c[b + 1]; l++) EXPECT(!at(k, l), "non-zero below fine block %d", b); }
		outcome(nc > 1 ? "several fine blocks" : "one fine block");
	} else outcome("no square part");
	EXPECT(snap_csr(A) == h0, "the matrix was modified"); state(hash_bytes(D->p, n * 4, hash_bytes(D->q, m * 4, hash_bytes(D->rr, 20, h0))));
}
// the matching is the library's own, certified maximum by a vertex cover; the coarse parts do not depend on it
static void long_dm(const SpM &S, int order, const char *nm)
{
	int n = S.n, m = S.m; describe("%s of %d x %d, order %d", nm, n, m, order); auto g = sp_adj(S), gt = sp_adj(sp_transpose(S)); struct spasm_csr *A = sp_csr(S, order, order == 1); u64 h0 = snap_csr(A); std::vector<int> rm(n), cm(m); int k = spasm_maximum_matching(A, rm.data(), cm.data()); step(); std::vector<char> rz, cz, rh, ch; EXPECT(sp_cover(g, m, rm.data(), cm.data(), rz, cz) == k, "the matching is not maximum"); sp_cover(gt, n, cm.data(), rm.data(), ch, rh);
	struct spasm_dm *D = spasm_dulmage_mendelsohn(A); step(); mc_traces++; const int *rr = D->rr, *cc = D->cc; std::vector<int> pr(n, -1), pc(m, -1); EXPECT(rr[0] == 0 && rr[4] == n && cc[0] == 0 && cc[4] == m, "coarse limits");
	for (int t = 0; t < n; t++) { EXPECT(D->p[t] >= 0 && D->p[t] < n && pr[D->p[t]] < 0, "row order is not a permutation"); pr[D->p[t]] = t; } for (int t = 0; t < m; t++) { EXPECT(D->q[t] >= 0 && D->q[t] < m && pc[D->q[t]] < 0, "column order is not a permutation"); pc[D->q[t]] = t; }
	for (int i = 0; i < n; i++) { int part = pr[i] < rr[1] ? 1 : pr[i] < rr[2] ? 2 : 3; EXPECT(part == (rz[i] ? 3 : rh[i] ? 1 : 2), "row %d placed in part %d", i, part); } for (int j = 0; j < m; j++) { int part = pc[j] < cc[2] ? 1 : pc[j] < cc[3] ? 2 : 3; EXPECT(part == (cz[j] ? 3 : ch[j] ? 1 : 2), "column %d placed in part %d", j, part); }
	EXPECT(rr[4] - rr[3] == n - k && cc[1] == m - k, "unmatched blocks of %d rows and %d columns", rr[4] - rr[3], cc[1]); EXPECT(rr[1] == cc[2] - cc[1] && rr[2] - rr[1] == cc[3] - cc[2] && rr[3] - rr[2] == cc[4] - cc[3], "coarse blocks do not correspond");
	for (int i = 0; i < n; i++) { int t = pr[i], want = t < rr[1] ? cc[1] + t : t < rr[2] ? cc[2] + t - rr[1] : t < rr[3] ? cc[3] + t - rr[2] : -1; bool d = want < 0; for (int j : g[i]) { d |= pc[j] == want; EXPECT(!(t >= rr[1] && pc[j] < cc[2]) && !(t >= rr[2] && pc[j] < cc[3]), "entry (%d,%d) below the coarse blocks", i, j); } EXPECT(d, "zero on the matched diagonal, row %d", i); }
	int Q = rr[2] - rr[1]; if (Q > 0) { std::vector<std::vector<int>> sq(Q); for (int a = 0; a < Q; a++) for (int j : g[D->p[rr[1] + a]]) if (pc[j] >= cc[2] && pc[j] < cc[3]) sq[a].push_back(pc[j] - cc[2]); auto comp = sp_scc(sq); int nc = 0; for (int c : comp) nc = std::max(nc, c + 1); EXPECT(D->nb == nc + 2, "%d fine blocks, expected %d", D->nb, nc + 2); EXPECT(D->r[0] == 0 && D->c[0] == 0 && D->r[D->nb] == n && D->c[D->nb] == m && D->r[1] == rr[1] && D->c[1] == cc[2] && D->r[nc + 1] == rr[2] && D->c[nc + 1] == cc[3], "fine blocks do not tile the matrix"); std::vector<int> blk(Q);
		for (int b = 1; b <= nc; b++) { EXPECT(D->r[b] < D->r[b + 1] && D->r[b] - rr[1] == D->c[b] - cc[2], "fine block %d is misplaced", b); for (int a = D->r[b]; a < D->r[b + 1]; a++) { blk[a - rr[1]] = b; EXPECT(comp[a - rr[1]] == comp[D->r[b] - rr[1]], "fine block %d is reducible", b); } } for (int a = 0; a < Q; a++) for (int b : sq[a]) EXPECT(blk[a] <= blk[b], "entry below fine block %d", blk[b]); }
	EXPECT(snap_csr(A) == h0, "the matrix was modified"); state(hash_bytes(D->p, n * 4, hash_bytes(D->q, m * 4))); spasm_dm_free(D); spasm_csr_free(A);
}
void harness_register()
{
	for (int n = 0; n <= 3; n++) for (int m = 0; m <= 3; m++) family("patterns-" + std::to_string(n) + "x" + std::to_string(m), ipow(2, n * m) * 3, [=](uint64_t k) { Ix x(k); int o = x.take(3); one(pat_enum(n, m, x.k), o); }, {false, 0, "all patterns x entry orders"});
	for (auto nm : std::vector<std::pair<int, int>>{{1, 5}, {5, 1}, {2, 5}, {5, 2}, {3, 4}, {4, 3}, {3, 5}, {5, 3}, {4, 4}}) { int n = nm.first, m = nm.second; family("patterns-" + std::to_string(n) + "x" + std::to_string(m), ipow(2, n * m) * 3, [=](uint64_t k) { Ix x(k); int o = x.take(3); one(pat_enum(n, m, x.k), o); }); }
	family("zero-free-diagonal-5x5", (u64) 1 << 20, [](uint64_t k) { Pat P(5, 5); u64 z = k; for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) if (i != j) { P.a[i][(j + 2) % 5] = z & 1; z >>= 1; } else P.a[i][(i + 2) % 5] = 1; one(P, k % 3); }, {true});
	static auto rows = [](int m) { std::vector<int> v = {0}; for (int a = 0; a < m; a++) { v.push_back(1 << a); for (int b = 0; b < a; b++) v.push_back(1 << a | 1 << b); } return v; };
	static auto r5 = rows(5);
	family("5x5-two-per-row", ipow(r5.size(), 5), [](uint64_t k) { int o = k % 3; Pat P(5, 5); for (int i = 0; i < 5; i++) { int w = r5[k % r5.size()]; k /= r5.size(); for (int j = 0; j < 5; j++) P.a[i][j] = w >> j & 1; } one(P, o); });
	family("4x5-all", 1 << 20, [](uint64_t k) { one(pat_enum(4, 5, k), k % 3); }, {true});
	family("5x4-all", 1 << 20, [](uint64_t k) { one(pat_enum(5, 4, k), k % 3); }, {true});
	family("larger", 600, [](uint64_t k) { Ix x(k); int o = x.take(3), kind = x.take(5), n = 6 + (int) x.k, m = n + (kind - 2) * 3 / 2; Pat P(n, m); for (int i = 0; i < n; i++) { P.a[i][tex(i, n) % m] = 1; if (kind != 1) P.a[i][tex(i, n, 1) % m] = 1; if (i < m && kind != 3) P.a[i][i] = 1; if (tex(i, n, 5) % 3 == 0) P.a[i][(i * 3 + 1) % m] = 1; } one(P, o); });
	static auto SL = sweep_list(tier_thorough() ? 4097 : 2049, tier_thorough() ? 1025 : 513); u64 nsl = SL.size();
	family("sizes", nsl * 3, [=](uint64_t k) { Ix x(k); auto &z = SL[x.take(nsl)]; Mat M = sweep_mat(z.shape, z.size, 257); Pat Q(M.n, M.m); for (int i = 0; i < M.n; i++) for (int j = 0; j < M.m; j++) Q.a[i][j] = M[i][j] != 0; one(Q, x.k); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	// every combination of sizes of the three parts, small ones beside large ones
	static const int PZ[] = {0, 1, 2, 3, 17, 40, 64, 129, 200}; static const int NPZ = 7; int npz = tier_thorough() ? 9 : NPZ;
	family("parts", (u64) npz * npz * npz * 3 * 2, [=](uint64_t k) { Ix x(k); int mix = x.take(2), o = x.take(3), h = PZ[x.take(npz)], q = PZ[x.take(npz)], v = PZ[x.take(npz)], n = h + q + 2 * v, m = 2 * h + q + v; if (n > 420 || m > 420) return; Pat B(n, m);
		for (int i = 0; i < h; i++) B.a[i][2 * i] = B.a[i][2 * i + 1] = 1; for (int i = 0; i < q; i++) { int a = h + i, b = 2 * h + i; B.a[a][b] = 1; if (i % 3 == 0 && i + 1 < q) B.a[a][b + 1] = B.a[a + 1][b] = 1; else if (i + 2 < q) B.a[a][b + 2] = 1; } for (int i = 0; i < v; i++) B.a[h + q + 2 * i][2 * h + q + i] = B.a[h + q + 2 * i + 1][2 * h + q + i] = 1;
		if (mix) { if (h && q) B.a[h / 2][2 * h + q / 2] = 1; if (h && v) B.a[h - 1][m - 1] = B.a[0][2 * h + q] = 1; if (q && v) B.a[h + q - 1][m - 1] = B.a[h][2 * h + q + v / 2] = 1; }
		Pat P(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (B.a[i][j]) P.a[o ? (i64) (n - 1 - i) : i][o == 2 ? m - 1 - j : j] = 1; one(P, o); }, {false, 60, "all combinations of sizes of the horizontal, square and vertical parts"});
	family("long", long_sizes().size() * (LP_SHAPES + 2) * 2, [](uint64_t k) { Ix x(k); int kind = x.take(LP_SHAPES + 2), tr = x.take(2), s = long_sizes()[x.k]; SpM S = kind < LP_SHAPES ? sp_pattern(kind, s, 257) : sp_blocks(s, 257, kind, kind > LP_SHAPES); long_dm(tr ? sp_transpose(S) : S, k % 3, kind < LP_SHAPES ? LP_NAME[kind] : "direct sum"); }, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
