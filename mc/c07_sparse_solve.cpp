// C07: sparse triangular solve, reach, dfs.
#include "ref.h"
#include "big.h"
const char *harness_property = "C07";
const char *harness_assumptions[] = {"pivot entries are 1 (precondition of the solve)", NULL};

// one system: U (r x m) with unit pivots at columns piv[i]; B rows
static void run(const Mat &U, const std::vector<int> &piv, const Mat &B, int order, bool reuse)
{
	int m = U.m, r = U.n; u64 p = U.p;
	if (want_sample()) describe("U=%s B=%s order=%d", R_str(U).c_str(), R_str(B).c_str(), order);
	struct spasm_csr *u = to_csr(U, order), *b = to_csr(B, (order + 1) % 3); u64 hu = snap_csr(u), hb = snap_csr(b);
	std::vector<int> qinv(m, -1); for (int i = 0; i < r; i++) qinv[piv[i]] = i; auto qinv0 = qinv;
	std::vector<int> xj(3 * m, 0);
	std::vector<spasm_ZZp> x(m, 7654321);
	for (int k = 0; k < B.n; k++) {
		if (!reuse) { std::fill(xj.begin(), xj.end(), 0); }
		std::fill(x.begin(), x.end(), 7654321);
		int top = spasm_sparse_triangular_solve(u, b, k, xj.data(), x.data(), qinv.data()); step(); mc_traces++;
		EXPECT(0 <= top && top <= m, "top=%d", top);
		// exact support
		std::vector<int> reach(m, 0), st; for (int j = 0; j < m; j++) if (B[k][j]) st.push_back(j), reach[j] = 1;
		while (!st.empty()) { int j = st.back(); st.pop_back(); int i = qinv[j]; if (i >= 0) for (int t = 0; t < m; t++) if (U[i][t] && !reach[t]) { reach[t] = 1; st.push_back(t); } }
		std::vector<int> pos(m, -1);
		for (int px = top; px < m; px++) { int j = xj[px]; EXPECT(0 <= j && j < m, "support holds %d", j); EXPECT(pos[j] < 0, "position %d listed twice in the support", j); EXPECT(reach[j], "position %d is listed but cannot be non-zero", j); pos[j] = px; }
		Row acc(m, 0);
		for (int j = 0; j < m; j++) {
			if (reach[j]) { EXPECT(pos[j] >= 0, "position %d can be non-zero but is not listed (row %d)", j, k); EXPECT(R_canon(x[j], p), "non-canonical value"); u64 v = R_red(x[j], p);
				if (qinv[j] >= 0) { for (int t = 0; t < m; t++) if (U[qinv[j]][t]) { acc[t] = R_add(acc[t], R_mul(v, U[qinv[j]][t], p), p); if (t != j) EXPECT(pos[t] > pos[j], "support order: column %d depends on column %d listed later", t, j); } }
				else acc[j] = R_add(acc[j], v, p);
			} else EXPECT(x[j] == 7654321, "value outside the support was touched (column %d)", j);
		}
		for (int j = 0; j < m; j++) EXPECT(acc[j] == B[k][j], "multipliers and remainder do not rebuild row %d: column %d is %d, expected %d", k, j, R_bal(acc[j], p), R_bal(B[k][j], p));
		for (int j = 2 * m; j < 3 * m; j++) EXPECT(xj[j] == 0, "workspace left marked at %d", j - 2 * m);
		state(hash_bytes(xj.data() + top, (m - top) * 4, hash_bytes(x.data(), m * 4, R_hash(U))));
		if (k % 2 == 0) { int t2 = spasm_reach(u, b, k, m, xj.data(), qinv.data()); step(); EXPECT(t2 == top, "reach finds %d positions, solve %d", m - t2, m - top); std::vector<int> s(m, 0); for (int px = t2; px < m; px++) s[xj[px]]++; for (int j = 0; j < m; j++) EXPECT(s[j] == reach[j], "reach: column %d", j); }
	}
	EXPECT(snap_csr(u) == hu && snap_csr(b) == hb && qinv == qinv0, "an input was modified");
	spasm_csr_free(u); spasm_csr_free(b);
}

// k-th triangular matrix with r rows over m columns, off-diagonal values from vals; dir reverses the row order
static u64 tri_count(int r, int m, u64 nv) { u64 c = 1; for (int i = 0; i < r; i++) c *= ipow(nv, m - 1 - i); u64 pl = 1; for (int i = 0; i < r; i++) pl *= m - i; return c * pl * 2; }
static Mat tri_get(int r, int m, u64 p, const std::vector<i64> &vals, u64 k, std::vector<int> &piv)
{
	Ix x(k); int dir = x.take(2); std::vector<int> cols; for (int j = 0; j < m; j++) cols.push_back(j); piv.clear();
	for (int i = 0; i < r; i++) { int d = x.take(m - i); piv.push_back(cols[d]); cols.erase(cols.begin() + d); }
	Mat U(r, m, p); std::vector<int> dead(m, 0);
	for (int i = 0; i < r; i++) { U[i][piv[i]] = 1; dead[piv[i]] = 1; for (int j = 0; j < m; j++) if (!dead[j]) { U[i][j] = R_red(vals[x.take(vals.size())], p); } }
	if (dir) { std::reverse(U.a.begin(), U.a.end()); std::reverse(piv.begin(), piv.end()); }
	return U;
}

static Mat allB(int q) { Mat B((int) ipow(3, q), q, 3); for (u64 t = 0; t < ipow(3, q); t++) { u64 z = t; for (int j = 0; j < q; j++) { B[t][j] = z % 3; z /= 3; } } return B; }

// a long elimination: kind of dependencies x placement of the pivots
static void long_solve(int s, int kind, int place, u64 p, u64 k0)
{
	int m = s + 2; describe("long elimination of %d rows, kind %d placement %d mod %lu", s, kind, place, (unsigned long) p); auto col = [&](int t) { return place == 0 ? t : place == 1 ? m - 1 - t : sc(t, m, 11); }; auto nz = [&](int a, int b) -> u64 { u64 z = tex(a, b, k0); return z % 4 == 0 ? p / 2 : 1 + (z >> 2) % (p - 1); };
	SpM U(s, m, p); std::vector<int> qinv(m, -1); for (int i = 0; i < s; i++) { U.put(i, col(i), 1); qinv[col(i)] = i; auto put = [&](int t, u64 v) { if (t < m) U.put(i, col(t), v); }; if (kind == 0) put(i + 1, nz(i, 0)); else if (kind == 1) { put(2 * i + 1, nz(i, 0)); put(2 * i + 2, nz(i, 1)); } else if (kind == 2) { if (i == 0) for (int t = 1; t < m; t++) put(t, nz(t, 2)); else put(m - 1, nz(i, 0)); } else if (kind == 3) { put(i + 1, nz(i, 0)); put(i + 7, nz(i, 1)); } else if (i % 2 == 0) { put(i + 2, 1); put(i + 1, nz(i, 3)); } }
	SpM B(4, m, p); B.put(0, col(0), 1); B.put(1, col(m / 2), nz(1, 1)); if (col(m / 2) != col(0)) B.put(1, col(0), nz(1, 2)); B.put(2, col(m - 1), p - 1); for (int j = 0; j < m; j += 3) B.put(3, j, nz(j, 4));
	struct spasm_csr *u = sp_csr(U, k0 % 3), *b = sp_csr(B, (k0 + 1) % 3); std::vector<int> xj(3 * m, 0); std::vector<spasm_ZZp> x(m);
	for (int k = 0; k < 4; k++) {
		std::fill(x.begin(), x.end(), 7654321); int top = spasm_sparse_triangular_solve(u, b, k, xj.data(), x.data(), qinv.data()); step(); mc_traces++; std::vector<char> reach(m, 0); std::vector<int> st; for (auto &e : B.a[k]) if (!reach[e.first]) { reach[e.first] = 1; st.push_back(e.first); }
		while (!st.empty()) { int j = st.back(); st.pop_back(); int i = qinv[j]; if (i >= 0) for (auto &e : U.a[i]) if (!reach[e.first]) { reach[e.first] = 1; st.push_back(e.first); } }
		EXPECT(top >= 0 && top <= m, "top=%d", top); std::vector<int> pos(m, -1); for (int px = top; px < m; px++) { int j = xj[px]; EXPECT(j >= 0 && j < m && pos[j] < 0 && reach[j], "support holds column %d wrongly", j); pos[j] = px; } Row acc(m, 0);
		for (int j = 0; j < m; j++) { if (!reach[j]) { EXPECT(x[j] == 7654321, "value outside the support was touched (column %d)", j); continue; } EXPECT(pos[j] >= 0, "position %d can be non-zero but is not listed", j); EXPECT(R_canon(x[j], p), "non-canonical value"); u64 v = R_red(x[j], p); if (qinv[j] < 0) acc[j] = R_add(acc[j], v, p); else for (auto &e : U.a[qinv[j]]) { acc[e.first] = R_add(acc[e.first], R_mul(v, e.second, p), p); EXPECT(e.first == j || pos[e.first] > pos[j], "support order: column %d depends on column %d listed later", e.first, j); } }
		for (auto &e : B.a[k]) acc[e.first] = R_sub(acc[e.first], e.second, p); for (int j = 0; j < m; j++) EXPECT(acc[j] == 0, "multipliers and remainder do not rebuild row %d: column %d", k, j); for (int j = 2 * m; j < 3 * m; j++) EXPECT(xj[j] == 0, "workspace left marked"); state(hash_bytes(x.data(), 4 * m, top));
	}
	spasm_csr_free(u); spasm_csr_free(b);
}
void harness_register()
{
	static const std::vector<i64> v3 = {0, 1, -1}, v2 = {0, 2};
	for (int m = 1; m <= 4; m++) for (int r = 0; r <= std::min(m, 4); r++) {
		bool big = m == 4;
		const std::vector<i64> &vv = big && r >= 3 ? v2 : v3; u64 cnt = tri_count(r, m, vv.size());
		family("triangular-mod3-" + std::to_string(r) + "x" + std::to_string(m), cnt, [=](uint64_t k) {
			std::vector<int> piv; Mat U = tri_get(r, m, 3, big && r >= 3 ? v2 : v3, k, piv); run(U, piv, allB(m), k % 3, true); }, {false, 0, "all pivot placements x off-diagonal values x right-hand sides, workspace reused"});
	}
	if (tier_thorough()) family("triangular-mod3-full-4x4", tri_count(4, 4, 3) / 2, [](uint64_t k) { std::vector<int> piv; Mat U = tri_get(4, 4, 3, v3, k * 2 + k % 2, piv); run(U, piv, allB(4), k % 3, true); });
	// 0/1 triangular with 5 columns, 4 pivot rows in natural placement, all patterns, unit right-hand sides
	family("patterns-5", ipow(2, 4 + 3 + 2 + 1) * 6, [](uint64_t k) { Ix x(k); int pl = x.take(6); std::vector<int> pc = perm_get(5, pl * 19 + 1); Mat U(4, 5, 101); std::vector<int> piv; for (int i = 0; i < 4; i++) { piv.push_back(pc[i]); U[i][pc[i]] = 1; for (int t = i + 1; t < 5; t++) if (x.take(2)) U[i][pc[t]] = 2 + i + t; }
		Mat B(7, 5, 101); for (int j = 0; j < 5; j++) B[j][j] = 50; for (int j = 0; j < 5; j++) B[5][j] = j + 1; run(U, piv, B, k % 3, k % 2); });
	static auto P = primes_all();
	family("primes", P.size() * 8, [](uint64_t k) { Ix x(k); int t = x.take(8); u64 p = P[x.k], h = p / 2; Mat U(4, 6, p); std::vector<int> piv; int perm[6] = {3, 0, 5, 1, 2, 4}; for (int i = 0; i < 4; i++) { piv.push_back(perm[i]); U[i][perm[i]] = 1; for (int j = i + 1; j < 6; j++) if ((tex(i, j, t) & 3) != 0) U[i][perm[j]] = tex(i, j, t + 50) % 3 == 0 ? h : tex(i, j, t + 50) % 3 == 1 ? p - h : R_red((i64) tex(i, j, t + 60), p); }
		Mat B(5, 6, p); for (int i = 0; i < 5; i++) for (int j = 0; j < 6; j++) if (tex(i, j, t + 99) % 4) B[i][j] = tex(i, j, t + 100) % 2 ? h : p - h; run(U, piv, B, t % 3, true); });
	family("long-chains", 40, [](uint64_t k) { Ix x(k); int m = 10 + (int) x.take(10) * 17; int kind = x.take(4); u64 p = 65537; Mat U(m - 3, m, p); std::vector<int> piv; for (int i = 0; i < m - 3; i++) { int c = kind & 1 ? m - 1 - i : i; piv.push_back(c); U[i][c] = 1; for (int d : {1, 2, 5, 11}) { int t = i + d; if (t >= m) continue; if (kind < 2 && d > 1 && (tex(i, d, k) & 1)) continue; U[i][kind & 1 ? m - 1 - t : t] = 1 + tex(i, d, k) % 65000; } }
		Mat B(6, m, p); for (int i = 0; i < 6; i++) { B[i][(i * 7) % m] = 3; B[i][(i * 5 + 2) % m] = 65536; } run(U, piv, B, k % 3, true); });
	// the right-hand side is a row of the same matrix with its own pivot disabled (as in reduced-form computation)
	static const int SZ[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097};
	family("sizes", (tier_thorough() ? 36 : 30) * 6, [](uint64_t k) { Ix x(k); int kind = x.take(6), m = SZ[x.k], r = m - 1 - kind % 3; u64 p = k % 2 ? 4294967291u : 257; Mat U(r, m, p); std::vector<int> piv; auto nz = [&](int a, int b) -> u64 { u64 z = tex(a, b, k); return z % 4 == 0 ? p / 2 : 1 + (z >> 2) % (p - 1); };
		for (int i = 0; i < r; i++) { int c = kind & 1 ? m - 1 - i : i; auto put = [&](int t, u64 v) { if (t < m && t > i) U[i][kind & 1 ? m - 1 - t : t] = v; }; piv.push_back(c); U[i][c] = 1; if (kind < 2) put(i + 1, nz(i, 0)); else if (kind < 4) { put(2 * i + 1, nz(i, 0)); put(2 * i + 2, nz(i, 1)); } else { put(m - 1, nz(i, 0)); if (i == 0) for (int t = 1; t < m; t++) put(t, nz(t, 2)); } }
		Mat B(5, m, p); for (int j : {0, m / 2, m - 1}) B[0][j] = nz(j, 3); B[1][kind & 1 ? m - 1 : 0] = 1; B[2][m - 1] = p - 1; for (int j = 0; j < m; j++) B[4][j] = nz(j, 4); run(U, piv, B, k % 3, true); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	family("long", long_sizes().size() * 5 * 3, [](uint64_t k) { Ix x(k); int kind = x.take(5), place = x.take(3); long_solve(long_sizes()[x.k], kind, place, (u64[]){257, 65537, 4294967291u}[k % 3], k); }, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
