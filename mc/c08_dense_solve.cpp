// C08: dense triangular solves.
#include "ref.h"
#include "big.h"
const char *harness_property = "C08";
const char *harness_assumptions[] = {"matrices satisfy the documented triangularity preconditions", NULL};
static std::vector<spasm_ZZp> bal(const Row &r, u64 p) { std::vector<spasm_ZZp> v; for (u64 e : r) v.push_back(R_bal(e, p)); return v; }
static Row red(const std::vector<spasm_ZZp> &v, u64 p) { Row r; for (auto e : v) { EXPECT(R_canon(e, p), "non-canonical result %d", e); r.push_back(R_red(e, p)); } return r; }

static void back(const Mat &L, const std::vector<int> &pr, const std::vector<Row> &bs, int order, bool ident)
{
	u64 p = L.p; if (want_sample()) describe("L=%s", R_str(L).c_str()); struct spasm_csr *C = to_csr(L, order); u64 h0 = snap_csr(C); auto P = pr; P.push_back(0);
	for (auto &b : bs) {
		auto vb = bal(b, p); std::vector<spasm_ZZp> x(L.n, 1234567 % (int) (p / 2 + 1));
		if (L.n == 0) x.reserve(1); if (L.m == 0) vb.reserve(1);
		spasm_dense_back_solve(C, vb.data(), x.data(), ident ? NULL : P.data()); step(); mc_traces++;
		Row w = R_vecmat(red(x, p), L); for (int j = 0; j < L.m; j++) EXPECT(w[j] == b[j], "x.L differs from b at column %d: %d instead of %d", j, R_bal(w[j], p), R_bal(b[j], p));
		state(hash_bytes(x.data(), x.size() * 4, R_hash(L)));
	}
	EXPECT(snap_csr(C) == h0, "L was modified"); spasm_csr_free(C);
}
static void fwd(const Mat &U, const std::vector<int> &q, const std::vector<Row> &bs, int order, bool ident)
{
	u64 p = U.p; if (want_sample()) describe("U=%s", R_str(U).c_str()); struct spasm_csr *C = to_csr(U, order); u64 h0 = snap_csr(C); auto Q = q; Q.push_back(0);
	for (auto &b : bs) {
		auto vb = bal(b, p); std::vector<spasm_ZZp> x(U.n, 1 % (int) (p / 2 + 1)); if (U.n == 0) x.reserve(1); if (U.m == 0) vb.reserve(1);
		bool ok = spasm_dense_forward_solve(C, vb.data(), x.data(), ident ? NULL : Q.data()); step(); mc_traces++;
		bool solv = true; if (U.n <= 64) { Mat B(1, U.m, p); B[0] = b; solv = R_rank(R_stack(U, B)) == U.n; } else { Row w = b; for (int i = 0; i < U.n; i++) { u64 c = w[Q[i]]; if (c) for (int j = 0; j < U.m; j++) if (U[i][j]) w[j] = R_sub(w[j], R_mul(c, U[i][j], p), p); } for (u64 e : w) solv &= e == 0; }
		EXPECT(ok == solv, "returned %d but the system is %ssolvable", ok, solv ? "" : "un"); outcome(ok ? "solvable" : "unsolvable");
		if (ok) { Row w = R_vecmat(red(x, p), U); for (int j = 0; j < U.m; j++) EXPECT(w[j] == b[j], "x.U differs from b at column %d: %d instead of %d", j, R_bal(w[j], p), R_bal(b[j], p)); }
		state(hash_bytes(x.data(), x.size() * 4, R_hash(U, ok)));
	}
	EXPECT(snap_csr(C) == h0, "U was modified"); spasm_csr_free(C);
}
static std::vector<Row> all_rows(int m, u64 p) { std::vector<Row> v; for (u64 t = 0; t < ipow(p, m); t++) { Row r(m); u64 z = t; for (auto &e : r) { e = z % p; z /= p; } v.push_back(r); } return v; }

static void long_dense(int s, int kind, int place, u64 p, u64 k0)
{
	int m = s + 3; describe("long dense solves of %d rows, kind %d placement %d mod %lu", s, kind, place, (unsigned long) p); auto sp = [&](int t) { return place == 0 ? t : place == 1 ? m - 1 - t : sc(t, m, 11); }; auto nz = [&](int a, int b) -> u64 { u64 z = tex(a, b, k0); return z % 4 == 0 ? p / 2 : 1 + (z >> 2) % (p - 1); };
	// U: s x m, L: m x s
	SpM U(s, m, p), L(m, s, p); std::vector<int> q(s), pr(s); for (int i = 0; i < s; i++) { q[i] = pr[i] = sp(i); auto put = [&](int t, u64 v) { if (t < m) U.put(i, sp(t), v); }; U.put(i, sp(i), 1); if (kind == 0) put(i + 1, nz(i, 0)); else if (kind == 1) { put(2 * i + 1, nz(i, 0)); put(2 * i + 2, nz(i, 1)); } else if (kind == 2) { if (i == 0) for (int t = 1; t < m; t++) put(t, nz(t, 2)); else put(m - 1, nz(i, 0)); } else put(m - 1 - i % 3, nz(i, 1));
		int r = sp(i); if (kind == 0 && i) L.put(r, i - 1, nz(i, 5)); if (kind == 1) { if (i) L.put(r, (i - 1) / 2, nz(i, 5)); } if (kind == 2 && i == s - 1) for (int j = 0; j < s - 1; j++) L.put(r, j, nz(j, 6)); L.put(r, i, nz(i, 7)); } for (int i = s; i < m; i++) L.put(sp(i), i % s, 1);
	Row y(s); for (int i = 0; i < s; i++) y[i] = i % 3 ? nz(i, 8) : 0; Row b = sp_vecmat(y, U); struct spasm_csr *u = sp_csr(U, k0 % 3), *l = sp_csr(L, (k0 + 1) % 3);
	for (int t = 0; t < 4; t++) { Row c = b; if (t == 1) c[sp(m - 1)] = R_add(c[sp(m - 1)], 1, p); if (t == 2) c[sp(s)] = R_sub(c[sp(s)], 1, p); if (t == 3) std::fill(c.begin(), c.end(), 0); auto vb = bal(c, p); std::vector<spasm_ZZp> x(s, 1); bool ok = spasm_dense_forward_solve(u, vb.data(), x.data(), q.data()); step(); mc_traces++; EXPECT(ok == (t % 3 == 0), "returned %d but the system is %ssolvable", ok, t % 3 == 0 ? "" : "un"); if (ok) EXPECT(sp_vecmat(red(x, p), U) == c, "x.U differs from b"); state(hash_bytes(x.data(), 4 * s, t)); }
	for (int t = 0; t < 2; t++) { Row c(s); for (int j = 0; j < s; j++) c[j] = t ? nz(j, 9) : j == s - 1; auto vb = bal(c, p); std::vector<spasm_ZZp> x(m, 1); spasm_dense_back_solve(l, vb.data(), x.data(), pr.data()); step(); mc_traces++; EXPECT(sp_vecmat(red(x, p), L) == c, "x.L differs from b"); state(hash_bytes(x.data(), 4 * m, t)); }
	spasm_csr_free(u); spasm_csr_free(l);
}
void harness_register()
{
	static const std::vector<i64> off = {0, 1, -1}, dg = {1, -1};
	// L: n x r, pivot rows an injection, column j of pivot row j non-zero, columns > j zero; other rows free
	for (int n = 0; n <= 4; n++) for (int r = 0; r <= std::min(n, 3); r++) {
		u64 pl = 1; for (int i = 0; i < r; i++) pl *= n - i; u64 cnt = pl * ipow(2, r); for (int j = 0; j < r; j++) cnt *= ipow(3, j); cnt *= ipow(3, (n - r) * r); u64 stride = 1; if (cnt > (tier_thorough() ? 3000000u : 200000u)) stride = cnt / (tier_thorough() ? 1000000 : 30000) | 1;
		if (stride > 1) cnt /= stride;
		family("lower-" + std::to_string(n) + "x" + std::to_string(r), cnt, [=](uint64_t k) {
			Ix x(k * stride); std::vector<int> rows, P; for (int i = 0; i < n; i++) rows.push_back(i); for (int i = 0; i < r; i++) { int d = x.take(n - i); P.push_back(rows[d]); rows.erase(rows.begin() + d); }
			Mat L(n, r, 3); for (int j = 0; j < r; j++) { L[P[j]][j] = R_red(dg[x.take(2)], 3); for (int t = 0; t < j; t++) L[P[j]][t] = x.take(3); } for (int i : rows) for (int j = 0; j < r; j++) L[i][j] = x.take(3);
			bool id = true; for (int j = 0; j < r; j++) id &= P[j] == j; auto bs = all_rows(r, 3); back(L, P, bs, k % 3, false); if (id) back(L, P, bs, k % 3, true); }, {false, 0, stride > 1 ? "every s-th of the space" : "all permuted lower-triangular matrices x all right-hand sides"});
	}
	for (int m = 0; m <= 4; m++) for (int n = 0; n <= std::min(m, 3); n++) {
		u64 cnt = 1; for (int i = 0; i < n; i++) cnt *= (m - i) * ipow(3, m - 1 - i); u64 stride = 1; if (cnt > (tier_thorough() ? 3000000u : 200000u)) stride = cnt / (tier_thorough() ? 1000000 : 30000) | 1; cnt /= stride;
		family("upper-" + std::to_string(n) + "x" + std::to_string(m), cnt, [=](uint64_t k) {
			Ix x(k * stride); std::vector<int> cols, Q; for (int j = 0; j < m; j++) cols.push_back(j); Mat U(n, m, 3);
			for (int i = 0; i < n; i++) { int d = x.take(m - i); Q.push_back(cols[d]); cols.erase(cols.begin() + d); U[i][Q[i]] = 1; for (int j : cols) U[i][j] = x.take(3); }
			bool id = true; for (int i = 0; i < n; i++) id &= Q[i] == i; auto bs = all_rows(m, 3); fwd(U, Q, bs, k % 3, false); if (id) fwd(U, Q, bs, k % 3, true); }, {false, 0, stride > 1 ? "every s-th of the space" : "all permuted upper-triangular matrices x all right-hand sides"});
	}
	static auto P = primes_all();
	family("primes", P.size() * 12, [](uint64_t k) { Ix x(k); int t = x.take(12); u64 p = P[x.k], h = p / 2; int n = 4, r = 3; auto pr = perm_get(4, t * 2); pr.resize(3); std::vector<int> at(4, -1); for (int j = 0; j < 3; j++) at[pr[j]] = j;
		auto val = [&](int a, int b) -> u64 { u64 z = tex(a, b, t); return z % 4 == 0 ? h : z % 4 == 1 ? p - h : z % 4 == 2 ? 0 : R_red((i64) (z >> 3), p); }; auto nz = [&](u64 v) { return v ? v : p - h; };
		Mat L(n, r, p); for (int i = 0; i < n; i++) for (int j = 0; j < r; j++) { if (at[i] < 0 || j < at[i]) L[i][j] = val(i, j); else if (j == at[i]) L[i][j] = nz(val(i, j)); }
		std::vector<Row> bs; for (int c = 0; c < 6; c++) { Row b(3); for (int j = 0; j < 3; j++) b[j] = c == 0 ? h : c == 1 ? p - h : val(c + 10, j); bs.push_back(b); } back(L, pr, bs, t % 3, false);
		auto q = perm_get(4, t * 2 + 1); Mat U(3, 4, p); for (int i = 0; i < 3; i++) { U[i][q[i]] = 1; for (int c = i + 1; c < 4; c++) U[i][q[c]] = val(i + 20, c); } std::vector<int> Q(q.begin(), q.begin() + 3); bs.clear();
		for (int c = 0; c < 6; c++) { Row b(4); for (int j = 0; j < 4; j++) b[j] = c == 0 ? h : val(c + 30, j); bs.push_back(b); Row y(3); for (int j = 0; j < 3; j++) y[j] = val(c + 40, j); bs.push_back(R_vecmat(y, U)); } fwd(U, Q, bs, t % 3, false); });
	family("larger", 30, [](uint64_t k) { Ix x(k); int n = 8 + (int) x.take(6) * 6; u64 p = primes_class()[x.k * 2]; Mat U(n, n + 3, p), L(n + 3, n, p); std::vector<int> q, pr; for (int i = 0; i < n; i++) { q.push_back((i * 5 + 3) % (n + 3)); pr.push_back((i * 7 + 1) % (n + 3)); }
		{ std::set<int> s(q.begin(), q.end()), s2(pr.begin(), pr.end()); if ((int) s.size() < n) for (int i = 0; i < n; i++) q[i] = n + 2 - i; if ((int) s2.size() < n) for (int i = 0; i < n; i++) pr[i] = n + 2 - i; }
		std::vector<int> dead(n + 3, 0); for (int i = 0; i < n; i++) { U[i][q[i]] = 1; dead[q[i]] = 1; for (int j = 0; j < n + 3; j++) if (!dead[j] && tex(i, j, k) % 3 == 0) U[i][j] = R_red((i64) tex(i, j, k + 1), p); }
		std::vector<int> at(n + 3, n); for (int j = 0; j < n; j++) at[pr[j]] = j; for (int i = 0; i < n + 3; i++) for (int j = 0; j < n; j++) if (j == at[i] || (j < at[i] && tex(i, j, k + 2) % 3 == 0)) L[i][j] = 1 + (tex(i, j, k + 3) % (p - 1));
		std::vector<Row> b1, b2; for (int c = 0; c < 5; c++) { Row y(n), z(n + 3), w(n); for (int i = 0; i < n; i++) { y[i] = R_red((i64) tex(i, c, k), p); w[i] = R_red((i64) tex(i, c, k + 9), p); } for (auto &e : z) e = c % 2; b1.push_back(R_vecmat(y, U)); b1.push_back(z); b2.push_back(w); } fwd(U, q, b1, k % 3, false); back(L, pr, b2, k % 3, false); });
	static const int SZ[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097};
	family("sizes", (tier_thorough() ? 30 : 27) * 3, [](uint64_t k) { Ix x(k); u64 p = (u64[]){257, 65537, 4294967291u}[x.take(3)]; int n = SZ[x.k]; Mat U(n, n + 3, p), L(n + 3, n, p); std::vector<int> q, pr; for (int i = 0; i < n; i++) { q.push_back((i * 5 + 3) % (n + 3)); pr.push_back((i * 7 + 1) % (n + 3)); }
		{ std::set<int> s(q.begin(), q.end()), s2(pr.begin(), pr.end()); if ((int) s.size() < n) for (int i = 0; i < n; i++) q[i] = n + 2 - i; if ((int) s2.size() < n) for (int i = 0; i < n; i++) pr[i] = n + 2 - i; }
		std::vector<int> dead(n + 3, 0); for (int i = 0; i < n; i++) { U[i][q[i]] = 1; dead[q[i]] = 1; for (int j = 0; j < n + 3; j++) if (!dead[j] && tex(i, j, k) % (3 + n / 8) == 0) U[i][j] = R_red((i64) tex(i, j, k + 1), p); }
		std::vector<int> at(n + 3, n); for (int j = 0; j < n; j++) at[pr[j]] = j; for (int i = 0; i < n + 3; i++) for (int j = 0; j < n; j++) if (j == at[i] || (j < at[i] && tex(i, j, k + 2) % (3 + n / 8) == 0)) L[i][j] = 1 + (tex(i, j, k + 3) % (p - 1));
		std::vector<Row> b1, b2; for (int c = 0; c < 5; c++) { Row y(n), z(n + 3), w(n); for (int i = 0; i < n; i++) { y[i] = R_red((i64) tex(i, c, k), p); w[i] = R_red((i64) tex(i, c, k + 9), p); } for (auto &e : z) e = c % 2; b1.push_back(R_vecmat(y, U)); b1.push_back(z); b2.push_back(w); } fwd(U, q, b1, k % 3, false); back(L, pr, b2, k % 3, false); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	family("long", long_sizes().size() * 4 * 3, [](uint64_t k) { Ix x(k); int kind = x.take(4), place = x.take(3); long_dense(long_sizes()[x.k], kind, place, (u64[]){257, 65537, 4294967291u}[k % 3], k); }, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
