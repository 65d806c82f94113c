// C06: matrix-vector products and row updates.
#include "ref.h"
#include "sweep.h"
#include "big.h"
const char *harness_property = "C06";
const char *harness_assumptions[] = {"operands are canonical representatives", NULL};

static std::vector<spasm_ZZp> bal(const Row &r, u64 p) { std::vector<spasm_ZZp> v; for (u64 e : r) v.push_back(R_bal(e, p)); v.push_back(424242); return v; }
static void eq(const std::vector<spasm_ZZp> &v, const Row &w, u64 p, const char *what)
{
	for (size_t i = 0; i < w.size(); i++) EXPECT(v[i] == R_bal(w[i], p), "%s: position %zu holds %d, expected %d (mod %lu)", what, i, v[i], R_bal(w[i], p), (unsigned long) p);
	EXPECT(v.back() == 424242, "%s: wrote past the end", what); mc_traces++;
}
static void one(const Mat &A, const Row &x, const Row &y, const Row &x2, const Row &y2, const std::vector<u64> &betas, int order)
{
	u64 p = A.p; if (want_sample()) describe("%s order %d", R_str(A).c_str(), order);
	struct spasm_csr *C = to_csr(A, order); u64 h0 = snap_csr(C);
	{ auto vx = bal(x, p), vy = bal(y, p), vx0 = vx; spasm_xApy(vx.data(), C, vy.data()); step(); Row w = R_vecmat(x, A); for (int j = 0; j < A.m; j++) w[j] = R_add(w[j], y[j], p); eq(vy, w, p, "xApy"); EXPECT(vx == vx0, "xApy changed x"); state(hash_bytes(vy.data(), vy.size() * 4, R_hash(A))); }
	{ auto vx = bal(x2, p), vy = bal(y2, p), vx0 = vx; spasm_Axpy(C, vx.data(), vy.data()); step(); Row w = y2; for (int i = 0; i < A.n; i++) for (int j = 0; j < A.m; j++) w[i] = R_add(w[i], R_mul(A[i][j], x2[j], p), p); eq(vy, w, p, "Axpy"); EXPECT(vx == vx0, "Axpy changed x"); state(hash_bytes(vy.data(), vy.size() * 4, R_hash(A, 5))); }
	for (int i = 0; i < A.n; i++) for (u64 b : betas) { auto vy = bal(y, p); spasm_scatter(C, i, R_bal(b, p), vy.data()); step(); Row w = y; for (int j = 0; j < A.m; j++) w[j] = R_add(w[j], R_mul(A[i][j], b, p), p); eq(vy, w, p, "scatter"); }
	EXPECT(snap_csr(C) == h0, "the matrix was modified"); spasm_csr_free(C);
}
static Row row_enum(int m, u64 p, const std::vector<i64> &v, u64 &k) { Row r(m); for (auto &e : r) { e = R_red(v[k % v.size()], p); k /= v.size(); } return r; }

void harness_register()
{
	static const std::vector<i64> v3 = {0, 1, -1};
	for (auto nm : std::vector<std::pair<int, int>>{{0, 0}, {0, 2}, {2, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}}) {
		int n = nm.first, m = nm.second;
		family("all-mod3-" + std::to_string(n) + "x" + std::to_string(m), ipow(3, n * m) * ipow(3, n) * ipow(3, m), [=](uint64_t k) { u64 k0 = k; Mat A = mat_enum(n, m, 3, v3, k); k /= ipow(3, n * m); u64 kk = k; Row x = row_enum(n, 3, v3, k), y = row_enum(m, 3, v3, k); k = kk; Row x2 = row_enum(m, 3, v3, k), y2 = row_enum(n, 3, v3, k); one(A, x, y, x2, y2, {0, 1, 2}, k0 % 3); });
	}
	for (auto nm : std::vector<std::pair<int, int>>{{2, 3}, {3, 2}, {3, 3}}) {
		int n = nm.first, m = nm.second; if (n * m == 9 && !tier_thorough()) { 
			family("all-mod3-3x3", 19683, [=](uint64_t k) { Mat A = mat_enum(3, 3, 3, v3, k); for (int t = 0; t < 8; t++) { u64 q = (k * 8 + t) % 729; Row x = row_enum(3, 3, v3, q), y = row_enum(3, 3, v3, q); one(A, x, y, y, x, {0, 1, 2}, t % 3); } }); continue; }
		family("all-mod3-" + std::to_string(n) + "x" + std::to_string(m), ipow(3, n * m), [=](uint64_t k) { Mat A = mat_enum(n, m, 3, v3, k); for (u64 t = 0; t < ipow(3, n + m); t++) { u64 q = t; Row x = row_enum(n, 3, v3, q), y = row_enum(m, 3, v3, q); q = t; Row x2 = row_enum(m, 3, v3, q), y2 = row_enum(n, 3, v3, q); one(A, x, y, x2, y2, {0, 1, 2}, t % 3); } });
	}
	// boundary values at every prime: products and sums of extremes
	static auto P = primes_all();
	family("boundary-values", P.size() * 6 * 6 * 6, [](uint64_t k) {
		Ix q(k); int a = q.take(6), b = q.take(6), c = q.take(6); u64 p = P[q.k], h = p / 2; u64 al[6] = {h, p - h, 1 % p, p - 1, (h > 1 ? h - 1 : h), R_red((i64) tex(p, k), p)};
		Mat A(3, 3, p); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A[i][j] = al[(a + (i * j + i) % 3 * (b + 1)) % 6];
		Row x = {al[b], al[c], al[a]}, y = {al[c], al[a], al[(a + b) % 6]}; one(A, x, y, y, x, {al[a], al[b], al[c], 0}, k % 3); });
	family("long-vectors", 60, [](uint64_t k) { Ix q(k); u64 p = primes_class()[q.take(12)]; int n = 20 + (int) q.k * 31, m = 60 - (int) q.k * 7; Mat A(n, m, p); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (tex(i, j, k) % 3) A[i][j] = tex(i, j, k + 7) % 2 ? p / 2 : p - p / 2;
		Row x(n, p / 2), y(m, p - p / 2); for (int i = 0; i < n; i += 3) x[i] = R_red((i64) tex(i, k), p); one(A, x, y, y, x, {p / 2, p - p / 2}, k % 3); });
	static auto SL = sweep_list(tier_thorough() ? 4097 : 2049, tier_thorough() ? 1025 : 257); u64 nsl = SL.size(); static const u64 SP_[3] = {257, 65537, 4294967291u};
	family("sizes", nsl * 3, [=](uint64_t k) { Ix q(k); auto &z = SL[q.take(nsl)]; u64 p = SP_[q.k]; Mat A = sweep_mat(z.shape, z.size, p); Row x(A.n, p / 2), y(A.m, p - p / 2), x2(A.m), y2(A.n); for (int i = 0; i < A.n; i++) { if (i % 3) x[i] = R_red((i64) tex(i, k), p); y2[i] = R_red((i64) tex(i, k, 2), p); } for (int j = 0; j < A.m; j++) { x2[j] = j % 4 ? R_red((i64) tex(j, k, 1), p) : 0; } one(A, x, y, x2, y2, {p / 2, p - 1}, k % 3); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	family("long", long_count() * 3, [=](uint64_t k) { u64 p = (u64[]){257, 65537, 4294967291u}[k % 3]; std::string nm; SpM S = long_mat(k / 3, p, nm); describe("%s mod %lu", nm.c_str(), (unsigned long) p); int n = S.n, m = S.m; struct spasm_csr *C = sp_csr(S, k % 3); Row x(n), y(m), x2(m), y2(n); for (int i = 0; i < n; i++) { x[i] = i % 3 ? tex(i, k) % p : 0; y2[i] = tex(i, k, 2) % p; } for (int j = 0; j < m; j++) { y[j] = p / 2; x2[j] = j % 4 ? tex(j, k, 1) % p : 0; }
		{ auto vx = bal(x, p), vy = bal(y, p); spasm_xApy(vx.data(), C, vy.data()); step(); Row w = sp_vecmat(x, S); for (int j = 0; j < m; j++) w[j] = R_add(w[j], y[j], p); eq(vy, w, p, "xApy"); } { auto vx = bal(x2, p), vy = bal(y2, p); spasm_Axpy(C, vx.data(), vy.data()); step(); Row w = sp_vecmat(x2, sp_transpose(S)); for (int i = 0; i < n; i++) w[i] = R_add(w[i], y2[i], p); eq(vy, w, p, "Axpy"); }
		for (int i : {0, 1, n / 2, 32767, 32768, n - 1}) { auto vy = bal(y, p); spasm_scatter(C, i, R_bal(p - 2, p), vy.data()); step(); Row w = y; for (auto &e : S.a[i]) w[e.first] = R_add(w[e.first], R_mul(p - 2, e.second, p), p); eq(vy, w, p, "scatter"); } state(snap_csr(C)); spasm_csr_free(C); }, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
