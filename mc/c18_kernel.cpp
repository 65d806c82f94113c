// C18: kernel bases.
#include "algo.h"
#include "fact.h"
#include "sweep.h"
#include "big.h"
const char *harness_property = "C18";
const char *harness_assumptions[] = {"one thread (C25 explores the schedules)", NULL};
static void routes(const Mat &A, const struct spasm_lu *f)
{
	int r = f->U->n, m = A.m; u64 h0 = hmix(snap_csr(f->U), hash_bytes(f->qinv, m * sizeof(int)));
	struct spasm_csr *K = spasm_kernel(f); step(); check_kernel(A, K, r, "kernel"); std::vector<int> q(m, -9); q.reserve(1);
	struct spasm_csr *R = spasm_rref(f, q.data()); step(); u64 h1 = hmix(snap_csr(R), hash_bytes(q.data(), m * sizeof(int)));
	struct spasm_csr *K2 = spasm_kernel_from_rref(R, q.data()); step(); mc_traces += 2; check_kernel(A, K2, r, "kernel from reduced form");
	Mat a = from_csr(K), b = from_csr(K2); EXPECT(R_space(a) == R_space(b), "the two routes give different spaces");
	EXPECT(hmix(snap_csr(f->U), hash_bytes(f->qinv, m * sizeof(int))) == h0 && hmix(snap_csr(R), hash_bytes(q.data(), m * sizeof(int))) == h1, "an input was modified");
	state(R_hash(a, R_hash(b))); { char t[32]; snprintf(t, 32, "dimension %d", m - r > 6 ? 7 : m - r); outcome(t); } spasm_csr_free(K); spasm_csr_free(K2); spasm_csr_free(R);
}
static void one(const Mat &A, struct echelonize_opts o, int order, const std::vector<int> &rnd, const char *nm)
{
	if (want_sample()) describe("%s %s %s order %d", nm, R_str(A).c_str(), opt_str(o).c_str(), order);
	struct spasm_csr *C = to_csr(A, order); rand_script(rnd, true); if (o.L && !o.enable_GPLU && !(o.enable_dense && o.sparsity_threshold < 0)) o.enable_GPLU = 1;
	struct spasm_lu *f = spasm_echelonize(C, &o); step(); EXPECT(f->U->n == R_rank(A), "wrong rank"); routes(A, f); spasm_lu_free(f); spasm_csr_free(C);
}
// the rows of U are stored in order (ro = 0), reversed (1) or rotated (2): the echelon form is a permuted one
static void hand(const Mat &U, const std::vector<int> &piv, int order, bool zeros, int ro)
{
	int r = U.n, m = U.m; u64 p = U.p; if (want_sample()) describe("hand-made U %s zeros %d row order %d", R_str(U).c_str(), zeros, ro);
	struct spasm_csr *C = spasm_csr_alloc(r, m, (i64) r * m, p, true); std::vector<int> q(m, -1); q.reserve(1); i64 k = 0; std::vector<int> rank_of(m, r); for (int i = 0; i < r; i++) rank_of[piv[i]] = i;
	for (int d = 0; d < r; d++) { int i = ro == 0 ? d : ro == 1 ? r - 1 - d : (d + r / 2 + 1) % r; C->j[k] = piv[i]; C->x[k++] = 1; q[piv[i]] = d; for (int t = 0; t < m; t++) { int j = order ? m - 1 - t : t; if (j != piv[i] && (U[i][j] || (zeros && rank_of[j] > i && (i + j) % 2))) { C->j[k] = j; C->x[k++] = R_bal(U[i][j], p); } } C->p[d + 1] = k; }
	struct spasm_lu f; memset(&f, 0, sizeof f); f.U = C; f.qinv = q.data(); f.r = r; routes(U, &f);
}
static const std::vector<i64> v3 = {0, 1, -1}, v2 = {0, 1};
void harness_register()
{
	static auto OS = option_sets(true); u64 no = OS.size();
	for (int m = 0; m <= 3; m++) for (int r = 0; r <= m; r++) family("hand-mod3-" + std::to_string(r) + "x" + std::to_string(m), tri_count(r, m, 3) * 12, [=](uint64_t k) { Ix x(k); int o = x.take(2), z = x.take(2), ro = x.take(3); std::vector<int> piv; Mat U = tri_get(r, m, 3, v3, x.k, piv); hand(U, piv, o, z, ro); }, {false, 0, "every unit-pivot echelon form, its rows in any of three orders, with and without explicit zeros"});
	for (int r = 1; r <= 4; r++) { bool b = r >= 3; family("hand-4cols-" + std::to_string(r), tri_count(r, 4, b ? 2 : 3), [=](uint64_t k) { std::vector<int> piv; Mat U = tri_get(r, 4, 3, b ? v2 : v3, k, piv); hand(U, piv, k % 2, k / 2 % 2, (k + k / 7 + k / 3) % 3); }); }
	family("hand-3x5", tri_count(3, 5, 2), [=](uint64_t k) { std::vector<int> piv; Mat U = tri_get(3, 5, 7, v2, k, piv); hand(U, piv, k % 2, k / 2 % 2, (k + k / 7 + k / 3) % 3); });
	for (auto nm : std::vector<std::pair<int, int>>{{0, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 2}, {2, 3}, {3, 2}}) { int n = nm.first, m = nm.second; family("all-mod3-" + std::to_string(n) + "x" + std::to_string(m), ipow(3, n * m) * no, [=](uint64_t k) { Ix x(k); auto o = OS[x.take(no)]; o.o.L = x.k % 4 == 3; one(mat_enum(n, m, 3, v3, x.k), o.o, k % 3, RANDS[k % RANDS.size()], o.name); }); }
	family("all-mod3-3x3", ipow(3, 9) * 3, [=](uint64_t k) { Ix x(k); int t = x.take(3); auto o = OS[(x.k * 7 + t * 5) % no]; o.o.L = x.k % 4 == 3; one(mat_enum(3, 3, 3, v3, x.k), o.o, t, RANDS[k % RANDS.size()], o.name); });
	family("all-mod3-3x3-all-options", ipow(3, 9) * no, [=](uint64_t k) { Ix x(k); auto o = OS[x.take(no)]; o.o.L = x.k % 4 == 3; one(mat_enum(3, 3, 3, v3, x.k), o.o, k % 3, RANDS[k % RANDS.size()], o.name); }, {true});
	family("all-mod3-3x4", ipow(3, 12), [=](uint64_t k) { auto o = OS[k % no]; one(mat_enum(3, 4, 3, v3, k), o.o, k % 3, RANDS[k % RANDS.size()], o.name); }, {true});
	static auto P = primes_all(); static std::vector<std::vector<Named>> SP; for (u64 p : P) SP.push_back(suite(p, true)); u64 nb = SP[0].size();
	family("structured-x-primes", P.size() * nb * no, [=](uint64_t k) { Ix x(k); auto o = OS[x.take(no)]; auto &A = SP[x.take(P.size())][x.k]; o.o.L = k % 3 == 2; one(A.A, o.o, k % 3, RANDS[k % RANDS.size()], A.name.c_str()); });
	family("growth", 8, [=](uint64_t k) { int r = 30 + 20 * (int) (k / 2), m = r + 40; u64 p = k % 2 ? 3 : 2147483659; Mat U(r, m, p); std::vector<int> piv; for (int i = 0; i < r; i++) { piv.push_back(i); U[i][i] = 1; } for (int i = 0; i < r; i++) { if (i + 1 < r) U[i][piv[i + 1]] = p - 1; for (int t = 0; t < 2; t++) U[i][r + tex(i, t, k) % 40] = 1; } hand(U, piv, k % 2, false, k / 2 % 3); }, {false, 0, "kernels many times larger than the echelon form"});
	static auto SL = sweep_list(tier_thorough() ? 4097 : 1025, tier_thorough() ? 257 : 129); u64 nsl = SL.size(); static const u64 SP_[3] = {257, 65537, 4294967291u};
	family("sizes", nsl * (tier_thorough() ? no : 3), [=](uint64_t k) { Ix x(k); auto &z = SL[x.take(nsl)]; auto o = OS[(tier_thorough() ? x.k : x.k * 5 + k) % no]; o.o.L = k % 3 == 2; one(sweep_mat(z.shape, z.size, SP_[(k + x.k) % 3]), o.o, k % 3, RANDS[k % RANDS.size()], z.name.c_str()); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	family("long", long_count(), [=](uint64_t k) { u64 p = (u64[]){257, 65537, 4294967291u}[k % 3]; std::string nm; SpM S = long_mat(k, p, nm); auto o = OS[(u64[]){0, 2}[k % 2]]; describe("%s mod %lu %s", nm.c_str(), (unsigned long) p, o.name); int r = sp_ech(S).rank(); struct spasm_csr *C = sp_csr(S, k % 3); struct spasm_lu *f = spasm_echelonize(C, &o.o); step(); struct spasm_csr *K = spasm_kernel(f); step(); sp_check_kernel(S, K, r, "kernel"); std::vector<int> q(S.m, -9); struct spasm_csr *R = spasm_rref(f, q.data()); struct spasm_csr *K2 = spasm_kernel_from_rref(R, q.data()); step(2); mc_traces += 2; sp_check_kernel(S, K2, r, "kernel from reduced form"); state(snap_csr(K2)); spasm_csr_free(K); spasm_csr_free(K2); spasm_csr_free(R); spasm_lu_free(f); spasm_csr_free(C); }, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
