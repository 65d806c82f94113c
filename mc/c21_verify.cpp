// C21: randomised verification of factorisations.
#include <cmath>
#include <map>
#include "algo.h"
#include "fact.h"
#include "sweep.h"
#include "big.h"
const char *harness_property = "C21";
const char *harness_assumptions[] = {"one thread", "the 1/p bound on missed errors is judged over a fixed list of seeds, against the number of acceptances that an error probability of 1/p per seed would exceed with probability below 1e-10", NULL};
static const std::vector<i64> v3 = {0, 1, -1};
static std::vector<u64> seeds(int n) { std::vector<u64> v; for (int k = 0; k < n; k++) v.push_back(k < n / 2 ? (u64) k : tex(k, 77)); v.back() = ~0ull; return v; }
// smallest k such that a binomial variable (N trials, probability q) exceeds k with probability below 1e-10
static int bound(int N, double q) { static std::map<std::pair<int, double>, int> memo; auto it = memo.find({N, q}); if (it != memo.end()) return it->second; double tail = 0; int k = N; for (; k > 0; k--) { tail += exp(lgamma(N + 1) - lgamma(k + 1) - lgamma(N - k + 1) + k * log(q) + (N - k) * log1p(-q)); if (tail > 1e-10) break; } return memo[{N, q}] = k; }
static void rejects(const struct spasm_csr *A, const struct spasm_lu *f, u64 p, const std::vector<u64> &S, const char *what)
{
	int acc = 0; for (u64 s : S) { acc += spasm_factorization_verify(A, f, s); step(); } double N = S.size(), q = 1.0 / p, lim = bound(S.size(), q); mc_traces++;
	EXPECT(acc <= (int) lim, "%s: accepted for %d of %d seeds (mod %lu)", what, acc, (int) N, (unsigned long) p); outcome("corruption refused");
}
static void one(const Mat &A, struct echelonize_opts o, int complete, const std::vector<int> &rnd, int ns, int stride, const char *nm)
{
	u64 p = A.p; if (want_sample()) describe("%s %s %s", nm, R_str(A).c_str(), opt_str(o).c_str()); o.L = 1; o.complete = complete; if (!o.enable_GPLU && !(o.enable_dense && o.sparsity_threshold < 0)) o.enable_GPLU = 1;
	struct spasm_csr *C = to_csr(A); rand_script(rnd, true); struct spasm_lu *f = spasm_echelonize(C, &o); step(); check_lu(A, f, complete, "LU"); auto S = seeds(ns);
	u64 h0 = hmix(snap_csr(C), hmix(snap_csr(f->L), snap_csr(f->U)));
	for (u64 s : S) { EXPECT(spasm_factorization_verify(C, f, s), "correct factorisation refused for seed %lu", (unsigned long) s); step(); } mc_traces++; outcome("correct accepted");
	EXPECT(hmix(snap_csr(C), hmix(snap_csr(f->L), snap_csr(f->U))) == h0, "an input was modified");
	// purity: same verdicts again, in reverse, with different fresh-memory content
	std::vector<char> piv(A.n, 0); for (int k = 0; k < f->r; k++) piv[f->p[k]] = 1;
	int turn = ns + A.n; auto bump = [&](spasm_ZZp &x, u64 d, const char *what) { spasm_ZZp old = x; x = R_bal(R_add(R_red(old, p), d, p), p); rejects(C, f, p, S, what); if (d & 1) { std::vector<u64> T; for (u64 t = 0; t < S.size(); t++) T.push_back((t & 255) << 8 * (turn % 8)); turn++; rejects(C, f, p, T, what); } std::vector<char> v1; for (u64 s : S) v1.push_back(spasm_factorization_verify(C, f, s)); int f0 = mc_fill; mc_fill = 0x33; for (size_t k = S.size(); k-- > 0;) EXPECT(spasm_factorization_verify(C, f, S[k]) == (bool) v1[k], "the verdict for seed %lu changes", (unsigned long) S[k]); mc_fill = f0; step(2 * S.size()); state(hash_bytes(v1.data(), v1.size(), h0)); x = old; };
	int c = 0;
	for (int i = 0; i < A.n; i++) if (piv[i]) for (i64 k = C->p[i]; k < C->p[i + 1]; k++) if (c++ % stride == 0) bump(C->x[k], 1 + (c % 2) * (p - 2), "entry of A on a pivotal row");
	for (int i = 0; i < A.n; i++) if (piv[i]) for (i64 k = f->L->p[i]; k < f->L->p[i + 1]; k++) if (c++ % stride == 0) bump(f->L->x[k], 1 + (c % 2) * (p - 2), "entry of L on a pivotal row");
	// a change in U affects every pivotal row using it (its own pivot row does)
	for (i64 k = 0; k < f->U->p[f->r]; k++) if (c++ % stride == 0) bump(f->U->x[k], 1 + (c % 2) * (p - 2), "entry of U");
	// two pivotal rows exchanged
	if (f->r >= 1) { for (int i = 0; i < A.n; i++) if (piv[i]) for (int j = 0; j < i; j++) if (piv[j] && A[i] != A[j]) { Mat B = A; std::swap(B.a[i], B.a[j]); struct spasm_csr *CB = to_csr(B); if (c++ % stride == 0) rejects(CB, f, p, S, "pivotal rows exchanged"); spasm_csr_free(CB); } }
	spasm_lu_free(f); spasm_csr_free(C);
}
static void long_verify(u64 k, struct echelonize_opts o, const char *on)
{
	u64 p = (u64[]){65537, 4294967291u, 257}[k % 3]; std::string nm; SpM S = long_mat(k, p, nm); o.L = 1; o.complete = k % 2; describe("verification of %s mod %lu %s", nm.c_str(), (unsigned long) p, on); struct spasm_csr *C = sp_csr(S, k % 3); struct spasm_lu *f = spasm_echelonize(C, &o); step(); for (u64 s : {(u64) 0, (u64) 1, k + 12345, ~(u64) 0}) { EXPECT(spasm_factorization_verify(C, f, s), "correct factorisation refused for seed %lu", (unsigned long) s); step(); } mc_traces++;
	std::vector<u64> T = seeds(p < 1000 ? 12 : 5); auto bump = [&](spasm_ZZp &x, u64 d, const char *what) { spasm_ZZp old = x; x = R_bal(R_add(R_red(old, p), d, p), p); rejects(C, f, p, T, what); x = old; };
	for (int t : {0, f->r / 3, 32767, 32768, f->r - 2, f->r - 1}) if (t < f->r) { int i = f->p[t]; bump(C->x[C->p[i]], 1, "entry of A on a pivotal row"); bump(C->x[C->p[i + 1] - 1], p - 1, "entry of A on a pivotal row"); bump(f->L->x[f->L->p[i]], 1, "entry of L on a pivotal row"); bump(f->L->x[f->L->p[i + 1] - 1], p / 2, "entry of L on a pivotal row"); bump(f->U->x[f->U->p[t]], p - 1, "entry of U"); bump(f->U->x[f->U->p[t + 1] - 1], 1, "entry of U"); }
	state(hmix(snap_csr(f->U), k)); spasm_lu_free(f); spasm_csr_free(C);
}
void harness_register()
{
	static auto OS = option_sets(true); u64 no = OS.size();
	for (auto nm : std::vector<std::pair<int, int>>{{0, 0}, {0, 2}, {2, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}}) { int n = nm.first, m = nm.second; family("all-mod3-" + std::to_string(n) + "x" + std::to_string(m), ipow(3, n * m) * no * 2, [=](uint64_t k) { Ix x(k); auto &o = OS[x.take(no)]; int c = x.take(2); one(mat_enum(n, m, 3, v3, x.k), o.o, c, RANDS[k % RANDS.size()], 81, 1, o.name); }, {false, 0, "all matrices x options x every single-entry corruption x 81 seeds"}); }
	family("patterns-3x3", 512 * 3, [=](uint64_t k) { Ix x(k); int t = x.take(3); auto &o = OS[(x.k + t * 5) % no]; u64 p = (u64[]){3, 101, 4294967291}[t]; Mat A(3, 3, p); for (int i = 0; i < 9; i++) if (x.k >> i & 1) A[i / 3][i % 3] = 1 + i % 2; one(A, o.o, k % 2, {}, 40, 1, o.name); });
	static auto PC = primes_class(); static std::vector<std::vector<Named>> SC; for (u64 p : PC) SC.push_back(suite(p, false)); u64 nb = SC[0].size();
	family("structured", PC.size() * nb * 3, [=](uint64_t k) { Ix x(k); int t = x.take(3); auto &A = SC[x.take(PC.size())][x.k]; one(A.A, OS[(k + t * 5) % no].o, t % 2, RANDS[k % RANDS.size()], 24, A.A.n > 8 ? 17 : 3, A.name.c_str()); });
	family("structured-every-entry", PC.size() * nb * no, [=](uint64_t k) { Ix x(k); auto &o = OS[x.take(no)]; auto &A = SC[x.take(PC.size())][x.k]; one(A.A, o.o, k % 2, RANDS[k % RANDS.size()], 30, 2, A.name.c_str()); }, {true});
	static auto P = primes_all();
	family("primes-many-seeds", P.size() * 2, [=](uint64_t k) { u64 p = P[k / 2]; Mat A = suite(p, false)[k % 2 ? 6 : 13].A; one(A, opt_base(), k % 2, {}, 2000, 9, "seeds"); });
	static auto SL = sweep_list(tier_thorough() ? 4097 : 1025, tier_thorough() ? 129 : 65); u64 nsl = SL.size(); static const u64 SP_[3] = {257, 65537, 4294967291u};
	family("sizes", nsl * (tier_thorough() ? 6 : 2), [=](uint64_t k) { Ix x(k); auto &z = SL[x.take(nsl)]; auto &o = OS[(x.k * 5 + k) % no]; Mat A = sweep_mat(z.shape, z.size, SP_[1 + (k + x.k) % 2]); int nz = 0; for (auto &r : A.a) for (u64 v : r) nz += v != 0; one(A, o.o, k % 2, RANDS[k % RANDS.size()], 8, 1 + nz / 3, z.name.c_str()); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	family("long", long_count(), [=](uint64_t k) { auto &o = OS[(u64[]){0, 2}[k % 2]]; long_verify(k, o.o, o.name); }, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
