// C16: solving linear systems.
#include "algo.h"
#include "sweep.h"
#include "big.h"
const char *harness_property = "C16";
const char *harness_assumptions[] = {"one thread (C25 explores the schedules)", NULL};
static struct spasm_lu *factor(const Mat &A, struct echelonize_opts o, int order, const std::vector<int> &rnd, struct spasm_csr *&C, bool complete) { C = to_csr(A, order); rand_script(rnd, true); o.L = 1; o.complete = complete; if (!o.enable_GPLU && !(o.enable_dense && o.sparsity_threshold < 0)) o.enable_GPLU = 1; struct spasm_lu *f = spasm_echelonize(C, &o); step(); return f; }
static u64 hf(const struct spasm_lu *f) { return hmix(hmix(snap_csr(f->L), snap_csr(f->U)), hash_bytes(f->qinv, f->U->m * sizeof(int), hash_bytes(f->p, f->r * sizeof(int)))); }
static bool solvable(const Mat &R, const std::vector<int> &pc, Row b) { u64 p = R.p; for (int i = 0; i < R.n; i++) { u64 c = b[pc[i]]; if (c) for (int j = 0; j < R.m; j++) b[j] = R_sub(b[j], R_mul(c, R[i][j], p), p); } for (u64 v : b) if (v) return false; return true; }
// all right-hand sides, one by one and as one batch
static void solve_all(const Mat &A, const struct spasm_lu *f, const Mat &B, int order, bool nook = false)
{
	u64 p = A.p; int n = A.n, m = A.m; Mat R = A; auto pc = R_rref(R); u64 h0 = hf(f), h = h0; std::vector<char> good(B.n); mc_traces++;
	EXPECT(f->r == (int) pc.size(), "wrong rank %d", f->r);
	for (int t = 0; t < B.n; t++) {
		std::vector<spasm_ZZp> b(m, 0), x(n, 0x5555); b.reserve(1); x.reserve(1); for (int j = 0; j < m; j++) b[j] = R_bal(B[t][j], p); auto b0 = b;
		bool ok = spasm_solve(f, b.data(), x.data()); step(); good[t] = solvable(R, pc, B[t]); EXPECT(ok == (bool) good[t], "right-hand side %d is %ssolvable but solving says %d", t, good[t] ? "" : "not ", ok); EXPECT(b == b0, "right-hand side modified");
		if (ok) { Row xr(n); for (int i = 0; i < n; i++) { EXPECT(R_canon(x[i], p), "non-canonical solution"); xr[i] = R_red(x[i], p); } EXPECT(R_vecmat(xr, A) == B[t], "x.A differs from right-hand side %d", t); h = hash_bytes(xr.data(), 8 * n, h); }
		outcome(ok ? "solvable" : "unsolvable");
	}
	struct spasm_csr *Bc = to_csr(B, order); u64 hb = snap_csr(Bc); std::vector<char> okb(B.n + 1, 7); bool *okp = (bool *) malloc(B.n + 1); memset(okp, 0, B.n + 1);
	struct spasm_csr *X = spasm_gesv(f, Bc, nook ? NULL : okp); step(); wellformed(X, B.n, n, p, WF_ALL, "solutions"); Mat Xd = from_csr(X);
	for (int t = 0; t < B.n; t++) { if (!nook) EXPECT(okp[t] == (bool) good[t], "batch verdict for row %d is %d", t, okp[t]); if (good[t]) EXPECT(R_vecmat(Xd[t], A) == B[t], "batch solution %d is wrong", t); }
	EXPECT(snap_csr(Bc) == hb, "right-hand sides modified"); EXPECT(hf(f) == h0, "factorisation modified"); state(h);
	spasm_csr_free(X); spasm_csr_free(Bc); free(okp);
}
static const std::vector<i64> v3 = {0, 1, -1}, v5 = {0, 1, 2, -1, -2};
static Mat allB(int m, u64 p) { Mat B((int) ipow(p, m), m, p); for (int t = 0; t < B.n; t++) { u64 z = t; for (int j = 0; j < m; j++) { B[t][j] = z % p; z /= p; } } return B; }
// combinations of rows, and the same disturbed in one place
static Mat rhs(const Mat &A, int k) { int m = A.m; u64 p = A.p; Mat B(8, m, p); for (int t = 0; t < 8; t++) { Row x(A.n); for (int i = 0; i < A.n; i++) { u64 z = tex(i, t, k); x[i] = z % 3 == 0 ? 0 : z % 3 == 1 ? p / 2 : z % p; } if (t == 6) for (auto &v : x) v = 0; B[t] = R_vecmat(x, A); if (t % 2 && m) { int c = tex(t, k) % m; B[t][c] = R_add(B[t][c], 1, p); } } if (m) B[7] = B[0]; return B; }
static void one(const Mat &A, const struct echelonize_opts &o, int order, int k, const Mat &B, const char *nm) { if (want_sample()) describe("%s %s %s", nm, R_str(A).c_str(), opt_str(o).c_str()); struct spasm_csr *C; struct spasm_lu *f = factor(A, o, order, RANDS[k % RANDS.size()], C, k % 2); solve_all(A, f, B, k % 3, k % 5 == 4); spasm_lu_free(f); spasm_csr_free(C); }
void harness_register()
{
	static auto OS = option_sets(true); u64 no = OS.size();
	for (auto nm : std::vector<std::pair<int, int>>{{0, 0}, {0, 2}, {2, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 4}, {4, 1}, {2, 3}, {3, 2}}) { int n = nm.first, m = nm.second; family("all-mod3-" + std::to_string(n) + "x" + std::to_string(m), ipow(3, n * m) * no, [=](uint64_t k) { Ix x(k); auto &o = OS[x.take(no)]; Mat A = mat_enum(n, m, 3, v3, x.k); one(A, o.o, k % 3, x.k + k, allB(m, 3), o.name); }, {false, 0, "all matrices x option sets x all right-hand sides"}); }
	family("all-mod3-3x3", ipow(3, 9) * 3, [=](uint64_t k) { Ix x(k); int t = x.take(3); auto &o = OS[(x.k * 7 + t * 5) % no]; one(mat_enum(3, 3, 3, v3, x.k), o.o, t, x.k + t, allB(3, 3), o.name); }, {false, 0, "all matrices x 27 right-hand sides"});
	family("all-mod5-2x2", ipow(5, 4) * no, [=](uint64_t k) { Ix x(k); auto &o = OS[x.take(no)]; one(mat_enum(2, 2, 5, v5, x.k), o.o, k % 3, k, allB(2, 5), o.name); });
	family("patterns-4x3", 4096 * 2, [=](uint64_t k) { Ix x(k); int t = x.take(2); auto &o = OS[x.k % no]; Mat A(4, 3, 3); for (int i = 0; i < 12; i++) if (x.k >> i & 1) A[i / 3][i % 3] = 1 + (i * t) % 2; one(A, o.o, t, k, allB(3, 3), o.name); });
	family("patterns-4x4-all-rhs", 65536, [=](uint64_t k) { auto &o = OS[k % no]; Mat A(4, 4, 3); for (int i = 0; i < 16; i++) if (k >> i & 1) A[i / 4][i % 4] = 1; one(A, o.o, k % 3, k, allB(4, 3), o.name); }, {true});
	family("all-mod3-3x3-all-options", ipow(3, 9) * no, [=](uint64_t k) { Ix x(k); auto &o = OS[x.take(no)]; one(mat_enum(3, 3, 3, v3, x.k), o.o, k % 3, k, allB(3, 3), o.name); }, {true});
	static auto P = primes_all(); static std::vector<std::vector<Named>> SP; for (u64 p : P) SP.push_back(suite(p, true)); u64 nb = SP[0].size();
	family("structured-x-primes", P.size() * nb * no, [=](uint64_t k) { Ix x(k); auto &o = OS[x.take(no)]; auto &A = SP[x.take(P.size())][x.k]; one(A.A, o.o, k % 3, k, rhs(A.A, k), A.name.c_str()); }, {false, 0, "structured matrices x primes x option sets x solvable, disturbed, zero and repeated right-hand sides"});
	static auto S = suite(257, false); u64 nq = opt_count(false), ns = S.size();
	family("structured-x-options", nq * ns, [=](uint64_t k) { Ix x(k); auto &A = S[x.take(ns)]; one(A.A, opt_get(false, x.k), k % 3, x.k, rhs(A.A, x.k), A.name.c_str()); }, {true});
	family("many-rhs", 3, [=](uint64_t k) { u64 p = 65537; Mat A = suite(p, true)[10 + k].A; Mat B(1500, A.m, p); for (int t = 0; t < B.n; t++) { Mat b = rhs(A, t); B[t] = b[t % 8]; } one(A, opt_base(), 0, k * 2, B, "many"); });
	static auto SL = sweep_list(tier_thorough() ? 4097 : 1025, tier_thorough() ? 257 : 129); u64 nsl = SL.size(); static const u64 SP_[3] = {257, 65537, 4294967291u};
	family("sizes", nsl * (tier_thorough() ? no : 3), [=](uint64_t k) { Ix x(k); auto &z = SL[x.take(nsl)]; auto &o = OS[(tier_thorough() ? x.k : x.k * 5 + k) % no]; Mat A = sweep_mat(z.shape, z.size, SP_[(k + x.k) % 3]); one(A, o.o, k % 3, k, rhs(A, k), z.name.c_str()); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	family("long", long_count(), [=](uint64_t k) { u64 p = (u64[]){257, 65537, 4294967291u}[k % 3]; std::string nm; SpM S = long_mat(k, p, nm); auto o = OS[(u64[]){0, 2}[k % 2]]; o.o.L = 1; describe("%s mod %lu %s", nm.c_str(), (unsigned long) p, o.name); SpEch E = sp_ech(S); struct spasm_csr *C = sp_csr(S, k % 3); struct spasm_lu *f = spasm_echelonize(C, &o.o); step(); SpM B(5, S.m, p); for (int t = 0; t < 5; t++) { if (t == 4) continue; Row y(S.n, 0); for (int i = t; i < S.n; i += t == 0 ? 3001 : t == 1 ? 7 : 12011) y[i] = 1 + tex(i, t) % (p - 1); y[S.n - 1] = t; Row b = sp_vecmat(y, S); if (t % 2) b[S.m - 1 - t] = R_add(b[S.m - 1 - t], 1, p); for (int j = 0; j < S.m; j++) B.put(t, j, b[j]); }
		struct spasm_csr *Bc = sp_csr(B, 0); bool ok[5] = {0, 0, 0, 0, 0}; struct spasm_csr *X = spasm_gesv(f, Bc, ok); step(); mc_traces++; wellformed(X, 5, S.n, p, WF_ALL, "solutions"); SpM Xs = sp_from(X);
		for (int t = 0; t < 5; t++) { bool w = E.reduce(B.a[t]).empty(); EXPECT(ok[t] == w, "right-hand side %d is %ssolvable but solving says %d", t, w ? "" : "not ", ok[t]); if (!w) continue; Row x(S.n, 0), b(S.m, 0); for (auto &e : Xs.a[t]) x[e.first] = e.second; for (auto &e : B.a[t]) b[e.first] = e.second; EXPECT(sp_vecmat(x, S) == b, "solution %d is wrong", t); } state(snap_csr(X)); spasm_csr_free(X); spasm_csr_free(Bc); spasm_lu_free(f); spasm_csr_free(C); }, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
