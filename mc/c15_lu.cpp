// C15: LU factorisation.
#include "algo.h"
#include "sweep.h"
#include "big.h"
const char *harness_property = "C15";
const char *harness_assumptions[] = {"one thread (C26 explores the schedules)", "the early-abort and low-rank stopping tests use fixed pseudo-random combinations: matrices built from those very combinations to defeat them (probability 2^-128 per matrix) are outside the explored space", NULL};
static void one(const Mat &A, struct echelonize_opts o, int order, const std::vector<int> &rnd, int complete, const char *nm = "")
{
	// with L the low-rank shortcut is not available: whatever remains must be dense or GPLU
	o.L = 1; o.complete = complete; if (!o.enable_GPLU && !(o.enable_dense && o.sparsity_threshold < 0)) o.enable_GPLU = 1; bool nullopts = false;
	if (want_sample()) describe("%s %s %s order %d rand %zu", nm, R_str(A).c_str(), nullopts ? "default" : opt_str(o).c_str(), order, rnd.size());
	struct spasm_csr *C = to_csr(A, order); u64 h0 = snap_csr(C); rand_script(rnd, true);
	struct spasm_lu *f = spasm_echelonize(C, &o); step(); mc_traces++;
	EXPECT(f != NULL && f->U != NULL && f->qinv != NULL, "no result");
	check_lu(A, f, complete, "LU");
	EXPECT(snap_csr(C) == h0, "the input matrix was modified");
	state(R_hash(from_csr(f->L), R_hash(from_csr(f->U), complete))); { char b[32]; snprintf(b, 32, "rank %s", f->r == 0 ? "0" : f->r == std::min(A.n, A.m) ? "full" : "deficient"); outcome(b); }
	spasm_lu_free(f); spasm_csr_free(C);
}
static const std::vector<i64> v3 = {0, 1, -1}, v5 = {0, 1, 2, -1, -2};
void harness_register()
{
	static auto OS = option_sets(true); u64 no = OS.size();
	for (auto nm : std::vector<std::pair<int, int>>{{0, 0}, {0, 2}, {2, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 4}, {4, 1}, {2, 3}, {3, 2}}) { int n = nm.first, m = nm.second; family("all-mod3-" + std::to_string(n) + "x" + std::to_string(m), ipow(3, n * m) * no * 2 * 2, [=](uint64_t k) { Ix x(k); auto &o = OS[x.take(no)]; int c = x.take(2); auto &r = RANDS[x.take(2) * 6]; one(mat_enum(n, m, 3, v3, x.k), o.o, k % 3, r, c, o.name); }, {false, 0, "all matrices x option sets x complete or not x answers of the random source"}); }
	family("all-mod3-3x3", ipow(3, 9) * no * 2, [=](uint64_t k) { Ix x(k); auto &o = OS[x.take(no)]; int c = x.take(2); one(mat_enum(3, 3, 3, v3, x.k), o.o, x.k % 3, RANDS[(k / 7) % RANDS.size()], c, o.name); });
	family("patterns-4x4", 65536 * 3, [=](uint64_t k) { Ix x(k); int t = x.take(3); auto &o = OS[(x.k * 3 + t) % no]; Mat A(4, 4, 65537); for (int i = 0; i < 16; i++) if (x.k >> i & 1) A[i / 4][i % 4] = 1 + (t ? (u64) i * i * t % 5 : 0); one(A, o.o, t, RANDS[k % RANDS.size()], (k / no) % 2, o.name); });
	family("patterns-5x3", 32768 * 2, [=](uint64_t k) { Ix x(k); int c = x.take(2); auto &o = OS[x.k % no]; Mat A(5, 3, 7); for (int i = 0; i < 15; i++) if (x.k >> i & 1) A[i / 3][i % 3] = 1 + i % 6; one(A, o.o, x.k % 3, RANDS[k % RANDS.size()], c, o.name); });
	family("patterns-4x4-all-options", 65536 * no * 2, [=](uint64_t k) { Ix x(k); auto &o = OS[x.take(no)]; int c = x.take(2); Mat A(4, 4, 5); for (int i = 0; i < 16; i++) if (x.k >> i & 1) A[i / 4][i % 4] = 1; one(A, o.o, x.k % 3, RANDS[k % RANDS.size()], c, o.name); }, {true});
	family("all-mod3-3x4", ipow(3, 12) * 2, [=](uint64_t k) { Ix x(k); int t = x.take(2); auto &o = OS[(x.k * 5 + t) % no]; one(mat_enum(3, 4, 3, v3, x.k), o.o, x.k % 3, RANDS[k % RANDS.size()], t, o.name); }, {true});
	family("all-mod3-4x3", ipow(3, 12) * 2, [=](uint64_t k) { Ix x(k); int t = x.take(2); auto &o = OS[(x.k * 5 + t) % no]; one(mat_enum(4, 3, 3, v3, x.k), o.o, x.k % 3, RANDS[k % RANDS.size()], t, o.name); }, {true});
	static auto S = suite(257, false); static auto S3 = suite(3, false); u64 nq = opt_count(false), ns = S.size(), nf = opt_count(true);
	family("structured-x-options", nq * ns, [=](uint64_t k) { Ix x(k); auto &A = S[x.take(ns)]; one(A.A, opt_get(false, x.k), x.k % 3, RANDS[x.k % RANDS.size()], (x.k / 3) % 2, A.name.c_str()); }, {false, 0, "structured matrices x product of the option alphabets, mod 257"});
	family("structured-x-options-mod3", nq * ns, [=](uint64_t k) { Ix x(k); auto &A = S3[x.take(ns)]; one(A.A, opt_get(false, x.k), x.k % 3, RANDS[x.k % RANDS.size()], (x.k / 3) % 2, A.name.c_str()); }, {false, 0, "the same mod 3"});
	family("structured-x-all-options", nf * ns * 2, [=](uint64_t k) { Ix x(k); int c = x.take(2); auto &A = S3[x.take(ns)]; one(A.A, opt_get(true, x.k), x.k % 3, RANDS[x.k % RANDS.size()], c, A.name.c_str()); }, {true});
	static auto P = primes_all(); static std::vector<std::vector<Named>> SP; for (u64 p : P) SP.push_back(suite(p, true)); u64 nb = SP[0].size();
	family("structured-x-primes", P.size() * nb * no, [=](uint64_t k) { Ix x(k); auto &o = OS[x.take(no)]; auto &A = SP[x.take(P.size())][x.k]; one(A.A, o.o, k % 3, RANDS[k % RANDS.size()], (k / 17) % 2, A.name.c_str()); });
	family("large", 4 * no, [=](uint64_t k) { Ix x(k); auto &o = OS[x.take(no)]; u64 p = x.k % 2 ? 42013 : 2147483659; int n = 1300, m = 30; Mat A(n, m, p); for (int i = 0; i < n; i++) { if (x.k < 2) { int t = i < 900 ? 5 : 28; A[i][tex(i, 1) % t] = 1 + tex(i, 2) % 1000; A[i][tex(i, 3) % t] = 1 + tex(i, 4) % 1000; } else { for (int j = 0; j < 6; j++) A[i][(i % 3) + j * 3] = 1 + (i % 5) * (j + 1); if (i % 600 == 599) A[i][20 + i / 600] = 3; } } one(A, o.o, k % 3, {}, x.k % 2, o.name); }, {false, 60});
	static auto SL = sweep_list(tier_thorough() ? 4097 : 2049, tier_thorough() ? 257 : 129); u64 nsl = SL.size(); static const u64 SP_[3] = {257, 65537, 4294967291u};
	family("sizes", nsl * (tier_thorough() ? no : 5), [=](uint64_t k) { Ix x(k); auto &z = SL[x.take(nsl)]; auto &o = OS[(tier_thorough() ? x.k : x.k * 5 + k) % no]; one(sweep_mat(z.shape, z.size, SP_[(k + x.k) % 3]), o.o, k % 3, RANDS[k % RANDS.size()], k % 2, z.name.c_str()); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	family("long", long_count() * 3, [=](uint64_t k) { u64 p = (u64[]){257, 65537, 4294967291u}[k % 3]; std::string nm; SpM S = long_mat(k / 3, p, nm); auto o = OS[(u64[]){0, 2, 1}[(k / 2) % 3]]; o.o.L = 1; o.o.complete = k % 2; describe("%s mod %lu %s complete %d", nm.c_str(), (unsigned long) p, o.name, (int) (k % 2)); SpEch E = sp_ech(S); struct spasm_csr *C = sp_csr(S, k % 3); rand_script(RANDS[k % RANDS.size()], true); struct spasm_lu *f = spasm_echelonize(C, &o.o); step(); mc_traces++; sp_check_echelon(S, E, f->U, f->qinv, "U"); sp_check_lu(S, f, k % 2); state(snap_csr(f->L)); spasm_lu_free(f); spasm_csr_free(C); }, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
