// C25: parallel row production (Schur complements, reduced form, kernel, batched solving), every interleaving.
#include "explorer.h"
#include "fact.h"
#include "algo.h"
#include <cmath>
extern "C" void *mc_malloc(size_t);
const char *harness_property = "C25";
const char *harness_assumptions[] = {"interleavings are sequentially consistent (no weak-memory reordering)", "chunks of dynamic and guided loops are explored with one iteration each (as with more threads or a longer loop)", "bounded number of preemptions, stated per family", NULL};

template <class T> static T *am(size_t n) { return (T *) mc_malloc(n * sizeof(T)); }
static SchedStats ex(int threads, int pre, const std::function<void()> &a, const std::function<void()> &b, const std::function<void()> &c)
{
	SchedOpt so; so.threads = threads; so.preemptions = pre; auto st = explore(so, a, b, c); if (st.truncated) violation("internal bound on the number of executions reached");
	describe(" -> %lu executions, %lu pruned, %lu points, depth %lu", (unsigned long) st.executions, (unsigned long) st.pruned, (unsigned long) st.points, (unsigned long) st.maxdepth); return st;
}
struct In { Mat U, A; std::vector<int> piv, sel; };
static In input(u64 p, int r, int n, int m, int t)
{
	In x; auto pc = perm_get(m, (u64) t * 37 + 11); x.U = Mat(r, m, p); x.A = Mat(n + 1, m, p); x.piv.assign(pc.begin(), pc.begin() + r);
	for (int i = 0; i < r; i++) { x.U[i][pc[i]] = 1; for (int j = i + 1; j < m; j++) if (tex(i, j, t) % 3) x.U[i][pc[j]] = 1 + tex(i, j, t + 5) % (p - 1); }
	for (int i = 0; i <= n; i++) for (int j = 0; j < m; j++) if (tex(i + 20, j, t) % 5 < 3) x.A[i][j] = 1 + tex(i, j, t + 9) % (p - 1);
	if (t % 4 == 1) for (int j = 0; j < m; j++) x.A[1][j] = 0;                                      // an empty row
	if (t % 4 == 2 && r) x.A[0] = x.U[0];                                                              // a row that vanishes
	for (int i = 0; i < n; i++) x.sel.push_back((i + t) % (n + 1));
	return x;
}
static Fact F; static struct spasm_csr *C, *S; static int *P, *Pin, *po, *q; static void *D; static double dens; static Snap in0;
static void multipliers(const struct spasm_triplet *L, int base, const Mat &W, u64 p)
{
	Mat M(W.n, W.m, p); EXPECT(L->nz <= L->nzmax, "multiplier count %ld exceeds the capacity", (long) L->nz);
	if (base) EXPECT(L->i[0] == 1 && L->j[0] == 0 && L->x[0] == 2, "existing multiplier changed");
	for (i64 e = base; e < L->nz; e++) { int i = L->i[e], j = L->j[e]; EXPECT(i >= 0 && i < W.n && j >= 0 && j < W.m, "multiplier at (%d,%d)", i, j); EXPECT(M[i][j] == 0, "multiplier (%d,%d) recorded twice", i, j); M[i][j] = R_red(L->x[e], p); }
	for (int i = 0; i < W.n; i++) for (int j = 0; j < W.m; j++) EXPECT(M[i][j] == W[i][j], "multiplier (%d,%d) is %d, expected %d", i, j, R_bal(M[i][j], p), R_bal(W[i][j], p));
}
static void schur(const In &x, int threads, int pre, bool L, i64 lcap, double density, bool fresh = false)
{
	int n = x.sel.size(), m = x.A.m, norig = x.A.n + 2; u64 p = x.A.p; describe("schur U=%s A=%s %d threads %d preemptions, density %.1f, multipliers %d (capacity %ld)", R_str(x.U).c_str(), R_str(x.A).c_str(), threads, pre, density, L, (long) lcap);
	std::vector<Row> want(n), mult(n); Mat W(norig, std::max(1, x.U.n), p); W.m = x.U.n; for (int k = 0; k < n; k++) { eliminate(x.U, x.piv, x.A[x.sel[k]], want[k], mult[k]); for (int s = 0; s < x.U.n; s++) W[norig - 1 - x.sel[k]][s] = mult[k][s]; }
	ex(threads, pre, [&] { C = to_csr(x.A); make_fact(F, x.U, x.piv, x.U.n, L, 0, lcap, norig); if (L && !fresh) spasm_add_entry(F.L, 1, 0, 2); P = am<int>(n); po = am<int>(n); Pin = am<int>(x.A.n); for (int i = 0; i < n; i++) { P[i] = x.sel[i]; po[i] = -9; } for (int i = 0; i < x.A.n; i++) Pin[i] = norig - 1 - i; in0.h = snap_csr(C) ^ snap_csr(F.U); },
		[&] { S = spasm_schur(C, P, n, &F.f, density, F.L, Pin, po); },
		[&] { wellformed(S, n, m, p, WF_ALL, "Schur complement"); Mat Sd = from_csr(S); std::vector<char> used(n, 0);
			for (int k = 0; k < n; k++) { int t = -1; for (int s = 0; s < n; s++) if (norig - 1 - x.sel[s] == po[k] && !used[s]) t = s; EXPECT(t >= 0, "output row %d claims to come from row %d", k, po[k]); used[t] = 1; for (int j = 0; j < m; j++) EXPECT(Sd[k][j] == want[t][j], "output row %d (from row %d): column %d is %d, exact elimination gives %d", k, po[k], j, R_bal(Sd[k][j], p), R_bal(want[t][j], p)); }
			if (L) multipliers(F.L, fresh ? 0 : 1, W, p); EXPECT((snap_csr(C) ^ snap_csr(F.U)) == in0.h, "an input was modified"); });
}
static void schur_dense(const In &x, int threads, int pre, bool L, spasm_datatype dt)
{
	int n = x.sel.size(), m = x.A.m, norig = x.A.n + 2, Sm = m - x.U.n; u64 p = x.A.p; describe("dense schur U=%s A=%s %d threads %d preemptions, multipliers %d", R_str(x.U).c_str(), R_str(x.A).c_str(), threads, pre, L);
	std::vector<Row> want(n), mult(n); Mat W(norig, std::max(1, x.U.n), p); W.m = x.U.n; for (int k = 0; k < n; k++) { eliminate(x.U, x.piv, x.A[x.sel[k]], want[k], mult[k]); for (int s = 0; s < x.U.n; s++) W[norig - 1 - x.sel[k]][s] = mult[k][s]; }
	ex(threads, pre, [&] { C = to_csr(x.A); make_fact(F, x.U, x.piv, x.U.n, L, 0, 1, norig); if (L) spasm_add_entry(F.L, 1, 0, 2); P = am<int>(n); po = am<int>(n); q = am<int>(Sm); D = mc_malloc((size_t) n * Sm * (dt == SPASM_FLOAT ? 4 : 8)); Pin = am<int>(x.A.n); for (int i = 0; i < n; i++) { P[i] = x.sel[i]; po[i] = -9; } for (int i = 0; i < x.A.n; i++) Pin[i] = norig - 1 - i; },
		[&] { spasm_schur_dense(C, P, n, Pin, &F.f, D, dt, q, po); },
		[&] { std::vector<char> used(n, 0); std::vector<char> s(m, 0); for (int j = 0; j < Sm; j++) { EXPECT(q[j] >= 0 && q[j] < m && F.qinv[q[j]] < 0 && !s[q[j]], "column map"); s[q[j]] = 1; }
			for (int k = 0; k < n; k++) { int t = -1; for (int z = 0; z < n; z++) if (norig - 1 - x.sel[z] == po[k] && !used[z]) t = z; EXPECT(t >= 0, "output row %d claims to come from row %d", k, po[k]); used[t] = 1;
				for (int j = 0; j < Sm; j++) { i64 v = dt == SPASM_I64 ? ((i64 *) D)[k * Sm + j] : dt == SPASM_FLOAT ? (i64) ((float *) D)[k * Sm + j] : (i64) ((double *) D)[k * Sm + j]; EXPECT(R_canon(v, p) && R_red(v, p) == want[t][q[j]], "output row %d (from row %d), column %d is %ld, exact elimination gives %d", k, po[k], q[j], (long) v, R_bal(want[t][q[j]], p)); } }
			if (L) { F.L = F.f.Ltmp; multipliers(F.L, 1, W, p); } });
}
static std::vector<double> ref;
static void schur_rand(const In &x, int threads, int pre, int N, int w, bool first)
{
	int n = x.sel.size(), m = x.A.m, Sm = m - x.U.n; u64 p = x.A.p; describe("randomized schur U=%s A=%s %d threads %d preemptions, N=%d w=%d", R_str(x.U).c_str(), R_str(x.A).c_str(), threads, pre, N, w);
	Mat sp(n, m, p); for (int k = 0; k < n; k++) { Row mu; eliminate(x.U, x.piv, x.A[x.sel[k]], sp[k], mu); } Mat red = sp; int rk = R_rref(red).size(); ref.clear();
	ex(threads, pre, [&] { C = to_csr(x.A); make_fact(F, x.U, x.piv, x.U.n, false, 0, 0, 1); P = am<int>(n); for (int i = 0; i < n; i++) P[i] = x.sel[i]; q = am<int>(Sm); D = mc_malloc((size_t) N * Sm * 8); },
		[&] { spasm_schur_dense_randomized(C, P, n, F.U, F.qinv.data(), D, SPASM_DOUBLE, q, N, w); },
		[&] { std::vector<double> got((double *) D, (double *) D + N * Sm); if (w <= 0) { if (ref.empty()) ref = got; EXPECT(got == ref, "the combinations depend on the schedule"); }
			for (int k = 0; k < N; k++) { Row v(m, 0); for (int j = 0; j < Sm; j++) { EXPECT(R_canon((i64) got[k * Sm + j], p) && got[k * Sm + j] == (double) (i64) got[k * Sm + j], "value %g", got[k * Sm + j]); v[q[j]] = R_red((i64) got[k * Sm + j], p); } Mat B = red; B.a.push_back(v); B.n++; EXPECT(R_rank(B) == rk, "row %d is not a combination of the rows of the Schur complement", k); } });
}
static double est; 
static void density(const In &x, int threads, int pre, int R)
{
	int n = x.sel.size(), m = x.A.m; describe("density U=%s A=%s %d threads %d preemptions, %d rows sampled", R_str(x.U).c_str(), R_str(x.A).c_str(), threads, pre, R); In y = x; y.sel = {x.sel[0], x.sel[1]}; n = 2;
	int c[2]; for (int k = 0; k < 2; k++) { Row w, mu; eliminate(x.U, x.piv, x.A[y.sel[k]], w, mu); c[k] = 0; for (u64 v : w) c[k] += v != 0; } int tot = 0;
	ex(threads, pre, [&] { C = to_csr(x.A); make_fact(F, x.U, x.piv, x.U.n, false, 0, 0, 1); P = am<int>(n); for (int i = 0; i < n; i++) P[i] = y.sel[i]; std::vector<int> a; for (int i = 0; i < R; i++) a.push_back(i % 2); rand_script(a); tot = 0; for (int i = 0; i < R; i++) tot += c[i % 2]; },
		[&] { est = spasm_schur_estimate_density(C, P, n, F.U, F.qinv.data(), R); },
		[&] { double w = (double) tot / (m - x.U.n) / R; EXPECT(std::fabs(est - w) < 1e-9, "density %f, the sampled rows have %f", est, w); });
}
static struct spasm_lu LU; static int *rq;
static void rref(const In &x, int threads, int pre)
{
	describe("rref of U=%s %d threads %d preemptions", R_str(x.U).c_str(), threads, pre); int m = x.U.m;
	ex(threads, pre, [&] { make_fact(F, x.U, x.piv, x.U.n, false, 0, 0, 1); rq = am<int>(m); for (int j = 0; j < m; j++) rq[j] = -7; in0.h = snap_csr(F.U); }, [&] { S = spasm_rref(&F.f, rq); }, [&] { check_rref(x.U, S, rq, x.U.n, "rref"); EXPECT(snap_csr(F.U) == in0.h, "input modified"); });
}
static void kernel(const In &x, int threads, int pre)
{
	describe("kernel of U=%s %d threads %d preemptions", R_str(x.U).c_str(), threads, pre);
	ex(threads, pre, [&] { make_fact(F, x.U, x.piv, x.U.n, false, 0, 0, 1); in0.h = snap_csr(F.U); }, [&] { S = spasm_kernel(&F.f); }, [&] { check_kernel(x.U, S, x.U.n, "kernel"); EXPECT(snap_csr(F.U) == in0.h, "input modified"); });
}
static bool *okp; static struct spasm_csr *B;
static void gesv(const In &x, int threads, int pre, int nb, int t)
{
	u64 p = x.U.p; int r = x.U.n, m = x.U.m, n = r + 1; Mat L(n, r, p), Bm(nb, m, p); for (int i = 0; i < n; i++) for (int j = 0; j < r; j++) if (j == i) L[i][j] = 1 + tex(i, t) % (p - 1); else if (j < i) L[i][j] = tex(i, j, t) % p;
	Mat A = R_mulmat(L, x.U); for (int k = 0; k < nb; k++) { Row y(n); for (int i = 0; i < n; i++) y[i] = tex(k, i, t) % p; Bm[k] = R_vecmat(y, A); if ((k + t) % 3 == 2) Bm[k][(k + t) % m] = R_add(Bm[k][(k + t) % m], 1, p); if (t % 2 && (k + t / 2) % 3 != 2) { Bm[k] = Row(m, 0); Bm[k][(k * 2 + t / 2) % m] = 1 + tex(k, t) % (p - 1); } }       // also rows with different supports
	Mat R = A; auto pc = R_rref(R); std::vector<int> good; for (int k = 0; k < nb; k++) { Mat T = R; T.a.push_back(Bm[k]); T.n++; good.push_back(R_rank(T) == (int) pc.size()); }
	describe("gesv A=%s B=%s %d threads %d preemptions", R_str(A).c_str(), R_str(Bm).c_str(), threads, pre);
	ex(threads, pre, [&] { make_fact(F, x.U, x.piv, r, false, 0, 0, n); LU = F.f; LU.L = to_csr(L); LU.p = am<int>(n); for (int i = 0; i < n; i++) LU.p[i] = i; LU.complete = true; LU.r = r; B = to_csr(Bm); okp = am<bool>(nb); for (int i = 0; i < nb; i++) okp[i] = false; },
		[&] { S = spasm_gesv(&LU, B, okp); },
		[&] { wellformed(S, nb, n, p, WF_ALL, "solutions"); Mat X = from_csr(S); for (int k = 0; k < nb; k++) { EXPECT(okp[k] == (bool) good[k], "verdict of row %d is %d", k, okp[k]); if (good[k]) EXPECT(R_vecmat(X[k], A) == Bm[k], "solution %d is wrong", k); } });
}
// k-th triangular pattern of r rows over m columns, generic values
static In pattern(u64 p, int r, int m, u64 k) { In x; x.U = Mat(r, m, p); for (int i = 0; i < r; i++) { int c = (i * 2 + 1) % m; while (std::count(x.piv.begin(), x.piv.end(), c)) c = (c + 1) % m; x.piv.push_back(c); x.U[i][c] = 1; for (int j = 0; j < m; j++) if (!std::count(x.piv.begin(), x.piv.end(), j)) { if (k & 1) x.U[i][j] = 2 + (i * 5 + j * 3) % (p - 2); k >>= 1; } } return x; }
static u64 npat(int r, int m) { u64 e = 0; for (int i = 0; i < r; i++) e += m - 1 - i; return 1ull << e; }
static void all(const char *sfx, int threads, int pre, int n, int nt, bool th)
{
	if (th && !tier_thorough()) return; std::string s = sfx; FamilyOpt fo{th, 100};
	static const double DD[] = {0, 0.05, 0.3, 5}; 
	family("schur" + s, nt * 4, [=](uint64_t k) { Ix x(k); int d = x.take(4), t = x.k; schur(input(65537, 1 + t % 2, n, 4, t), threads, pre, false, 0, DD[d]); }, fo);
	family("schur-L" + s, nt * 4, [=](uint64_t k) { Ix x(k); int d = x.take(4), t = x.k; schur(input(257, 1 + t % 3, n, 5, t), threads, pre, true, d % 2 ? 1 + t % 3 : 30, d < 2 ? 5 : 0); }, fo);
	family("schur-L-fresh" + s, nt * 2, [=](uint64_t k) { Ix x(k); int d = x.take(2), t = x.k; schur(input(257, 1 + t % 3, n, 5, t), threads, pre, true, (t / 3) % 3, d ? 5 : 0, true); }, fo);
	family("dense" + s, nt * 3, [=](uint64_t k) { Ix x(k); int d = x.take(3), t = x.k; schur_dense(input(65537, t % 4, n, 4, t), threads, pre, d != 1, d == 0 ? SPASM_DOUBLE : d == 1 ? SPASM_FLOAT : SPASM_I64); }, fo);
	family("randomized" + s, nt, [=](uint64_t k) { schur_rand(input(65537, k % 3, 3, 4, k), threads, pre, n, (k % 3 == 0) ? 0 : k % 3 == 1 ? -1 : 2, true); }, fo);
	family("density" + s, nt, [=](uint64_t k) { density(input(65537, k % 3, 2, 4, k), threads, pre, n + 1); }, fo);
	family("rref" + s, nt * 2, [=](uint64_t k) { rref(input(65537, n, 1, n + 1 + (k % 3), k), threads, pre); }, fo);
	family("kernel" + s, nt * 2, [=](uint64_t k) { kernel(input(65537, 1 + k % 3, 1, n + 1 + k % 3, k), threads, pre); }, fo);
	family("gesv" + s, nt, [=](uint64_t k) { gesv(input(65537, 1 + k % 3, 1, 3, k), threads, pre, n, k); }, fo);
}
void harness_register()
{
	all("-t2-p2-n3", 2, 2, 3, 12, false);
	all("-t3-p1-n3", 3, 1, 3, 4, false);
	all("-t2-p1-n5", 2, 1, 5, 6, false);
	family("schur-capacity", 6 * 13, [](uint64_t k) { Ix x(k); int c = x.take(13), t = x.k; schur(input(65537, 1 + t % 2, 3, 4, t), 2, 1, false, 0, (c + 0.5) / 12); }, {false, 100, "every initial capacity: growth at every possible moment"});
	family("schur-L-capacity", 8 * 10, [](uint64_t k) { Ix x(k); int c = x.take(8), t = x.k; schur(input(257, 1 + t % 3, 3, 4, t), 2, 1, true, 1 + c, t % 2 ? 5 : (c + 0.5) / 12); }, {false, 100, "every initial capacity of the multiplier record"});
	for (auto rm : std::vector<std::pair<int, int>>{{2, 3}, {2, 4}, {3, 4}, {2, 5}}) { int r = rm.first, m = rm.second; std::string s = std::to_string(r) + "x" + std::to_string(m); family("rref-patterns-" + s, npat(r, m), [=](uint64_t k) { rref(pattern(65537, r, m, k), 2, 2); }, {false, 100, "all patterns of the factor"}); family("kernel-patterns-" + s, npat(r, m), [=](uint64_t k) { kernel(pattern(65537, r, m, k), 2, 2); }, {false, 100, "all patterns of the factor"}); }
	family("rref-patterns-3x5", npat(3, 5), [=](uint64_t k) { rref(pattern(65537, 3, 5, k), 2, 2); }, {true, 100}); family("kernel-patterns-3x6", npat(3, 6), [=](uint64_t k) { kernel(pattern(65537, 3, 6, k), 2, 2); }, {true, 100});
	family("rref-patterns-4x5", npat(4, 5), [=](uint64_t k) { rref(pattern(65537, 4, 5, k), 2, 1); }, {true, 100});
	all("-t2-p3-n4", 2, 3, 4, 24, true);
	all("-t3-p2-n4", 3, 2, 4, 12, true);
	all("-t2-p1-n7", 2, 1, 7, 24, true);
}
