// C11: sparse Schur complement, density estimate.
#include "fact.h"
#include "algo.h"
#include "big.h"
#include <cmath>
const char *harness_property = "C11";
const char *harness_assumptions[] = {"one thread (C25 explores the schedules)", NULL};

static void one(const Mat &U, const std::vector<int> &piv, const Mat &A, const std::vector<int> &sel, int order, bool withL, bool pin, bool pout, double dens, bool pivfirst, const std::vector<int> &rnd)
{
	u64 p = A.p; int m = A.m, n = (int) sel.size();
	if (want_sample()) { describe("U=%s A=%s rows", R_str(U).c_str(), R_str(A).c_str()); for (int i : sel) describe(" %d", i); describe(" density %.2f L=%d", dens, withL); }
	struct spasm_csr *C = to_csr(A, order); u64 h0 = snap_csr(C); int norig = A.n + 3; std::vector<int> P_in(A.n + 1), P = sel; for (int i = 0; i < A.n; i++) P_in[i] = norig - 1 - i; P.push_back(0);
	Fact F; make_fact(F, U, piv, U.n, withL, 0, (dens < 0.5 ? 0 : 40), norig, pivfirst); u64 hu = snap_csr(F.U); auto q0 = F.qinv;
	int e0 = (n + U.n + order + m) % 2 ? 2 : 0;       // what the record contains before
	if (withL && e0) { spasm_add_entry(F.L, 1, 0, 2); spasm_add_entry(F.L, 2, 0, 1); }
	std::vector<int> po(n, -9); po.reserve(1); rand_script(rnd, true);
	struct spasm_csr *S = spasm_schur(C, P.data(), n, &F.f, dens, F.L, pin ? P_in.data() : NULL, pout ? po.data() : NULL); step(); mc_traces++;
	wellformed(S, n, m, p, WF_ALL, "Schur complement"); Mat Sd = from_csr(S);
	std::vector<Row> want(n), mult(n); std::vector<int> lab(n); for (int k = 0; k < n; k++) { eliminate(U, piv, A[sel[k]], want[k], mult[k]); lab[k] = pin ? P_in[sel[k]] : sel[k]; }
	if (pout) { std::vector<char> used(n, 0); for (int k = 0; k < n; k++) { int t = -1; for (int s = 0; s < n; s++) if (lab[s] == po[k] && !used[s]) t = s; EXPECT(t >= 0, "output row %d claims to come from row %d", k, po[k]); used[t] = 1; for (int j = 0; j < m; j++) EXPECT(Sd[k][j] == want[t][j], "output row %d (from row %d): column %d is %d, exact elimination gives %d", k, po[k], j, R_bal(Sd[k][j], p), R_bal(want[t][j], p)); } }
	else { auto a = Sd.a, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); EXPECT(a == b, "rows differ from the exact elimination"); }
	if (withL) {
		Mat M(norig, U.n, p), W(norig, U.n, p); EXPECT(F.L->nz >= e0 && F.L->nz <= F.L->nzmax, "multiplier count %ld", (long) F.L->nz); if (e0) EXPECT(F.L->i[0] == 1 && F.L->j[0] == 0 && F.L->x[0] == R_bal(2 % p, p) && F.L->i[1] == 2 && F.L->x[1] == 1, "existing multipliers changed");
		for (i64 q = e0; q < F.L->nz; q++) { int i = F.L->i[q], j = F.L->j[q]; EXPECT(i >= 0 && i < norig && j >= 0 && j < U.n, "multiplier at (%d,%d)", i, j); EXPECT(M[i][j] == 0, "multiplier (%d,%d) recorded twice", i, j); EXPECT(R_canon(F.L->x[q], p), "non-canonical multiplier"); M[i][j] = R_red(F.L->x[q], p); }
		for (int k = 0; k < n; k++) for (int t = 0; t < U.n; t++) W[lab[k]][t] = mult[k][t];
		for (int i = 0; i < norig; i++) for (int j = 0; j < U.n; j++) EXPECT(M[i][j] == W[i][j], "multiplier (%d,%d) is %d, expected %d", i, j, R_bal(M[i][j], p), R_bal(W[i][j], p));
	}
	// density estimate
	if (n > 0) { double lo = 2, hi = -1; int Sm = m - U.n; for (auto &r : want) { int c = 0; for (u64 v : r) c += v != 0; double d = Sm ? (double) c / Sm : 0; lo = std::min(lo, d); hi = std::max(hi, d); }
		for (int R : {1, 3, 100}) { rand_script(rnd, true); double d = spasm_schur_estimate_density(C, P.data(), n, F.U, F.qinv.data(), R); step(); EXPECT(std::isfinite(d), "density estimate is %f", d); EXPECT(d >= lo - 1e-9 && d <= hi + 1e-9, "density estimate %f outside the densities [%f,%f] of the rows", d, lo, hi); } }
	else { double d = spasm_schur_estimate_density(C, P.data(), 0, F.U, F.qinv.data(), 10); step(); EXPECT(d == 0, "density of nothing is %f", d); }
	EXPECT(snap_csr(C) == h0 && snap_csr(F.U) == hu && F.qinv == q0, "an input was modified"); std::sort(Sd.a.begin(), Sd.a.end()); state(R_hash(Sd, R_hash(U)));
}
static const std::vector<i64> v3 = {0, 1, -1}, v2 = {0, 1};
static const double D[] = {0, 0.3, 1, -1};
static Mat allB(int q) { Mat B((int) ipow(3, q), q, 3); for (u64 t = 0; t < ipow(3, q); t++) { u64 z = t; for (int j = 0; j < q; j++) { B[t][j] = z % 3; z /= 3; } } return B; }
// pivot rows and rows to eliminate with the given numbers of rows and columns
static void sized(int r, int n, int m, u64 p, u64 k, Mat &U, std::vector<int> &piv, Mat &A, std::vector<int> &sel)
{
	U = Mat(r, m, p); A = Mat(n, m, p); auto nz = [&](int a, int b, int c) -> u64 { u64 z = tex(a, b, c + 10 * k); return z % 4 == 0 ? p / 2 : z % 4 == 1 ? p - 1 : 1 + (z >> 2) % (p - 1); }; int g = 1; for (int t = m / 3; t < m; t++) { int a = t, b = m; while (b) { int c = a % b; a = b; b = c; } if (a == 1) { g = t; break; } }
	auto col = [&](int i) { return (int) ((i64) i * g % m); }; for (int i = 0; i < r; i++) { piv.push_back(col(i)); U[i][col(i)] = 1; for (int t = 0; t < 4; t++) { int c = i + 1 + tex(i, t, k) % (t < 2 ? 3 : m); if (c < m) U[i][col(c)] = nz(i, t, 0); } }
	for (int i = 0; i < n; i++) { sel.push_back(i); for (int t = 0; t < 5; t++) A[i][tex(i, t, k + 7) % m] = nz(i, t, 1); if (i % 7 == 0) for (int j = i % 5; j < m; j += 5) A[i][j] = nz(i, j, 2); if (i % 9 == 8) A[i].assign(m, 0); } if (k % 3 == 1) std::reverse(sel.begin(), sel.end()); if (k % 3 == 2) { sel.clear(); for (int i = 0; i < n; i += 2) sel.push_back(i); }
}
static const int SZ[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049};
// pivots found by the library (decided by C09), then the Schur complement of the other rows; S + L.U = A decides each row
static void long_schur(u64 k)
{
	u64 p = (u64[]){257, 65537, 4294967291u}[k % 3]; std::string nm; SpM S = long_mat(k, p, nm); describe("Schur complement of %s mod %lu", nm.c_str(), (unsigned long) p); int n = S.n, m = S.m; struct spasm_csr *C = sp_csr(S, k % 3); struct spasm_csr *U = spasm_csr_alloc(n, m, 10, p, true); U->n = 0; U->p[0] = 0; std::vector<int> qinv(m, -1), lp(n + 1, -1), rp(n, -5); struct spasm_lu f; memset(&f, 0, sizeof f); f.U = U; f.qinv = qinv.data(); f.p = lp.data(); f.Ltmp = spasm_triplet_alloc(n, n, 0, p, true); struct echelonize_opts o = opt_base(); o.L = 1; int r = spasm_pivots_extract_structural(C, NULL, &f, rp.data(), &o); step(); U = f.U;
	struct spasm_triplet *L = spasm_triplet_alloc(n, n, 10, p, true); std::vector<int> po(n - r, -9); rand_script({(int) k, 1, 5}, true); struct spasm_csr *W = spasm_schur(C, rp.data() + r, n - r, &f, k % 2 ? 0.001 : -1, L, NULL, po.data()); step(); mc_traces++; wellformed(W, n - r, m, p, WF_ALL, "Schur complement");
	SpM Us = sp_from(U), Ws = sp_from(W); std::vector<std::map<int, u64>> mult(n); for (i64 t = 0; t < L->nz; t++) { EXPECT(L->i[t] >= 0 && L->i[t] < n && L->j[t] >= 0 && L->j[t] < r && R_canon(L->x[t], p), "multiplier %ld", (long) t); EXPECT(!mult[L->i[t]].count(L->j[t]), "multiplier recorded twice"); mult[L->i[t]][L->j[t]] = R_red(L->x[t], p); }
	std::vector<char> todo(n, 0); for (int t = r; t < n; t++) todo[rp[t]] = 1; for (int i = 0; i < n; i++) if (!todo[i]) EXPECT(mult[i].empty(), "multipliers for row %d, which is not eliminated", i);
	for (int t = 0; t < n - r; t++) { int i = po[t]; EXPECT(i >= 0 && i < n && todo[i], "output row %d claims to come from row %d", t, i); todo[i] = 0; std::map<int, u64> x; for (auto &e : Ws.a[t]) { EXPECT(qinv[e.first] < 0, "output row %d has an entry on a pivot column", t); x[e.first] = e.second; } for (auto &l : mult[i]) for (auto &e : Us.a[l.first]) { u64 &v = x[e.first]; v = R_add(v, R_mul(l.second, e.second, p), p); } for (auto &e : S.a[i]) { u64 &v = x[e.first]; v = R_sub(v, e.second, p); } for (auto &e : x) EXPECT(e.second == 0, "row %d: remainder and multipliers do not rebuild it at column %d", i, e.first); }
	state(hmix(snap_csr(W), k)); spasm_csr_free(W); spasm_csr_free(C);
}
void harness_register()
{
	for (int m = 1; m <= 3; m++) for (int r = 0; r <= m; r++) for (int n = 0; n <= 2; n++) {
		u64 ca = ipow(3, n * m), cu = tri_count(r, m, 3);
		family("all-mod3-U" + std::to_string(r) + "-A" + std::to_string(n) + "x" + std::to_string(m), ca * cu * (m == 3 && n == 2 ? 1 : 4), [=](uint64_t k) { Ix x(k); u64 a = x.take(ca), u = x.take(cu); int v = m == 3 && n == 2 ? (int) ((a + u) % 4) : (int) x.k; std::vector<int> piv; Mat U = tri_get(r, m, 3, v3, u, piv), A = mat_enum(n, m, 3, v3, a); std::vector<int> sel; for (int i = 0; i < n; i++) sel.push_back(k % 2 ? n - 1 - i : i);
			bool L = v >= 2 && r > 0; one(U, piv, A, sel, k % 3, L, v & 1, (v & 1) || L || k % 5, D[k / 7 % 4], k % 4 != 3, {(int) (k % 3), 1, 0, 2}); }, {false, 0, "all pivot rows x all matrices (x L / maps)"});
	}
	// every row at once: 27 (81) rows against all triangular systems, every option
	for (int m = 3; m <= 4; m++) for (int r = 1; r <= 3; r++) { const auto &vv = (m == 4 && r == 3) ? v2 : v3; u64 cu = tri_count(r, m, vv.size()); family("all-rows-U" + std::to_string(r) + "x" + std::to_string(m), cu, [=](uint64_t k) { std::vector<int> piv; Mat U = tri_get(r, m, 3, (m == 4 && r == 3) ? v2 : v3, k, piv), A = allB(m); std::vector<int> sel; for (int i = 0; i < A.n; i++) if ((i + k) % 4) sel.push_back((i * 2 + (int) k) % A.n); std::sort(sel.begin(), sel.end()); sel.erase(std::unique(sel.begin(), sel.end()), sel.end()); one(U, piv, A, sel, k % 3, k % 2, k % 5 > 1, true, D[k % 4], k % 3, {5, 1, 17, 2, 40}); }); }
	static auto P = primes_all();
	family("primes", P.size() * 10, [](uint64_t k) { Ix x(k); u64 p = P[x.take(P.size())], h = p / 2; int t = x.k; auto val = [&](int a, int b) -> u64 { u64 z = tex(a, b, t); return z % 5 == 0 ? h : z % 5 == 1 ? p - h : z % 5 == 2 ? 0 : R_red((i64) z, p); }; auto pc = perm_get(6, t * 71); Mat U(3, 6, p), A(5, 6, p); std::vector<int> piv(pc.begin(), pc.begin() + 3); for (int i = 0; i < 3; i++) { U[i][pc[i]] = 1; for (int j = i + 1; j < 6; j++) U[i][pc[j]] = val(i, j); } for (int i = 0; i < 5; i++) for (int j = 0; j < 6; j++) A[i][j] = val(i + 10, j); one(U, piv, A, {4, 0, 2, 1}, t % 3, true, t % 2, true, D[t % 4], true, {3, 1, 2, 0}); });
	family("growth", 60, [](uint64_t k) { Ix x(k); int n = 5 + (int) x.take(6) * 40, r = (int) x.take(5) * 4, m = 25; u64 p = 65537; Mat U(r, m, p), A(n, m, p); std::vector<int> piv, sel; for (int i = 0; i < r; i++) { int c = (i * 7) % m; piv.push_back(c); U[i][c] = 1; } std::vector<char> dead(m, 0); for (int i = 0; i < r; i++) { dead[piv[i]] = 1; for (int j = 0; j < m; j++) if (!dead[j] && tex(i, j, k) % 3 == 0) U[i][j] = 1 + tex(i, j) % 65536; } for (int i = 0; i < n; i++) { for (int j = 0; j < m; j++) if (tex(i, j, k + 1) % 4 == 0) A[i][j] = 1 + tex(i, j) % 65536; if (i % 3) sel.push_back(n - 1 - i); } one(U, piv, A, sel, k % 3, r > 0 && k % 2, k % 3 == 0, true, x.k == 0 ? 0 : -1, true, {7, 3, 9, 100, 2}); }, {false, 0, "outputs outgrow the estimate several times, n > 1000/verbose steps"});
	family("sizes", (tier_thorough() ? 33 : 27) * 3 * 2, [](uint64_t k) { Ix x(k); int w = x.take(3), s = SZ[x.take(tier_thorough() ? 33 : 27)]; Mat U, A; std::vector<int> piv, sel; sized(w == 0 ? s : 7, w == 1 ? s : 9, w == 0 ? s + 5 : w == 2 ? s : 21, k % 2 ? 65537 : 257, k, U, piv, A, sel); one(U, piv, A, sel, k % 3, x.k % 2, k % 5 < 2, true, D[k % 4], k % 3 != 2, {0, 1, 2, 5}); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	family("long", long_count(), long_schur, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
