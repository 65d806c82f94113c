// C12: dense Schur complement and randomized combinations.
#include "fact.h"
#include "big.h"
#include <queue>
const char *harness_property = "C12";
const char *harness_assumptions[] = {"one thread (C25 explores the schedules)", "full-rank and distinctness of random batches is required only for primes above 2^16 (failure probability below 2^-14 per batch; the generator is deterministic, so the verdict is too)", NULL};

static const spasm_datatype DT[] = {SPASM_DOUBLE, SPASM_FLOAT, SPASM_I64};
static bool admissible(spasm_datatype t, u64 p) { return t != SPASM_FLOAT || p < (1u << 24); }
static i64 rd(const std::vector<char> &S, spasm_datatype t, size_t k) { const void *b = S.data(); double v = 0; if (t == SPASM_I64) return ((const i64 *) b)[k]; v = t == SPASM_DOUBLE ? ((const double *) b)[k] : ((const float *) b)[k]; EXPECT(v == (double) (i64) v, "stored value %g is not an integer", v); return (i64) v; }
struct DS { int n, Sm; spasm_datatype t; std::vector<char> S; std::vector<int> q; DS(int n_, int Sm_, spasm_datatype t_) : n(n_), Sm(Sm_), t(t_), S((size_t) n_ * Sm_ * (t_ == SPASM_FLOAT ? 4 : 8), 0x7f), q(Sm_, -77) { S.shrink_to_fit(); } };
static void columns(const DS &d, const std::vector<int> &qinv, int m) { std::vector<char> s(m, 0); for (int j : d.q) { EXPECT(j >= 0 && j < m && qinv[j] < 0 && !s[j], "column map sends a column to %d", j); s[j] = 1; } }
static Row row(const DS &d, int k, int m, u64 p) { Row r(m, 0); for (int j = 0; j < d.Sm; j++) { i64 v = rd(d.S, d.t, (size_t) k * d.Sm + j); EXPECT(R_canon(v, p), "non-canonical value %ld at row %d", (long) v, k); r[d.q[j]] = R_red(v, p); } return r; }

static void dense(const Mat &U, const std::vector<int> &piv, const Mat &A, const std::vector<int> &sel, int order, bool withL, bool pin, spasm_datatype t, i64 lcap)
{
	u64 p = A.p; int m = A.m, n = (int) sel.size(), Sm = m - U.n, norig = A.n + 3; if (!admissible(t, p)) t = SPASM_I64;
	if (want_sample()) { describe("U=%s A=%s type %d L=%d rows", R_str(U).c_str(), R_str(A).c_str(), (int) t, withL); for (int i : sel) describe(" %d", i); }
	struct spasm_csr *C = to_csr(A, order); u64 h0 = snap_csr(C); std::vector<int> P_in(A.n + 1), P = sel; P.push_back(0); for (int i = 0; i < A.n; i++) P_in[i] = norig - 1 - i;
	Fact F; make_fact(F, U, piv, U.n, withL, 0, lcap, norig); u64 hu = snap_csr(F.U); auto q0 = F.qinv; if (withL) { spasm_add_entry(F.L, 1, 0, 2); spasm_add_entry(F.L, 2, 0, 1); }
	DS d(n, Sm, t); std::vector<int> po(n, -9); po.reserve(1);
	spasm_schur_dense(C, P.data(), n, pin ? P_in.data() : NULL, &F.f, d.S.data(), t, d.q.data(), po.data()); step(); mc_traces++;
	columns(d, q0, m); std::vector<char> used(n, 0); u64 h = R_hash(U); Mat W(norig, U.n, p);
	std::vector<Row> want(n), mult(n); std::vector<int> lab(n); for (int k = 0; k < n; k++) { eliminate(U, piv, A[sel[k]], want[k], mult[k]); lab[k] = pin ? P_in[sel[k]] : sel[k]; for (int s = 0; s < U.n; s++) W[lab[k]][s] = mult[k][s]; }
	for (int k = 0; k < n; k++) { int w = -1; for (int s = 0; s < n; s++) if (lab[s] == po[k] && !used[s]) { w = s; break; } EXPECT(w >= 0, "row %d claims to come from row %d", k, po[k]); used[w] = 1; Row r = row(d, k, m, p); for (int j = 0; j < m; j++) EXPECT(q0[j] >= 0 || r[j] == want[w][j], "row %d (from row %d), column %d is %d, exact elimination gives %d", k, po[k], j, R_bal(r[j], p), R_bal(want[w][j], p)); h = hash_bytes(r.data(), r.size() * 8, h); }
	if (withL) { Mat M(norig, U.n, p); F.L = F.f.Ltmp; EXPECT(F.L->nz >= 2 && F.L->nz <= F.L->nzmax, "multiplier count %ld of %ld", (long) F.L->nz, (long) F.L->nzmax); EXPECT(F.L->i[0] == 1 && F.L->j[0] == 0 && F.L->x[0] == R_bal(2 % p, p) && F.L->i[1] == 2 && F.L->x[1] == 1, "existing multipliers changed");
		for (i64 e = 2; e < F.L->nz; e++) { int i = F.L->i[e], j = F.L->j[e]; EXPECT(i >= 0 && i < norig && j >= 0 && j < U.n, "multiplier at (%d,%d)", i, j); EXPECT(M[i][j] == 0, "multiplier (%d,%d) recorded twice", i, j); EXPECT(R_canon(F.L->x[e], p), "non-canonical multiplier"); M[i][j] = R_red(F.L->x[e], p); }
		for (int i = 0; i < norig; i++) for (int j = 0; j < U.n; j++) EXPECT(M[i][j] == W[i][j], "multiplier (%d,%d) is %d, expected %d", i, j, R_bal(M[i][j], p), R_bal(W[i][j], p)); }
	EXPECT(snap_csr(C) == h0 && snap_csr(F.U) == hu && F.qinv == q0, "an input was modified"); state(h);
}
static bool inspan(const Mat &space, int r, const Row &v) { Mat B = space; B.a.push_back(v); B.n++; return R_rank(B) == r; }
// randomized combinations; when reveal, U is empty and A is (a permutation of) the identity: the rows are the coefficients
static void randomized(const Mat &U, const std::vector<int> &piv, const Mat &A, const std::vector<int> &sel, int N, int w, spasm_datatype t, const std::vector<int> &rnd, bool reveal = false)
{
	u64 p = A.p; int m = A.m, n = (int) sel.size(), Sm = m - U.n; if (!admissible(t, p)) t = SPASM_I64;
	if (want_sample()) { describe("U=%s A=%s N=%d w=%d type %d rows", R_str(U).c_str(), R_str(A).c_str(), N, w, (int) t); for (int i : sel) describe(" %d", i); }
	struct spasm_csr *C = to_csr(A); u64 h0 = snap_csr(C); std::vector<int> P = sel; Fact F; make_fact(F, U, piv, U.n, false, 0, 0, 1); u64 hu = snap_csr(F.U); auto q0 = F.qinv;
	DS d(N, Sm, t); rand_script(rnd, true);
	spasm_schur_dense_randomized(C, P.data(), n, F.U, F.qinv.data(), d.S.data(), t, d.q.data(), N, w); step(); mc_traces++;
	columns(d, q0, m); Mat space(n, m, p), got(N, m, p); std::vector<Row> uniq; u64 h = R_hash(U, w);
	for (int k = 0; k < n; k++) { Row mu; eliminate(U, piv, A[sel[k]], space[k], mu); }
	Mat red = space; int rk = (int) R_rref(red).size(); for (int k = 0; k < N; k++) got[k] = row(d, k, m, p);
	{ Mat both = R_stack(red, got); EXPECT(R_rank(both) == rk, "a row is not a combination of the eliminated rows"); }
	if (p > 65536 && w <= 0) { EXPECT(R_rank(got) == std::min(N, rk), "%d full combinations of a space of dimension %d have rank %d", N, rk, R_rank(got)); if (rk > 0) for (int k = 0; k < N; k++) { bool z = true; for (u64 v : got[k]) z &= v == 0; EXPECT(!z, "combination %d is zero", k); } }
	if (reveal) for (int k = 0; k < N; k++) { int c = 0; for (int i = 0; i < n; i++) c += got[k][sel[i]] != 0; if (w > 0) EXPECT(c >= 0 && c <= w, "a combination of weight %d uses %d rows", w, c); else if (p > 65536) EXPECT(c == n, "a full combination uses %d of %d rows", c, n); }
	if (reveal && w > 1 && p > 65536) for (int a = 0; a < N; a++) for (int b = 0; b < a; b++) { int c = 0; for (u64 v : got[a]) c += v != 0; if (c >= 2) EXPECT(got[a] != got[b], "combinations %d and %d are identical", b, a); }
	h = R_hash(got, h); EXPECT(snap_csr(C) == h0 && snap_csr(F.U) == hu && F.qinv == q0, "an input was modified"); state(h);
}
static const std::vector<i64> v3 = {0, 1, -1}, v2 = {0, 1};
static Mat allB(int q) { Mat B((int) ipow(3, q), q, 3); for (u64 t = 0; t < ipow(3, q); t++) { u64 z = t; for (int j = 0; j < q; j++) { B[t][j] = z % 3; z /= 3; } } return B; }
static void system(u64 p, int r, int m, int n, int t, Mat &U, std::vector<int> &piv, Mat &A) { u64 h = p / 2; auto val = [&](int a, int b) -> u64 { u64 z = tex(a, b, t); return z % 5 == 0 ? h : z % 5 == 1 ? p - h : z % 5 == 2 ? 0 : R_red((i64) z, p); }; std::vector<int> pc; for (int j = 0; j < m; j++) pc.push_back(j); for (int j = m - 1; j > 0; j--) std::swap(pc[j], pc[tex(j, t) % (j + 1)]);
	U = Mat(r, m, p); A = Mat(n, m, p); piv.assign(pc.begin(), pc.begin() + r); for (int i = 0; i < r; i++) { U[i][pc[i]] = 1; for (int j = i + 1; j < m; j++) U[i][pc[j]] = val(i, j); } for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) A[i][j] = val(i + 100, j); }
// pivot rows and rows to eliminate with the given numbers of rows and columns
static void sized(int r, int n, int m, u64 p, u64 k, Mat &U, std::vector<int> &piv, Mat &A, std::vector<int> &sel)
{
	U = Mat(r, m, p); A = Mat(n, m, p); auto nz = [&](int a, int b, int c) -> u64 { u64 z = tex(a, b, c + 10 * k); return z % 4 == 0 ? p / 2 : z % 4 == 1 ? p - 1 : 1 + (z >> 2) % (p - 1); }; int g = 1; for (int t = m / 3; t < m; t++) { int a = t, b = m; while (b) { int c = a % b; a = b; b = c; } if (a == 1) { g = t; break; } }
	auto col = [&](int i) { return (int) ((i64) i * g % m); }; for (int i = 0; i < r; i++) { piv.push_back(col(i)); U[i][col(i)] = 1; for (int t = 0; t < 4; t++) { int c = i + 1 + tex(i, t, k) % (t < 2 ? 3 : m); if (c < m) U[i][col(c)] = nz(i, t, 0); } }
	for (int i = 0; i < n; i++) { sel.push_back(i); for (int t = 0; t < 5; t++) A[i][tex(i, t, k + 7) % m] = nz(i, t, 1); if (i % 7 == 0) for (int j = i % 5; j < m; j += 5) A[i][j] = nz(i, j, 2); if (i % 9 == 8) A[i].assign(m, 0); } if (k % 3 == 1) std::reverse(sel.begin(), sel.end()); if (k % 3 == 2) { sel.clear(); for (int i = 0; i < n; i += 2) sel.push_back(i); }
}
// dimensions beyond 2^15 and 2^16.  pivots on scattered columns; row i of U also has entries on columns of later pivots and on non-pivotal ones
static void long_dense(int kind, int s, u64 k, bool random)
{
	u64 p = random ? 1073741789 : (u64[]){257, 65537, 4294967291u}[k % 3]; int r = kind == 0 ? s : kind == 1 ? 6 : 9, m = kind == 0 ? s + 6 : kind == 1 ? s : 14, n = kind == 2 ? s : 5; if (random && kind == 1) m = std::min(m, 100003); auto col = [&](int i) { return sc(i, m, 11); };
	std::vector<char> hit(m, 0); for (int i = 0; i < m; i++) { EXPECT(!hit[col(i)], "harness: the columns are not scattered bijectively"); hit[col(i)] = 1; }
	auto v = [&](int a, int b) -> u64 { u64 z = tex(a, b, k); return z % 5 == 0 ? p / 2 : z % 5 == 1 ? p - 1 : 1 + (z >> 5) % (p - 1); }; SpM U(r, m, p), A(n, m, p); std::vector<int> qinv(m, -1), at(m, -1);
	for (int i = 0; i < r; i++) { int c = col(i); qinv[c] = i; U.a[i].push_back({c, 1}); int t = i + 1 + tex(i, 3, k) % 40; U.put(i, col(i % 3 == 0 && t < r ? t : r + i % (m - r)), v(i, 1)); if (i % 5 == 0) { int c2 = r + (i / 5) % (m - r); if (U.a[i].back().first != col(c2)) U.put(i, col(c2), v(i, 2)); } }
	for (int i = 0; i < n; i++) { std::map<int, u64> row; int w = kind == 2 ? 2 + i % 2 : i == 4 ? m : i == 3 ? 0 : 60; for (int t = 0; t < w; t++) row[w == m ? t : col((int) (tex(i, t, k + 5) % m))] = v(i + 7, t); if (i == 2) row[col(r - 1)] = 1; for (auto &e : row) A.put(i, e.first, e.second); }
	struct spasm_csr *C = sp_csr(A, k % 3), *Uc = sp_csr(U, 0); u64 h0 = snap_csr(C), h1 = snap_csr(Uc); struct spasm_lu f; memset(&f, 0, sizeof f); f.U = Uc; auto q1 = qinv; f.qinv = q1.data(); bool withL = !random && k % 2; if (withL) f.Ltmp = spasm_triplet_alloc(n, r, 0, p, true); f.r = r; describe("U of %d x %d, %d rows, mod %lu%s", r, m, n, (unsigned long) p, random ? ", random combinations" : "");
	auto elim = [&](const std::vector<std::pair<int, u64>> &in, std::map<int, u64> &out, std::map<int, u64> &mu) { std::map<int, u64> x; std::priority_queue<int, std::vector<int>, std::greater<int>> q; for (auto &e : in) { u64 &z = x[e.first]; z = R_add(z, e.second, p); if (qinv[e.first] >= 0) q.push(qinv[e.first]); } int last = -1; while (!q.empty()) { int i = q.top(); q.pop(); if (i == last) continue; last = i; u64 c = x[col(i)]; if (!c) continue; mu[i] = c; u64 mc = R_sub(0, c, p); for (auto &e : U.a[i]) { u64 &z = x[e.first]; z = R_add(z, R_mul(mc, e.second, p), p); if (qinv[e.first] > i) q.push(qinv[e.first]); } } for (auto &e : x) if (e.second && qinv[e.first] < 0) out[e.first] = e.second; };
	int Sm = m - r, N = random ? 6 : n; spasm_datatype t = p <= 8191 ? SPASM_FLOAT : p <= 189812531 ? SPASM_DOUBLE : SPASM_I64; DS d(N, Sm, t); std::vector<int> P(n), po(n, -9); for (int i = 0; i < n; i++) P[i] = k % 2 ? n - 1 - i : i;
	if (!random) {
		spasm_schur_dense(C, P.data(), n, NULL, &f, d.S.data(), t, d.q.data(), po.data()); step(); mc_traces++; columns(d, qinv, m); std::vector<std::map<int, u64>> mults(n), got(n);
		for (int a = 0; a < n; a++) { EXPECT(po[a] >= 0 && po[a] < n, "row %d claims to come from row %d", a, po[a]); std::map<int, u64> w; elim(A.a[po[a]], w, mults[po[a]]); size_t nzs = 0; for (int j = 0; j < Sm; j++) { i64 z = rd(d.S, t, (size_t) a * Sm + j); EXPECT(R_canon(z, p), "non-canonical value %ld", (long) z); if (!z) continue; nzs++; auto it = w.find(d.q[j]); EXPECT(it != w.end() && it->second == R_red(z, p), "row %d, column %d is %ld", a, d.q[j], (long) z); } EXPECT(nzs == w.size(), "row %d has %ld entries instead of %ld", a, (long) nzs, (long) w.size()); }
		std::sort(po.begin(), po.end()); for (int a = 0; a < n; a++) EXPECT(po[a] == a, "rows lost or duplicated");
		if (withL) { struct spasm_triplet *L = f.Ltmp; for (i64 e = 0; e < L->nz; e++) { EXPECT(L->i[e] >= 0 && L->i[e] < n && L->j[e] >= 0 && L->j[e] < r && !got[L->i[e]].count(L->j[e]), "multiplier %ld", (long) e); got[L->i[e]][L->j[e]] = R_red(L->x[e], p); } EXPECT(got == mults, "the multipliers differ"); }
	} else {
		int w = k % 3 == 0 ? 0 : k % 3 == 1 ? -3 : 4; spasm_schur_dense_randomized(C, P.data(), n, Uc, qinv.data(), d.S.data(), t, d.q.data(), N, w); step(); mc_traces++; columns(d, qinv, m); SpEch E(p); for (int i = 0; i < n; i++) { if (kind == 2 && E.rank() == Sm) break; std::map<int, u64> o, mu; elim(A.a[i], o, mu); E.insert(std::vector<std::pair<int, u64>>(o.begin(), o.end())); }
		SpEch G(p); for (int a = 0; a < N; a++) { std::vector<std::pair<int, u64>> row; for (int j = 0; j < Sm; j++) { i64 z = rd(d.S, t, (size_t) a * Sm + j); EXPECT(R_canon(z, p), "non-canonical value %ld", (long) z); if (z) row.push_back({d.q[j], R_red(z, p)}); } EXPECT(E.reduce(row).empty(), "combination %d is not a combination of the eliminated rows", a); G.insert(row); } if (w <= 0) EXPECT(G.rank() == std::min(N, E.rank()), "%d full combinations of a space of dimension %d have rank %d", N, E.rank(), G.rank());
	}
	EXPECT(snap_csr(C) == h0 && snap_csr(Uc) == h1 && q1 == qinv, "an input was modified"); state(hash_bytes(d.S.data(), d.S.size(), hash_bytes(d.q.data(), Sm * 4))); if (withL) spasm_triplet_free(f.Ltmp); spasm_csr_free(C); spasm_csr_free(Uc);
}
static const int SZ[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049};
void harness_register()
{
	for (int m = 1; m <= 3; m++) for (int r = 0; r <= m; r++) for (int n = 0; n <= 2; n++) {
		u64 ca = ipow(3, n * m), cu = tri_count(r, m, 3); int full = m == 3 && n == 2 ? 1 : 12;
		family("dense-mod3-U" + std::to_string(r) + "-A" + std::to_string(n) + "x" + std::to_string(m), ca * cu * full, [=](uint64_t k) { Ix x(k); u64 a = x.take(ca), u = x.take(cu); int v = full == 1 ? (int) ((a + 5 * u) % 12) : (int) x.k; std::vector<int> piv; Mat U = tri_get(r, m, 3, v3, u, piv), A = mat_enum(n, m, 3, v3, a); std::vector<int> sel; for (int i = 0; i < n; i++) sel.push_back(k % 2 ? n - 1 - i : i); dense(U, piv, A, sel, k % 3, v / 3 % 2 && r > 0, v / 6, DT[v % 3], k % 4); }, {false, 0, "all pivot rows x all matrices x type x L x maps"});
	}
	for (int m = 3; m <= 4; m++) for (int r = 1; r <= 3; r++) { const auto &vv = (m == 4 && r == 3) ? v2 : v3; u64 cu = tri_count(r, m, vv.size()); bool b2 = m == 4 && r == 3; family("dense-all-rows-U" + std::to_string(r) + "x" + std::to_string(m), cu, [=](uint64_t k) { std::vector<int> piv; Mat U = tri_get(r, m, 3, b2 ? v2 : v3, k, piv), A = allB(m); std::vector<int> sel; for (int i = 0; i < A.n; i++) sel.push_back((i * 5 + (int) k) % A.n); dense(U, piv, A, sel, k % 3, k % 2, k % 5 > 1, DT[k % 3], k % 3); }); }
	static auto P = primes_all();
	family("dense-primes", P.size() * 3 * 8, [](uint64_t k) { Ix x(k); u64 p = P[x.take(P.size())]; int t = x.take(3), v = x.k, m = 5 + v % 3, r = v % 5; Mat U, A; std::vector<int> piv; system(p, r, m, 6, v, U, piv, A); dense(U, piv, A, {4, 0, 2, 1, 5}, v % 3, r > 0 && v % 2, v / 2 % 2, DT[t], v); });
	family("dense-tall", 12, [](uint64_t k) { Ix x(k); u64 p = 65537; Mat U, A; std::vector<int> piv; int n = x.take(2) ? 2300 : 90, r = 1 + (int) x.take(2) * 6; system(p, r, 11, n, k, U, piv, A); std::vector<int> sel; for (int i = 0; i < n; i++) if (i % 7) sel.push_back(n - 1 - i); dense(U, piv, A, sel, k % 3, true, k % 2, DT[k % 3], 0); });
	// randomized: all systems of two rows, all row choices of the random source
	for (int m = 1; m <= 3; m++) for (int r = 0; r <= std::min(m, 2); r++) for (int n = 1; n <= 2; n++) { u64 ca = ipow(3, n * m), cu = tri_count(r, m, 3); family("random-mod3-U" + std::to_string(r) + "-A" + std::to_string(n) + "x" + std::to_string(m), ca * cu, [=](uint64_t k) { Ix x(k); u64 a = x.take(ca), u = x.take(cu); std::vector<int> piv; Mat U = tri_get(r, m, 3, v3, u, piv), A = mat_enum(n, m, 3, v3, a); std::vector<int> sel; for (int i = 0; i < n; i++) sel.push_back(k % 2 ? n - 1 - i : i); int v = (a * 3 + u) % 15; randomized(U, piv, A, sel, 1 + v % 5, v / 5, DT[k % 3], {(int) (k % 2), (int) (k / 2 % 2), 1}); }); }
	family("random-row-choices", 3 * 3 * 1024 * 3, [](uint64_t k) { Ix x(k); int t = x.take(3), w = 1 + x.take(3), n = 1 + x.take(3); std::vector<int> rs; for (int i = 0; i < 5; i++) rs.push_back(x.take(4)); u64 p = 2147483659; Mat A(n + 1, n + 1, p); std::vector<int> sel; for (int i = 0; i <= n; i++) { A[i][i] = 1; sel.push_back(n - i); } sel.resize(n); randomized(Mat(0, n + 1, p), {}, A, sel, 4, w, DT[t], rs, true); }, {false, 0, "every answer of the random source selecting rows"});
	family("random-coefficients", P.size() * 30, [](uint64_t k) { Ix x(k); u64 p = P[x.take(P.size())]; int N = (int[]){1, 2, 3, 9, 20}[x.take(5)], n = (int[]){1, 2, 8}[x.take(3)], w = x.k ? 0 : 3; Mat A(n, n, p); std::vector<int> sel; for (int i = 0; i < n; i++) { A[i][i] = 1; sel.push_back(i); } randomized(Mat(0, n, p), {}, A, sel, N, w, DT[k % 3], {3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8}, true); });
	family("random-primes", P.size() * 3 * 8, [](uint64_t k) { Ix x(k); u64 p = P[x.take(P.size())]; int t = x.take(3), v = x.k, m = 5 + v % 4, r = v % 5; Mat U, A; std::vector<int> piv; system(p, r, m, 6, v, U, piv, A); randomized(U, piv, A, {4, 0, 2, 1, 5}, 1 + v, (v % 3) - 1 > 0 ? 4 : v % 2 ? 0 : -1, DT[t], {5, 1, 3, 0, 2, 4, 4}); });
	family("random-tall", 6, [](uint64_t k) { u64 p = 1073741789; Mat U, A; std::vector<int> piv; system(p, 4, 16, 40, k, U, piv, A); std::vector<int> sel; for (int i = 0; i < 40; i++) sel.push_back(39 - i); randomized(U, piv, A, sel, k % 2 ? 2300 : 40, k % 3 == 0 ? 5 : 0, k % 2 ? SPASM_I64 : SPASM_DOUBLE, {5, 1, 3, 0, 2, 4, 4, 19, 33}); });
	family("sizes", (tier_thorough() ? 33 : 27) * 3 * 2, [](uint64_t k) { Ix x(k); int w = x.take(3), s = SZ[x.take(tier_thorough() ? 33 : 27)]; Mat U, A; std::vector<int> piv, sel; sized(w == 0 ? s : 7, w == 1 ? s : 9, w == 0 ? s + 5 : w == 2 ? s : 21, k % 2 ? 65537 : 257, k, U, piv, A, sel); dense(U, piv, A, sel, k % 3, x.k % 2, k % 2, DT[k % 3], k % 5 ? 2 : 4000); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	family("random-sizes", (tier_thorough() ? 33 : 27) * 4, [](uint64_t k) { Ix x(k); int w = x.take(4), s = SZ[x.take(tier_thorough() ? 33 : 27)]; Mat U, A; std::vector<int> piv, sel; sized(w == 0 ? s : 7, w == 1 ? s : 9, w == 0 ? s + 5 : w == 2 ? s : 21, k % 2 ? 1073741789 : 65537, k, U, piv, A, sel); randomized(U, piv, A, sel, w == 3 ? s : 6, k % 3, DT[k % 3], {1, 0, 2}); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	// every single row reaches a full combination: one row outside the space of the others
	family("random-one-row", 40 * 3, [](uint64_t k) { Ix x(k); static const int NS[] = {1, 2, 5, 16, 17, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 20000}; int w = x.take(3), n = NS[x.k]; u64 p = 1073741789; for (int pos : {0, n / 2, n - 1}) { SpM S(n, 3, p); for (int i = 0; i < n; i++) S.put(i, i == pos ? 1 : 0, 1 + i); struct spasm_csr *C = sp_csr(S, 0), *U = spasm_csr_alloc(0, 3, 1, p, true); std::vector<int> P(n), qi(3, -1), q(3); for (int i = 0; i < n; i++) P[i] = w == 1 ? n - 1 - i : i; double D[9]; spasm_schur_dense_randomized(C, P.data(), n, U, qi.data(), D, SPASM_DOUBLE, q.data(), 3, w == 2 ? -1 : 0); step(); mc_traces++; for (int a = 0; a < 3; a++) for (int j = 0; j < 3; j++) if (q[j] == 1) EXPECT(D[3 * a + j] != 0, "a full combination of %d rows ignores row %d", n, pos); spasm_csr_free(C); spasm_csr_free(U); } }, {false, 0, "full combinations of up to 20000 rows, one row outside the space of the others"});
	static const int LS[] = {32767, 32769, 65535, 65537, 100003, 131073, 262145}; int nl = tier_thorough() ? 7 : 5;
	family("long", nl * 3 * 6, [=](uint64_t k) { Ix x(k); int kind = x.take(3), s = LS[x.take(nl)]; long_dense(kind, s, x.k, false); }, {false, 60, "numbers of pivots, columns or rows beyond 2^15 and 2^16, linear references"});
	family("random-long", nl * 3 * 6, [=](uint64_t k) { Ix x(k); int kind = x.take(3), s = LS[x.take(nl)]; long_dense(kind, s, x.k, true); }, {false, 60, "numbers of pivots, columns or rows beyond 2^15 and 2^16, linear references"});
}
