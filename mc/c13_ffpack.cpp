// C13: dense elimination in the storage type selected for the modulus.
#include "ref.h"
const char *harness_property = "C13";
const char *harness_assumptions[] = {"the dense kernels of the installed FFLAS-FFPACK / BLAS are part of what is executed; their internal parallelism is off (one OpenMP thread)", NULL};

static size_t sz(spasm_datatype t) { return t == SPASM_FLOAT ? 4 : 8; }
static void put(std::vector<char> &S, spasm_datatype t, size_t k, i64 v) { if (t == SPASM_I64) ((i64 *) S.data())[k] = v; else if (t == SPASM_DOUBLE) ((double *) S.data())[k] = (double) v; else ((float *) S.data())[k] = (float) v; }
static i64 get(const std::vector<char> &S, spasm_datatype t, size_t k) { if (t == SPASM_I64) return ((const i64 *) S.data())[k]; double v = t == SPASM_DOUBLE ? ((const double *) S.data())[k] : ((const float *) S.data())[k]; EXPECT(v == (double) (i64) v, "stored value %g is not an integer", v); return (i64) v; }
static std::vector<char> load(const Mat &A, int ld, spasm_datatype t) { std::vector<char> S(std::max<size_t>(1, (size_t) A.n * ld * sz(t)), 0x11); for (int i = 0; i < A.n; i++) for (int j = 0; j < A.m; j++) put(S, t, (size_t) i * ld + j, R_bal(A[i][j], A.p)); return S; }
static void isperm(const std::vector<size_t> &v, const char *w) { std::vector<char> s(v.size(), 0); for (size_t x : v) { EXPECT(x < v.size() && !s[x], "%s is not a permutation", w); s[x] = 1; } }
static u64 val(const std::vector<char> &S, spasm_datatype t, size_t k, u64 p) { i64 v = get(S, t, k); spasm_ZZp z = spasm_datatype_read(S.data(), k, t); EXPECT((i64) z == v, "reading gives %d for %ld", z, (long) v); EXPECT(R_canon(v, p), "non-canonical coefficient %ld mod %lu", (long) v, (unsigned long) p); return R_red(v, p); }

static void one(const Mat &A, spasm_datatype t, int slack, bool lu)
{
	u64 p = A.p; int n = A.n, m = A.m, ld = m + slack; if (want_sample()) describe("%s %s type %d ld %d", lu ? "LU" : "rref", R_str(A).c_str(), (int) t, ld);
	auto S = load(A, ld, t), S0 = S; Mat R = A; auto pc = R_rref(R); int rk = (int) pc.size(); u64 h = hmix(t, rk); std::vector<size_t> q(m, 999), P(n, 999); q.reserve(1); P.reserve(1);
	int r = lu ? spasm_ffpack_LU(p, n, m, S.data(), ld, t, P.data(), q.data()) : spasm_ffpack_rref(p, n, m, S.data(), ld, t, q.data()); step(); mc_traces++;
	EXPECT(r == rk, "rank %d, true rank %d", r, rk); isperm(q, "column order");
	for (int i = 0; i < n; i++) for (int j = m; j < ld; j++) EXPECT(!memcmp(&S[((size_t) i * ld + j) * sz(t)], &S0[((size_t) i * ld + j) * sz(t)], sz(t)), "storage outside the matrix was written");
	if (!lu) {
		Mat B(r, m, p); for (int i = 0; i < r; i++) { B[i][q[i]] = 1; for (int k = r; k < m; k++) { u64 v = val(S, t, (size_t) i * ld + k, p); B[i][q[k]] = v; h = hmix(h, v); } }
		R_rref(B); EXPECT(B.a == R.a, "the row space differs from that of the input");
	} else {
		isperm(P, "row order"); Mat L(n, r, p), U(r, m, p);
		for (int i = 0; i < n; i++) for (int j = 0; j < std::min(i + 1, r); j++) L[i][j] = val(S, t, (size_t) i * ld + j, p);
		for (int i = 0; i < r; i++) { EXPECT(L[i][i] != 0, "zero on the diagonal of L"); U[i][i] = 1; for (int j = i + 1; j < m; j++) U[i][j] = val(S, t, (size_t) i * ld + j, p); }
		Mat X = R_mulmat(L, U); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) EXPECT(X[i][j] == A[P[i]][q[j]], "L*U differs from the matrix at (%d,%d)", (int) P[i], (int) q[j]); h = R_hash(U, R_hash(L, h));
	}
	state(hmix(h, R_hash(R)));
}
static const spasm_datatype DT[] = {SPASM_DOUBLE, SPASM_FLOAT, SPASM_I64};
static const std::vector<i64> v3 = {0, 1, -1}, v5 = {0, 1, -1, 2, -2};
// dense structured matrices whose products are as large as possible for the modulus
static Mat big(u64 p, int n, int m, int kind, int rank)
{
	u64 h = p / 2; auto ext = [&](int i, int j) -> u64 { u64 z = tex(i, j, kind); switch (kind % 4) { case 0: return h; case 1: return z % 2 ? h : p - h; case 2: return z % 3 == 0 ? h : z % 3 == 1 ? p - h : h - 1; default: return R_red((i64) (z >> 1), p); } };
	Mat A(n, m, p);
	if (rank < 0) { for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) A[i][j] = ext(i, j); if (kind % 4 == 0) for (int i = 0; i < std::min(n, m); i++) A[i][(i * 3 + 1) % m] = p - h; }
	else { Mat X(n, rank, p), Y(rank, m, p); for (int i = 0; i < n; i++) for (int j = 0; j < rank; j++) X[i][j] = ext(i, j); for (int i = 0; i < rank; i++) for (int j = 0; j < m; j++) Y[i][j] = ext(i + 1000, j); A = R_mulmat(X, Y); }
	return A;
}
void harness_register()
{
	for (int n = 1; n <= 3; n++) for (int m = 1; m <= 3; m++) family("all-mod3-" + std::to_string(n) + "x" + std::to_string(m), ipow(3, n * m) * 6, [=](uint64_t k) { Ix x(k); int t = x.take(3), lu = x.take(2); one(mat_enum(n, m, 3, v3, x.k), DT[t], x.k % 3, lu); });
	for (auto nm : std::vector<std::pair<int, int>>{{1, 6}, {6, 1}, {2, 4}, {4, 2}}) { int n = nm.first, m = nm.second; family("all-mod3-" + std::to_string(n) + "x" + std::to_string(m), ipow(3, n * m) * 6, [=](uint64_t k) { Ix x(k); int t = x.take(3), lu = x.take(2); one(mat_enum(n, m, 3, v3, x.k), DT[t], x.k % 3, lu); }); }
	family("all-mod5-2x3", ipow(5, 6) * 2, [](uint64_t k) { Ix x(k); int lu = x.take(2); one(mat_enum(2, 3, 5, v5, x.k), spasm_datatype_choose(5), 0, lu); });
	family("all-mod3-3x4", ipow(3, 12) * 2, [](uint64_t k) { Ix x(k); int lu = x.take(2); one(mat_enum(3, 4, 3, v3, x.k), spasm_datatype_choose(3), 1, lu); }, {true});
	family("all-mod3-4x3", ipow(3, 12) * 2, [](uint64_t k) { Ix x(k); int lu = x.take(2); one(mat_enum(4, 3, 3, v3, x.k), spasm_datatype_choose(3), 1, lu); }, {true});
	static auto P = primes_all();
	// extreme residues, the type chosen for the modulus
	family("boundary-2x3", P.size() * ipow(4, 6) * 2, [](uint64_t k) { Ix x(k); u64 p = P[x.take(P.size())]; int lu = x.take(2); i64 h = p / 2; one(mat_enum(2, 3, p, {h, -h, 1, 0}, x.k), spasm_datatype_choose(p), 0, lu); });
	static const int SH[][3] = {{6, 6, -1}, {17, 9, -1}, {9, 17, -1}, {33, 40, -1}, {40, 33, 7}, {64, 64, -1}, {65, 70, 20}, {100, 130, -1}, {130, 100, 64}, {129, 129, 128}};
	family("sizes", P.size() * 10 * 4 * 2, [](uint64_t k) { Ix x(k); auto s = SH[9 - x.take(10)]; u64 p = P[x.take(P.size())]; int lu = x.take(2), kind = x.k; one(big(p, s[0], s[1], kind, s[2]), spasm_datatype_choose(p), kind % 2, lu); }, {false, 0, "every prime class x shapes crossing the recursion cut-offs x extreme coefficients"});
	family("large", P.size() * 2, [](uint64_t k) { Ix x(k); u64 p = P[x.take(P.size())]; int lu = x.take(2); one(big(p, 400, 420, 1, lu ? 200 : -1), spasm_datatype_choose(p), 0, lu); }, {true});
	// flat and narrow blocks, dimensions around powers of two and beyond 2^16
	static const int LS[] = {127, 128, 129, 255, 256, 257, 999, 1000, 1001, 4095, 4096, 4097, 32767, 32769, 65535, 65537, 70000};
	family("long", 17 * 2 * 2 * 6, [](uint64_t k) { Ix x(k); int lu = x.take(2), tr = x.take(2), kind = x.take(6), s = LS[x.k], o = 3 + kind; u64 p = (u64[]){257, 65537, 2147483647, 4294967291u}[(kind + s) % 4]; Mat A = big(p, tr ? s : o, tr ? o : s, kind, kind == 3 ? 2 : -1); if (kind == 2) for (int t = 0; t < s; t++) if (t % 3 && t + 40 < s) for (int z = 0; z < o; z++) (tr ? A[t][z] : A[z][t]) = 0; if (kind >= 4) for (int t = 0; t < s; t++) if (t < s - 9 || (kind == 5 && t % 2)) for (int z = 0; z < o; z++) if (kind == 4 || t < s / 2 || t % (z + 5)) (tr ? A[t][z] : A[z][t]) = 0; one(A, spasm_datatype_choose(p), kind % 2, lu); }, {false, 60, "one dimension around powers of two and up to 70000"});
	// storing and loading
	family("read-write", P.size() * 3, [](uint64_t k) { Ix x(k); u64 p = P[x.take(P.size())]; spasm_datatype t = x.k == 0 ? spasm_datatype_choose(p) : x.k == 1 ? SPASM_I64 : SPASM_DOUBLE; EXPECT(spasm_datatype_size(t) == sz(t), "size of type %d", (int) t); EXPECT(spasm_datatype_name(t) && *spasm_datatype_name(t), "name"); std::vector<char> S(64 * sz(t)), S1; i64 h = p / 2; i64 vs[] = {0, 1, -1, h, -h, h - 1, 1 - h, h / 2, -h / 2, 2, -2};
		for (i64 v : vs) for (int at : {0, 1, 30, 63}) { if (!R_canon(v, p)) continue; for (auto &c : S) c = 0x33; S1 = S; spasm_datatype_write(S.data(), at, t, (spasm_ZZp) v); step(); EXPECT(get(S, t, at) == v, "wrote %ld, stored %ld", (long) v, (long) get(S, t, at)); EXPECT(spasm_datatype_read(S.data(), at, t) == v, "wrote %ld, read %d", (long) v, spasm_datatype_read(S.data(), at, t)); for (int o = 0; o < 64; o++) if (o != at) EXPECT(!memcmp(&S[o * sz(t)], &S1[o * sz(t)], sz(t)), "writing position %d changed position %d", at, o); } mc_traces++; state(hmix(p, t)); });
}
