// C05: transposition, permutation and slicing are exact.
#include "ref.h"
#include "sweep.h"
#include "big.h"
const char *harness_property = "C05";
const char *harness_assumptions[] = {"matrices larger than the stated shapes are covered only by the structured families", NULL};

static void cmp(const struct spasm_csr *C, const Mat &W, bool vals, const char *what)
{
	wellformed(C, W.n, W.m, W.p, vals ? WF_ALL : WF_NODUP, what);
	EXPECT(vals ? C->x != NULL : C->x == NULL, "%s: values %s", what, vals ? "missing" : "present");
	for (int i = 0; i < W.n; i++) { std::vector<int> have(W.m, 0); for (i64 k = C->p[i]; k < C->p[i + 1]; k++) { have[C->j[k]] = 1; if (vals) EXPECT(R_red(C->x[k], W.p) == W[i][C->j[k]], "%s: value %d at (%d,%d), expected %d", what, C->x[k], i, C->j[k], R_bal(W[i][C->j[k]], W.p)); }
		for (int j = 0; j < W.m; j++) EXPECT(have[j] == (W[i][j] != 0), "%s: entry (%d,%d) %s", what, i, j, have[j] ? "is spurious" : "is missing"); }
	state(R_hash(W, hmix(vals, (u64) what[0]))); mc_traces++;
}

static void resize_ops(const Mat &A, int order, bool vals)
{
	int n = A.n, m = A.m;
	for (int n2 = 0; n2 <= n + 3; n2++) for (int m2 = m; m2 <= m + 2; m2 += 2) {
		struct spasm_csr *T = to_csr(A, order, vals); spasm_csr_resize(T, n2, m2); step(); Mat W(n2, m2, A.p); for (int i = 0; i < std::min(n, n2); i++) for (int j = 0; j < m; j++) W[i][j] = A[i][j];
		cmp(T, W, vals, "resize"); spasm_csr_realloc(T, -1); step(); cmp(T, W, vals, "resize and trim"); if (n2 < n) { spasm_csr_resize(T, n, m2); step(); for (int i = n2; i < n; i++) W.a.push_back(Row(m2, 0)); W.n = n; cmp(T, W, vals, "shrink and grow"); } spasm_csr_free(T); }
}
static void all_ops(const Mat &A, int order, bool hasvals, bool allperms)
{
	resize_ops(A, order, hasvals);
	int n = A.n, m = A.m; u64 p = A.p;
	if (want_sample()) describe("%s order %d %s", R_str(A).c_str(), order, hasvals ? "" : "pattern");
	struct spasm_csr *C = to_csr(A, order, hasvals, (n + m) % 3); u64 h0 = snap_csr(C);
	for (int kv = 0; kv < 2; kv++) {
		struct spasm_csr *T = spasm_transpose(C, kv); step(); cmp(T, R_transpose(A), kv && hasvals, "transpose");
		struct spasm_csr *TT = spasm_transpose(T, 1); step(); cmp(TT, A, kv && hasvals, "double transpose");
		spasm_csr_free(T); spasm_csr_free(TT);
		for (int r0 = 0; r0 <= n; r0++) for (int r1 = 0; r1 <= n; r1++) for (int c0 = 0; c0 <= m; c0++) for (int c1 = 0; c1 <= m; c1++) {
			if ((r1 < r0 - 1 || c1 < c0 - 1) && (r0 + r1 + c0 + c1) % 3) continue;   // reversed ranges denote an empty range: a third of them
			struct spasm_csr *S = spasm_submatrix(C, r0, r1, c0, c1, kv); step();
			Mat W(std::max(0, r1 - r0), std::max(0, c1 - c0), p); for (int i = 0; i < W.n; i++) for (int j = 0; j < W.m; j++) W[i][j] = A[r0 + i][c0 + j];
			cmp(S, W, kv && hasvals && !(S->x == NULL && W.n * W.m == 0), "submatrix"); spasm_csr_free(S);
		}
	}
	u64 np = allperms ? fact(n) : std::min<u64>(fact(n), 3), mp = allperms ? fact(m) : std::min<u64>(fact(m), 3);
	for (u64 a = 0; a <= np; a++) for (u64 b = 0; b <= mp; b++) {
		std::vector<int> P = perm_get(n, a), Q = perm_get(m, b); bool idp = a == np, idq = b == mp; P.push_back(0); Q.push_back(0); bool v = (a + b) % 2 == 0;
		if (idp) for (int i = 0; i < n; i++) P[i] = i; if (idq) for (int i = 0; i < m; i++) Q[i] = i;
		struct spasm_csr *S = spasm_permute(C, idp ? NULL : P.data(), idq ? NULL : Q.data(), v); step();
		Mat W(n, m, p); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) W[i][Q[j]] = A[P[i]][j];
		cmp(S, W, v && hasvals, "permute"); spasm_csr_free(S);
	}
	EXPECT(snap_csr(C) == h0, "an operand was modified");
	spasm_csr_free(C);
}

static void big_ops(const Mat &A, int order, bool hasvals, u64 k)
{
	int n = A.n, m = A.m; u64 p = A.p; struct spasm_csr *C = to_csr(A, order, hasvals, k % 3); u64 h0 = snap_csr(C); describe("%s order %d", R_str(A).c_str(), order);
	for (int kv = 0; kv < 2; kv++) { struct spasm_csr *T = spasm_transpose(C, kv); step(); cmp(T, R_transpose(A), kv && hasvals, "transpose"); spasm_csr_free(T);
		for (int r0 : {0, n / 3, n - 1}) for (int r1 : {n / 2, n}) for (int c0 : {0, m / 3, m - 1}) for (int c1 : {m / 2, m}) { if ((r0 + r1 + c0 + c1 + (int) k) % 3 == 0 && n * m > 1000) continue; struct spasm_csr *S = spasm_submatrix(C, r0, r1, c0, c1, kv); step(); Mat W(std::max(0, r1 - r0), std::max(0, c1 - c0), p); for (int i = 0; i < W.n; i++) for (int j = 0; j < W.m; j++) W[i][j] = A[r0 + i][c0 + j]; cmp(S, W, kv && hasvals && !(S->x == NULL && W.n * W.m == 0), "submatrix"); spasm_csr_free(S); } }
	for (int t = 0; t < 3; t++) { std::vector<int> P(n), Q(m); for (int i = 0; i < n; i++) P[i] = t == 0 ? n - 1 - i : t == 1 ? (i + n / 2) % n : i; for (int j = 0; j < m; j++) Q[j] = t == 0 ? (j + 1) % m : t == 1 ? j : m - 1 - j; if (t == 2) for (int i = n - 1; i > 0; i--) std::swap(P[i], P[tex(i, k) % (i + 1)]);
		std::vector<int> P0 = P, Q0 = Q; struct spasm_csr *S = spasm_permute(C, P.data(), t == 1 ? NULL : Q.data(), k % 2); step(); Mat W(n, m, p); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) W[i][Q[j]] = A[P[i]][j]; cmp(S, W, k % 2 && hasvals, "permute"); EXPECT(P == P0 && Q == Q0, "a permutation was modified"); spasm_csr_free(S);
		int *q = spasm_pinv(P.data(), n); step(); for (int i = 0; i < n; i++) EXPECT(q[P[i]] == i, "pinv wrong at %d", i);
		std::vector<spasm_ZZp> b(n), x(n), y(n); for (int i = 0; i < n; i++) b[i] = 1000 + 17 * i; spasm_pvec(P.data(), b.data(), x.data(), n); spasm_ipvec(P.data(), b.data(), y.data(), n); step(2); for (int i = 0; i < n; i++) EXPECT(x[i] == b[P[i]] && y[P[i]] == b[i], "vector permuted wrongly at %d", i); }
	EXPECT(snap_csr(C) == h0, "an operand was modified"); spasm_csr_free(C);
}
void harness_register()
{
	static const std::vector<i64> v3 = {0, 1, -1};
	for (auto nm : std::vector<std::pair<int, int>>{{0, 0}, {0, 2}, {2, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}}) {
		int n = nm.first, m = nm.second; u64 cnt = ipow(3, n * m);
		family("all-mod3-" + std::to_string(n) + "x" + std::to_string(m), cnt * 4, [=](uint64_t k) { Ix x(k); int o = x.take(4); all_ops(mat_enum(n, m, 3, v3, x.k), o % 3, o != 3, true); });
	}
	static const std::vector<i64> v01 = {0, 1};
	family("patterns-3x3", 512, [](uint64_t k) { Mat A = mat_enum(3, 3, 65537, v01, k); int c = 1; for (auto &r : A.a) for (auto &e : r) { if (e) e = c; c += 7001; } all_ops(A, k % 3, k % 4 != 0, true); });
	for (int w = 0; w < 2; w++) { int n = w ? 3 : 4, m = w ? 4 : 3; family(w ? "patterns-3x4" : "patterns-4x3", 4096, [=](uint64_t k) { Mat A = mat_enum(n, m, 101, v01, k); int c = 1; for (auto &r : A.a) for (auto &e : r) { if (e) e = c; c += 5; } all_ops(A, k % 3, true, tier_thorough()); }); }
	family("patterns-4x4", 65536, [](uint64_t k) { Mat A = mat_enum(4, 4, 101, v01, k); int c = 1; for (auto &r : A.a) for (auto &e : r) { if (e) e = c; c += 5; } all_ops(A, k % 3, true, false); }, {true});
	family("structured", 24, [](uint64_t k) { Ix x(k); int n = (int) x.take(4) * 9 + 5, m = (int) x.take(3) * 13 + 4; Mat A(n, m, 4294967291ul); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (tex(i, j, k) % 4 == 0) A[i][j] = R_red((i64) tex(i, j, k + 9), A.p); 
		struct spasm_csr *C = to_csr(A, 2); struct spasm_csr *T = spasm_transpose(C, 1); step(); cmp(T, R_transpose(A), true, "transpose");
		for (int r0 = 0; r0 <= n; r0 += 3) for (int r1 = r0; r1 <= n; r1 += 2) { int c0 = (r0 + r1) % m, c1 = c0 + (m - c0) / 2; struct spasm_csr *S = spasm_submatrix(C, r0, r1, c0, c1, 1); step(); Mat W(r1 - r0, c1 - c0, A.p); for (int i = 0; i < W.n; i++) for (int j = 0; j < W.m; j++) W[i][j] = A[r0 + i][c0 + j]; cmp(S, W, S->x != NULL, "submatrix"); } });
	// vectors and permutations: every permutation up to n = 6 (7)
	for (int n = 0; n <= (tier_thorough() ? 8 : 6); n++)
		family("permutations-" + std::to_string(n), fact(n), [=](uint64_t k) {
			auto P = perm_get(n, k); std::vector<int> P0 = P; std::vector<spasm_ZZp> b(n), x(n + 1, 99), y(n + 1, 99); for (int i = 0; i < n; i++) b[i] = 1000 + 17 * i;
			b.push_back(5);
			spasm_pvec(P.data(), b.data(), x.data(), n); step(); for (int i = 0; i < n; i++) EXPECT(x[i] == b[P[i]], "pvec wrong at %d", i); EXPECT(x[n] == 99, "pvec wrote past the end");
			spasm_ipvec(P.data(), b.data(), y.data(), n); step(); for (int i = 0; i < n; i++) EXPECT(y[P[i]] == b[i], "ipvec wrong at %d", i); EXPECT(y[n] == 99, "ipvec wrote past the end");
			spasm_pvec(NULL, b.data(), x.data(), n); spasm_ipvec(NULL, b.data(), y.data(), n); step(2); for (int i = 0; i < n; i++) EXPECT(x[i] == b[i] && y[i] == b[i], "implicit identity wrong");
			int *q = spasm_pinv(P.data(), n); step(); for (int i = 0; i < n; i++) EXPECT(q[P[i]] == i, "pinv wrong at %d", i);
			EXPECT(spasm_pinv(NULL, n) == NULL, "inverse of implicit identity is not the implicit identity"); EXPECT(P == P0, "permutation modified");
			for (int a = 0; a <= 2; a++) for (int t = 0; t <= 2; t++) { std::vector<int> v(a + n + t), w; for (size_t i = 0; i < v.size(); i++) v[i] = 50 + (int) i; w = v; P = P0; P.push_back(0); spasm_range_pvec(v.data(), a, a + n, P.data()); step(); for (int i = 0; i < a + n + t; i++) EXPECT(v[i] == (i >= a && i < a + n ? w[a + P0[i - a]] : w[i]), "range permutation wrong at %d", i); }
			u64 h = n; for (int i : P0) h = hmix(h, i); state(h); mc_traces++;
		});
	for (int n = 0; n <= 5; n++) family("random-permutation-" + std::to_string(n), ipow(6, std::max(0, n - 1)), [=](uint64_t k) {
		std::vector<int> s; for (int i = 0; i + 1 < n; i++) { s.push_back((int) (k % 6) * (k % 2 ? 1 : 357913941)); k /= 6; } rand_script(s);
		int *p = spasm_random_permutation(n); step(); std::vector<int> c(n, 0); for (int i = 0; i < n; i++) { EXPECT(p[i] >= 0 && p[i] < n && !c[p[i]], "random permutation is not a permutation"); c[p[i]] = 1; } mc_traces++; u64 h = n; for (int i = 0; i < n; i++) h = hmix(h, p[i]); state(h); });
	static auto SL = sweep_list(tier_thorough() ? 4097 : 2049, tier_thorough() ? 513 : 129); u64 nsl = SL.size();
	family("sizes", nsl * 3, [=](uint64_t k) { Ix x(k); auto &z = SL[x.take(nsl)]; big_ops(sweep_mat(z.shape, z.size, 4294967291u), x.k, x.k != 2, k); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	family("long", long_count() * 2, [=](uint64_t k) { u64 p = 4294967291u; std::string nm; SpM S = long_mat(k / 2, p, nm); bool v = k % 2; describe("%s %s", nm.c_str(), v ? "with values" : "pattern"); int n = S.n, m = S.m; struct spasm_csr *C = sp_csr(S, k % 3, v); u64 h0 = snap_csr(C); struct spasm_csr *T = spasm_transpose(C, 1); step(); sp_cmp(T, sp_transpose(S), v, "transpose"); spasm_csr_free(T);
		std::vector<int> P(n), Q(m); for (int i = 0; i < n; i++) P[i] = sc(i, n, 19); for (int j = 0; j < m; j++) Q[j] = sc(j, m, 29); int *Qi = spasm_pinv(Q.data(), m); for (int j = 0; j < m; j++) EXPECT(Qi[Q[j]] == j, "inverse permutation at %d", j); T = spasm_permute(C, P.data(), Qi, 1); step(2); SpM W(n, m, p); for (int i = 0; i < n; i++) for (auto &e : S.a[P[i]]) W.put(i, Qi[e.first], e.second); sp_cmp(T, W, v, "permute"); spasm_csr_free(T);
		for (int t = 0; t < 4; t++) { int r0 = t == 1 ? 32766 : t * 5, r1 = t == 2 ? 32769 : n - t, c0 = t == 3 ? 32765 : t, c1 = t == 0 ? m : m - 1; T = spasm_submatrix(C, r0, r1, c0, c1, 1); step(); SpM X(r1 - r0, c1 - c0, p); for (int i = r0; i < r1; i++) for (auto &e : S.a[i]) if (e.first >= c0 && e.first < c1) X.put(i - r0, e.first - c0, e.second); sp_cmp(T, X, v, "submatrix"); spasm_csr_free(T); }
		std::vector<spasm_ZZp> b(n), y(n, -1), z(n, -1); for (int i = 0; i < n; i++) b[i] = i + 1; spasm_pvec(P.data(), b.data(), y.data(), n); spasm_ipvec(P.data(), b.data(), z.data(), n); step(2); for (int i = 0; i < n; i++) EXPECT(y[i] == b[P[i]] && z[P[i]] == b[i], "permuted vector at %d", i); std::vector<int> u(n), q2; for (int i = 0; i < n; i++) u[i] = 3 * i; int a0 = 3, b0 = n - 2; for (int i = 0; i < b0 - a0; i++) q2.push_back(sc(i, b0 - a0, 31)); spasm_range_pvec(u.data(), a0, b0, q2.data()); step(); for (int i = 0; i < n; i++) EXPECT(u[i] == (i < a0 || i >= b0 ? 3 * i : 3 * (a0 + sc(i - a0, b0 - a0, 31))), "range permutation at %d", i);
		int *rp = spasm_random_permutation(n); std::vector<char> seen(n, 0); for (int i = 0; i < n; i++) { EXPECT(rp[i] >= 0 && rp[i] < n && !seen[rp[i]], "random permutation at %d", i); seen[rp[i]] = 1; } EXPECT(snap_csr(C) == h0, "the matrix was modified"); spasm_csr_free(C); }, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
