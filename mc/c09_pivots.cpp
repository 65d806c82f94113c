// C09: structural pivots.
#include "fact.h"
#include "sweep.h"
#include "big.h"
const char *harness_property = "C09";
const char *harness_assumptions[] = {"one thread (C10 explores the schedules)", "matrices larger than the stated shapes are covered only by the structured families", NULL};

// A over the columns; the factorisation may already hold `pre` pivots on extra columns appended on the right
static void one(const Mat &A0, int order, int greedy, int withL, int pre, bool pin, i64 lcap, i64 uslack)
{
	int n = A0.n, m0 = A0.m, m = m0 + pre; u64 p = A0.p; Mat A(n, m, p); for (int i = 0; i < n; i++) for (int j = 0; j < m0; j++) A[i][j] = A0[i][j];
	if (want_sample()) describe("A=%s order %d greedy=%d L=%d existing pivots=%d", R_str(A).c_str(), order, greedy, withL, pre);
	Mat Up(pre, m, p); std::vector<int> piv; for (int i = 0; i < pre; i++) { Up[i][m0 + i] = 1; piv.push_back(m0 + i); for (int j = 0; j < m0; j++) Up[i][j] = (i + j) % p; }
	struct spasm_csr *C = to_csr(A, order); u64 h0 = snap_csr(C);
	int norig = n + pre + 2; std::vector<int> P_in(n + 1); for (int i = 0; i < n; i++) P_in[i] = norig - 1 - i;
	Fact F; make_fact(F, Up, piv, norig, withL, uslack, lcap, norig);
	if (withL) for (int i = 0; i < pre; i++) { spasm_add_entry(F.L, 0, i, 1 + i); F.lp[i] = i; }
	Mat U0 = from_csr(F.U);
	std::vector<int> rp(n, -5); rp.reserve(1);
	struct echelonize_opts o; memset(&o, 0, sizeof o); spasm_echelonize_init_opts(&o); o.enable_greedy_pivot_search = greedy; o.L = withL;
	int k = spasm_pivots_extract_structural(C, pin ? P_in.data() : NULL, &F.f, rp.data(), &o); step(); mc_traces++;
	EXPECT(0 <= k && k <= std::min(n, m0), "%d pivots reported", k);
	std::vector<char> seen(n, 0); for (int i = 0; i < n; i++) { EXPECT(rp[i] >= 0 && rp[i] < n && !seen[rp[i]], "row order is not a permutation"); seen[rp[i]] = 1; }
	EXPECT(F.U->n == pre + k, "U has %d rows, %d pivots reported on top of %d", F.U->n, k, pre);
	wellformed(F.U, pre + k, m, p, WF_ALL, "U");
	std::vector<int> pc(k); u64 h = hmix(h0, k);
	for (int t = 0; t < k; t++) {
		int i = rp[t]; i64 q = F.U->p[pre + t]; EXPECT(q < F.U->p[pre + t + 1], "pivot row %d is empty", t); int j = F.U->j[q]; pc[t] = j;
		EXPECT(j < m0 && A[i][j] != 0, "pivot (%d,%d) is not an entry of the matrix", i, j); EXPECT(F.U->x[q] == 1, "pivot is not 1"); EXPECT(F.qinv[j] == pre + t, "column %d recorded at row %d, expected %d", j, F.qinv[j], pre + t);
		u64 iv = R_inv(A[i][j], p); Row w(m, 0); for (q = F.U->p[pre + t]; q < F.U->p[pre + t + 1]; q++) w[F.U->j[q]] = R_red(F.U->x[q], p);
		for (int c = 0; c < m; c++) EXPECT(w[c] == R_mul(iv, A[i][c], p), "pivot row %d is not the scaled row %d (column %d)", t, i, c);
		for (int s = 0; s < t; s++) { EXPECT(pc[s] != j, "column %d is pivotal twice", j); EXPECT(A[i][pc[s]] == 0, "pivotal row %d (position %d) has an entry in the pivot column %d of the earlier row %d", i, t, pc[s], rp[s]); }
		h = hmix(h, i * 1000 + j);
	}
	int cnt = 0; for (int j = 0; j < m; j++) if (F.qinv[j] >= 0) { cnt++; EXPECT(j >= m0 ? F.qinv[j] == j - m0 : F.qinv[j] >= pre && F.qinv[j] < pre + k, "column %d recorded at row %d", j, F.qinv[j]); } EXPECT(cnt == pre + k, "%d pivot columns recorded, %d rows", cnt, pre + k);
	{ Mat U1 = from_csr(F.U); for (int i = 0; i < pre; i++) EXPECT(U1[i] == U0[i], "existing pivot row %d changed", i); }
	if (withL) {
		EXPECT(F.L->nz == pre + k && F.L->nz <= F.L->nzmax, "%ld multipliers recorded, expected %d", (long) F.L->nz, pre + k); std::vector<int> got(k, 0);
		for (i64 q = 0; q < F.L->nz; q++) { int i = F.L->i[q], j = F.L->j[q]; u64 v = R_red(F.L->x[q], p); if (q < pre) { EXPECT(i == 0 && j == q && v == (u64) (1 + q), "existing multiplier changed"); continue; } EXPECT(j >= pre && j < pre + k && !got[j - pre], "multiplier column %d", j); got[j - pre] = 1; int t = j - pre, io = pin ? P_in[rp[t]] : rp[t]; EXPECT(i == io, "multiplier of pivot %d recorded for row %d, expected %d", t, i, io); EXPECT(v == A[rp[t]][pc[t]], "multiplier value"); }
		for (int t = 0; t < k; t++) EXPECT(F.lp[pre + t] == (pin ? P_in[rp[t]] : rp[t]), "pivotal row of column %d of L is %d", pre + t, F.lp[pre + t]);
	}
	EXPECT(snap_csr(C) == h0, "the matrix was modified"); state(h); { char b[32]; snprintf(b, 32, "%d pivots", k > 8 ? 8 : k); outcome(b); }
}
static Mat pat(int n, int m, u64 p, u64 k) { Mat A(n, m, p); int c = 1; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { if (k & 1) A[i][j] = 1 + (c % (p - 1)); c += 3; k >>= 1; } return A; }
void harness_register()
{
	for (int n = 0; n <= 3; n++) for (int m = 0; m <= 3; m++) family("patterns-" + std::to_string(n) + "x" + std::to_string(m), ipow(2, n * m) * 3 * 2 * 2 * 2, [=](uint64_t k) { Ix x(k); int o = x.take(3), g = x.take(2), l = x.take(2), pre = x.take(2); one(pat(n, m, 7, x.k), o, g, l, pre * 2, pre, k % 3, k % 5); }, {false, 0, "all patterns x entry orders x search options x multiplier record x earlier pivots"});
	for (auto nm : std::vector<std::pair<int, int>>{{1, 5}, {5, 1}, {2, 5}, {5, 2}, {3, 4}, {4, 3}, {3, 5}, {5, 3}}) { int n = nm.first, m = nm.second; family("patterns-" + std::to_string(n) + "x" + std::to_string(m), ipow(2, n * m) * 3, [=](uint64_t k) { Ix x(k); int o = x.take(3); one(pat(n, m, 11, x.k), o, 1, k % 2, k % 3, k % 2, 0, 0); }); }
	family("patterns-4x4", 65536 * 3, [](uint64_t k) { Ix x(k); int o = x.take(3); one(pat(4, 4, 65537, x.k), o, 1, 0, 0, 0, 0, 0); });
	family("patterns-4x5", 1 << 20, [](uint64_t k) { one(pat(4, 5, 65537, k), k % 3, 1, 0, 0, 0, 0, 0); }, {true});
	static auto rows = [](int m) { std::vector<int> v; for (int a = 0; a < m; a++) { v.push_back(1 << a); for (int b = 0; b < a; b++) v.push_back(1 << a | 1 << b); } return v; };
	static auto r5 = rows(5);
	family("5x5-two-per-row", ipow(r5.size(), 5), [](uint64_t k) { int o = k % 3; Mat A(5, 5, 101); for (int i = 0; i < 5; i++) { int w = r5[k % r5.size()]; k /= r5.size(); for (int j = 0; j < 5; j++) if (w >> j & 1) A[i][j] = 3 + i + j; } one(A, o, 1, 0, 0, 0, 0, 0); });
	static auto P = primes_all();
	family("primes", P.size() * 12, [](uint64_t k) { Ix x(k); u64 p = P[x.take(P.size())], h = p / 2; int t = x.k; Mat A(5, 6, p); for (int i = 0; i < 5; i++) for (int j = 0; j < 6; j++) if (tex(i, j, t) % 3 == 0) A[i][j] = tex(i, j, t + 99) % 2 ? h : p - h; for (int i = 0; i < 5; i++) A[i][(i * 2 + t) % 6] = 1 + tex(i, p, t) % (p - 1); one(A, t % 3, 1, 1, t % 2, t % 2, 0, 0); });
	family("structured", 900, [](uint64_t k) { Ix x(k); int o = x.take(3), g = x.take(2), kind = x.take(6), n = 8 + 7 * (int) x.k, m = kind == 5 ? n / 2 + 1 : kind == 4 ? n * 2 : n; Mat A(n, m, 257); auto s = [&](int i, int j) { A[i][j] = 1 + (i * 7 + j * 3) % 256; };
		for (int i = 0; i < n; i++) { if (kind == 0) { s(i, (n - 1 - i) % m); s(i, 0); } else if (kind == 1) { s(i, i); if (i) s(i, i - 1); s(i, (i * 5 + 2) % m); } else if (kind == 2) { s(i, (i + 1) % m); s(i, i); } else if (kind == 3) { s(i, i / 3); s(i, m - 1 - i / 2); s(i, (i * i) % m); } else { for (int d = 0; d < 3; d++) s(i, tex(i, d, k) % m); } }
		one(A, o, g, k % 2, 0, 0, 0, 0); });
	static auto SL = sweep_list(tier_thorough() ? 4097 : 2049, tier_thorough() ? 513 : 257); u64 nsl = SL.size(); static const u64 SP_[3] = {257, 65537, 4294967291u};
	family("sizes", nsl * 3 * 2, [=](uint64_t k) { Ix x(k); auto &z = SL[x.take(nsl)]; int g = x.take(2), o = x.k; one(sweep_mat(z.shape, z.size, SP_[k % 3]), o, g, k % 2, (k % 2) * (k % 3), k % 2, k % 5 ? 0 : 9, k % 4); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	family("long", long_count() * 2, [=](uint64_t k) { u64 p = (u64[]){257, 65537, 4294967291u}[k % 3]; std::string nm; SpM S = long_mat(k / 2, p, nm); int g = k % 2; describe("%s mod %lu greedy %d", nm.c_str(), (unsigned long) p, g); int n = S.n, m = S.m; struct spasm_csr *C = sp_csr(S, k % 3); struct spasm_csr *U = spasm_csr_alloc(n, m, 10, p, true); U->n = 0; U->p[0] = 0; std::vector<int> qinv(m, -1), lp(n + 1, -1), rp(n, -5); struct spasm_lu f; memset(&f, 0, sizeof f); f.U = U; f.qinv = qinv.data(); f.p = lp.data(); f.Ltmp = spasm_triplet_alloc(n, n, 0, p, true); struct echelonize_opts o; memset(&o, 0, sizeof o); spasm_echelonize_init_opts(&o); o.enable_greedy_pivot_search = g; o.L = 1; int r = spasm_pivots_extract_structural(C, NULL, &f, rp.data(), &o); step(); mc_traces++;
		U = f.U; EXPECT(U->n == r && r > 0, "U has %d rows, %d pivots reported", U->n, r); wellformed(U, r, m, p, WF_ALL, "U"); std::vector<char> seen(n, 0); for (int i = 0; i < n; i++) { EXPECT(rp[i] >= 0 && rp[i] < n && !seen[rp[i]], "row order is not a permutation"); seen[rp[i]] = 1; } int cnt = 0; for (int j = 0; j < m; j++) cnt += qinv[j] >= 0; EXPECT(cnt == r && f.Ltmp->nz == r, "%d pivot columns, %ld multipliers, %d pivots", cnt, (long) f.Ltmp->nz, r);
		for (int t = 0; t < r; t++) { int i = rp[t], j = U->j[U->p[t]]; EXPECT(qinv[j] == t && U->x[U->p[t]] == 1 && lp[t] == i, "pivot %d is not recorded", t); std::map<int, u64> a; for (auto &e : S.a[i]) a[e.first] = e.second; EXPECT(a.count(j) && U->p[t + 1] - U->p[t] == (i64) a.size(), "pivot row %d is not row %d", t, i); u64 v = a[j]; EXPECT(f.Ltmp->i[t] == i && f.Ltmp->j[t] == t && R_red(f.Ltmp->x[t], p) == v, "multiplier %d", t); for (i64 q = U->p[t]; q < U->p[t + 1]; q++) { int c = U->j[q]; EXPECT(a.count(c) && R_mul(R_red(U->x[q], p), v, p) == a[c], "pivot row %d is not the scaled row %d", t, i); EXPECT(qinv[c] < 0 || qinv[c] >= t, "pivotal row %d has an entry in the pivot column of row %d", t, qinv[c]); } } state(snap_csr(U)); }, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
