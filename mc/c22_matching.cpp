// C22: maximum matchings.
#include "pat.h"
#include <memory>
#include <array>
#include "sweep.h"
#include "big.h"
const char *harness_property = "C22";
const char *harness_assumptions[] = {"patterns larger than the stated sizes are covered only by the structured families", NULL};
static void one(const Pat &P, int order, bool perms)
{
	if (want_sample()) describe("%s order %d", pat_str(P).c_str(), order);
	struct spasm_csr *A = pat_csr(P, order, order == 2); u64 h0 = snap_csr(A); std::vector<int> rm, cm; int best = ref_matching(P, rm, cm);
	for (int tr = 0; tr < 2; tr++) {
		struct spasm_csr *M = tr ? spasm_transpose(A, 0) : A; int n = M->n, m = M->m;
		std::vector<int> jm(n, -77), im(m, -77); jm.reserve(1); im.reserve(1);
		int k = spasm_maximum_matching(M, jm.data(), im.data()); step(); mc_traces++;
		int c = 0;
		for (int i = 0; i < n; i++) { EXPECT(jm[i] >= -1 && jm[i] < m, "row %d matched to column %d", i, jm[i]); if (jm[i] >= 0) { c++; EXPECT(im[jm[i]] == i, "row %d -> column %d -> row %d", i, jm[i], im[jm[i]]); EXPECT(tr ? P.a[jm[i]][i] : P.a[i][jm[i]], "matched entry (%d,%d) does not exist", i, jm[i]); } }
		for (int j = 0; j < m; j++) { EXPECT(im[j] >= -1 && im[j] < n, "column %d matched to row %d", j, im[j]); if (im[j] >= 0) EXPECT(jm[im[j]] == j, "column %d -> row %d -> column %d", j, im[j], jm[im[j]]); }
		EXPECT(c == k, "returned size %d, %d pairs", k, c); EXPECT(k == best, "size %d, maximum is %d", k, best);
		state(hash_bytes(jm.data(), n * 4, hmix(h0, tr)));
		if (!tr && perms) for (u64 a = 0; a < fact(n); a++) for (u64 b = 0; b < fact(m); b++) {
			auto p = perm_get(n, a), q = perm_get(m, b); p.reserve(1); q.reserve(1); std::vector<int> pi(n), qi(m); pi.reserve(1); qi.reserve(1); for (int i = 0; i < n; i++) pi[p[i]] = i; for (int j = 0; j < m; j++) qi[q[j]] = j;
			int *j2 = spasm_permute_row_matching(n, jm.data(), p.data(), qi.data()), *i2 = spasm_permute_column_matching(m, im.data(), pi.data(), q.data()); step(2);
			for (int i = 0; i < n; i++) { int w = jm[p[i]] < 0 ? -1 : qi[jm[p[i]]]; EXPECT(j2[i] == w, "permuted row matching: row %d -> %d, expected %d", i, j2[i], w); }
			for (int j = 0; j < m; j++) { int w = im[q[j]] < 0 ? -1 : pi[im[q[j]]]; EXPECT(i2[j] == w, "permuted column matching: column %d -> %d, expected %d", j, i2[j], w); }
			// restriction to every submatrix that contains the partners of its rows
			if ((a + b) % 7 == 0) for (int r0 = 0; r0 <= n; r0++) for (int r1 = r0; r1 <= n; r1++) for (int c0 = 0; c0 <= m; c0++) for (int c1 = c0; c1 <= m; c1++) { bool in = true; for (int i = r0; i < r1; i++) in &= j2[i] < 0 || (j2[i] >= c0 && j2[i] < c1); if (!in) continue; int *s = spasm_submatching(j2, r0, r1, c0, c1); step(); for (int i = r0; i < r1; i++) EXPECT(s[i - r0] == (j2[i] < 0 ? -1 : j2[i] - c0), "restricted matching: row %d -> %d", i - r0, s[i - r0]); }
			mc_traces++; 
		}
	}
	EXPECT(snap_csr(A) == h0, "the matrix was modified");
}
// six rows, up to renaming of the columns (named in order of appearance; entries of a row in every order): the rows' sizes are given, the first three rows are the case, all others are enumerated
struct Canon { int rows[6][3]; int sz[6]; };
static void canon_rows(Canon &c, int row, int pos, int used, int last, const std::function<void(int)> &leaf) { if (pos == c.sz[row]) { row++; pos = 0; } if (row == last) { leaf(used); return; } for (int j = 0; j <= std::min(used, 5); j++) { bool dup = false; for (int t = 0; t < pos; t++) dup |= c.rows[row][t] == j; if (dup) continue; c.rows[row][pos] = j; canon_rows(c, row, pos + 1, std::max(used, j + 1), last, leaf); } }
static int mk(const unsigned *r, int i, unsigned &vis, int *cm) { for (unsigned a = r[i] & ~vis; a; a = r[i] & ~vis) { int j = __builtin_ctz(a); vis |= 1u << j; if (cm[j] < 0 || mk(r, cm[j], vis, cm)) { cm[j] = i; return 1; } } return 0; }
static void canon_case(Canon c, int used)
{
	struct spasm_csr *A = spasm_csr_alloc(6, 6, 24, -1, false); std::vector<int> jm(6), im(6); u64 h = 0, cnt = 0; mc_heartbeat(); u64 last = 0; for (int t = 0; t < 3; t++) for (int e = 0; e < c.sz[t]; e++) last = last * 7 + c.rows[t][e] + 1;
	canon_rows(c, 3, 0, used, 6, [&](int) {
		unsigned r[6]; int nz = 0; A->p[0] = 0; for (int i = 0; i < 6; i++) { r[i] = 0; for (int e = 0; e < c.sz[i]; e++) { A->j[nz++] = c.rows[i][e]; r[i] |= 1u << c.rows[i][e]; } A->p[i + 1] = nz; }
		int cm[6] = {-1, -1, -1, -1, -1, -1}, best = 0; for (int i = 0; i < 6; i++) { unsigned vis = 0; best += mk(r, i, vis, cm); }
		int k = spasm_maximum_matching(A, jm.data(), im.data()); bool ok = k == best; int n = 0; for (int i = 0; i < 6; i++) if (jm[i] != -1) { n++; ok = ok && jm[i] >= 0 && jm[i] < 6 && (r[i] >> jm[i] & 1) && im[jm[i]] == i; } for (int j = 0; j < 6; j++) if (im[j] != -1) ok = ok && im[j] >= 0 && im[j] < 6 && jm[im[j]] == j;
		if (!ok || n != k) { std::string d; for (int i = 0; i < 6; i++) { d += "["; for (int e = 0; e < c.sz[i]; e++) d += std::to_string(c.rows[i][e]); d += "]"; } describe("rows %s", d.c_str()); EXPECT(false, "size %d with %d pairs, maximum is %d", k, n, best); }
		h = hmix(h, k); cnt++; });
	step(cnt); mc_traces += cnt; state(hmix(h, last)); spasm_csr_free(A);
}
static void canon_family(const char *name, const std::vector<std::array<int, 6>> &shapes, FamilyOpt fo)
{
	auto L = std::make_shared<std::vector<std::pair<Canon, int>>>(); for (auto &s : shapes) { Canon c; for (int i = 0; i < 6; i++) c.sz[i] = s[i]; canon_rows(c, 0, 0, 0, 3, [&](int used) { L->push_back({c, used}); }); }
	family(name, L->size(), [L](uint64_t k) { canon_case((*L)[k].first, (*L)[k].second); }, fo);
}
static void long_match(const SpM &S, int order, const char *nm)
{
	int n = S.n, m = S.m; describe("%s of %d x %d, order %d", nm, n, m, order); auto g = sp_adj(S); struct spasm_csr *A = sp_csr(S, order, order == 1); u64 h0 = snap_csr(A); std::vector<int> rm(n, -7), cm(m, -7); int k = spasm_maximum_matching(A, rm.data(), cm.data()); step(); mc_traces++; int c = 0;
	for (int i = 0; i < n; i++) { EXPECT(rm[i] >= -1 && rm[i] < m, "row %d matched to column %d", i, rm[i]); if (rm[i] >= 0) { c++; EXPECT(cm[rm[i]] == i, "row %d -> column %d -> row %d", i, rm[i], cm[rm[i]]); EXPECT(std::find(g[i].begin(), g[i].end(), rm[i]) != g[i].end(), "matched entry (%d,%d) does not exist", i, rm[i]); } }
	for (int j = 0; j < m; j++) EXPECT(cm[j] >= -1 && cm[j] < n && (cm[j] < 0 || rm[cm[j]] == j), "column %d matched to row %d", j, cm[j]); EXPECT(c == k, "returned size %d, %d pairs", k, c); std::vector<char> rz, cz; int v = sp_cover(g, m, rm.data(), cm.data(), rz, cz); EXPECT(v == k, "size %d is not the maximum (no cover of that size: %d)", k, v);
	std::vector<int> p(n), q(m), pi(n), qi(m); for (int i = 0; i < n; i++) pi[p[i] = sc(i, n, 17)] = i; for (int j = 0; j < m; j++) qi[q[j] = sc(j, m, 23)] = j; int *j2 = spasm_permute_row_matching(n, rm.data(), p.data(), qi.data()), *i2 = spasm_permute_column_matching(m, cm.data(), pi.data(), q.data()); step(2);
	for (int i = 0; i < n; i++) EXPECT(j2[i] == (rm[p[i]] < 0 ? -1 : qi[rm[p[i]]]), "permuted row matching: row %d", i); for (int j = 0; j < m; j++) EXPECT(i2[j] == (cm[q[j]] < 0 ? -1 : pi[cm[q[j]]]), "permuted column matching: column %d", j); EXPECT(snap_csr(A) == h0, "the matrix was modified"); state(hash_bytes(rm.data(), 4 * n, k)); spasm_csr_free(A);
}
void harness_register()
{
	for (int n = 0; n <= 3; n++) for (int m = 0; m <= 3; m++) family("patterns-" + std::to_string(n) + "x" + std::to_string(m), ipow(2, n * m) * 3, [=](uint64_t k) { Ix x(k); int o = x.take(3); one(pat_enum(n, m, x.k), o, true); }, {false, 0, "all patterns x entry orders x all permutations x submatrices"});
	for (auto nm : std::vector<std::pair<int, int>>{{1, 5}, {5, 1}, {2, 5}, {5, 2}, {3, 4}, {4, 3}, {3, 5}, {5, 3}, {4, 4}}) { int n = nm.first, m = nm.second; family("patterns-" + std::to_string(n) + "x" + std::to_string(m), ipow(2, n * m) * 3, [=](uint64_t k) { Ix x(k); int o = x.take(3); one(pat_enum(n, m, x.k), o, false); }); }
	// all 5x5 (6x6) patterns with at most two entries per row
	static auto rows = [](int m) { std::vector<int> v = {0}; for (int a = 0; a < m; a++) { v.push_back(1 << a); for (int b = 0; b < a; b++) v.push_back(1 << a | 1 << b); } return v; };
	static auto r5 = rows(5), r6 = rows(6);
	family("5x5-two-per-row", ipow(r5.size(), 5), [](uint64_t k) { int o = k % 3; Pat P(5, 5); for (int i = 0; i < 5; i++) { int w = r5[k % r5.size()]; k /= r5.size(); for (int j = 0; j < 5; j++) P.a[i][j] = w >> j & 1; } one(P, o, false); });
	family("4x6-two-per-row", ipow(r6.size(), 4), [](uint64_t k) { int o = k % 3; Pat P(4, 6); for (int i = 0; i < 4; i++) { int w = r6[k % r6.size()]; k /= r6.size(); for (int j = 0; j < 6; j++) P.a[i][j] = w >> j & 1; } one(P, o, false); });
	family("4x5-all", 1 << 20, [](uint64_t k) { one(pat_enum(4, 5, k), k % 3, false); }, {true});
	family("6x6-two-per-row", ipow(r6.size(), 5), [](uint64_t k) { int o = k % 3; Pat P(6, 6); for (int i = 0; i < 5; i++) { int w = r6[k % r6.size()]; k /= r6.size(); for (int j = 0; j < 6; j++) P.a[i][j] = w >> j & 1; } P.a[5][2] = P.a[5][4] = 1; one(P, o, false); }, {true});
	family("chains-and-bands", 360, [](uint64_t k) { Ix x(k); int o = x.take(3), kind = x.take(6), n = 6 + (int) x.k * 4; Pat P(n, n + (kind == 5 ? 3 : 0)); int m = P.m;
		for (int i = 0; i < n; i++) { if (kind == 0) { P.a[i][i] = 1; if (i) P.a[i][i - 1] = 1; P.a[0][n - 1] = 1; P.a[n - 1][n - 1] = (int) x.k & 1; } else if (kind == 1) { P.a[i][(i + 1) % n] = 1; P.a[i][(i * 7 + 3) % n] = 1; } else if (kind == 2) { P.a[i][i / 2] = 1; P.a[i][n - 1 - i / 3] = 1; } else if (kind == 3) { for (int d = 0; d < 3; d++) P.a[i][tex(i, d, k) % m] = 1; } else if (kind == 4) { P.a[i][0] = 1; P.a[i][i] = 1; P.a[i][n - 1 - i] = 1; } else { P.a[i][tex(i, 1, k) % (m / 2)] = 1; P.a[i][tex(i, 2, k) % m] = 1; } }
		one(P, o, false); });
	std::vector<std::array<int, 6>> sq, st; for (int k = 0; k < 729; k++) { std::array<int, 6> a; int z = k, sum = 0, three = 0; for (int i = 0; i < 6; i++) { a[i] = 1 + z % 3; z /= 3; sum += a[i]; three += a[i] == 3; } if (sum == 13 && three == 2 && a[5] == 1) sq.push_back(a); else if (sum <= 13 && three) st.push_back(a); }
	canon_family("six-rows", sq, {false, 0, "six rows of sizes 3,3,2,2,2 in every order and then 1: all patterns up to column names, all entry orders"});
	canon_family("six-rows-13", st, {true, 0, "every other combination of sizes 1..3 with a row of size 3 and at most 13 entries"});
	static auto SL = sweep_list(tier_thorough() ? 4097 : 2049, tier_thorough() ? 1025 : 513); u64 nsl = SL.size();
	family("sizes", nsl * 3, [=](uint64_t k) { Ix x(k); auto &z = SL[x.take(nsl)]; Mat M = sweep_mat(z.shape, z.size, 257); Pat Q(M.n, M.m); for (int i = 0; i < M.n; i++) for (int j = 0; j < M.m; j++) Q.a[i][j] = M[i][j] != 0; one(Q, x.k, false); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	family("long", long_sizes().size() * (LP_SHAPES + 2) * 2, [](uint64_t k) { Ix x(k); int kind = x.take(LP_SHAPES + 2), tr = x.take(2), s = long_sizes()[x.k]; SpM S = kind < LP_SHAPES ? sp_pattern(kind, s, 257) : sp_blocks(s, 257, kind, kind > LP_SHAPES); long_match(tr ? sp_transpose(S) : S, k % 3, kind < LP_SHAPES ? LP_NAME[kind] : "direct sum"); }, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
