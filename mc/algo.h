// Oracles for factorisations and everything built on them.
#pragma once
#include "ref.h"

// U is in echelon form with unit pivots recorded in qinv, basis of rowspace(A). complete==false: only a partial basis is required
inline void check_echelon(const Mat &A, const struct spasm_csr *U, const int *qinv, const char *what)
{
	u64 p = A.p; int m = A.m;
	EXPECT(U != NULL && qinv != NULL, "%s: missing result", what);
	wellformed(U, U->n, m, p, WF_CANON | WF_NODUP, what);
	int r = U->n;
	std::vector<int> rowpiv(r, -1);
	for (int j = 0; j < m; j++) {
		EXPECT(qinv[j] >= -1 && qinv[j] < r, "%s: pivot index of column %d is %d (rank %d)", what, j, qinv[j], r);
		if (qinv[j] >= 0) { EXPECT(rowpiv[qinv[j]] < 0, "%s: row %d has two pivots", what, qinv[j]); rowpiv[qinv[j]] = j; }
	}
	for (int i = 0; i < r; i++) {
		EXPECT(rowpiv[i] >= 0, "%s: row %d has no pivot", what, i);
		i64 k = U->p[i]; EXPECT(k < U->p[i + 1], "%s: row %d is empty", what, i);
		EXPECT(U->j[k] == rowpiv[i] && U->x[k] == 1, "%s: row %d does not start with its unit pivot (col %d val %d, pivot col %d)", what, i, U->j[k], U->x[k], rowpiv[i]);
	}
	// permuted echelon form: row i has zeros in pivot columns of earlier rows
	for (int i = 0; i < r; i++) for (i64 k = U->p[i]; k < U->p[i + 1]; k++) { int q = qinv[U->j[k]]; if (U->x[k] != 0) EXPECT(q < 0 || q >= i, "%s: row %d has an entry in the pivot column of earlier row %d", what, i, q); }
	Mat Ud = from_csr(U);
	// same space: rank(U)=r by echelon form; each row of U in span(A), and rank(A)==r
	Mat R = A; int ra = (int) R_rref(R).size();
	EXPECT(ra == r, "%s: rank %d returned, true rank is %d", what, r, ra);
	Mat RU = Ud; R_rref(RU);
	EXPECT(RU.a == R.a, "%s: row space differs from that of the input", what);
}

inline void check_lu(const Mat &A, const struct spasm_lu *f, bool complete, const char *what)
{
	check_echelon(A, f->U, f->qinv, what);
	int r = f->U->n, n = A.n;
	EXPECT(f->r == r, "%s: recorded rank %d but %d rows", what, f->r, r);
	EXPECT(f->L != NULL && f->p != NULL, "%s: no L", what);
	wellformed(f->L, n, r, A.p, WF_CANON | WF_NODUP, "L");
	std::vector<int> at(n, -1);
	for (int j = 0; j < r; j++) { int i = f->p[j]; EXPECT(0 <= i && i < n, "%s: pivotal row index %d out of range", what, i); EXPECT(at[i] < 0, "%s: row %d is pivotal twice", what, i); at[i] = j; }
	Mat L = from_csr(f->L), U = from_csr(f->U), LU = R_mulmat(L, U);
	for (int j = 0; j < r; j++) { EXPECT(L[f->p[j]][j] != 0, "%s: zero on the diagonal of L (column %d)", what, j);
		for (int k = j + 1; k < r; k++) EXPECT(L[f->p[j]][k] == 0, "%s: L is not lower triangular: pivotal row %d has an entry on column %d > %d", what, f->p[j], k, j); }
	for (int i = 0; i < n; i++) if (complete || at[i] >= 0) EXPECT(LU[i] == A[i], "%s: row %d of L*U differs from A", what, i);
	if (complete) EXPECT(f->complete, "%s: complete factorisation not flagged", what);
}

inline void check_rref(const Mat &A, const struct spasm_csr *R, const int *rqinv, int r, const char *what)
{
	u64 p = A.p; int m = A.m;
	wellformed(R, r, m, p, WF_ALL, what);
	std::vector<int> rowpiv(r, -1);
	for (int j = 0; j < m; j++) {
		EXPECT(rqinv[j] >= -1 && rqinv[j] < r, "%s: pivot index of column %d is %d", what, j, rqinv[j]);
		if (rqinv[j] >= 0) { EXPECT(rowpiv[rqinv[j]] < 0, "%s: two pivots on row %d", what, rqinv[j]); rowpiv[rqinv[j]] = j; }
	}
	for (int i = 0; i < r; i++) {
		EXPECT(rowpiv[i] >= 0, "%s: row %d has no pivot column", what, i);
		i64 k = R->p[i]; EXPECT(k < R->p[i + 1] && R->j[k] == rowpiv[i] && R->x[k] == 1, "%s: row %d does not start with a unit pivot", what, i);
		for (k = R->p[i] + 1; k < R->p[i + 1]; k++) EXPECT(rqinv[R->j[k]] < 0, "%s: row %d has a second entry in pivot column %d", what, i, R->j[k]);
	}
	Mat X = from_csr(R), B = A; R_rref(X); R_rref(B);
	EXPECT(X.a == B.a, "%s: row space differs from that of the input", what);
}

inline void check_kernel(const Mat &A, const struct spasm_csr *K, int rank, const char *what)
{
	int m = A.m;
	wellformed(K, m - rank, m, A.p, WF_ALL, what);
	Mat Kd = from_csr(K);
	for (int i = 0; i < Kd.n; i++) for (int r = 0; r < A.n; r++) {
		u64 s = 0; for (int j = 0; j < m; j++) if (Kd[i][j] && A[r][j]) s = R_add(s, R_mul(Kd[i][j], A[r][j], A.p), A.p);
		EXPECT(s == 0, "%s: kernel vector %d is not orthogonal to row %d", what, i, r);
	}
	EXPECT(R_rank(Kd) == m - rank, "%s: kernel vectors are linearly dependent", what);
}

// option sets ------------------------------------------------------------------
struct OptSet { const char *name; struct echelonize_opts o; };
inline struct echelonize_opts opt_base() { struct echelonize_opts o; memset(&o, 0, sizeof o); spasm_echelonize_init_opts(&o); return o; }
inline std::vector<OptSet> option_sets(bool full)
{
	std::vector<OptSet> v; struct echelonize_opts o;
#define ADD(nm, ...) do { o = opt_base(); __VA_ARGS__; v.push_back({nm, o}); } while (0)
	ADD("default", (void) 0);
	ADD("rounds0-gplu", o.max_round = 0; o.enable_dense = 0; o.enable_tall_and_skinny = 0);
	ADD("rounds1-gplu", o.max_round = 1; o.sparsity_threshold = 2; o.min_pivot_proportion = 0; o.enable_tall_and_skinny = 0);
	ADD("rounds2-gplu", o.max_round = 2; o.sparsity_threshold = 2; o.min_pivot_proportion = 0; o.enable_tall_and_skinny = 0);
	ADD("rounds9-gplu", o.max_round = 9; o.sparsity_threshold = 2; o.min_pivot_proportion = 0; o.enable_tall_and_skinny = 0);
	ADD("dense-b1", o.max_round = 0; o.sparsity_threshold = -1; o.dense_block_size = 1; o.enable_tall_and_skinny = 0);
	ADD("dense-b2-lowrank", o.sparsity_threshold = -1; o.dense_block_size = 2; o.tall_and_skinny_ratio = 1e9);
	ADD("dense-b1-lowrank", o.sparsity_threshold = -1; o.dense_block_size = 1; o.tall_and_skinny_ratio = 1e9; o.low_rank_ratio = 1; o.max_round = 1);
	ADD("tall", o.tall_and_skinny_ratio = 0; o.sparsity_threshold = -1);
	ADD("tall-b1-w1", o.tall_and_skinny_ratio = 0; o.sparsity_threshold = -1; o.dense_block_size = 1; o.low_rank_start_weight = 1);
	ADD("nogreedy-rounds1-dense", o.enable_greedy_pivot_search = 0; o.max_round = 1; o.sparsity_threshold = 0.3; o.min_pivot_proportion = 0; o.enable_tall_and_skinny = 0; o.max_round = 3);
	if (full) {
		ADD("tall-w0", o.tall_and_skinny_ratio = 0; o.max_round = 0; o.low_rank_start_weight = 0);
		ADD("tall-b2-w2", o.tall_and_skinny_ratio = 0; o.max_round = 1; o.sparsity_threshold = 2; o.min_pivot_proportion = 0; o.dense_block_size = 2; o.low_rank_start_weight = 2);
		ADD("dense-b3", o.max_round = 1; o.sparsity_threshold = -1; o.dense_block_size = 3; o.enable_tall_and_skinny = 0);
		ADD("minpiv-high", o.min_pivot_proportion = 2; o.sparsity_threshold = 0.3);
		ADD("nogreedy-gplu", o.enable_greedy_pivot_search = 0; o.enable_dense = 0; o.enable_tall_and_skinny = 0);
		ADD("rounds1-dense-after", o.max_round = 1; o.sparsity_threshold = 0.4; o.dense_block_size = 2; o.min_pivot_proportion = 0);
	}
#undef ADD
	return v;
}
// every option set must leave a finishing method enabled: in "nogreedy-rounds1-dense" GPLU is off, hence dense must be reachable
inline bool finishing_guaranteed(const struct echelonize_opts &o) { return o.enable_GPLU || (o.enable_dense && o.sparsity_threshold < 0); }

// a named collection of structured matrices that drive the algorithms into their different regimes
struct Named { std::string name; Mat A; };
inline std::vector<Named> suite(u64 p, bool big = true)
{
	std::vector<Named> v; u64 h = p / 2;
	auto val = [&](int a, int b, int c) -> u64 { u64 z = tex(a, b, c); return z % 4 == 0 ? h : z % 4 == 1 ? p - h : 1 + (z >> 5) % (p - 1); };
	auto dense = [&](int n, int m, int c) { Mat A(n, m, p); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) A[i][j] = val(i, j, c); return A; };
	auto sparse = [&](int n, int m, int k, int c) { Mat A(n, m, p); if (m > 0) for (int i = 0; i < n; i++) for (int t = 0; t < k; t++) A[i][tex(i, t, c) % m] = val(i, t, c + 7); return A; };
	auto prod = [&](int n, int r, int m, int c) { return R_mulmat(dense(n, r, c), dense(r, m, c + 1)); };
	v.push_back({"0x0", Mat(0, 0, p)}); v.push_back({"0x3", Mat(0, 3, p)}); v.push_back({"3x0", Mat(3, 0, p)}); v.push_back({"zero-3x4", Mat(3, 4, p)});
	{ Mat A(1, 1, p); A[0][0] = h; v.push_back({"1x1", A}); }
	{ Mat A(5, 5, p); for (int i = 0; i < 5; i++) A[i][4 - i] = val(i, 0, 1); v.push_back({"antidiagonal", A}); }
	v.push_back({"dense-6x6", dense(6, 6, 1)}); v.push_back({"rank2-6x6", prod(6, 2, 6, 2)}); v.push_back({"rank1-5x7", prod(5, 1, 7, 5)}); v.push_back({"wide-3x9", dense(3, 9, 3)}); v.push_back({"tall-13x3", dense(13, 3, 4)}); v.push_back({"tall-rank2-24x4", prod(24, 2, 4, 8)});
	// dependent rows first, independent ones late
	{ Mat A(24, 9, p); Mat B = prod(16, 2, 9, 11); for (int i = 0; i < 24; i++) for (int j = 0; j < 9; j++) A[i][j] = i < 16 ? B[i][j] : val(i, j, 12); v.push_back({"late-24x9", A}); }
	{ Mat A(20, 8, p); for (int i = 0; i < 20; i++) { if (i < 15) { A[i][0] = 1 + i % (p - 1); A[i][1] = A[i][0]; } else { A[i][i - 13] = 1; A[i][0] = h; A[i][7] = val(i, 7, 1); } } v.push_back({"late-sparse-20x8", A}); }
	{ Mat A(18, 6, p); A[17][3] = 2 % p; A[0][3] = 1; for (int i = 0; i < 18; i++) A[i][i % 2] = val(i, i, 13); A[9][5] = h; v.push_back({"mostly-duplicates", A}); }
	v.push_back({"sparse2-14x14", sparse(14, 14, 2, 21)}); v.push_back({"sparse3-16x12", sparse(16, 12, 3, 22)}); v.push_back({"sparse3-12x16", sparse(12, 16, 3, 23)}); v.push_back({"sparse4-20x20", sparse(20, 20, 4, 24)});
	{ Mat A(10, 10, p); for (int i = 0; i < 10; i++) { A[i][0] = val(i, 0, 31); A[0][i] = val(0, i, 32); A[i][i] = val(i, i, 33); } v.push_back({"arrow", A}); }
	{ Mat A(12, 12, p); for (int i = 0; i < 12; i++) { A[i][i] = 1; A[i][(i + 1) % 12] = i == 11 ? 1 : p - 1; } v.push_back({"cycle", A}); }
	// several rounds of sparse elimination: bidiagonal blocks glued by a few dense rows
	{ Mat A(18, 18, p); for (int b = 0; b < 6; b++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j || b % 2) A[3 * b + i][3 * b + j] = val(3 * b + i, j, 41); for (int i = 0; i < 18; i += 5) A[i][(i * 7 + 3) % 18] = h; v.push_back({"blocks-18", A}); }
	{ Mat A(15, 11, p), B = sparse(15, 11, 2, 44); for (int i = 0; i < 15; i++) for (int j = 0; j < 11; j++) A[i][j] = i % 3 == 2 ? R_add(B[i - 1][j], R_mul(2 % p, B[i - 2][j], p), p) : B[i][j]; for (int j = 0; j < 11; j += 4) A[14][j] = val(14, j, 45); v.push_back({"combos-15x11", A}); }
	{ Mat A(9, 9, p); for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) A[i][j] = (i / 3 == j / 3) ? val(i % 3, j, 51) : 0; v.push_back({"rank-per-block", A}); }
	// sparse rounds first, then a dense part whose first rows are dependent and whose last ones are not
	for (int kind = 0; kind < 3; kind++) { int k0 = 10 + 6 * kind, e = 12, w = 8; Mat A(k0 + e, k0 + w, p); for (int i = 0; i < k0; i++) { A[i][i] = 1; A[i][k0 + i % w] = val(i, 0, 71); if (kind) A[i][(i + 3) % k0] = i + 3 < k0 ? 1 : 0; }
		Mat D = prod(e, 2, w, 72); for (int t = 0; t < e; t++) { int a = t % k0, b = (t * 3 + 1) % k0; for (int j = 0; j < k0 + w; j++) A[k0 + t][j] = R_add(A[a][j], R_mul(h, A[b][j], p), p); if (t >= 2) for (int j = 0; j < w; j++) A[k0 + t][k0 + j] = R_add(A[k0 + t][k0 + j], t < 8 ? D[t][j] : val(t, j, 73), p); }
		v.push_back({"staged-" + std::to_string(kind), A}); }
	if (big) { v.push_back({"sparse3-60x45", sparse(60, 45, 3, 61)}); v.push_back({"rank9-40x30", prod(40, 9, 30, 62)}); v.push_back({"lowrank-80x12", prod(80, 5, 12, 64)}); v.push_back({"dense-25x31", dense(25, 31, 66)}); }
	return v;
}
// exhaustive option alphabets
inline u64 opt_count(bool full) { return full ? 3 * 4 * 3 * 2 * 3 * 2 * 4 * 3 * 4 : 3 * 3 * 2 * 3 * 2 * 3 * 2 * 3; }
inline struct echelonize_opts opt_get(bool full, u64 k)
{
	struct echelonize_opts o = opt_base(); Ix x(k);
	static const int MR[] = {0, 1, 3}; static const double TF[] = {-1, 2, 0.3, 0.1}, MP[] = {0, 0.1, 2}, LR[] = {0.5, 1, 0}; static const int BL[] = {1, 2, 1000, 5}; static const int SW[] = {-1, 0, 1, 3};
	o.max_round = MR[x.take(3)]; o.sparsity_threshold = TF[x.take(full ? 4 : 3)]; o.min_pivot_proportion = MP[x.take(full ? 3 : 2)]; if (full) o.enable_greedy_pivot_search = x.take(2);
	int tall = x.take(3); o.enable_tall_and_skinny = tall > 0; o.tall_and_skinny_ratio = tall == 1 ? 0 : 5; o.enable_dense = x.take(2); o.enable_GPLU = !(o.enable_dense && o.sparsity_threshold < 0);
	o.dense_block_size = BL[x.take(full ? 4 : 3)]; o.low_rank_ratio = LR[x.take(full ? 3 : 2)]; o.low_rank_start_weight = SW[x.take(full ? 4 : 3)];
	return o;
}
inline std::string opt_str(const struct echelonize_opts &o) { char b[300]; snprintf(b, 300, "{rounds %d thr %g minpiv %g greedy %d tall %d/%g dense %d GPLU %d block %d lowrank %g w %g L %d complete %d}", o.max_round, o.sparsity_threshold, o.min_pivot_proportion, o.enable_greedy_pivot_search, o.enable_tall_and_skinny, o.tall_and_skinny_ratio, o.enable_dense, o.enable_GPLU, o.dense_block_size, o.low_rank_ratio, o.low_rank_start_weight, o.L, o.complete); return b; }
inline std::vector<int> rand_steps(int a, int na, int b, int nb) { std::vector<int> v(na, a); v.insert(v.end(), nb, b); return v; }
static const std::vector<std::vector<int>> RANDS = {{}, {0}, {1}, {0, 1}, {5, 3, 1, 4, 2, 0}, {8388607, 0, 77, 1}, rand_steps(0, 100, 3, 100)};
