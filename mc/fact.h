// building partial factorisations by hand
#pragma once
#include "ref.h"
// a partial factorisation holding the given unit-pivot rows; U keeps the pivot first in each row (unless scramble)
struct Fact { struct spasm_lu f; std::vector<int> qinv, lp; struct spasm_csr *U; struct spasm_triplet *L; };
inline void make_fact(Fact &F, const Mat &U, const std::vector<int> &piv, int rows_cap, bool withL, i64 ucap, i64 lcap, int n_orig, bool pivfirst = true)
{
	int m = U.m, r = U.n; i64 nnz = 0; for (auto &row : U.a) for (u64 v : row) nnz += v != 0;
	memset(&F.f, 0, sizeof F.f);
	F.U = spasm_csr_alloc(std::max(rows_cap, r), m, std::max(nnz, ucap), U.p, true);
	F.qinv.assign(m, -1); F.qinv.reserve(1);
	i64 k = 0; F.U->p[0] = 0; for (int i = 0; i < r; i++) { F.qinv[piv[i]] = i; if (pivfirst) { F.U->j[k] = piv[i]; F.U->x[k++] = 1; } for (int j = m - 1; j >= 0; j--) if (U[i][j] && !(pivfirst && j == piv[i])) { F.U->j[k] = j; F.U->x[k++] = R_bal(U[i][j], U.p); } F.U->p[i + 1] = k; }
	F.U->n = r; F.L = NULL; F.lp.assign(n_orig + 1, -1);
	if (withL) { F.L = spasm_triplet_alloc(n_orig, n_orig, lcap, U.p, true); }
	F.f.U = F.U; F.f.qinv = F.qinv.data(); F.f.Ltmp = F.L; F.f.p = withL ? F.lp.data() : NULL; F.f.r = r;
}
// k-th unit-pivot triangular matrix, r rows over m columns
inline u64 tri_count(int r, int m, u64 nv) { u64 c = 1; for (int i = 0; i < r; i++) c *= ipow(nv, m - 1 - i) * (m - i); return c; }
inline Mat tri_get(int r, int m, u64 p, const std::vector<i64> &vals, u64 k, std::vector<int> &piv)
{
	Ix x(k); std::vector<int> cols; for (int j = 0; j < m; j++) cols.push_back(j); piv.clear();
	for (int i = 0; i < r; i++) { int d = x.take(m - i); piv.push_back(cols[d]); cols.erase(cols.begin() + d); }
	Mat U(r, m, p); std::vector<int> dead(m, 0);
	for (int i = 0; i < r; i++) { U[i][piv[i]] = 1; dead[piv[i]] = 1; for (int j = 0; j < m; j++) if (!dead[j]) U[i][j] = R_red(vals[x.take(vals.size())], p); }
	return U;
}
// exact elimination of row a by the pivot rows (in topological order given by triangularity): remainder and multipliers
inline void eliminate(const Mat &U, const std::vector<int> &piv, Row a, Row &rem, Row &mult)
{
	u64 p = U.p; mult.assign(U.n, 0);
	for (int i = 0; i < U.n; i++) { u64 c = a[piv[i]]; if (!c) continue; mult[i] = c; for (int j = 0; j < U.m; j++) if (U[i][j]) a[j] = R_sub(a[j], R_mul(c, U[i][j], p), p); }
	rem = a;
}
inline std::vector<spasm_triplet *> &none() { static std::vector<spasm_triplet *> v; return v; }
