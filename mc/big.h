// Sparse instances whose dimensions exceed 2^15 and 2^16, with references that stay linear.
#pragma once
#include "ref.h"
#include <map>
struct SpM { int n = 0, m = 0; u64 p = 3; std::vector<std::vector<std::pair<int, u64>>> a; SpM() {} SpM(int n_, int m_, u64 p_) : n(n_), m(m_), p(p_), a(n_) {} void put(int i, int j, u64 v) { v %= p; if (v) a[i].push_back({j, v}); } i64 nnz() const { i64 s = 0; for (auto &r : a) s += r.size(); return s; } };
inline struct spasm_csr *sp_csr(const SpM &S, int order, bool values = true)
{
	struct spasm_csr *C = spasm_csr_alloc(S.n, S.m, S.nnz(), S.p, values); i64 k = 0;
	for (int i = 0; i < S.n; i++) { C->p[i] = k; int w = S.a[i].size(); for (int t = 0; t < w; t++) { auto &e = S.a[i][order == 0 ? t : order == 1 ? w - 1 - t : (t + i) % w]; C->j[k] = e.first; if (C->x) C->x[k] = R_bal(e.second, S.p); k++; } } C->p[S.n] = k; return C;
}
inline SpM sp_from(const struct spasm_csr *C) { SpM S(C->n, C->m, C->field->p); for (int i = 0; i < C->n; i++) for (i64 k = C->p[i]; k < C->p[i + 1]; k++) S.put(i, C->j[k], R_red(C->x[k], S.p)); return S; }
inline SpM sp_transpose(const SpM &S) { SpM T(S.m, S.n, S.p); for (int i = 0; i < S.n; i++) for (auto &e : S.a[i]) T.a[e.first].push_back({i, e.second}); return T; }
inline Row sp_vecmat(const Row &x, const SpM &S) { Row y(S.m, 0); for (int i = 0; i < S.n; i++) if (x[i]) for (auto &e : S.a[i]) y[e.first] = R_add(y[e.first], R_mul(x[i], e.second, S.p), S.p); return y; }
// reference elimination (leading column = smallest); rows stay short on the shapes below
struct SpEch {
	u64 p; std::map<int, std::vector<std::pair<int, u64>>> piv; SpEch(u64 p_) : p(p_) {}
	std::map<int, u64> reduce(const std::vector<std::pair<int, u64>> &r) { std::map<int, u64> x, out; for (auto &e : r) { u64 &v = x[e.first]; v = R_add(v, e.second, p); } while (!x.empty()) { auto it = x.begin(); int j = it->first; u64 v = it->second; x.erase(it); if (!v) continue; auto q = piv.find(j); if (q == piv.end()) { out[j] = v; continue; } for (auto &e : q->second) if (e.first != j) { u64 &w = x[e.first]; w = R_sub(w, R_mul(v, e.second, p), p); } } return out; }
	bool insert(const std::vector<std::pair<int, u64>> &r) { auto x = reduce(r); if (x.empty()) return false; u64 iv = R_inv(x.begin()->second, p); std::vector<std::pair<int, u64>> w; for (auto &e : x) w.push_back({e.first, R_mul(e.second, iv, p)}); piv[w[0].first] = w; return true; }
	int rank() const { return piv.size(); }
};
inline SpEch sp_ech(const SpM &S) { SpEch E(S.p); for (int pass = 0; pass < 2; pass++) for (auto &r : S.a) if ((r.size() > 1000) == (pass == 1)) E.insert(r); return E; }
inline int sc(i64 i, int n, int k) { return (int) ((i * 104729 + k) % n); }       // scatter the indices over the whole range
// direct sum of small blocks of several kinds over about s rows, rows and columns scattered; full: one more row with all the columns
inline SpM sp_blocks(int s, u64 p, int salt, bool full)
{
	int nb = (s + 3) / 4, m = nb * 5; SpM S(nb * 4 + (full ? 1 : 0), m, p); int N = nb * 4; auto v = [&](int a, int b) -> u64 { u64 z = tex(a, b, salt); return z % 5 == 0 ? p / 2 : z % 5 == 1 ? p - 1 : 1 + (z >> 5) % (p - 1); };
	for (int b = 0; b < nb; b++) { int kind = tex(b, salt, 9) % 6; Mat B(4, 5, p);
		if (kind == 0) { for (int i = 0; i < 4; i++) { B[i][i] = v(b, i); B[i][4] = v(b, 9 + i); } }
		else if (kind == 1) { for (int i = 0; i < 4; i++) for (int j = 0; j < 5; j++) B[i][j] = v(b * 4 + i, j); }
		else if (kind == 2) { for (int j = 0; j < 5; j++) { B[0][j] = v(b, j); B[1][j] = j % 2 ? v(b, 20 + j) : 0; B[2][j] = R_add(R_mul(2 % p, B[0][j], p), B[1][j], p); } }
		else if (kind == 3) { B[0][2] = v(b, 0); B[1][2] = v(b, 1); B[2][0] = v(b, 2); B[3][0] = v(b, 3); B[3][2] = v(b, 4); }
		else if (kind == 4) { for (int i = 0; i < 4; i++) { B[i][i] = 1; B[i][(i + 1) % 4] = i == 3 ? p - 1 : p - 1; } }
		else { for (int i = 0; i < 4; i++) { B[i][i + 1] = v(b, i); B[i][(i * 2) % 5] = v(b, 30 + i); } }
		for (int i = 0; i < 4; i++) for (int j = 0; j < 5; j++) S.put(sc(4 * b + i, N, 3), sc(5 * b + j, m, 7), B[i][j]); }
	if (full) for (int j = 0; j < m; j++) S.put(N, j, 1 + (u64) j % (p - 1));
	return S;
}
inline void sp_check_echelon(const SpM &A, SpEch &E, const struct spasm_csr *U, const int *qinv, const char *what)
{
	int m = A.m, r = U->n; wellformed(U, r, m, A.p, WF_CANON | WF_NODUP, what); EXPECT(r == E.rank(), "%s: rank %d, true rank is %d", what, r, E.rank()); std::vector<int> rowpiv(r, -1);
	for (int j = 0; j < m; j++) { EXPECT(qinv[j] >= -1 && qinv[j] < r, "%s: pivot index of column %d is %d", what, j, qinv[j]); if (qinv[j] >= 0) { EXPECT(rowpiv[qinv[j]] < 0, "%s: row %d has two pivots", what, qinv[j]); rowpiv[qinv[j]] = j; } }
	for (int i = 0; i < r; i++) { i64 k = U->p[i]; EXPECT(rowpiv[i] >= 0 && k < U->p[i + 1] && U->j[k] == rowpiv[i] && U->x[k] == 1, "%s: row %d does not start with its unit pivot", what, i); for (; k < U->p[i + 1]; k++) { int q = qinv[U->j[k]]; if (U->x[k]) EXPECT(q < 0 || q >= i, "%s: row %d has an entry in the pivot column of row %d", what, i, q); } }
	SpM Us = sp_from(U); for (int i = 0; i < r; i++) EXPECT(E.reduce(Us.a[i]).empty(), "%s: row %d is not in the row space", what, i);
}
inline void sp_check_lu(const SpM &A, const struct spasm_lu *f, bool complete)
{
	int r = f->U->n, n = A.n; EXPECT(f->L && f->p, "no L"); wellformed(f->L, n, r, A.p, WF_CANON | WF_NODUP, "L"); SpM L = sp_from(f->L), U = sp_from(f->U); std::vector<int> at(n, -1);
	for (int j = 0; j < r; j++) { int i = f->p[j]; EXPECT(i >= 0 && i < n && at[i] < 0, "pivotal row of column %d is %d", j, i); at[i] = j; bool d = false; for (auto &e : L.a[i]) { EXPECT(e.first <= j, "L is not lower triangular: row %d column %d", i, e.first); d |= e.first == j; } EXPECT(d, "zero on the diagonal of L, column %d", j); }
	for (int i = 0; i < n; i++) if (complete || at[i] >= 0) { std::map<int, u64> x; for (auto &l : L.a[i]) for (auto &e : U.a[l.first]) { u64 &v = x[e.first]; v = R_add(v, R_mul(l.second, e.second, A.p), A.p); } for (auto &e : A.a[i]) { u64 &v = x[e.first]; v = R_sub(v, e.second, A.p); } for (auto &e : x) EXPECT(e.second == 0, "row %d of L*U differs from A on column %d", i, e.first); }
}
inline void sp_check_rref(const SpM &A, SpEch &E, const struct spasm_csr *R, const int *rq)
{
	int m = A.m, r = E.rank(); wellformed(R, r, m, A.p, WF_ALL, "rref"); std::vector<int> rowpiv(r, -1); for (int j = 0; j < m; j++) { EXPECT(rq[j] >= -1 && rq[j] < r, "rref: pivot index"); if (rq[j] >= 0) { EXPECT(rowpiv[rq[j]] < 0, "rref: two pivots on row %d", rq[j]); rowpiv[rq[j]] = j; } }
	SpM Rs = sp_from(R); for (int i = 0; i < r; i++) { i64 k = R->p[i]; EXPECT(rowpiv[i] >= 0 && k < R->p[i + 1] && R->j[k] == rowpiv[i] && R->x[k] == 1, "rref: row %d does not start with a unit pivot", i); for (k++; k < R->p[i + 1]; k++) EXPECT(rq[R->j[k]] < 0, "rref: row %d has an entry in pivot column %d", i, R->j[k]); EXPECT(E.reduce(Rs.a[i]).empty(), "rref: row %d is not in the row space", i); }
}
// rank: peel the columns with a single entry (with their row), eliminate what is left
inline int sp_rank(const SpM &S)
{
	SpM T = sp_transpose(S); std::vector<int> cnt(S.m); std::vector<char> dead(S.n, 0); std::vector<int> q; for (int j = 0; j < S.m; j++) { cnt[j] = T.a[j].size(); if (cnt[j] == 1) q.push_back(j); } int r = 0;
	while (!q.empty()) { int j = q.back(); q.pop_back(); if (cnt[j] != 1) continue; for (auto &e : T.a[j]) if (!dead[e.first]) { dead[e.first] = 1; r++; for (auto &f : S.a[e.first]) if (--cnt[f.first] == 1) q.push_back(f.first); break; } }
	SpM W(0, S.m, S.p); for (int i = 0; i < S.n; i++) if (!dead[i]) { W.a.push_back(S.a[i]); W.n++; } return r + sp_ech(W).rank();
}
inline void sp_check_kernel(const SpM &A, const struct spasm_csr *K, int rank, const char *what)
{
	int m = A.m; wellformed(K, m - rank, m, A.p, WF_ALL, what); SpM Ks = sp_from(K), At = sp_transpose(A);
	for (int i = 0; i < Ks.n; i++) { std::map<int, u64> x; for (auto &k : Ks.a[i]) for (auto &e : At.a[k.first]) { u64 &v = x[e.first]; v = R_add(v, R_mul(k.second, e.second, A.p), A.p); } for (auto &e : x) EXPECT(e.second == 0, "%s: vector %d is not orthogonal to row %d", what, i, e.first); }
	EXPECT(sp_rank(Ks) == m - rank, "%s: kernel vectors are linearly dependent", what);
}
// patterns as adjacency lists
inline std::vector<int> sp_scc(const std::vector<std::vector<int>> &g)       // Kosaraju, iterative: component of each vertex
{
	int n = g.size(); std::vector<std::vector<int>> t(n); for (int i = 0; i < n; i++) for (int j : g[i]) t[j].push_back(i); std::vector<int> ord, comp(n, -1); std::vector<char> seen(n, 0); std::vector<std::pair<int, size_t>> st;
	for (int s = 0; s < n; s++) if (!seen[s]) { seen[s] = 1; st.push_back({s, 0}); while (!st.empty()) { int u = st.back().first; if (st.back().second < g[u].size()) { int w = g[u][st.back().second++]; if (!seen[w]) { seen[w] = 1; st.push_back({w, 0}); } } else { ord.push_back(u); st.pop_back(); } } }
	int c = 0; for (int z = n - 1; z >= 0; z--) { int s = ord[z]; if (comp[s] >= 0) continue; std::vector<int> q = {s}; comp[s] = c; while (!q.empty()) { int u = q.back(); q.pop_back(); for (int w : t[u]) if (comp[w] < 0) { comp[w] = c; q.push_back(w); } } c++; } return comp;
}
// size of the vertex cover of Koenig's construction for this matching (rows not reachable from unmatched rows, columns reachable); -1 if it is not a cover
inline int sp_cover(const std::vector<std::vector<int>> &g, int m, const int *rm, const int *cm, std::vector<char> &rz, std::vector<char> &cz)
{
	int n = g.size(); rz.assign(n, 0); cz.assign(m, 0); std::vector<int> q; for (int i = 0; i < n; i++) if (rm[i] < 0) { rz[i] = 1; q.push_back(i); }
	while (!q.empty()) { int i = q.back(); q.pop_back(); for (int j : g[i]) if (!cz[j]) { cz[j] = 1; int k = cm[j]; if (k < 0) return -1; if (!rz[k]) { rz[k] = 1; q.push_back(k); } } }
	int c = 0; for (int i = 0; i < n; i++) c += !rz[i]; for (int j = 0; j < m; j++) c += cz[j]; return c;
}
enum { LP_CHAIN, LP_RCHAIN, LP_CYCLE, LP_STAR, LP_TREE, LP_MIXED, LP_BLOCKS, LP_SHAPES };
static const char *const LP_NAME[] = {"chain", "reversed-chain", "cycle", "star", "tree", "mixed", "blocks"};
inline SpM sp_pattern(int kind, int s, u64 p)        // square
{
	SpM S(s, s, p); auto e = [&](int i, int j) { for (auto &t : S.a[i]) if (t.first == j) return; S.put(i, j, 1 + tex(i, j, 3) % (p - 1)); };
	for (int i = 0; i < s; i++) switch (kind) {
	case LP_CHAIN: e(i, i); if (i + 1 < s) e(i, i + 1); break;
	case LP_RCHAIN: if (i) e(i, i - 1); e(i, i); break;
	case LP_CYCLE: e(i, (i + 1) % s); break;
	case LP_STAR: if (i == 0) for (int j = 0; j < s; j++) S.put(0, j, 1 + j % (p - 1)); else if (i % 3) e(i, 0); else e(i, i); break;
	case LP_TREE: if (i) e(i, (i - 1) / 2); if (2 * i + 1 < s && i % 5) e(i, 2 * i + 1); break;
	case LP_MIXED: e(i, sc(i, s, 5)); if (i % 3 == 0) e(i, sc(i + 1, s, 5)); if (i % 7 == 3) e(i, sc(i - 2, s, 5)); break;
	default: { int b = i / 4 * 4; e(sc(i, s, 1), sc(b + (i + 1) % 4 < s ? b + (i + 1) % 4 : b, s, 1)); if (i % 4 == 0 && i >= 8) e(sc(i, s, 1), sc(i - 7, s, 1)); }
	}
	return S;
}
inline std::vector<std::vector<int>> sp_adj(const SpM &S) { std::vector<std::vector<int>> g(S.n); for (int i = 0; i < S.n; i++) for (auto &e : S.a[i]) g[i].push_back(e.first); return g; }
inline std::vector<int> long_sizes() { std::vector<int> v = {32769, 65537}; if (tier_thorough()) { v.push_back(131073); v.push_back(262145); v.push_back(1048577); } return v; }
inline void sp_cmp(const struct spasm_csr *C, const SpM &W, bool vals, const char *what)
{
	wellformed(C, W.n, W.m, W.p, vals ? WF_ALL : WF_NODUP, what); EXPECT((C->x != NULL) == vals || W.nnz() == 0, "%s: values %s", what, vals ? "missing" : "present");
	for (int i = 0; i < W.n; i++) { auto w = W.a[i]; std::sort(w.begin(), w.end()); std::vector<std::pair<int, u64>> g; for (i64 k = C->p[i]; k < C->p[i + 1]; k++) g.push_back({C->j[k], vals ? R_red(C->x[k], W.p) : 0}); std::sort(g.begin(), g.end()); EXPECT(g.size() == w.size(), "%s: row %d has %zu entries, expected %zu", what, i, g.size(), w.size()); for (size_t t = 0; t < w.size(); t++) EXPECT(g[t].first == w[t].first && (!vals || g[t].second == w[t].second), "%s: row %d differs near column %d", what, i, w[t].first); }
	mc_traces++; state(hmix(snap_csr(C), what[0]));
}
// the matrices used for the linear-algebra checks: both the shape and the size are coded in k
inline u64 long_count() { return long_sizes().size() * 3; }
inline SpM long_mat(u64 k, u64 p, std::string &name)
{
	u64 z = long_sizes().size(); if (k >= 2 * z) { int s = long_sizes()[k - 2 * z]; name = "blocks+full-column-" + std::to_string(s); SpM S = sp_blocks(s, p, (int) k, false); int c = S.m++; for (int i = 0; i < S.n; i++) S.put(i, c, 1 + (u64) tex(i, s, 5) % (p - 1)); return S; }
	int s = long_sizes()[k / 2]; bool full = k % 2; name = std::string(full ? "blocks+full-row-" : "blocks-") + std::to_string(s); return sp_blocks(s, p, (int) k, full);
}
