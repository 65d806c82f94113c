// 0/1 patterns and reference combinatorics
#pragma once
#include "ref.h"
struct Pat { int n, m; std::vector<std::vector<char>> a; Pat(int n_, int m_) : n(n_), m(m_), a(n_, std::vector<char>(m_, 0)) {} };
inline Pat pat_enum(int n, int m, u64 k) { Pat P(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { P.a[i][j] = k & 1; k >>= 1; } return P; }
inline std::string pat_str(const Pat &P) { std::string s = std::to_string(P.n) + "x" + std::to_string(P.m) + "["; if (P.n * P.m > 600) return s + "large]"; for (int i = 0; i < P.n; i++) { if (i) s += ";"; for (int j = 0; j < P.m; j++) s += P.a[i][j] ? '1' : '.'; } return s + "]"; }
inline Mat pat_mat(const Pat &P, u64 p) { Mat A(P.n, P.m, p); int c = 1; for (int i = 0; i < P.n; i++) for (int j = 0; j < P.m; j++) if (P.a[i][j]) { A[i][j] = 1 + c % (p - 1); c += 3; } return A; }
inline struct spasm_csr *pat_csr(const Pat &P, int order, bool vals = false) { return to_csr(pat_mat(P, 257), order, vals); }
// reference matching (Kuhn), rm[i] = column or -1
inline bool kuhn(const Pat &P, int i, std::vector<int> &cm, std::vector<char> &vis) { for (int j = 0; j < P.m; j++) if (P.a[i][j] && !vis[j]) { vis[j] = 1; if (cm[j] < 0 || kuhn(P, cm[j], cm, vis)) { cm[j] = i; return true; } } return false; }
inline int ref_matching(const Pat &P, std::vector<int> &rm, std::vector<int> &cm) { cm.assign(P.m, -1); rm.assign(P.n, -1); int k = 0; for (int i = 0; i < P.n; i++) { std::vector<char> vis(P.m, 0); k += kuhn(P, i, cm, vis); } for (int j = 0; j < P.m; j++) if (cm[j] >= 0) rm[cm[j]] = j; return k; }
// reference SCC by reachability closure: comp[i] = smallest vertex mutually reachable
inline std::vector<int> ref_scc(const Pat &P)
{
	int n = P.n, w = (n + 63) / 64; std::vector<std::vector<u64>> R(n, std::vector<u64>(w, 0)); auto in = [&](int i, int j) { return R[i][j >> 6] >> (j & 63) & 1; };
	for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) if (P.a[i][j] || i == j) R[i][j >> 6] |= (u64) 1 << (j & 63); }
	for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (in(i, k)) for (int t = 0; t < w; t++) R[i][t] |= R[k][t];
	std::vector<int> c(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (in(i, j) && in(j, i)) { c[i] = j; break; } return c;
}
