// Reference algebra: dense, exact (128-bit), boring.  Residues are kept in [0, p).
#pragma once
#include "mc.h"
#include <algorithm>
#include <set>

typedef std::vector<u64> Row;
struct Mat { int n = 0, m = 0; u64 p = 3; std::vector<Row> a; Mat() {} Mat(int n_, int m_, u64 p_) : n(n_), m(m_), p(p_), a(n_, Row(m_, 0)) {} 
	Row &operator[](int i) { return a[i]; } const Row &operator[](int i) const { return a[i]; } };

inline u64 R_red(i64 x, u64 p) { __int128 v = (__int128) x % (__int128) p; if (v < 0) v += p; return (u64) v; }
inline u64 R_mul(u64 a, u64 b, u64 p) { return (u64) ((unsigned __int128) a * b % p); }
inline u64 R_add(u64 a, u64 b, u64 p) { u64 s = a + b; return s >= p ? s - p : s; }
inline u64 R_sub(u64 a, u64 b, u64 p) { return a >= b ? a - b : a + p - b; }
inline u64 R_pow(u64 a, u64 e, u64 p) { u64 r = 1 % p; for (; e; e >>= 1) { if (e & 1) r = R_mul(r, a, p); a = R_mul(a, a, p); } return r; }
inline u64 R_inv(u64 a, u64 p) { return R_pow(a, p - 2, p); }
// balanced representative in [-(p-1)/2, (p-1)/2]
inline spasm_ZZp R_bal(u64 a, u64 p) { return a > p / 2 ? (spasm_ZZp) ((i64) a - (i64) p) : (spasm_ZZp) a; }
inline bool R_canon(i64 x, u64 p) { i64 h = (i64) (p / 2); return -h <= x && x <= h; }

// Gauss-Jordan over the columns in the given order; returns pivot columns, A becomes reduced (nonzero rows only)
inline std::vector<int> R_rref(Mat &A)
{
	std::vector<int> piv; int r = 0;
	for (int j = 0; j < A.m && r < A.n; j++) {
		int k = r; while (k < A.n && A[k][j] == 0) k++;
		if (k == A.n) continue;
		std::swap(A.a[k], A.a[r]);
		u64 iv = R_inv(A[r][j], A.p);
		for (int t = j; t < A.m; t++) A[r][t] = R_mul(A[r][t], iv, A.p);
		for (int i = 0; i < A.n; i++) if (i != r && A[i][j]) { u64 c = A[i][j]; for (int t = j; t < A.m; t++) if (A[r][t]) A[i][t] = R_sub(A[i][t], R_mul(c, A[r][t], A.p), A.p); }
		piv.push_back(j); r++;
	}
	A.a.resize(r); A.n = r;
	return piv;
}
inline int R_rank(Mat A) { return (int) R_rref(A).size(); }
// the canonical form of the row space: equal iff same row space
inline std::vector<Row> R_space(Mat A) { R_rref(A); return A.a; }
inline Mat R_stack(const Mat &A, const Mat &B) { Mat C(A.n + B.n, A.m, A.p); for (int i = 0; i < A.n; i++) C[i] = A[i]; for (int i = 0; i < B.n; i++) C[A.n + i] = B[i]; return C; }
inline Mat R_mulmat(const Mat &A, const Mat &B) { Mat C(A.n, B.m, A.p); for (int i = 0; i < A.n; i++) for (int k = 0; k < A.m; k++) if (A[i][k]) for (int j = 0; j < B.m; j++) if (B[k][j]) C[i][j] = R_add(C[i][j], R_mul(A[i][k], B[k][j], A.p), A.p); return C; }
inline Row R_vecmat(const Row &x, const Mat &A) { Row y(A.m, 0); for (int i = 0; i < A.n; i++) if (x[i]) for (int j = 0; j < A.m; j++) if (A[i][j]) y[j] = R_add(y[j], R_mul(x[i], A[i][j], A.p), A.p); return y; }
inline Mat R_transpose(const Mat &A) { Mat T(A.m, A.n, A.p); for (int i = 0; i < A.n; i++) for (int j = 0; j < A.m; j++) T[j][i] = A[i][j]; return T; }
inline u64 R_hash(const Mat &A, u64 h = 77) { h = hmix(h, A.n); h = hmix(h, A.m); h = hmix(h, A.p); for (auto &r : A.a) h = hash_bytes(r.data(), r.size() * 8, h); return h; }
inline std::string R_str(const Mat &A) { std::string s; char b[64]; snprintf(b, 64, "%dx%d mod %lu [", A.n, A.m, (unsigned long) A.p); s = b;
	if ((long) A.n * A.m > 400) { int nz = 0; for (auto &r : A.a) for (u64 v : r) if (v && nz++ < 60) { snprintf(b, 64, "(%d,%d,%d)", (int) (&r - &A.a[0]), (int) (&v - &r[0]), R_bal(v, A.p)); } return s + "large, nnz=" + std::to_string(nz) + "]"; }
	for (int i = 0; i < A.n; i++) { if (i) s += "; "; for (int j = 0; j < A.m; j++) { snprintf(b, 64, "%s%d", j ? " " : "", R_bal(A[i][j], A.p)); s += b; } } return s + "]"; }

// ---- between the library's representation and ours
// order: 0 = ascending columns in each row, 1 = descending, 2 = rotated by row index
inline struct spasm_csr *to_csr(const Mat &A, int order = 0, bool values = true, i64 slack = 0)
{
	i64 nnz = 0; for (auto &r : A.a) for (u64 v : r) nnz += v != 0;
	struct spasm_csr *C = spasm_csr_alloc(A.n, A.m, nnz + slack, A.p, values);
	i64 k = 0;
	for (int i = 0; i < A.n; i++) {
		C->p[i] = k;
		for (int t = 0; t < A.m; t++) {
			int j = order == 0 ? t : order == 1 ? A.m - 1 - t : (t * 1 + i * 2 + 1) % A.m;
			if (A[i][j]) { C->j[k] = j; if (C->x) C->x[k] = R_bal(A[i][j], A.p); k++; }
		}
	}
	C->p[A.n] = k;
	return C;
}
enum { WF_NONZERO = 1, WF_NODUP = 2, WF_CANON = 4, WF_ALL = 7 };
inline void wellformed(const struct spasm_csr *A, int n, int m, u64 p, int flags, const char *what)
{
	EXPECT(A != NULL, "%s: no result", what);
	EXPECT(A->n == n, "%s: %d rows, expected %d", what, A->n, n);
	EXPECT(A->m == m, "%s: %d columns, expected %d", what, A->m, m);
	EXPECT((u64) A->field->p == p, "%s: wrong modulus %ld", what, (long) A->field->p);
	EXPECT(A->p[0] == 0, "%s: row pointers start at %ld", what, (long) A->p[0]);
	for (int i = 0; i < n; i++) {
		EXPECT(A->p[i] <= A->p[i + 1], "%s: row pointers decrease at row %d (%ld > %ld)", what, i, (long) A->p[i], (long) A->p[i + 1]);
	}
	EXPECT(A->p[n] <= A->nzmax || A->p[n] == 0, "%s: %ld entries exceed the capacity %ld", what, (long) A->p[n], (long) A->nzmax);
	std::vector<int> seen(m, -1);
	for (int i = 0; i < n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) {
		int j = A->j[k];
		EXPECT(0 <= j && j < m, "%s: column index %d out of range in row %d", what, j, i);
		if (flags & WF_NODUP) { EXPECT(seen[j] != i, "%s: column %d stored twice in row %d", what, j, i); seen[j] = i; }
		if (A->x) {
			if (flags & WF_NONZERO) EXPECT(A->x[k] != 0, "%s: explicit zero stored at (%d,%d)", what, i, j);
			if (flags & WF_CANON) EXPECT(R_canon(A->x[k], p), "%s: non-canonical value %d at (%d,%d) mod %lu", what, A->x[k], i, j, (unsigned long) p);
		}
	}
}
inline Mat from_csr(const struct spasm_csr *A)
{
	Mat B(A->n, A->m, A->field->p);
	for (int i = 0; i < A->n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) { u64 v = A->x ? R_red(A->x[k], B.p) : 1; B[i][A->j[k]] = R_add(B[i][A->j[k]], v, B.p); }
	return B;
}
// snapshot used to show that inputs are left alone
struct Snap { u64 h; };
inline u64 snap_csr(const struct spasm_csr *A) { u64 h = hmix(hmix(A->n, A->m), A->field->p); h = hash_bytes(A->p, (A->n + 1) * sizeof(i64), h); i64 nz = A->p[A->n]; if (nz) { h = hash_bytes(A->j, nz * sizeof(int), h); if (A->x) h = hash_bytes(A->x, nz * sizeof(spasm_ZZp), h); } return h; }

// ---- primes
static const u64 PR_ALL[] = {3, 5, 7, 11, 13, 17, 31, 61, 127, 251, 257, 509, 1021, 2039, 4093, 8179, 8191, 8209, 9973, 16381, 32749, 42013, 65521, 65537, 131071, 524287, 1048573, 8388593, 16777213, 33554393, 67108859, 94906249, 134217689, 189812507, 189812531, 189812533, 268435399, 536870909, 1073741789, 2147483629, 2147483647, 2147483659, 3037000493, 3221225473, 4294967279, 4294967291};
inline bool is_prime(u64 n) { if (n < 2) return false; for (u64 d = 2; d * d <= n && d < 70000; d++) if (n % d == 0) return false; return true; }
inline std::vector<u64> primes_all() { std::vector<u64> v; for (u64 q : PR_ALL) if (is_prime(q)) v.push_back(q); 
	// first primes above the storage thresholds
	for (u64 b : {8192ul, 189812532ul, 2147483648ul}) { u64 q = b; while (!is_prime(q)) q++; v.push_back(q); }
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
// a few of each storage class incl. both sides of each threshold and above 2^31
inline std::vector<u64> primes_few() { return {3, 5, 257, 8191, 8209, 42013, 65537, 189812507, 189812533 /* replaced below if composite */, 2147483647, 2147483659, 4294967291}; }
inline std::vector<u64> primes_class() { std::vector<u64> v; for (u64 q : primes_few()) { while (!is_prime(q)) q++; v.push_back(q); } return v; }

// ---- indexed families of matrices
// k-th matrix n x m with entries from the value list
inline Mat mat_enum(int n, int m, u64 p, const std::vector<i64> &vals, u64 k)
{
	Mat A(n, m, p); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { A[i][j] = R_red(vals[k % vals.size()], p); k /= vals.size(); } return A;
}
inline u64 ipow(u64 b, int e) { u64 r = 1; while (e-- > 0) r *= b; return r; }
// deterministic "texture": pattern/value generator for structured families (not random sampling: a fixed enumerated list)
inline u64 tex(u64 a, u64 b, u64 c = 0) { u64 h = hmix(hmix(hmix(1, a), b), c); return h ^ (h >> 33); }
// mixed-radix decoder of case indices
struct Ix { u64 k; Ix(u64 k_) : k(k_) {} u64 take(u64 n) { u64 r = k % n; k /= n; return r; } };
// all sequences over an alphabet of size a, of length 0..d: count and decoding
inline u64 seq_count(u64 a, int d) { u64 s = 0; for (int l = 0; l <= d; l++) s += ipow(a, l); return s; }
inline std::vector<int> seq_get(u64 a, u64 k) { int l = 0; while (k >= ipow(a, l)) { k -= ipow(a, l); l++; } std::vector<int> v; for (int i = 0; i < l; i++) { v.push_back(k % a); k /= a; } return v; }
inline std::vector<int> perm_get(int n, u64 k) { std::vector<int> a, r; for (int i = 0; i < n; i++) a.push_back(i); if (n > 20) { for (int i = 0; i < n; i++) r.push_back((int) ((i + k % n) % n)); for (int i = 0; i + 3 < n; i += 4) std::swap(r[i], r[i + 1 + (k + i) % 3]); return r; } u64 f = 1; for (int i = 2; i <= n; i++) f *= i; for (int i = n; i >= 1; i--) { f /= i; int d = (int) ((k / f) % i); r.push_back(a[d]); a.erase(a.begin() + d); } return r; }
inline u64 fact(int n) { u64 f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }
