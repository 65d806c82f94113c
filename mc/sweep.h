// Matrices whose dimensions run over the neighbourhoods of the powers of two, the block sizes and the hard-coded steps of the
// library (100 rows per batch of random rows, 1000 rows per batch of right-hand sides...), in shapes that keep the reference cheap.
#pragma once
#include "ref.h"
enum { SW_WIDE, SW_TALL, SW_ARROW, SW_CHAIN, SW_BAND, SW_HALF, SW_SHAPES };
static const char *const SW_NAME[] = {"wide", "tall", "arrow", "chain", "band", "half"};
inline Mat sweep_mat(int shape, int s, u64 p)
{
	auto v = [&](int i, int j, int c = 0) -> u64 { u64 z = tex(i, j, c + 40 * shape); return z % 7 == 0 ? p / 2 : z % 7 == 1 ? p - 1 : 1 + (z >> 4) % (p - 1); };
	auto lin = [&](Mat &A, int d, int a, int b, u64 c) { for (int j = 0; j < A.m; j++) A[d][j] = R_add(A[a][j], R_mul(c % p, A[b][j], p), p); };
	switch (shape) {
	case SW_WIDE: { Mat A(12, s, p); for (int j = 0; j < s; j++) { A[0][j] = v(0, j); for (int i = 1; i < 8; i++) if (tex(i, j, 3) % (i == 7 ? 2 : 9) == 0) A[i][j] = v(i, j); } lin(A, 8, 1, 2, 1); lin(A, 9, 0, 3, p - 2); A[11][s - 1] = v(11, 0); return A; }
	case SW_TALL: { Mat A(s, 12, p); for (int i = 0; i < s; i++) { if (i % 11 == 10) continue; for (int t = 0; t < 3; t++) A[i][(i * 5 + t * t + i / 9) % 9] = v(i, t); if (i >= 4 && i % 4 == 3) lin(A, i, i - 2, i - 4, 2); } if (s > 3) { A[s - 1][10] = v(0, 1); A[s - 2][9] = v(0, 2); A[s - 2][10] = v(0, 3); } return A; }
	case SW_ARROW: { Mat A(s, s, p); for (int i = 0; i < s; i++) { A[0][i] = v(0, i); A[i][s - 1] = v(1, i); if (i && i % 13 != 7) A[i][i] = v(2, i); } return A; }
	case SW_CHAIN: { Mat A(s, s, p); for (int i = 0; i < s; i++) { int r = s - 1 - i; A[r][i] = v(0, i); if (i + 1 < s) A[r][i + 1] = v(1, i); } return A; }
	case SW_BAND: { Mat A(s, s, p); for (int i = 0; i < s; i++) { A[i][i] = v(0, i); A[i][(i + 1) % s] = v(1, i); A[i][i / 2] = v(2, i); if (i % 16 == 15) for (int j = i % 3; j < s; j += 3) A[i][j] = v(i, j, 1); if (i >= 3 && i % 10 == 9) lin(A, i, i - 1, i - 3, 3); } return A; }
	default: { int n = s / 2, g = std::max(1, s / 8); Mat A(n, s, p); for (int i = 0; i < n; i++) { A[i][i] = v(0, i); for (int t = 0; t < 4; t++) A[i][n + (i * 7 + t * g) % (s - n)] = v(t + 1, i); if (i >= 2 && i % 8 == 7) lin(A, i, i - 1, i - 2, 5); } return A; }
	}
}
struct Sweep { int shape, size; std::string name; };
inline std::vector<Sweep> sweep_list(int narrow, int square)      // largest size in the narrow and sparse shapes, and in those that fill in
{
	std::vector<Sweep> v; static const int S[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1999, 2000, 2001, 2047, 2048, 2049, 4095, 4096, 4097};
	for (int s : S) for (int sh = 0; sh < SW_SHAPES; sh++) if (s <= (sh <= SW_TALL ? narrow : square)) v.push_back({sh, s, std::string(SW_NAME[sh]) + "-" + std::to_string(s)});
	return v;
}
