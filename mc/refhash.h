// Independent SHA-256 and reference generator (FIPS 180-4; counter mode).
#pragma once
#include "ref.h"
#include <array>
typedef std::array<u8, 32> Digest;
struct RefSha { u32 h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
__attribute__((no_sanitize("address"))) void blocks(const u8 *m, size_t n)
{
	static u32 K[64]; static bool init = false;
	if (!init) { // fractional parts of cube roots of the first 64 primes, computed exactly with integers
		int c = 0; for (u64 q = 2; c < 64; q++) if (is_prime(q)) { // floor(cbrt(q) * 2^32) mod 2^32
			unsigned __int128 N = (unsigned __int128) q << 96; u64 lo = 0, hi = (u64) 1 << 36; // cbrt(311*2^96) < 2^35
			while (hi - lo > 1) { u64 mid = lo + (hi - lo) / 2; unsigned __int128 m2 = (unsigned __int128) mid * mid; bool le = m2 <= N / mid && (m2 < N / mid || true); if (m2 > N / mid) le = false; if (le) lo = mid; else hi = mid; }
			K[c++] = (u32) lo; }
		init = true; }
	auto rr = [](u32 x, int n) { return (x >> n) | (x << (32 - n)); };
	for (size_t o = 0; o < n; o += 64) {
		u32 w[64]; for (int i = 0; i < 16; i++) w[i] = (u32) m[o + 4 * i] << 24 | m[o + 4 * i + 1] << 16 | m[o + 4 * i + 2] << 8 | m[o + 4 * i + 3];
		for (int i = 16; i < 64; i++) { u32 s0 = rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3), s1 = rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10); w[i] = w[i - 16] + s0 + w[i - 7] + s1; }
		u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
		for (int i = 0; i < 64; i++) { u32 S1 = rr(e, 6) ^ rr(e, 11) ^ rr(e, 25), ch = (e & f) ^ (~e & g), t1 = hh + S1 + ch + K[i] + w[i], S0 = rr(a, 2) ^ rr(a, 13) ^ rr(a, 22), mj = (a & b) ^ (a & c) ^ (b & c), t2 = S0 + mj; hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2; }
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
	}
}
Digest digest() { Digest D; for (int i = 0; i < 8; i++) for (int k = 0; k < 4; k++) D[4 * i + k] = (u8) (h[i] >> (24 - 8 * k)); return D; } };
inline Digest R_sha256_big(const u8 *data, size_t len)
{
	RefSha S; size_t full = len / 64 * 64; S.blocks(data, full);
	std::vector<u8> m(data + full, data + len); m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0);
	u64 bits = (u64) len * 8; for (int i = 7; i >= 0; i--) m.push_back((u8) (bits >> (8 * i)));
	S.blocks(m.data(), m.size()); return S.digest();
}
inline Digest R_sha256(const u8 *data, size_t len) { return R_sha256_big(data, len); }
struct RefPrng {
	u8 seed[32]; u64 p; u32 seq, ctr = 0; u32 out[8]; int i = 8;
	RefPrng(const u8 *s, u64 p_, u32 q) : p(p_), seq(q) { memcpy(seed, s, 32); }
	u32 next() {
		if (i == 8) { u8 b[44]; memcpy(b, seed, 32); u32 w[3] = {(u32) p, ctr, seq}; for (int k = 0; k < 3; k++) for (int t = 0; t < 4; t++) b[32 + 4 * k + t] = (u8) (w[k] >> (24 - 8 * t)); Digest d = R_sha256(b, 44); for (int k = 0; k < 8; k++) out[k] = (u32) d[4 * k] << 24 | d[4 * k + 1] << 16 | d[4 * k + 2] << 8 | d[4 * k + 3]; ctr++; i = 0; }
		return out[i++];
	}
	u64 elt() { u64 mask = 1; while (mask < p) mask <<= 1; mask--; for (;;) { u32 x = next() & (u32) mask; if (x < p) return x; } }
};
inline void seed_simple(u64 s, u8 *b) { memset(b, 0, 32); for (int t = 0; t < 4; t++) { b[t] = (u8) ((s & 0xffffffff) >> (24 - 8 * t)); b[4 + t] = (u8) ((s >> 32) >> (24 - 8 * t)); } }
