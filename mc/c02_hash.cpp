// C02: incremental SHA-256 and the counter-mode generator against independent references.
#include "refhash.h"
#include <sys/mman.h>
#include <unistd.h>
const char *harness_property = "C02";
const char *harness_assumptions[] = {"message contents are fixed textures (plus constant fills); lengths and split points are enumerated", NULL};

static std::vector<u8> msg(size_t n, int kind) { std::vector<u8> v(n); for (size_t i = 0; i < n; i++) v[i] = kind == 0 ? (u8) (i * 131 + (i >> 8) * 7 + 3) : kind == 1 ? 0 : 0xff; return v; }
static u8 *repeated_texture(u64 n)
{
	const u64 U = 2 << 20; int fd = memfd_create("tex", 0); if (fd < 0 || ftruncate(fd, U)) abort();
	u8 *base = (u8 *) mmap(NULL, (n + U - 1) / U * U + U, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) abort();
	for (u64 o = 0; o < n; o += U) if (mmap(base + o, U, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
	for (u64 i = 0; i < U; i++) base[i] = (u8) (i * 131 + (i >> 8) * 7 + (i >> 16) * 29 + 3);
	close(fd); return base;
}
static void cmp(const u8 *got, const Digest &w, const char *what, size_t n, const char *split)
{
	if (memcmp(got, w.data(), 32)) { char a[65], b[65]; for (int i = 0; i < 32; i++) { sprintf(a + 2 * i, "%02x", got[i]); sprintf(b + 2 * i, "%02x", w[i]); } violation("%s: digest of %zu bytes fed as %s is %s, SHA-256 is %s", what, n, split, a, b); }
}
static void feed(const std::vector<u8> &m, const std::vector<size_t> &cuts, const Digest &w)
{
	spasm_sha256_ctx c; memset(&c, 0xEE, sizeof c); spasm_SHA256_init(&c); step();
	size_t o = 0; std::string s; u64 h = m.size();
	for (size_t k = 0; k <= cuts.size(); k++) { size_t e = k < cuts.size() ? cuts[k] : m.size(); 
		std::vector<u8> piece(m.begin() + o, m.begin() + e);  // own buffer: an overread is caught
		spasm_SHA256_update(&c, piece.data(), piece.size()); step(); s += (k ? "+" : "") + std::to_string(e - o); o = e; h = hmix(h, hash_bytes(&c.h, 32, c.num)); state(h); }
	u8 md[32]; spasm_SHA256_final(md, &c); step(); cmp(md, w, "SHA-256", m.size(), s.c_str()); mc_traces++;
	if (want_sample()) describe("len %zu split %s", m.size(), s.c_str());
}

void harness_register()
{
	int L1 = tier_thorough() ? 330 : 200;
	family("one-piece", (L1 + 200) * 3, [](uint64_t k) { auto m = msg(k / 3, k % 3); feed(m, {}, R_sha256(m.data(), m.size())); }, {false, 0, "every length, three fills"});
	family("two-pieces", L1, [](uint64_t n) { auto m = msg(n, 0); auto w = R_sha256(m.data(), n); for (size_t a = 0; a <= n; a++) feed(m, {a}, w); }, {false, 0, "every split point of every length"});
	static std::vector<size_t> LN = tier_thorough() ? std::vector<size_t>{1, 3, 54, 55, 56, 57, 63, 64, 65, 111, 119, 120, 127, 128, 129, 130, 191, 192, 193} : std::vector<size_t>{1, 3, 55, 56, 63, 64, 65, 119, 120, 127, 128, 129};
	family("three-pieces", LN.size(), [](uint64_t k) { size_t n = LN[k]; auto m = msg(n, 0); auto w = R_sha256(m.data(), n); for (size_t a = 0; a <= n; a++) for (size_t b = a; b <= n; b++) feed(m, {a, b}, w); }, {false, 0, "every pair of split points"});
	family("chunked", 140, [](uint64_t k) { size_t c = k + 1; for (size_t n : {(size_t) 1000, (size_t) 64 * 9, (size_t) 64 * 9 + 55}) { auto m = msg(n, 0); std::vector<size_t> cuts; for (size_t o = c; o < n; o += c) cuts.push_back(o); feed(m, cuts, R_sha256(m.data(), n)); } }, {false, 0, "constant chunk sizes 1..140"});
	family("mixed-chunks", 81 * 3, [](uint64_t k) { static const size_t S[3] = {1, 63, 64}; size_t n = 300 + k / 81; auto m = msg(n, 0); std::vector<size_t> cuts; size_t o = 0; u64 z = k % 81; for (int t = 0; o < n; t++) { o += S[(z / (t % 4 == 0 ? 1 : t % 4 == 1 ? 3 : t % 4 == 2 ? 9 : 27)) % 3]; if (o < n) cuts.push_back(o); } feed(m, cuts, R_sha256(m.data(), n)); }, {false, 0, "all 4-periodic chunk patterns over {1,63,64}"});
	// bit length crosses 2^32: carry into, and direct contribution to, the high word of the length; the message is one 2 MiB texture mapped again and again
	struct LM { u64 n, first, piece; }; static const u64 G29 = (u64) 1 << 29;
	static const LM LQ[] = {{G29, 0, 1 << 20}, {G29 + 77, 64, G29 + 13}, {G29 - 1, 0, G29}, {G29 + 77, 1, (1 << 28) + 3}, {3 * G29 + 5, 3, 3 * G29}, {2 * G29, 2, 2 * G29 - 2}, {8 * G29 + 77, 0, 8 * G29 + 77}, {8 * G29, 70, 8 * G29 - 70}, {9 * G29 + 1, 0, (1 << 30) + 9}};
	family("long-message", tier_thorough() ? 9 : 4, [](uint64_t k) {
		const LM &z = LQ[k]; describe("message of %lu bytes: %lu first, then pieces of %lu", z.n, z.first, z.piece);
		u8 *m = repeated_texture(z.n); Digest w = R_sha256_big(m, z.n);
		spasm_sha256_ctx c; spasm_SHA256_init(&c); u64 o = z.first; if (o) spasm_SHA256_update(&c, m, o);
		for (; o < z.n; o += z.piece) { spasm_SHA256_update(&c, m + o, std::min(z.piece, z.n - o)); step(); state(hmix(k, hash_bytes(&c.h, 32, c.num))); mc_heartbeat(); }
		u8 md[32]; spasm_SHA256_final(md, &c); char d[80]; sprintf(d, "%lu then pieces of %lu", z.first, z.piece); cmp(md, w, "SHA-256", z.n, d); mc_traces++; }, {false, 400, "total length and single updates around 2^29 bytes (2^32 bits); 2^32 bytes in the thorough tier"});
	// two contexts interleaved: all schedules of 3+3 updates
	family("interleaved-contexts", 20 * 8, [](uint64_t k) {
		static const size_t S[8][3] = {{1, 63, 64}, {64, 64, 64}, {55, 1, 1}, {0, 65, 3}, {128, 1, 63}, {10, 20, 30}, {63, 2, 63}, {56, 8, 0}};
		int mask = 0, cnt = 0; for (int b = 0; b < 64; b++) if (__builtin_popcount(b) == 3) { if (cnt == (int) (k % 20)) mask = b; cnt++; }
		const size_t *z[2] = {S[k / 20], S[(k / 20 + 3) % 8]}; std::vector<u8> m[2]; Digest w[2];
		for (int t = 0; t < 2; t++) { m[t] = msg(z[t][0] + z[t][1] + z[t][2], t); w[t] = R_sha256(m[t].data(), m[t].size()); }
		spasm_sha256_ctx c[2]; size_t o[2] = {0, 0}; int i[2] = {0, 0}; spasm_SHA256_init(&c[0]); spasm_SHA256_init(&c[1]);
		for (int b = 0; b < 6; b++) { int t = (mask >> b) & 1; spasm_SHA256_update(&c[t], m[t].data() + o[t], z[t][i[t]]); o[t] += z[t][i[t]++]; step(); state(hmix(k, b)); }
		for (int t = 0; t < 2; t++) { u8 md[32]; spasm_SHA256_final(md, &c[t]); cmp(md, w[t], "interleaved SHA-256", m[t].size(), "3 pieces"); } mc_traces++; }, {false, 0, "all interleavings of two incremental computations"});

	static std::vector<u64> P = primes_all();
	static const int NS = 6; static const u32 SEQ[] = {0, 1, 2, 255, 65536, 0x7fffffff, 0xffffffff};
	auto seedof = [](int s, u8 *b) { for (int i = 0; i < 32; i++) b[i] = s == 0 ? 0 : s == 1 ? 0xff : (u8) tex(s, i); };
	family("generator", P.size() * NS * 7, [seedof](uint64_t k) {
		u64 p = P[k % P.size()]; int s = (k / P.size()) % NS; u32 q = SEQ[k / P.size() / NS]; u8 b[32]; seedof(s, b);
		spasm_prng_ctx c; memset(&c, 0xEE, sizeof c); spasm_prng_seed(b, p, q, &c); RefPrng r(b, p, q); step(); u64 h = k;
		int n = tier_thorough() ? 200 : 60;
		for (int t = 0; t < n; t++) {
			if (t % 5 == 4) { u32 x = spasm_prng_u32(&c), y = r.next(); step(); EXPECT(x == y, "32-bit draw %d for p=%lu seq=%u seed %d: %08x, expected %08x", t, (unsigned long) p, q, s, x, y); h = hmix(h, x); }
			else { spasm_ZZp x = spasm_prng_ZZp(&c); u64 y = r.elt(); step(); EXPECT(x == R_bal(y, p), "field draw %d for p=%lu seq=%u seed %d: %d, expected %d", t, (unsigned long) p, q, s, x, R_bal(y, p)); h = hmix(h, (u32) x); }
			state(h);
		}
		if (want_sample()) describe("p=%lu seq=%u seed#%d: %d draws", (unsigned long) p, q, s, n);
		mc_traces++; }, {false, 0, "all moduli x seeds x sequence numbers"});
	// counter range: a single generator used for very long (the block counter passes every byte boundary of 16 bits)
	family("long-stream", 8, [seedof](uint64_t k) { u8 s[32]; seedof(k % 6, s); u64 p = k % 2 ? 4294967291 : 65537; u32 q = (u32[]){0, 1, 0xffff, 0xffffffff}[k / 2]; describe("stream of 66000 blocks, p=%lu", (unsigned long) p); RefPrng g(s, p, q); spasm_prng_ctx c; spasm_prng_seed(s, p, q, &c); for (int d = 0; d < 66000 * 8; d++) { u32 a = spasm_prng_u32(&c), b = g.next(); if (a != b) violation("word %d of a long stream: %08x, expected %08x", d, a, b); } step(66000 * 8); state(k); mc_traces++; }, {false, 0, "66000 blocks"});
	family("many-generators", 6, [seedof](uint64_t k) { u64 p = P[(k * 7 + 3) % P.size()]; describe("300000 generators one after another, p=%lu", (unsigned long) p); for (int t = 0; t < 300000; t++) { spasm_prng_ctx c; u8 b[32]; u32 q = k % 3 == 1 ? t : k; u64 sd = k % 3 == 0 ? t : 5; if (k % 2) { spasm_prng_seed_simple(p, sd, q, &c); seed_simple(sd, b); } else { seedof(2, b); for (int z = 0; z < 4; z++) b[z + 20] = t >> (8 * z); spasm_prng_seed(b, p, q, &c); } u32 a = spasm_prng_u32(&c); if (t % 16 == 0 || t < 1000 || t > 65000) { RefPrng r(b, p, q); u32 w = r.next(); if (a != w) violation("first word of the generator number %d is %08x, expected %08x", t, a, w); } } step(300000); state(k); mc_traces++; }, {false, 60, "very many generators in one process"});
	family("simple-seed", P.size() * 8, [](uint64_t k) {
		static const u64 S[8] = {0, 1, 42, 0xffffffffull, 0x100000000ull, 0x0123456789abcdefull, ~0ull, 1ull << 63};
		u64 p = P[k % P.size()], s = S[k / P.size()]; for (u32 q : {0u, 1u, 77u}) { spasm_prng_ctx c; spasm_prng_seed_simple(p, s, q, &c); u8 b[32]; seed_simple(s, b); RefPrng r(b, p, q);
			for (int t = 0; t < 20; t++) { spasm_ZZp x = spasm_prng_ZZp(&c); u64 y = r.elt(); step(); EXPECT(x == R_bal(y, p), "draw %d for p=%lu seed=%lx seq=%u: %d, expected %d", t, (unsigned long) p, (unsigned long) s, q, x, R_bal(y, p)); state(hmix(hmix(k, q), t)); } mc_traces++; } }, {false, 0, "64-bit seeds"});
	family("interleaved-generators", 1 << 10, [seedof](uint64_t k) {
		u8 b0[32], b1[32]; seedof(2, b0); seedof(k & 1 ? 2 : 3, b1); u64 p0 = 257, p1 = k & 2 ? 257 : 4294967291ul;
		spasm_prng_ctx c0, c1; spasm_prng_seed(b0, p0, 0, &c0); RefPrng r0(b0, p0, 0), r1(b1, p1, 1); bool started = false;
		for (int t = 0; t < 20; t++) { bool w = (k >> (t % 10)) & 1; if (!started && t == (int) (k % 7)) { spasm_prng_seed(b1, p1, 1, &c1); started = true; }
			if (w && started) { spasm_ZZp x = spasm_prng_ZZp(&c1); u64 y = r1.elt(); EXPECT(x == R_bal(y, p1), "generator influenced by another one (draw %d)", t); } else { spasm_ZZp x = spasm_prng_ZZp(&c0); u64 y = r0.elt(); EXPECT(x == R_bal(y, p0), "generator influenced by another one (draw %d)", t); } step(); state(hmix(k, t)); }
		mc_traces++; }, {false, 0, "all periodic interleavings of two generators"});
}
