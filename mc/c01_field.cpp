// C01: field arithmetic is exact and canonical.
#include "ref.h"
const char *harness_property = "C01";
const char *harness_assumptions[] = {"operands outside the boundary alphabet are not covered for primes above the exhaustive bound", NULL};

static void chk(const char *op, u64 p, i64 got, u64 want, i64 a, i64 b, i64 c)
{
	i64 w = R_bal(want, p);
	EXPECT(got == w, "%s(%ld,%ld,%ld) mod %lu = %ld, exact result is %ld", op, (long) a, (long) b, (long) c, (unsigned long) p, (long) got, (long) w);
}

static std::vector<i64> alphabet(u64 p, int lvl)
{
	i64 h = p / 2; std::set<i64> s;
	i64 d = lvl >= 2 ? 8 : lvl == 1 ? 3 : 1;
	for (i64 k = 0; k <= d; k++) for (i64 base : {(i64) 0, h, h / 2, (i64) 46340, (i64) 32768, (i64) 65536, (i64) (h * 2 / 3)}) for (i64 v : {base + k, base - k}) { if (v <= h && v >= -h) { s.insert(v); s.insert(-v); } }
	for (int b = 0; b < 32; b += (lvl == 0 ? 5 : lvl == 1 ? 2 : 1)) for (i64 v : {((i64) 1 << b), ((i64) 1 << b) - 1, ((i64) 1 << b) + 1}) if (v <= h) { s.insert(v); s.insert(-v); }
	// inverse-like values: quotients that land next to integers (a*b close to a multiple of p)
	for (i64 k : {2, 3, 5, 7, 11}) { i64 v = (i64) p / k; if (v <= h) { s.insert(v); s.insert(-v); if (v + 1 <= h) { s.insert(v + 1); s.insert(-v - 1); } } }
	return std::vector<i64>(s.begin(), s.end());
}

static void one_field(u64 p, const std::vector<i64> &V, bool triples, const std::vector<i64> &W)
{
	spasm_field F; spasm_field_init(p, F);
	step();
	for (i64 a : V) {
		i64 g = spasm_ZZp_init(F, a); step(); chk("init", p, g, R_red(a, p), a, 0, 0);
		if (a != 0) { spasm_ZZp inv = spasm_ZZp_inverse(F, a); step(); chk("inverse", p, inv, R_inv(R_red(a, p), p), a, 0, 0); state(hmix(hmix(p, a), inv)); }
		for (i64 b : V) {
			u64 ua = R_red(a, p), ub = R_red(b, p);
			spasm_ZZp s = spasm_ZZp_add(F, a, b), t = spasm_ZZp_sub(F, a, b), m = spasm_ZZp_mul(F, a, b); step(3);
			chk("add", p, s, R_add(ua, ub, p), a, b, 0); chk("sub", p, t, R_sub(ua, ub, p), a, b, 0); chk("mul", p, m, R_mul(ua, ub, p), a, b, 0);
			state(hmix(hmix(hmix(p, a), b), m));
			mc_traces++;
			if (triples) for (i64 c : W) { spasm_ZZp x = spasm_ZZp_axpy(F, a, b, c); step(); chk("axpy", p, x, R_add(R_mul(ua, ub, p), R_red(c, p), p), a, b, c); }
		}
	}
	// reduction of arbitrary 64-bit integers
	for (int bit = 0; bit < 63; bit++) for (i64 d = -2; d <= 2; d++) for (int sg = 0; sg < 2; sg++) {
		i64 x = ((i64) 1 << bit) + d; if (sg) x = -x; i64 g = spasm_ZZp_init(F, x); step(); chk("init", p, g, R_red(x, p), x, 0, 0); }
	for (i64 k = -3; k <= 3; k++) for (i64 d = -2; d <= 2; d++) for (i64 q : {(i64) 1, (i64) 2, (i64) 1000003, (i64) (INT64_MAX / (i64) p)}) { __int128 z = (__int128) k * q * (i64) p + (i64) (p / 2) * (d & 1) + d; if (z > INT64_MAX || z < INT64_MIN) continue; i64 x = (i64) z; i64 g = spasm_ZZp_init(F, x); step(); chk("init", p, g, R_red(x, p), x, 0, 0); }
	for (i64 x : {INT64_MAX, INT64_MIN, INT64_MIN + 1, INT64_MAX - 1}) { i64 g = spasm_ZZp_init(F, x); step(); chk("init", p, g, R_red(x, p), x, 0, 0); }
}

static std::vector<u64> all_primes_below(u64 B) { std::vector<u64> v; for (u64 q = 3; q < B; q += 2) if (is_prime(q)) v.push_back(q); return v; }

void harness_register()
{
	static auto small = all_primes_below(tier_thorough() ? 140 : 72);
	family("exhaustive-small-primes", small.size(), [](uint64_t k) {
		u64 p = small[k]; std::vector<i64> V; for (i64 a = -(i64) (p / 2); a <= (i64) (p / 2); a++) V.push_back(a);
		if (want_sample()) describe("p=%lu: all %zu^3 operand triples", (unsigned long) p, V.size());
		one_field(p, V, true, V);
	}, {false, 0, "all operand triples"});
	static auto mid = all_primes_below(tier_thorough() ? 4200 : 400);
	family("exhaustive-pairs-mid-primes", mid.size(), [](uint64_t k) {
		u64 p = mid[k]; std::vector<i64> V; for (i64 a = -(i64) (p / 2); a <= (i64) (p / 2); a++) V.push_back(a);
		one_field(p, V, true, {-(i64) (p / 2), 0, 1, (i64) (p / 2)});
	}, {false, 0, "all operand pairs, extreme addends"});
	static std::vector<u64> P = primes_all();
	{	// primes next to every power of two and next to the top of the range
		for (int b = 9; b <= 32; b++) { u64 q = ((u64) 1 << b) - 1; if (b == 32) q = 4294967291ul; int c = 0; while (c < 2) { if (is_prime(q)) { P.push_back(q); c++; } q--; } if (b < 32) { q = ((u64) 1 << b) + 1; while (!is_prime(q)) q++; P.push_back(q); } }
		std::sort(P.begin(), P.end()); P.erase(std::unique(P.begin(), P.end()), P.end()); P.erase(std::remove_if(P.begin(), P.end(), [](u64 q) { return q < 256 || q > 4294967291ul; }), P.end()); }
	family("boundary-all-sizes", P.size(), [](uint64_t k) {
		u64 p = P[k]; auto V = alphabet(p, tier_thorough() ? 2 : 1), W = alphabet(p, 0);
		if (want_sample()) describe("p=%lu: %zu boundary operands, %zu addends, all combinations", (unsigned long) p, V.size(), W.size());
		one_field(p, V, true, W);
	}, {false, 0, "boundary operand alphabet, all triples"});
	// every value has a correct inverse and every value times a boundary value is right: full line sweeps
	static std::vector<u64> L = {8191, 42013, 65521, 65537};
	family("line-sweeps", L.size() * 8, [](uint64_t k) {
		u64 p = L[k / 8]; i64 h = p / 2; spasm_field F; spasm_field_init(p, F);
		for (i64 a = -h + (i64) (k % 8); a <= h; a += 8) {
			u64 ua = R_red(a, p);
			if (a) { spasm_ZZp v = spasm_ZZp_inverse(F, a); step(); EXPECT(R_canon(v, p) && R_mul(ua, R_red(v, p), p) == 1, "inverse(%ld) mod %lu = %d", (long) a, (unsigned long) p, v); state(hmix(p, a)); }
			for (i64 b : {(i64) 2, h, -h, h - 1, h / 2, h / 3, a}) { spasm_ZZp m = spasm_ZZp_mul(F, a, b); step(); chk("mul", p, m, R_mul(ua, R_red(b, p), p), a, b, 0);
				for (i64 c : {h, -h}) { spasm_ZZp x = spasm_ZZp_axpy(F, a, b, c); step(); chk("axpy", p, x, R_add(R_mul(ua, R_red(b, p), p), R_red(c, p), p), a, b, c); } }
			mc_traces++;
		}
	}, {false, 0, "every operand against extreme partners"});
	// inverses over whole ranges near the top of the 32-bit range
	static std::vector<u64> T = {2147483647, 2147483659, 4294967279, 4294967291};
	family("inverse-windows", T.size() * 16, [](uint64_t k) {
		u64 p = T[k / 16]; i64 h = p / 2; spasm_field F; spasm_field_init(p, F); i64 w = tier_thorough() ? 20000 : 1500;
		i64 base = -h + (i64) ((__int128) (2 * h) * (k % 16) / 16);
		for (i64 a = base; a < base + w && a <= h; a++) if (a) { spasm_ZZp v = spasm_ZZp_inverse(F, a); step(); EXPECT(R_canon(v, p) && R_mul(R_red(a, p), R_red(v, p), p) == 1, "inverse(%ld) mod %lu = %d", (long) a, (unsigned long) p, v); mc_traces++; state(hmix(p, a)); }
	}, {false, 0, "contiguous operand windows"});
	// fields are independent of the fields initialised before them: every prime of a range (thorough: 2^21), in one process, forwards and backwards, next to
	// a neighbour congruent to it modulo 2^8, 2^16 and 2^24
	static auto R = all_primes_below(tier_thorough() ? 1 << 21 : 1 << 18);
	auto light = [](u64 p) {
		i64 h = p / 2; spasm_field F; spasm_field_init(p, F);
		for (i64 a : {(i64) 2, h, -h, h / 2, -h / 3, h - 1}) for (i64 b : {h, -h, h / 2 + 1, (i64) 1}) {
			chk("mul", p, spasm_ZZp_mul(F, a, b), R_mul(R_red(a, p), R_red(b, p), p), a, b, 0);
			chk("axpy", p, spasm_ZZp_axpy(F, a, b, -h), R_add(R_mul(R_red(a, p), R_red(b, p), p), R_red(-h, p), p), a, b, -h); step(2); }
		chk("init", p, spasm_ZZp_init(F, (i64) p * 1000003 + h), h, (i64) p * 1000003 + h, 0, 0); step();
		mc_traces++; state(p);
	};
	family("many-fields", 2, [=](uint64_t k) { for (size_t i = 0; i < R.size(); i++) light(R[k ? R.size() - 1 - i : i]); }, {false, 0, "fields initialised one after another"});
	family("congruent-fields", 3 * 64, [=](uint64_t k) {
		int bit = 8 << (k % 3); if (bit == 32) bit = 24; u64 p = 3; for (uint64_t c = 0; c < k / 3; c++) { p += 2; while (!is_prime(p)) p++; }
		int found = 0; for (u64 q = p + ((u64) 1 << bit); q <= 4294967291ul && found < 12; q += (u64) 1 << bit) if (is_prime(q)) { found++; light(p); light(q); light(p); }
	}, {false, 0, "primes that agree in their low bits, in turn"});
}
