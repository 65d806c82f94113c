// C30: pictures of matrices.
#include "pat.h"
#include "wfault.h"
#include <map>
const char *harness_property = "C30";
const char *harness_assumptions[] = {"requested sizes are at least 1", "a pixel (k, t) of an x-by-y picture of an n-by-m matrix stands for the entries (i, j) with floor(i*y/n) = k and floor(j*x/m) = t", "the colour mode is given the decomposition of the matrix shown, as its interface demands", NULL};
struct Pic { int mode, w, h, maxv; std::vector<int> px; };
static Pic parse(const std::string &s)
{
	Pic P; const char *c = s.data(), *e = c + s.size(); auto num = [&](const char *what) { while (c < e && isspace((unsigned char) *c)) c++; EXPECT(c < e && isdigit((unsigned char) *c), "picture: %s is missing or not a number", what); int v = 0; while (c < e && isdigit((unsigned char) *c)) { v = v * 10 + (*c - '0'); EXPECT(v < 1000000, "picture: %s is too large", what); c++; } EXPECT(c == e || isspace((unsigned char) *c), "picture: garbage after %s", what); return v; };
	EXPECT(c < e && *c == 'P', "picture: bad magic"); c++; P.mode = num("the mode"); P.w = num("the width"); P.h = num("the height"); P.maxv = P.mode > 1 ? num("the maximal value") : 1; int per = P.mode == 3 ? 3 : 1;
	for (int k = 0; k < P.w * P.h * per; k++) { int v = num("a pixel"); EXPECT(v <= P.maxv, "picture: pixel value %d above the maximum %d", v, P.maxv); P.px.push_back(v); }
	while (c < e && isspace((unsigned char) *c)) c++; EXPECT(c == e, "picture: trailing data"); return P;
}
static void one(const Pat &P, int x, int y, int mode, int order)
{
	int n = P.n, m = P.m; describe("%s, picture of %d x %d (columns x rows), mode %d, order %d", pat_str(P).c_str(), x, y, mode, order);
	struct spasm_csr *A = pat_csr(P, order, order != 1); struct spasm_dm *D = NULL; Pat S = P;
	if (mode >= 3) { struct spasm_csr *B = A; D = spasm_dulmage_mendelsohn(A); std::vector<int> qi(m + 1); for (int k = 0; k < m; k++) qi[D->q[k]] = k; A = spasm_permute(B, D->p, qi.data(), order != 1); spasm_csr_free(B); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) S.a[i][j] = P.a[D->p[i]][D->q[j]]; step(2); }
	int md = mode == 4 ? 1 : mode == 5 ? 2 : mode;    // 4, 5: an overlay is given but the mode has no colours
	u64 h0 = snap_csr(A); char *buf = NULL; size_t bn = 0; FILE *f = open_memstream(&buf, &bn); Outcome o = guarded([&] { spasm_save_pnm(A, f, x, y, md, D); }); fclose(f); step(); mc_traces++;
	EXPECT(o.kind == Outcome::OK, "drawing ends in %s (%s)", o.name(), o.msg); EXPECT(snap_csr(A) == h0, "the matrix was modified");
	Pic Q = parse(std::string(buf, bn)); free(buf);
	EXPECT(Q.mode == md, "format P%d announced for mode %d", Q.mode, md); EXPECT(Q.w == std::min(x, m) && Q.h == std::min(y, n), "dimensions %d x %d for a request of %d x %d on a %d x %d matrix", Q.w, Q.h, x, y, n, m);
	std::vector<char> in(Q.w * Q.h, 0); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (S.a[i][j]) in[(int) ((i64) i * Q.h / n) * Q.w + (int) ((i64) j * Q.w / m)] = 1;
	int light = -1; std::map<int, int> colour;
	for (int k = 0; k < Q.h; k++) for (int t = 0; t < Q.w; t++) { int z = k * Q.w + t;
		if (md == 1) EXPECT(Q.px[z] == in[z], "pixel (%d,%d) is %s but its region has %s", k, t, Q.px[z] ? "black" : "white", in[z] ? "entries" : "no entry");
		else if (md == 2) { if (!in[z]) { EXPECT(light < 0 || light == Q.px[z], "two grey levels for empty regions"); light = Q.px[z]; } }
		else { bool bl = !Q.px[3 * z] && !Q.px[3 * z + 1] && !Q.px[3 * z + 2]; EXPECT(bl == in[z], "pixel (%d,%d) is %s but its region has %s", k, t, bl ? "black" : "coloured", in[z] ? "entries" : "no entry");
			if (!bl) {     // a pixel whose whole region lies in one kind of block shows the background of that kind
				auto lo = [](int k, int size, int all) { return (int) (((i64) k * all + size - 1) / size); }; int i0 = lo(k, Q.h, n), i1 = lo(k + 1, Q.h, n) - 1, j0 = lo(t, Q.w, m), j1 = lo(t + 1, Q.w, m) - 1; auto rowk = [&](int i) { return i < D->rr[1] ? 0 : i < D->rr[2] ? 1 : 2; }; auto colk = [&](int j) { return j < D->cc[2] ? 0 : j < D->cc[3] ? 1 : 2; }; int bv = rowk(i0), bh = colk(j0), in3 = 0; if (bv != rowk(i1) || bh != colk(j1)) continue;
				if (bv == 1 && bh == 1) { auto blk = [](const int *r, int nb, int i) { int a = 1; while (a < nb && r[a + 1] <= i) a++; return a; }; int a0 = blk(D->r, D->nb, i0), a1 = blk(D->r, D->nb, i1), b0 = blk(D->c, D->nb, j0), b1 = blk(D->c, D->nb, j1); in3 = b1 < a0 ? 1 : b0 > a1 ? 3 : a0 == a1 && b0 == b1 ? 2 : 0; if (!in3) continue; }
				int id = bv * 100 + bh * 10 + in3, c = Q.px[3 * z] << 16 | Q.px[3 * z + 1] << 8 | Q.px[3 * z + 2]; if (!colour.count(id)) colour[id] = c; EXPECT(colour[id] == c, "two background colours in one kind of block (at (%d,%d))", k, t); } } }
	if (md == 2) for (int z = 0; z < Q.w * Q.h; z++) if (in[z]) EXPECT(Q.px[z] < (light < 0 ? 255 : light), "grey level %d where there are entries, empty is %d", Q.px[z], light);
	// different kinds of blocks of the square part do not look alike
	if (colour.count(112) && colour.count(113)) EXPECT(colour[112] != colour[113], "diagonal blocks look like the part above them");
	if (colour.count(112) && colour.count(111)) EXPECT(colour[112] != colour[111], "diagonal blocks look like the part below them");
	state(hash_bytes(Q.px.data(), Q.px.size() * 4, hmix(Q.w, Q.h))); outcome(md == 1 ? "black and white" : md == 2 ? "grey" : "colour");
}
void harness_register()
{
	for (int n = 0; n <= 3; n++) for (int m = 0; m <= 3; m++) family("patterns-" + std::to_string(n) + "x" + std::to_string(m), ipow(2, n * m) * 5 * 4 * 4 , [=](uint64_t k) { Ix X(k); int mode = 1 + X.take(5), x = 1 + X.take(4), y = 1 + X.take(4); one(pat_enum(n, m, X.k), x, y, mode, k % 3); }, {false, 0, "all patterns x all sizes up to one more than the matrix x modes (1, 2, 3 and 1, 2 with an overlay)"});
	for (auto nm : std::vector<std::pair<int, int>>{{1, 7}, {7, 1}, {2, 5}, {5, 2}, {3, 4}, {4, 3}}) { int n = nm.first, m = nm.second; family("patterns-" + std::to_string(n) + "x" + std::to_string(m), ipow(2, n * m) * 5 * n * m, [=](uint64_t k) { Ix X(k); int mode = 1 + X.take(5), x = 1 + X.take(m), y = 1 + X.take(n); one(pat_enum(n, m, X.k), x, y, mode, k % 3); }); }
	family("patterns-4x4", ipow(2, 16) * 3 * 16, [=](uint64_t k) { Ix X(k); int mode = 1 + X.take(3), x = 1 + X.take(4), y = 1 + X.take(4); one(pat_enum(4, 4, X.k), x, y, mode, k % 3); }, {true, 0, "all 4x4 patterns"});
	// one entry, anywhere, all sizes; everything but one entry
	family("one-entry", 12 * 12 * 12 * 12 * 2, [](uint64_t k) { Ix X(k); int inv = X.take(2), i = X.take(12), j = X.take(12), x = 1 + X.take(12), y = 1 + X.take(12), n = 7 + (i + 2 * j) % 6, m = 12 - (i + j) % 5; if (i >= n || j >= m) return; Pat P(n, m); for (int a = 0; a < n; a++) for (int b = 0; b < m; b++) P.a[a][b] = inv; P.a[i][j] = !inv; one(P, x, y, 1 + k % 3, 0); }, {false, 0, "single entries and single holes x all sizes"});
	family("blocks", 5 * 5 * 6 * 14 * 14, [](uint64_t k) { Ix X(k); int h = X.take(5), v = X.take(5), sc = 1 + X.take(6), x = 1 + X.take(14), y = 1 + X.take(14); int s = 6, n = h + s + 2 * v, m = 2 * h + s + v; Pat P(n, m);      // known horizontal, square (chains of components) and vertical parts
		for (int i = 0; i < h; i++) { P.a[i][2 * i] = P.a[i][2 * i + 1] = 1; } for (int i = 0; i < s; i++) { int a = h + i, b = 2 * h + i; P.a[a][b] = 1; if ((i + 1) % sc && i + 1 < s) P.a[a][b + 1] = P.a[a + 1][b] = 1; else if (i + 2 < s) P.a[a][b + 2] = 1; } for (int i = 0; i < v; i++) { P.a[h + s + 2 * i][2 * h + s + i] = P.a[h + s + 2 * i + 1][2 * h + s + i] = 1; if (h) P.a[0][m - 1] = 1; } one(P, x, y, 3, k % 3); }, {false, 0, "known decompositions x all sizes up to 14"});
	family("dense-counts", 40 * 40 * 3, [](uint64_t k) { Ix X(k); int mode = 1 + X.take(3), n = 1 + X.take(40), m = 1 + X.take(40); Pat P(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) P.a[i][j] = i * 3 < n || (i == n - 1 && j == m - 1) || (j == 0 && i % 5 == 1); for (int s : {1, 2, 3, 5, 40}) one(P, s, s, mode, 0); }, {true, 0, "very different numbers of entries per pixel"});
	family("uneven-counts", 60, [](uint64_t k) { Ix X(k); int mode = 1 + X.take(3), s = 2 + X.take(4), n = 90 + 5 * X.k, m = 100; Pat P(n, m); for (int i = 0; i < n / s; i++) for (int j = 0; j < m / s; j++) P.a[i][j] = 1; P.a[n - 1][m - 1] = P.a[n - 1][0] = P.a[0][m - 1] = 1; one(P, s, s, mode, 0); }, {false, 0, "one entry in a pixel against up to two thousand in another"});
	family("many-per-pixel", 3 * 4 * 3 * 3, [](uint64_t k) { Ix X(k); int mode = 1 + X.take(3), n = 250 + 6 * X.take(4), m = 258 + X.take(3), s = 1 + X.k; Pat P(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) P.a[i][j] = s == 1 || (i < n / s && j < m / s) || i * 7 == j * 5; one(P, s == 3 ? 1 : s, s == 3 ? 2 : s, mode, 0); }, {false, 0, "around 2^16 entries in one pixel"});
	// sizes at which index arithmetic needs more than 32 bits
	family("tall", 6, [](uint64_t k) { int n = k & 1 ? 200000 : 3, m = k & 1 ? 3 : 200000; Pat P(n, m); for (int t = 0; t < 200000; t += 999) (k & 1 ? P.a[t][t % 3] : P.a[t % 3][t]) = 1; one(P, m == 3 ? 3 : 150000, n == 3 ? 3 : 150000, 1 + k / 2, 0); }, {false, 60, "products of sizes and positions beyond 2^31"});
	family("write-errors", 64 * 3, [](uint64_t k) { int mode = 1 + k % 3; Pat P(3, 4); for (int t = 0; t < 12; t++) P.a[t / 4][t % 4] = (k / 3 * 2654435761u >> (t + 3)) & 1; struct spasm_csr *A = pat_csr(P, 0, true); struct spasm_dm *D = NULL; if (mode == 3) { struct spasm_csr *B = A; D = spasm_dulmage_mendelsohn(A); int qi[4]; for (int t = 0; t < 4; t++) qi[D->q[t]] = t; A = spasm_permute(B, D->p, qi, true); spasm_csr_free(B); } write_faults("spasm_save_pnm", [&](FILE *f) { spasm_save_pnm(A, f, 1 + k % 4, 1 + k / 4 % 3, mode, D); }); }, {false, 0, "a stream failing at every byte"});
	static const int SZ[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097};
	family("sizes", (tier_thorough() ? 30 : 24) * 3 * 6 * 2, [](uint64_t k) { Ix X(k); int mode = 1 + X.take(3), w = X.take(6), t = X.take(2), s = SZ[X.k], n = t ? s : 12, m = t ? 12 : s; Pat P(n, m); for (int a = 0; a < s; a++) { int b = tex(a, s) % 14; if (b < 12) (t ? P.a[a][b] : P.a[b][a]) = 1; if (a < 12) P.a[a][a] = 1; } int q = w == 0 ? s : w == 1 ? s - 1 : w == 2 ? s / 2 : w == 3 ? 16 : w == 4 ? s / 3 + 1 : s + 1; one(P, t ? 5 + 3 * (w & 1) : q, t ? q : 12 - w, mode, k % 3); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
}
