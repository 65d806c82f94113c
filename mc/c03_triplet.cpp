// C03: accumulating entries builds exactly the described matrix.
#include "ref.h"
#include <map>
#include "big.h"
const char *harness_property = "C03";
const char *harness_assumptions[] = {"sequences longer than the stated depth, and more than 2^31 entries, are not covered", NULL};

struct Op { int kind; int i, j; i64 x; };   // 0 add, 1 transpose, 2 compress-and-check
struct Model { int n, m; u64 p; bool vals; std::map<std::pair<int, int>, u64> a; std::set<std::pair<int, int>> seen; };

static u64 hash_triplet(const struct spasm_triplet *T)
{
	u64 h = hmix(hmix(T->n, T->m), T->nz);
	h = hash_bytes(T->i, T->nz * sizeof(int), h); h = hash_bytes(T->j, T->nz * sizeof(int), h);
	if (T->x) h = hash_bytes(T->x, T->nz * sizeof(spasm_ZZp), h);
	return h;
}

static void check_compress(const struct spasm_triplet *T, const Model &M)
{
	u64 h0 = hash_triplet(T);
	struct spasm_csr *C = spasm_compress(T); step();
	EXPECT(hash_triplet(T) == h0, "conversion changed the collection");
	wellformed(C, M.n, M.m, M.p, WF_ALL, "compressed");
	if (M.vals) EXPECT(C->x != NULL || C->p[C->n] == 0, "values lost in compressed form"); else EXPECT(C->x == NULL, "pattern matrix has values");
	Mat B = from_csr(C);
	if (M.vals) {
		for (int i = 0; i < M.n; i++) for (int j = 0; j < M.m; j++) { auto it = M.a.find({i, j}); u64 w = it == M.a.end() ? 0 : it->second; 
			EXPECT(B[i][j] == w, "entry (%d,%d) is %d, sum of insertions is %d (mod %lu)", i, j, R_bal(B[i][j], M.p), R_bal(w, M.p), (unsigned long) M.p); }
	} else {
		for (int i = 0; i < M.n; i++) for (int j = 0; j < M.m; j++) EXPECT((B[i][j] != 0) == (M.seen.count({i, j}) > 0), "pattern entry (%d,%d) wrong", i, j);
	}
	state(R_hash(B)); mc_traces++;
	spasm_csr_free(C);
}

static void run(const std::vector<Op> &ops, int n0, int m0, i64 nzmax, u64 p, bool vals)
{
	if (want_sample()) { describe("p=%lu declared %dx%d nzmax=%ld %s:", (unsigned long) p, n0, m0, (long) nzmax, vals ? "values" : "pattern");
		for (auto &o : ops) if (o.kind == 0) describe(" add(%d,%d,%ld)", o.i, o.j, (long) o.x); else describe(o.kind == 1 ? " transpose" : " compress"); }
	Model M{n0, m0, p, vals};
	struct spasm_triplet *T = spasm_triplet_alloc(n0, m0, nzmax, p, vals); step();
	for (auto &o : ops) {
		if (o.kind == 0) {
			spasm_add_entry(T, o.i, o.j, o.x); step();
			u64 v = R_red(o.x, p);
			if (vals) { u64 &e = M.a[{o.i, o.j}]; e = R_add(e, v, p); }
			M.seen.insert({o.i, o.j});
			if (!vals || v != 0) { M.n = std::max(M.n, o.i + 1); M.m = std::max(M.m, o.j + 1); }
		} else if (o.kind == 1) {
			spasm_triplet_transpose(T); step();
			std::swap(M.n, M.m); decltype(M.a) a; for (auto &e : M.a) a[{e.first.second, e.first.first}] = e.second; M.a = a;
			decltype(M.seen) s; for (auto &e : M.seen) s.insert({e.second, e.first}); M.seen = s;
		} else check_compress(T, M);
		EXPECT(T->n == M.n && T->m == M.m, "collection is %dx%d, should be %dx%d", T->n, T->m, M.n, M.m);
		EXPECT(T->nz <= T->nzmax, "more entries than capacity");
	}
	check_compress(T, M);
	spasm_triplet_free(T);
}

void harness_register()
{
	static const int dims[4][2] = {{0, 0}, {1, 2}, {3, 3}, {4, 1}};
	static std::vector<Op> al;
	for (auto ij : {std::pair<int, int>{0, 0}, {0, 1}, {1, 0}, {2, 1}}) for (i64 x : {(i64) 1, (i64) -1, (i64) 2, (i64) 0}) al.push_back({0, ij.first, ij.second, x});
	al.push_back({1, 0, 0, 0}); al.push_back({2, 0, 0, 0});
	int d = tier_thorough() ? 5 : 4;
	family("sequences-mod3", seq_count(al.size(), d) * 2, [](uint64_t k) {
		Ix x(k); int c = x.take(2); auto s = seq_get(al.size(), x.k); std::vector<Op> ops; for (int o : s) ops.push_back(al[o]);
		int q = (k / 2) % 4; run(ops, dims[q][0], dims[q][1], c ? 1 : 0, 3, true); }, {false, 0, "all operation sequences up to depth 4 (5)"});
	static std::vector<Op> cancel; for (int i : {0, 1}) for (int j : {0, 1}) for (int v : {1, -1}) cancel.push_back({0, i, j, v});
	family("cancellations", seq_count(8, tier_thorough() ? 7 : 6), [](uint64_t k) {
		auto s = seq_get(8, k); std::vector<Op> ops; for (int o : s) ops.push_back(cancel[o]); run(ops, 2, 2, k % 3, 5, true); }, {false, 0, "all insertion orders of +-1 on a 2x2 grid"});
	// three rows, duplicates that cancel in some rows: every assignment of multiset of values per position
	family("row-cancellations", ipow(4, 6), [](uint64_t k) {
		Ix x(k); std::vector<Op> ops; static const std::vector<std::vector<int>> vs = {{}, {1}, {1, -1}, {2, 1, -3}};
		for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) for (int v : vs[x.take(4)]) ops.push_back({0, i, j, v});
		run(ops, 3, 2, 1, 7, true); }, {false, 0, "per position: absent / plain / cancelling pair / cancelling triple, all combinations"});
	family("pattern-only", seq_count(al.size(), 3) * 4, [](uint64_t k) {
		Ix x(k); int q = x.take(4); auto s = seq_get(al.size(), x.k); std::vector<Op> ops; for (int o : s) ops.push_back(al[o]); run(ops, dims[q][0], dims[q][1], q, 3, false); });
	static auto P = primes_all();
	static const i64 big[] = {INT64_MAX, INT64_MIN, INT64_MIN + 1, (i64) 1 << 32, -((i64) 1 << 32), 2147483648LL, -2147483648LL, 4294967296LL * 3 + 1, 0, 1, -1};
	family("extreme-values", P.size() * 11 * 11, [](uint64_t k) {
		Ix x(k); i64 a = big[x.take(11)], b = big[x.take(11)]; u64 p = P[x.k];
		i64 h = p / 2, q = (i64) p;
		run({{0, 1, 1, a}, {0, 0, 1, b}, {0, 1, 1, b}, {0, 1, 1, h}, {0, 1, 0, h}, {0, 1, 0, h}, {0, 0, 0, q - 1}, {0, 0, 0, 1}, {0, 0, 1, -h}, {0, 0, 1, -h}, {2, 0, 0, 0}, {1, 0, 0, 0}, {0, 2, 0, a}}, 0, 0, 0, p, true); });
	family("growth", 40 * 4, [](uint64_t k) {
		Ix x(k); int len = 1 + (int) x.take(40) * 7; int z = (int) x.k; std::vector<Op> ops;
		for (int t = 0; t < len; t++) ops.push_back({0, (int) (tex(t, k) % 9), (int) (tex(t, k, 1) % 7), (i64) (tex(t, k, 2) % 21) - 10});
		run(ops, 3, 0, z, z % 2 ? 65537 : 11, z != 3); }, {false, 0, "long insertion lists (capacity doubling)"});
	static const int SZ[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097};
	family("sizes", (tier_thorough() ? 36 : 30) * 4 * 3, [](uint64_t k) { Ix x(k); int w = x.take(4), pre = x.take(3), s = SZ[x.k], n = w == 1 ? 5 : s, m = w == 0 ? 5 : s; if (w >= 2 && s > 260) n = m = s / 8; u64 p = k % 2 ? 4294967291u : 257; std::vector<Op> ops; int len = w == 3 ? s : n + m;
		for (int t = 0; t < len; t++) { int i = w == 3 ? (t * 7) % n : t % n, j = w == 3 ? t % 3 : (t + t / 3) % m; i64 v = 1 + tex(t, k) % 200; ops.push_back({0, i, j, v}); if (t % 5 == 0) ops.push_back({0, i, j, -v}); if (t % 7 == 0) ops.push_back({0, i, (j + 1) % m, v + 1}); } if (w < 2) for (int j = 0; j < std::max(n, m); j++) ops.push_back({0, w == 0 ? j : 2, w == 0 ? 3 : j, j % 6 ? (i64) 3 + j % 50 : (i64) p});
		ops.push_back({1, 0, 0, 0}); run(ops, pre == 0 ? 0 : n, pre == 0 ? 0 : m, pre == 2 ? s : 1, p, k % 5 != 4); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	family("long", long_count() * 2, [=](uint64_t k) { u64 p = k % 3 ? 4294967291u : 257; std::string nm; SpM S = long_mat(k / 2, p, nm); bool tr = k % 2; describe("%s mod %lu%s", nm.c_str(), (unsigned long) p, tr ? " transposed" : ""); struct spasm_triplet *T = spasm_triplet_alloc(k % 3 ? 0 : S.n, k % 3 ? 0 : S.m, k % 5, p, true); std::vector<std::pair<int, int>> pos; for (int i = 0; i < S.n; i++) for (int e = 0; e < (int) S.a[i].size(); e++) pos.push_back({i, e}); int N = pos.size(); for (int t = 0; t < N; t++) { auto &q = pos[sc(t, N, 13)]; auto &e = S.a[q.first][q.second]; if (t % 5 == 2) { spasm_add_entry(T, q.first, e.first, 12345); spasm_add_entry(T, q.first, e.first, (i64) e.second - 12345); } else spasm_add_entry(T, q.first, e.first, (i64) e.second - (t % 3 ? (i64) p : 0)); } spasm_add_entry(T, S.n - 1, S.m - 1, 0); step(N); if (tr) spasm_triplet_transpose(T); struct spasm_csr *C = spasm_compress(T); step(); sp_cmp(C, tr ? sp_transpose(S) : S, true, "compressed"); spasm_csr_free(C); spasm_triplet_free(T); }, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
