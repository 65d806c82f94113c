// C10: concurrent structural pivot search, every interleaving.
#include "explorer.h"
#include "fact.h"
#include "algo.h"
#include <map>
const char *harness_property = "C10";
const char *harness_assumptions[] = {"interleavings are sequentially consistent (no weak-memory reordering)", "chunks of the dynamic loop are explored with one row each: equivalent to larger matrices padded with already pivotal rows", "bounded number of preemptions, stated per family", NULL};

static int *rp; static Fact F; static struct spasm_csr *C; static int got; static struct echelonize_opts o;
// rewrite each row of C in the given order of columns
static void put_in_order(struct spasm_csr *C, const std::vector<std::vector<int>> &order)
{
	for (int i = 0; i < C->n; i++) { std::map<int, spasm_ZZp> v; for (i64 q = C->p[i]; q < C->p[i + 1]; q++) v[C->j[q]] = C->x[q]; i64 q = C->p[i]; for (int j : order[i]) { C->j[q] = j; C->x[q++] = v.at(j); } }
}
static void explore_one(const Mat &A, int threads, int preempt, bool L, const std::vector<std::vector<int>> *order = nullptr)
{
	int n = A.n, m = A.m; u64 p = A.p; describe("A=%s, %d threads, %d preemptions%s ", R_str(A).c_str(), threads, preempt, L ? ", with multipliers" : "");
	SchedOpt so; so.threads = threads; so.preemptions = preempt; u64 seen = 0;
	SchedStats st = explore(so, [&] { C = to_csr(A); if (order) put_in_order(C, *order); Mat Up(0, m, p); make_fact(F, Up, {}, n, L, 0, 0, n); rp = (int *) spasm_malloc(n * sizeof(int)); o = opt_base(); o.L = L; o.enable_greedy_pivot_search = 1; },
		[&] { got = spasm_pivots_extract_structural(C, NULL, &F.f, rp, &o); },
		[&] {
			int k = got; EXPECT(0 <= k && k <= std::min(n, m), "%d pivots reported", k); EXPECT(F.U->n == k, "%d pivots reported, U has %d rows", k, F.U->n);
			std::vector<char> seenr(n, 0); for (int i = 0; i < n; i++) { EXPECT(rp[i] >= 0 && rp[i] < n && !seenr[rp[i]], "row order is not a permutation"); seenr[rp[i]] = 1; }
			wellformed(F.U, k, m, p, WF_ALL, "U"); std::vector<int> pc(k); u64 h = k;
			for (int t = 0; t < k; t++) { int i = rp[t]; i64 q = F.U->p[t]; EXPECT(q < F.U->p[t + 1], "pivot row %d is empty", t); int j = F.U->j[q]; pc[t] = j; EXPECT(A[i][j] != 0, "pivot (%d,%d) is not an entry", i, j); EXPECT(F.qinv[j] == t, "column %d recorded at row %d, expected %d", j, F.qinv[j], t); 
				int w = 0; for (int c = 0; c < m; c++) w += A[i][c] != 0; EXPECT(F.U->p[t + 1] - q == w, "pivot row %d has %d entries, row %d of the matrix has %d", t, (int) (F.U->p[t + 1] - q), i, w);
				for (int s = 0; s < t; s++) { EXPECT(pc[s] != j, "column %d is pivotal twice", j); EXPECT(A[i][pc[s]] == 0, "cycle: pivotal row %d has an entry in the pivot column %d of the earlier pivotal row %d", i, pc[s], rp[s]); }
				h = hmix(h, i * 64 + j); }
			int cnt = 0; for (int j = 0; j < m; j++) cnt += F.qinv[j] >= 0; EXPECT(cnt == k, "%d pivot columns recorded, %d reported", cnt, k); if (h != seen) { seen = h; state(h); }
		});
	if (st.truncated) violation("internal bound on the number of executions reached (%lu)", (unsigned long) st.executions);
	describe("-> %lu executions, %lu pruned, %lu points, depth %lu", (unsigned long) st.executions, (unsigned long) st.pruned, (unsigned long) st.points, (unsigned long) st.maxdepth);
}
// base rows: leftmost column i; search rows: nothing new on the left, every column already obstructed
static bool interesting(const Mat &A, int base)
{
	int m = A.m; std::vector<char> obs(m, 0); for (int i = 0; i < base; i++) for (int j = 0; j < m; j++) if (A[i][j]) obs[j] = 1;
	for (int i = base; i < A.n; i++) { int l = -1, c = 0; for (int j = 0; j < m; j++) if (A[i][j]) { if (l < 0) l = j; if (!obs[j]) return false; if (j >= base) c++; } if (l < 0 || l >= base) return false; if (c == 0) return false; 
		int wl = 0, wi = 0; for (int j = 0; j < m; j++) { wl += A[l][j] != 0; wi += A[i][j] != 0; } if (wi < wl) return false; }
	return true;
}
static std::vector<Mat> gen(int base, int srch, int m, bool sorted)
{
	std::vector<Mat> out; std::vector<int> bs, ss; 
	for (int b = 1; b < 1 << m; b++) { ss.push_back(b); }
	// base rows: enumerate subsets of the columns to the right
	u64 nb = 1; for (int i = 0; i < base; i++) nb *= 1ull << (m - 1 - i);
	u64 ns = ipow(ss.size(), srch);
	for (u64 kb = 0; kb < nb; kb++) { Mat B(base + srch, m, 101); u64 z = kb; for (int i = 0; i < base; i++) { B[i][i] = 1 + i; for (int j = i + 1; j < m; j++) { if (z & 1) B[i][j] = 2 + j; z >>= 1; } }
		std::vector<int> ok; for (int s : ss) { Mat T(base + 1, m, 101); for (int i = 0; i < base; i++) T[i] = B[i]; for (int j = 0; j < m; j++) if (s >> j & 1) T[base][j] = 3 + j; if (interesting(T, base)) ok.push_back(s); }
		u64 nk = ipow(ok.size(), srch); for (u64 ks = 0; ks < nk; ks++) { u64 y = ks; int last = 0; bool good = true; Mat A = B; for (int r = 0; r < srch; r++) { int s = ok[y % ok.size()]; y /= ok.size(); if (sorted && s < last) good = false; last = s; for (int j = 0; j < m; j++) if (s >> j & 1) A[base + r][j] = 3 + j + r; } if (good) out.push_back(A); } }
	return out;
}
static std::vector<std::vector<Mat>> sets;
static void fam(const char *nm, int base, int srch, int m, int threads, int pre, int stride, bool thorough)
{
	if (thorough && !tier_thorough()) return;
	static std::vector<std::vector<Mat> *> keep; auto *v = new std::vector<Mat>(gen(base, srch, m, true)); keep.push_back(v);
	family(nm, (v->size() + stride - 1) / stride, [=](uint64_t k) { explore_one((*v)[k * stride], threads, pre, k % 2); }, {thorough, 60});
}

// base rows {i, b+i}; search rows: subsets of the 2b columns with lo..hi entries mixing both halves, all orders or sorted
static void fam2(const char *nm, int b, int srch, int lo, int hi, bool sorted, int threads, int pre, bool thorough)
{
	if (thorough && !tier_thorough()) return;
	auto *v = new std::vector<Mat>; int m = 2 * b; std::vector<int> ss;
	for (int s = 1; s < 1 << m; s++) { int c = __builtin_popcount(s); if (c >= lo && c <= hi && (s & ((1 << b) - 1)) && (s >> b)) ss.push_back(s); }
	for (u64 k = 0; k < ipow(ss.size(), srch); k++) { u64 z = k; int last = -1; bool ok = true; Mat A(b + srch, m, 65537); for (int i = 0; i < b; i++) { A[i][i] = 1; A[i][b + i] = 2 + i; } for (int r = 0; r < srch; r++) { int q = z % ss.size(); z /= ss.size(); if (sorted && q < last) ok = false; last = q; for (int j = 0; j < m; j++) if (ss[q] >> j & 1) A[b + r][j] = 1 + j + 7 * r; } if (ok) v->push_back(A); }
	family(nm, v->size(), [=](uint64_t k) { explore_one((*v)[k], threads, pre, k % 2); }, {thorough, 60});
}
// base rows: one that closes every free column, and leads with few entries; search rows: a lead, then any non-empty sequence of distinct free columns
static void fam3(const char *nm, int leads, int fr, int srch, int threads, int pre, int stride, bool thorough)
{
	if (thorough && !tier_thorough()) return;
	auto *seqs = new std::vector<std::vector<int>>; std::vector<std::vector<int>> cur = {{}};
	for (int l = 0; l < fr; l++) { std::vector<std::vector<int>> nx; for (auto &c : cur) for (int f = 0; f < fr; f++) if (std::find(c.begin(), c.end(), f) == c.end()) { auto d = c; d.push_back(f); nx.push_back(d); seqs->push_back(d); } cur = nx; }
	// with a single lead the free columns are interchangeable: the first row is an increasing prefix
	u64 per = seqs->size() * leads, first = leads == 1 ? fr : per, tot = first; for (int i = 1; i < srch; i++) tot *= per;
	family(nm, (tot + stride - 1) / stride, [=](uint64_t kk) {
		u64 k = kk * stride; int m = 1 + leads + fr, n = 1 + leads + srch; Mat A(n, m, 65537); std::vector<std::vector<int>> o(n);
		auto put = [&](int i, int j) { A[i][j] = 1 + i + 3 * j; o[i].push_back(j); };
		put(0, 0); for (int f = 0; f < fr; f++) put(0, 1 + leads + f);
		for (int l = 0; l < leads; l++) { put(1 + l, 1 + l); if (l) put(1 + l, 1 + leads + l - 1); }
		for (int i = 0; i < srch; i++) { u64 r = i ? k % per : k % first; k /= i ? per : first; int w = 1 + leads + i, l = i || leads > 1 ? r / seqs->size() : 0; std::vector<int> q; if (i == 0 && leads == 1) { for (u64 f = 0; f <= r; f++) q.push_back(f); } else q = (*seqs)[r % seqs->size()];
			put(w, 1 + l); for (int f : q) put(w, 1 + leads + f); }
		explore_one(A, threads, pre, kk % 2, &o);
	}, {thorough, 60});
}
void harness_register()
{
	fam("1+2x3", 1, 2, 3, 2, 3, 1, false);
	fam("1+2x4", 1, 2, 4, 2, 2, 1, false);
	fam("2+2x4", 2, 2, 4, 2, 2, 1, false);
	fam("1+3x4", 1, 3, 4, 2, 2, 1, false);
	fam("2+3x4", 2, 3, 4, 2, 1, 1, false);
	fam("2+3x4-p2", 2, 3, 4, 2, 2, 8, false);
	fam2("pairs-3x3", 3, 3, 2, 2, false, 2, 1, false);
	fam2("pairs-2x2-t3", 2, 3, 2, 2, false, 3, 1, false);
	fam2("pairs-2x4", 2, 4, 2, 2, false, 2, 1, false);
	fam3("orders-2x3", 1, 3, 2, 2, 2, 1, false);
	fam3("orders-2x4", 1, 4, 2, 2, 1, 1, false);
	fam3("orders-3x3", 1, 3, 3, 2, 1, 7, false);
	fam3("orders-3x2-t3", 1, 2, 3, 3, 1, 1, false);
	fam3("orders-2-leads", 2, 3, 2, 2, 1, 1, false);
	// deeper
	fam3("orders-3x3-full", 1, 3, 3, 2, 1, 1, true);
	fam3("orders-2x4-p2", 1, 4, 2, 2, 2, 1, true);
	fam3("orders-3x3-t3", 1, 3, 3, 3, 1, 7, true);
	fam3("orders-2-leads-3", 2, 3, 3, 2, 1, 211, true);
	fam3("orders-4x3", 1, 3, 4, 2, 1, 501, true);
	fam2("pairs-2x2-t3-wide", 2, 3, 2, 3, true, 3, 1, true);
	fam2("pairs-3x3-p2", 3, 3, 2, 2, false, 2, 2, true);
	fam2("pairs-2x4-p2", 2, 4, 2, 2, false, 2, 2, true);
	fam("2+2x4-p3", 2, 2, 4, 2, 3, 1, true);
	fam("2+3x4-full", 2, 3, 4, 2, 2, 1, true);
	fam2("pairs-3x3-wide", 3, 3, 2, 3, true, 2, 2, true);
	fam2("pairs-3x3-t3", 3, 3, 2, 2, false, 3, 2, true);
	fam2("pairs-3x4", 3, 4, 2, 2, true, 2, 3, true);
}
