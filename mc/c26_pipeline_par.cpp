// C26: complete computations (echelonization, LU, kernel, solving) under every schedule.
#include "explorer.h"
#include "algo.h"
#include "cert.h"
extern "C" void *mc_malloc(size_t);
const char *harness_property = "C26";
const char *harness_assumptions[] = {"interleavings are sequentially consistent (no weak-memory reordering)", "chunks of dynamic and guided loops are explored with one iteration each", "bounded number of preemptions, stated per family", "the completion test uses fixed pseudo-random combinations (a probabilistic test by design): an early stop it wrongly allows would be reported", NULL};

static struct spasm_csr *C, *K, *R, *B, *X; static struct spasm_lu *f; static struct echelonize_opts o; static int *rq; static bool *okp; static u64 snap; static struct spasm_rank_certificate *ct; static u8 hsh[32];
enum { ECH, LU, COMPLETE, KERNEL, RREFK, SOLVE, CERT, NWHAT };
static const char *WN[] = {"echelonize", "LU", "complete LU", "echelonize+kernel", "echelonize+rref+kernel", "complete LU+gesv", "LU+certificate"};
static void one(const Mat &A, struct echelonize_opts oo, int what, int threads, int pre, int order = 0)
{
	int n = A.n, m = A.m; u64 p = A.p; oo.L = what == LU || what == COMPLETE || what == SOLVE || what == CERT; oo.complete = what == COMPLETE || what == SOLVE;
	describe("%s of %s %d threads %d preemptions %s", WN[what], R_str(A).c_str(), threads, pre, opt_str(oo).c_str()); int rk = R_rank(A);
	Mat Bm(3, m, p); if (what == SOLVE) { for (int k = 0; k < 3; k++) { Row y(n); for (int i = 0; i < n; i++) y[i] = tex(k, i, 3) % p; Bm[k] = R_vecmat(y, A); } if (m) Bm[1][m - 1] = R_add(Bm[1][m - 1], 1, p); Bm[2] = Row(m, 0); }
	bool good1 = false; if (what == SOLVE) { Mat T = A; T.a.push_back(Bm[1]); T.n++; good1 = R_rank(T) == rk; }
	SchedOpt so; so.threads = threads; so.preemptions = pre; so.max_pieces = 3; so.max_exec = 30000000;
	auto st = explore(so, [&] { C = to_csr(A, order); o = oo; snap = snap_csr(C); if (what == SOLVE) { B = to_csr(Bm); okp = (bool *) mc_malloc(3); memset(okp, 0, 3); } rq = (int *) mc_malloc(sizeof(int) * (m + 1)); memset(hsh, 7, 32); },
		[&] { f = spasm_echelonize(C, &o); if (what == KERNEL) K = spasm_kernel(f); if (what == RREFK) { R = spasm_rref(f, rq); K = spasm_kernel_from_rref(R, rq); } if (what == SOLVE) X = spasm_gesv(f, B, okp); if (what == CERT) ct = spasm_certificate_rank_create(C, hsh, f); },
		[&] { if (oo.L) check_lu(A, f, oo.complete, WN[what]); else check_echelon(A, f->U, f->qinv, WN[what]);
			EXPECT(snap_csr(C) == snap, "the input was modified"); u64 h = f->U->n; for (int j = 0; j < m; j++) h = hmix(h, f->qinv[j]); state(h);
			if (what == RREFK) check_rref(A, R, rq, rk, "rref"); if (what == KERNEL || what == RREFK) check_kernel(A, K, rk, "kernel");
			if (what == CERT) { Cert c = cert_get(ct); EXPECT(c.r == rk, "the certificate states rank %ld, the rank is %d", (long) c.r, rk); EXPECT(cert_ref(A, hsh, c), "the certificate is not valid"); }
			if (what == SOLVE) { EXPECT(okp[0] && okp[2] && okp[1] == good1, "solvability verdicts %d %d %d, expected 1 %d 1", okp[0], okp[1], okp[2], good1); wellformed(X, 3, n, p, WF_CANON, "solutions"); Mat Xd = from_csr(X); for (int k = 0; k < 3; k++) if (okp[k]) EXPECT(R_vecmat(Xd[k], A) == Bm[k], "solution %d is wrong", k); } });
	if (st.truncated) violation("internal bound on the number of executions reached");
	describe(" -> %lu executions, %lu pruned, %lu points, depth %lu", (unsigned long) st.executions, (unsigned long) st.pruned, (unsigned long) st.points, (unsigned long) st.maxdepth);
}
// structured matrices whose pivots come from several stages
static std::vector<Mat> mats(u64 p, int size)
{
	std::vector<Mat> v; auto val = [&](int i, int j, int c) { return 1 + tex(i, j, c) % (p - 1); };
	auto mk = [&](std::vector<const char *> rows, int c) { Mat A(rows.size(), strlen(rows[0]), p); for (int i = 0; i < A.n; i++) for (int j = 0; j < A.m; j++) if (rows[i][j] == 'x') A[i][j] = val(i, j, c); v.push_back(A); };
	mk({"x.x", ".xx", "xx.", "xxx"}, 1);                          // full rank 3 of 4x3
	mk({"xx..", ".xx.", "..xx", "x..x"}, 2);
	{ Mat A(4, 4, p); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) A[i][j] = (i + 1) * (j + 2) % p; v.push_back(A); }          // rank 1
	{ Mat A(4, 5, p), a(4, 2, p), b(2, 5, p); for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) a[i][j] = val(i, j, 5); for (int i = 0; i < 2; i++) for (int j = 0; j < 5; j++) b[i][j] = val(i, j, 6); v.push_back(R_mulmat(a, b)); }
	mk({"x...", "x...", "xx..", ".xx."}, 3);
	mk({"xxx", "...", "xxx"}, 4);
	mk({"x.x.", ".x.x", "x..x", ".xx."}, 11); mk({"x..x..", ".x..x.", "..x..x", "x...x.", ".x...x", "..xx.."}, 12);     // concurrent pivot searches
	if (size == 8) {      // entries out of order: concurrent searches prefer different columns
		v.clear(); mk({"x.xx", ".x..", ".xxx", ".xxx"}, 1); mk({"x.xxx", ".x...", ".xxxx", ".xx.x", ".xxxx"}, 2); mk({"x.xxx", ".x...", ".xxxx", ".xxxx"}, 3); mk({"x..xxx", ".x....", "..xx..", ".x.xxx", "..x.xx"}, 4);
		return v;
	}
	if (size == 9) {      // every remaining row reaches a long chain of pivots: L outgrows its first size while multipliers are being written
		v.clear();
		for (int k = 2; k <= 4; k++) for (int N = 3; N <= 5; N++) { Mat A(k + N, k + 2, p); for (int i = 0; i < k; i++) { A[i][i] = val(i, i, k); A[i][i + 1] = val(i, i + 1, k); } for (int i = 0; i < N; i++) { A[k + i][0] = val(k + i, 0, N); A[k + i][k] = val(k + i, k, N); if (k + N == 7) A[k + i][k + 1] = val(k + i, 1, N); } v.push_back(A); }
		return v;
	}
	if (size > 0) {
		mk({"x.x..", ".x.x.", "x...x", ".xx..", "..x.x"}, 7); mk({"xx...", "xx...", "..xx.", "..xx.", "x.x.x"}, 8);
		{ Mat A(5, 5, p); for (int i = 0; i < 5; i++) { A[i][i] = 1; A[i][(i + 1) % 5] = i == 4 ? 1 : p - 1; } v.push_back(A); }
		{ Mat A(6, 4, p); for (int i = 0; i < 6; i++) for (int j = 0; j < 4; j++) A[i][j] = i < 4 ? (i + 1) * (j + 1) % p : val(i, j, 9); v.push_back(A); }
		mk({"x.....x", ".x...x.", "..x.x..", "x..x...", ".x.x..x"}, 10);
	}
	return v;
}
static void fam(const char *nm, int threads, int pre, int size, u64 p, std::vector<int> what, std::vector<const char *> opts, bool th)
{
	if (th && !tier_thorough()) return;
	auto *ms = new std::vector<Mat>(mats(p, size)); auto *os = new std::vector<OptSet>; for (auto &x : option_sets(true)) { bool ok = opts.empty(); for (auto n : opts) ok |= !strcmp(n, x.name); if (ok) os->push_back(x); } int no = os->size(), nw = what.size();
	family(nm, (u64) ms->size() * no * nw, [=](uint64_t k) { Ix x(k); int w = what[x.take(nw)], oi = x.take(no), mi = x.k; one((*ms)[mi], (*os)[oi].o, w, threads, pre, size == 8 ? 2 : 0); }, {th, 400, "matrices x option sets x computations"});
}
void harness_register()
{
	fam("factor-t2-p1", 2, 1, 0, 65537, {ECH, LU, COMPLETE}, {}, false);
	fam("all-t2-p1", 2, 1, 0, 65537, {KERNEL, RREFK, SOLVE, CERT}, {"rounds0-gplu", "dense-b1", "rounds1-gplu"}, false);
	fam("growing-t2-p1", 2, 1, 9, 65537, {LU, COMPLETE}, {"rounds1-gplu"}, false);
	fam("orders-t2-p1", 2, 1, 8, 65537, {ECH, COMPLETE}, {"rounds1-gplu", "dense-b1"}, false);
	fam("orders-t2-p2", 2, 2, 8, 65537, {LU, SOLVE}, {"rounds1-gplu", "rounds9-gplu"}, true);
	fam("growing-t2-p2", 2, 2, 9, 101, {LU, SOLVE, CERT}, {"rounds1-gplu", "rounds9-gplu"}, true);
	fam("factor-t2-p1-257", 2, 1, 1, 257, {ECH, LU, COMPLETE}, {}, true);
	fam("factor-t3-p1", 3, 1, 0, 65537, {ECH, LU, COMPLETE}, {}, true);
	fam("factor-t2-p2", 2, 2, 0, 65537, {ECH, COMPLETE}, {}, true);
	fam("all-t2-p1-all", 2, 1, 0, 101, {KERNEL, RREFK, SOLVE, CERT}, {}, true);
}
