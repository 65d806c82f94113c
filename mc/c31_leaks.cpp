// C31: every operation gives back all the memory it asked for, except its results.
#include "ops.h"
#include "sweep.h"
const char *harness_property = "C31";
const char *harness_assumptions[] = {"one thread", "requests made inside FFLAS-FFPACK/Givaro/BLAS and the C library are not counted", "an operation that ends in an error report ends the program, which gives back everything", NULL};
static std::vector<Op> OPS; static std::vector<Mat> WM;
static void quiet(const Mat &A, int op, const std::function<void(Res &)> &f, const char *nm)
{
	std::string what; size_t before = mc_live_blocks(NULL); mc_trace_allocs = 1;
	{ Res r; f(r); r.hash(); r.release(); }
	mc_trace_allocs = 0; size_t after = mc_live_blocks(NULL); long left = (long) after - (long) before; step(); state(hmix(hmix(op, A.n * 64 + A.m), mc_alloc_count));
	if (left) { mc_live_blocks(&what); violation("%s on a %dx%d matrix: %ld blocks are never given back. Held: %s", nm, A.n, A.m, left, what.c_str()); }
	mc_traces++; outcome("everything given back");
}
static void run_op(int op, const Mat &A, int id) { describe("%s on %s", OPS[op].name, R_str(A).c_str()); auto w = world(id, A); rand_lcg(4242); quiet(A, op, [&](Res &r) { OPS[op].run(*w, r); }, OPS[op].name); }
void harness_register()
{
	OPS = ops(); WM = world_mats(true); u64 no = OPS.size(), nw = WM.size();
	family("operations", no * nw * 3, [=](uint64_t k) { Ix x(k); int op = x.take(no), wi = x.take(nw); mc_fill = (int[]){0, 0xff, 0x5a}[x.k]; run_op(op, WM[wi], wi); }, {false, 0, "every operation on every matrix of the worlds"});
	family("all-mod3-2x3", ipow(3, 6) * no, [=](uint64_t k) { Ix x(k); int op = x.take(no); run_op(op, mat_enum(2, 3, 3, {0, 1, -1}, x.k), 1); }, {false, 0, "every operation on every 2x3 matrix mod 3"});
	family("patterns-3x3", 512 * no, [=](uint64_t k) { Ix x(k); int op = x.take(no); Mat A(3, 3, 101); for (int i = 0; i < 9; i++) if (x.k >> i & 1) A[i / 3][i % 3] = 1 + i; run_op(op, A, 2); }, {false, 0, "every operation on every 3x3 pattern"});
	static auto S = suite(42013, false); static auto OS = option_sets(true); u64 ns = S.size(), noo = OS.size();
	family("factorisations", ns * noo * 3, [=](uint64_t k) { Ix x(k); auto o = OS[x.take(noo)]; int L = x.take(3); auto &A = S[x.k].A; o.o.L = L > 0; o.o.complete = L == 2; describe("echelonize %s %s", S[x.k].name.c_str(), opt_str(o.o).c_str());
		struct spasm_csr *C = to_csr(A, k % 3); quiet(A, 1000 + k % noo, [&](Res &r) { r.lu(spasm_echelonize(C, &o.o)); }, "echelonize"); spasm_csr_free(C); }, {false, 0, "structured matrices x option sets x with L, complete"});
	static auto SL = sweep_list(tier_thorough() ? 1025 : 257, tier_thorough() ? 129 : 65); u64 nsl = SL.size();
	family("sizes", nsl * no, [=](uint64_t k) { Ix x(k); int op = x.take(no); auto &z = SL[x.k]; run_op(op, sweep_mat(z.shape, z.size, k % 2 ? 65537 : 257), 3 + (int) (k % 3)); }, {false, 0, "every operation, dimensions around powers of two and block sizes"});
}
