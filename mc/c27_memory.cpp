// C27: every failing memory request of every operation is reported (or harmless).
#include "ops.h"
#include <omp.h>
#include <sys/wait.h>
#include <unistd.h>
const char *harness_property = "C27";
const char *harness_assumptions[] = {"one thread", "requests made inside FFLAS-FFPACK/Givaro/BLAS and the C library (stdio buffers, getline) are not failed", "a failing request returns NULL (or ENOMEM) and is not retried by the system", NULL};
static std::vector<Op> OPS; static std::vector<Mat> WM; struct Base { u64 hash; long n; bool ok; }; static std::vector<Base> base; static std::vector<u64> off;
static void baselines()
{
	int no = OPS.size(), nw = WM.size(); base.assign(no * nw, {0, 0, false}); off.assign(1, 0);
	for (int i = 0; i < no * nw; i++) {
		int fd[2]; if (pipe(fd)) abort(); fflush(NULL); pid_t c = fork();
		if (!c) { close(fd[0]); if (!freopen("/dev/null", "w", stderr) || !freopen("/dev/null", "w", stdout)) _exit(1); omp_set_num_threads(1); alarm(20); auto w = world(i / no, WM[i / no]); rand_lcg(4242); mc_alloc_count = 0; Res r; Base b = {0, 0, true}; Outcome o = guarded([&] { OPS[i % no].run(*w, r); }); b.n = mc_alloc_count; if (o.kind != Outcome::OK) _exit(1); b.hash = r.hash(); if (write(fd[1], &b, sizeof b) != sizeof b) _exit(1); _exit(0); }
		close(fd[1]); if (read(fd[0], &base[i], sizeof base[i]) != sizeof base[i]) base[i] = {0, 0, false}; close(fd[0]); int st; waitpid(c, &st, 0); off.push_back(off.back() + base[i].n);
	}
}
static void fail(int i, long k1, long k2, int fill)
{
	int no = OPS.size(); const char *nm = OPS[i % no].name; describe("%s on matrix %d, request %ld of %ld fails%s%s", nm, i / no, k1, base[i].n, k2 ? ", then also request " : "", k2 ? std::to_string(k2).c_str() : "");
	// a program of its own: it ends with the report (locks and half-built objects end with it)
	int fd[2]; if (pipe(fd)) abort(); fflush(NULL); pid_t c = fork();
	if (!c) {
		close(fd[0]); auto w = world(i / no, WM[i / no]); rand_lcg(4242); Res *r = new Res; mc_fill = fill; mc_alloc_count = 0; mc_alloc_failed = 0; mc_alloc_fail_at = k1; mc_alloc_fail_at2 = k2;
		Outcome o = guarded([&] { OPS[i % no].run(*w, *r); }); mc_alloc_fail_at = mc_alloc_fail_at2 = 0;
		EXPECT(o.kind == Outcome::OK || o.reported(), "%s: a failing memory request ends in %s (%s)", nm, o.name(), o.msg);
		if (o.kind == Outcome::OK) { EXPECT(mc_alloc_failed >= (k1 ? 1 : 0) || k1 > base[i].n, "%s: the requests are not reproducible", nm); EXPECT(r->hash() == base[i].hash, "%s: a failing memory request leads to a wrong result", nm); EXPECT(w->now() == w->snap, "%s: a failing memory request modified the input", nm); r->release(); }
		long out[2] = {mc_alloc_count, o.kind}; if (write(fd[1], out, sizeof out) != sizeof out) _exit(97); _exit(0);
	}
	close(fd[1]); long out[2]; bool got = read(fd[0], out, sizeof out) == sizeof out; close(fd[0]); int st; waitpid(c, &st, 0);
	if (!WIFEXITED(st)) violation("%s: a failing memory request kills the program with signal %d", nm, WTERMSIG(st));
	if (WEXITSTATUS(st) || !got) _exit(WEXITSTATUS(st));
	mc_traces++; step(); state(hmix(hmix(i, out[0]), out[1])); outcome(out[1] == Outcome::OK ? "tolerated, right result" : "reported");
}
void harness_register()
{
	OPS = ops(); WM = world_mats(true); baselines(); int t = base.size();
	family("complete", t, [=](uint64_t i) { EXPECT(base[i].ok, "%s on matrix %d fails without any fault", OPS[i % OPS.size()].name, (int) (i / OPS.size())); fail(i, 0, 0, 0xff); }, {false, 0, "no fault: the reference results"});
	family("single", off.back() * 2, [=](uint64_t k) { u64 a = k / 2; int i = std::upper_bound(off.begin(), off.end(), a) - off.begin() - 1; fail(i, a - off[i] + 1, 0, k % 2 ? 0xff : 0); }, {false, 0, "every single request of every operation"});
	family("adjacent", off.back(), [=](uint64_t a) { int i = std::upper_bound(off.begin(), off.end(), a) - off.begin() - 1; fail(i, a - off[i] + 1, a - off[i] + 2, 0x5a); }, {false, 0, "two consecutive requests"});
	std::vector<u64> o2(1, 0); for (int i = 0; i < t; i++) o2.push_back(o2.back() + (u64) base[i].n * base[i].n);
	family("pairs", o2.back(), [=](uint64_t a) { int i = std::upper_bound(o2.begin(), o2.end(), a) - o2.begin() - 1; u64 z = a - o2[i]; long k1 = z / base[i].n + 1, k2 = z % base[i].n + 1; if (k2 <= k1) return; fail(i, k1, k2, 0); }, {true, 0, "every two requests"});
}
