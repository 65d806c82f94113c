// C28: operations are independent of history and leave their inputs and earlier results intact.
#include "ops.h"
#include <omp.h>
#include <sys/wait.h>
#include <unistd.h>
const char *harness_property = "C28";
const char *harness_assumptions[] = {"one thread", "the random source is reset to the same state before each operation (it is the documented input of the randomised ones)", "the reference of each operation is its result in a process that performed nothing else", NULL};
static std::vector<Op> OPS; static std::vector<Mat> WM; static std::vector<u64> base; static std::vector<char> baseok;
extern "C" int mc_fill;
static std::unique_ptr<Res> perform(int op, const World &w) { auto r = std::make_unique<Res>(); rand_lcg(4242); OPS[op].run(w, *r); return r; }
// each operation alone, in a process of its own
static void baselines()
{
	int no = OPS.size(), nw = WM.size(); base.assign(no * nw, 0); baseok.assign(no * nw, 0);
	for (int i = 0; i < no * nw; i++) { int fd[2]; if (pipe(fd)) abort(); fflush(NULL); pid_t c = fork(); if (!c) { close(fd[0]); freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout); omp_set_num_threads(1);  alarm(20); mc_fill = 0; auto w = world(i / no, WM[i / no]); u64 h = perform(i % no, *w)->hash(); if (write(fd[1], &h, 8) != 8) _exit(1); _exit(0); }
		close(fd[1]); u64 h; baseok[i] = read(fd[0], &h, 8) == 8; base[i] = h; close(fd[0]); int st; waitpid(c, &st, 0); }
}
static void seq(const std::vector<std::pair<int, int>> &s, int order)
{
	std::string d; for (auto &x : s) d += std::string(OPS[x.first].name) + "(matrix " + std::to_string(x.second) + ") "; describe("%s, results released in order %d, fresh memory filled with %02x", d.c_str(), order, mc_fill);
	std::vector<std::unique_ptr<World>> W; for (size_t i = 0; i < WM.size(); i++) W.push_back(world(i, WM[i])); int no = OPS.size();
	std::vector<std::unique_ptr<Res>> R; u64 h = 0;
	for (size_t k = 0; k < s.size(); k++) { int op = s[k].first, wi = s[k].second; EXPECT(baseok[wi * no + op], "%s fails already when it is performed alone", OPS[op].name); R.push_back(perform(op, *W[wi])); u64 g = R.back()->hash(); h = hmix(h, g);
		EXPECT(g == base[wi * no + op], "step %d: %s on matrix %d gives another result than alone in a fresh process", (int) k, OPS[op].name, wi); }
	for (size_t i = 0; i < W.size(); i++) EXPECT(W[i]->now() == W[i]->snap, "matrix %d (or one of its vectors) was modified", (int) i);
	// earlier results are still what they were, also while the others are given back, in any order
	auto pm = perm_get(s.size(), order); for (size_t z = 0; z < s.size(); z++) { for (size_t k = 0; k < s.size(); k++) if (!R[k]->freed) EXPECT(R[k]->hash() == base[s[k].second * no + s[k].first], "the result of %s changed later", OPS[s[k].first].name); R[pm[z]]->release(); }
	// again, after everything was given back
	auto again = perform(s[0].first, *W[s[0].second]); EXPECT(again->hash() == base[s[0].second * no + s[0].first], "%s on matrix %d gives another result when repeated at the end", OPS[s[0].first].name, s[0].second); again->release();
	for (size_t i = 0; i < W.size(); i++) EXPECT(W[i]->now() == W[i]->snap, "matrix %d was modified", (int) i);
	mc_traces++; state(h); outcome("same");
}
void harness_register()
{
	OPS = ops(); WM = world_mats(tier_thorough()); baselines(); u64 c = OPS.size() * WM.size(), no = OPS.size(); auto dec = [=](u64 k) { return std::make_pair((int) (k % no), (int) (k / no)); };
	family("single", c * 4, [=](uint64_t k) { mc_fill = (int[]){0, 0xff, 0x5a, 0x01}[k % 4]; seq({dec(k / 4)}, 0); }, {false, 0, "every operation, every fill of fresh memory"});
	family("pairs", c * c, [=](uint64_t k) { mc_fill = (int[]){0xff, 0x5a, 0x01, 0x80}[(k / c + k) % 4]; seq({dec(k % c), dec(k / c)}, k % 2); }, {false, 0, "all sequences of two operations"});
	// three: the same operation before and after another one, on two matrices
	family("sandwich", c * c, [=](uint64_t k) { mc_fill = (int[]){0xff, 0x5a, 0x01, 0x80}[(k / c + k) % 4]; auto a = dec(k % c), b = dec(k / c); seq({a, b, {a.first, (int) ((a.second + 1) % WM.size())}}, k % 6); });
	family("triples", c * c * c, [=](uint64_t k) { mc_fill = (int[]){0xff, 0x5a, 0x01, 0x80}[(k / c + k) % 4]; seq({dec(k % c), dec(k / c % c), dec(k / c / c)}, k % 6); }, {true, 0, "all sequences of three operations"});
}
