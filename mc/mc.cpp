#include "mc.h"
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <cerrno>
#include <unordered_set>
#include <unordered_map>
#include <array>
#include <execinfo.h>
#ifdef MC_FAST
#define __sanitizer_symbolize_pc(...) (b[0] = 0)
#else
#include <sanitizer/common_interface_defs.h>
#endif
#include <map>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <malloc.h>
#include <omp.h>

#ifdef MC_SCHED
extern "C" void mc_sched_suffix(char *, size_t); extern "C" void mc_sched_rand_event();
#endif
static bool g_thorough, g_replay;
bool tier_thorough() { return g_thorough; }
bool replaying() { return g_replay; }

struct Fam { std::string name; uint64_t n; CaseFn fn; FamilyOpt opt; };
static std::vector<Fam> fams;
void family(const std::string &name, uint64_t count, CaseFn fn, FamilyOpt opt)
{
	if (opt.thorough_only && !g_thorough) return;
	fams.push_back({name, count, fn, opt});
}

static const int MAXSH = 16, MAXFAM = 256, MAXOUT = 24, NSAMP = 3;
struct Shard {
	volatile int fam; volatile uint64_t idx; volatile double t0;   // current case
	volatile int failed; char msg[3000]; char desc[6000];
	uint64_t transitions, traces, cases;
	uint64_t fam_done[MAXFAM];
	int complete, capped;
	int nout; char oname[MAXOUT][48]; uint64_t ocount[MAXOUT];
	int nsamp; char samp[NSAMP][700];
};
static Shard *shm; static Shard *me;
uint64_t mc_transitions, mc_traces;
static std::unordered_set<uint64_t> states;
static char g_desc[6000];
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

void describe_clear() { g_desc[0] = 0; }
void describe(const char *fmt, ...) { va_list ap; va_start(ap, fmt); size_t l = strlen(g_desc); vsnprintf(g_desc + l, sizeof(g_desc) - l, fmt, ap); va_end(ap); 
	if (g_replay) { memcpy(me->desc, g_desc, sizeof(g_desc)); } }
void state(uint64_t h) { if (states.size() < 4000000) states.insert(h); }
void outcome(const char *name)
{
	for (int i = 0; i < me->nout; i++) if (!strcmp(me->oname[i], name)) { me->ocount[i]++; return; }
	if (me->nout < MAXOUT) { strncpy(me->oname[me->nout], name, 47); me->ocount[me->nout++] = 1; }
}
void mc_heartbeat() { if (me) me->t0 = now(); }
static double g_deadline; bool mc_out_of_time() { if (g_replay || g_deadline == 0 || now() < g_deadline + 5) return false; if (me) me->capped = 1; return true; }
bool want_sample() { return g_replay || me->nsamp < NSAMP; }

static void publish() { me->transitions = mc_transitions; me->traces = mc_traces; }

void violation(const char *fmt, ...)
{
	char buf[3000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
#ifdef MC_SCHED
	mc_sched_suffix(buf, sizeof(buf));
#endif
	memcpy(me->msg, buf, sizeof(buf)); memcpy(me->desc, g_desc, sizeof(g_desc)); me->failed = 1;
	publish();
	_exit(3);
}

uint64_t hash_bytes(const void *p, size_t n, uint64_t h)
{
	const unsigned char *c = (const unsigned char *) p;
	while (n >= 8) { uint64_t v; memcpy(&v, c, 8); h = hmix(h, v); c += 8; n -= 8; }
	uint64_t v = n; for (size_t i = 0; i < n; i++) v = v << 8 | c[i];
	return hmix(h, v);
}

// ------------------------------------------------------------------ environment of the library
extern "C" { int mc_fill = 0; long mc_alloc_count, mc_alloc_fail_at, mc_alloc_fail_at2, mc_alloc_failed; }
static std::unordered_map<void *, size_t> live; static size_t live_bytes;
static bool in_guard; static jmp_buf guard_jb; static Outcome *guard_out;
static std::vector<int> rscript; static size_t rpos; static bool rcycle; static uint32_t rlcg = 1; static long rcalls;
void rand_script(const std::vector<int> &a, bool c) { rscript = a; rpos = 0; rcycle = c; }
void rand_lcg(uint32_t s) { rscript.clear(); rpos = 0; rlcg = s; rcalls = 0; }
uint64_t mc_rand_state() { return hmix(rlcg, rpos); }
long rand_calls() { return rcalls; }

extern "C" { int mc_trace_allocs; }
static std::unordered_map<void *, std::array<void *, 6>> sites;
size_t mc_live_blocks(std::string *what)
{
	if (what) { what->clear(); int k = 0; for (auto &kv : live) { if (k++ == 3) break; *what += std::to_string(kv.second) + " bytes requested by";
#ifndef MC_SCHED
		auto it = sites.find(kv.first); std::string prev; if (it != sites.end()) for (void *pc : it->second) { char b[256]; if (!pc) break; __sanitizer_symbolize_pc((char *) pc - 1, "%f", b, sizeof b); if (strncmp(b, "mc_", 3) && b != prev && strncmp(b, "track", 5)) *what += std::string(prev.empty() ? " " : " < ") + b; prev = b; }
#endif
		*what += "; "; } }
	return live.size();
}
static void track(void *p, size_t n) {
	if (mc_trace_allocs) { void *b[9] = {}; backtrace(b, 9); std::array<void *, 6> a; for (int k = 0; k < 6; k++) a[k] = b[k + 2]; sites[p] = a; }
	live[p] = n; live_bytes += n;
	if (live_bytes > (size_t) 3 << 30) violation("memory runaway: the library holds more than 3 GB in one case");
}
#ifdef MC_FAST      // no shadow memory: a sealed margin tells writes just beyond a block
static const size_t MARGIN = 64;
static void seal(void *p, size_t n) { memset((char *) p + n, 0xC7, MARGIN); }
static void check_seal(void *p, size_t n) { for (size_t k = 0; k < MARGIN; k++) if (((unsigned char *) p)[n + k] != 0xC7) violation("a block of %zu bytes was written beyond its end (%zu bytes further)", n, k); }
#else
static const size_t MARGIN = 0;
static void seal(void *, size_t) {}
static void check_seal(void *, size_t) {}
#endif
static void untrack(void *p) { auto it = live.find(p); if (it != live.end()) { check_seal(p, it->second); live_bytes -= it->second; live.erase(it); } }

extern "C" {
int mc_huge_ok;      // requests above 256 MB are served from aliased pages
#ifndef MC_SCHED
void mc_free(void *p);
// A huge block of 4-byte entries: up to HUGE_TAIL all its 4 MB windows are the same physical 4 MB (so that an array which
// repeats with a period that divides 2^20 entries is held exactly), beyond it pages are private; an inaccessible page follows.
static const size_t HUGE_MIN = (size_t) 1 << 28, HUGE_WIN = (size_t) 1 << 22, HUGE_TAIL = ((size_t) 1 << 33) - (1 << 23);
struct HugeBlk { size_t n; int fd; }; static std::unordered_map<void *, HugeBlk> huge;
static size_t huge_len(size_t n) { return (n + 4095) / 4096 * 4096; }
static void *huge_map(int fd, size_t n)
{
	if (n > (size_t) 1 << 37) { errno = ENOMEM; return NULL; }
	size_t len = huge_len(n), low = std::min(len, HUGE_TAIL); char *b = (char *) mmap(NULL, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (b == MAP_FAILED) return NULL;
	for (size_t o = 0; o < low; o += HUGE_WIN) mmap(b + o, std::min(HUGE_WIN, low - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
	mprotect(b + len, 4096, PROT_NONE); huge[b] = {n, fd}; return b;
}
static void *huge_alloc(size_t n) { int fd = memfd_create("mc", 0); if (fd < 0 || ftruncate(fd, HUGE_WIN)) return NULL; return huge_map(fd, n); }
static void huge_drop(void *q, bool keepfd) { HugeBlk h = huge[q]; munmap(q, huge_len(h.n) + 4096); if (!keepfd) close(h.fd); huge.erase(q); }
static void *huge_realloc(void *q, size_t n)
{
	auto it = huge.find(q);
	if (it == huge.end()) { auto l = live.find(q); size_t old = l != live.end() ? l->second : malloc_usable_size(q); void *p = huge_alloc(n); if (p) { memcpy(p, q, std::min(old, n)); mc_free(q); } return p; }
	size_t old = it->second.n; int fd = it->second.fd; void *p;
	if (n <= HUGE_MIN) { p = malloc(n + MARGIN); if (!p) return NULL; seal(p, n); memcpy(p, q, n); track(p, n); huge_drop(q, false); return p; }
	p = huge_map(fd, n); if (!p) return NULL;
	if (std::min(old, n) > HUGE_TAIL) { size_t ol = huge_len(old), nl = huge_len(n); if (mremap((char *) q + HUGE_TAIL, std::min(ol, nl) - HUGE_TAIL, nl - HUGE_TAIL, MREMAP_MAYMOVE | MREMAP_FIXED, (char *) p + HUGE_TAIL) == MAP_FAILED) abort(); }
	huge_drop(q, true); return p;
}
static bool deny() { mc_alloc_count++; bool d = mc_alloc_count == mc_alloc_fail_at || mc_alloc_count == mc_alloc_fail_at2; if (d) { mc_alloc_failed++; errno = ENOMEM; } return d; }
void *mc_malloc(size_t n)
{
	if (deny()) return NULL;
	if (mc_huge_ok && n > HUGE_MIN) return huge_alloc(n);
	if (n > (size_t) 1 << 28) { errno = ENOMEM; return NULL; }
	void *p = malloc(n + MARGIN);
	if (p) { memset(p, mc_fill, n); seal(p, n); track(p, n); }
	return p;
}
void *mc_calloc(size_t a, size_t b)
{
	if (deny()) return NULL;
	size_t n; if (__builtin_mul_overflow(a, b, &n) || n > (size_t) 1 << 28) { errno = ENOMEM; return NULL; }
	void *p = calloc(1, n + MARGIN);
	if (p) { seal(p, n); track(p, n); }
	return p;
}
void mc_free(void *p) { if (p && mc_huge_ok && huge.count(p)) { huge_drop(p, false); return; } if (p) { untrack(p); free(p); } }
void *mc_realloc(void *q, size_t n)
{
	if (deny()) return NULL;
	if (mc_huge_ok && q && (huge.count(q) || n > HUGE_MIN)) return huge_realloc(q, n);
	if (n > (size_t) 1 << 28) { errno = ENOMEM; return NULL; }
	if (q && n == 0) { mc_free(q); return NULL; }      // glibc semantics
	size_t old = 0; if (q) { auto it = live.find(q); old = it != live.end() ? it->second : malloc_usable_size(q); }
	void *p = malloc(n + MARGIN); if (!p) return NULL;           // always moves: stale pointers are caught
	memset(p, mc_fill, n); seal(p, n);
	if (q) { memcpy(p, q, std::min(old, n)); mc_free(q); }
	track(p, n);
	return p;
}
int mc_posix_memalign(void **pp, size_t al, size_t n) { if (deny()) return ENOMEM; void *p = NULL; int r = posix_memalign(&p, al, n + MARGIN); if (!r) { memset(p, mc_fill, n); seal(p, n); track(p, n); *pp = p; } return r; }
void *mc_aligned_alloc(size_t al, size_t n) { void *p = NULL; return mc_posix_memalign(&p, al < sizeof(void *) ? sizeof(void *) : al, n) ? NULL : p; }
#else
void *mc_malloc(size_t n);
#endif
char *mc_strdup(const char *s) { size_t l = strlen(s) + 1; char *p = (char *) mc_malloc(l); if (p) memcpy(p, s, l); return p; }

int mc_rand(void)
{
	rcalls++;
#ifdef MC_SCHED
	mc_sched_rand_event();
#endif
	if (rpos < rscript.size() || (rcycle && !rscript.empty())) { int v = rscript[rpos % rscript.size()]; rpos++; return v; }
	rlcg = rlcg * 1664525u + 1013904223u;
	return (rlcg >> 8) & 0x7fffff;
}
long mc_random(void) { return mc_rand(); }
void mc_srand(unsigned s) { (void) s; }

[[noreturn]] static void ended(Outcome::K k, int code, const char *msg)
{
	if (in_guard) { guard_out->kind = k; guard_out->code = code; snprintf(guard_out->msg, sizeof(guard_out->msg), "%s", msg); longjmp(guard_jb, 1); }
	static const char *n[] = {"", "reported an error and exited", "called exit", "assertion failed", "aborted"};
	violation("library code %s (status %d): %s", n[k], code, msg);
}
void mc_err(int c, const char *f, ...) { char b[300] = ""; va_list ap; va_start(ap, f); if (f) vsnprintf(b, 300, f, ap); va_end(ap); ended(Outcome::ERR, c, b); }
void mc_errx(int c, const char *f, ...) { char b[300] = ""; va_list ap; va_start(ap, f); if (f) vsnprintf(b, 300, f, ap); va_end(ap); ended(Outcome::ERR, c, b); }
void mc_verr(int c, const char *f, va_list ap) { char b[300] = ""; if (f) vsnprintf(b, 300, f, ap); ended(Outcome::ERR, c, b); }
void mc_exit(int c) { ended(Outcome::EXIT, c, "exit"); }
void mc_abort(void) { ended(Outcome::ABORT, 134, "abort"); }
void mc_assert_fail(const char *e, const char *f, unsigned l, const char *fn) { char b[380]; const char *s = strrchr(f, '/'); snprintf(b, 380, "%s:%u: %s: %s", s ? s + 1 : f, l, fn, e); ended(Outcome::ASSERT, 134, b); }
void mc_warn(const char *f, ...) { (void) f; }
void mc_warnx(const char *f, ...) { (void) f; }
void mc_perror(const char *f) { (void) f; }
int mc_fprintf(FILE *s, const char *f, ...) { if (s == stderr) return 0; va_list ap; va_start(ap, f); int r = vfprintf(s, f, ap); va_end(ap); return r; }
int mc_vfprintf(FILE *s, const char *f, va_list ap) { if (s == stderr) return 0; return vfprintf(s, f, ap); }
int mc_fflush(FILE *s) { if (s == stderr || s == NULL) return 0; return fflush(s); }
int mc_fputs(const char *t, FILE *s) { return s == stderr ? 0 : fputs(t, s); }
int mc_fputc(int c, FILE *s) { return s == stderr ? c : fputc(c, s); }
int mc_putc(int c, FILE *s) { return mc_fputc(c, s); }
int mc_IO_putc(int c, FILE *s) { return mc_fputc(c, s); }
size_t mc_fwrite(const void *p, size_t a, size_t b, FILE *s) { return s == stderr ? b : fwrite(p, a, b, s); }
}

Outcome guarded_raw(GuardFn fn, void *arg)
{
	Outcome o; guard_out = &o; in_guard = true;
	if (setjmp(guard_jb) == 0) fn(arg);
	in_guard = false;
	return o;
}

extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:quarantine_size_mb=8:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=6:handle_segv=1:allow_user_segv_handler=0:max_malloc_fill_size=0"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=98:print_stacktrace=1"; }

// ------------------------------------------------------------------ one case
static void run_case(int f, uint64_t idx)
{
	me->fam = f; me->idx = idx; me->t0 = now();
	g_desc[0] = 0; live.clear(); live_bytes = 0; sites.clear(); mc_trace_allocs = 0;
	mc_fill = ((idx * 0x9E3779B1u) >> 13) % 3 == 0 ? 0x00 : ((idx * 0x9E3779B1u) >> 13) % 3 == 1 ? 0xff : 0x5a;
	mc_alloc_count = 0; mc_alloc_fail_at = mc_alloc_fail_at2 = 0; mc_alloc_failed = 0;
	rand_script({}); rlcg = 12345; rcalls = 0;
	try {
		fams[f].fn(idx);
	} catch (std::exception &e) { violation("exception escaped from the library: %s", e.what()); }
	catch (...) { violation("exception escaped from the library"); }
	std::vector<void *> left; for (auto &kv : live) { check_seal(kv.first, kv.second); left.push_back(kv.first); }
	for (void *p : left) free(p);
#ifndef MC_SCHED
	mc_huge_ok = 0; std::vector<void *> hl; for (auto &h : huge) hl.push_back(h.first); for (void *p : hl) huge_drop(p, false);
#endif
	live.clear(); live_bytes = 0;
	if (me->capped) return;      // given up in the middle
	me->cases++; me->fam_done[f]++;
	if (g_desc[0] && me->nsamp < NSAMP && (me->cases % 7 == 3 || me->cases > 50)) snprintf(me->samp[me->nsamp++], sizeof(me->samp[0]), "%s[%lu]: %.*s", fams[f].name.c_str(), (unsigned long) idx, 500, g_desc);
	if ((me->cases & 15) == 0) publish();
}

static std::string errpath(int pid) { char b[64]; snprintf(b, sizeof(b), "/tmp/mc-%d-%d.err", getppid(), pid); return b; }

static void child_setup(int slot, bool)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	me = &shm[slot];
	int fd = open(errpath(getpid()).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if (fd >= 0) { if (!getenv("SCHED_TRACE")) dup2(fd, 2); close(fd); }
	rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);
	rlimit st = {512 << 20, 512 << 20}; setrlimit(RLIMIT_STACK, &st);
	omp_set_num_threads(1);
}

static std::string read_err(pid_t pid)
{
	char b[64]; snprintf(b, sizeof(b), "/tmp/mc-%d-%d.err", getpid(), pid);
	std::string s; FILE *f = fopen(b, "r"); if (!f) return s;
	char buf[4096]; size_t k; 
	while ((k = fread(buf, 1, sizeof(buf), f)) > 0) { s.append(buf, k); if (s.size() > 2000000) s.erase(0, s.size() - 200000); }
	fclose(f); unlink(b);
	size_t pos = s.rfind("==ERROR: AddressSanitizer"); size_t p2 = s.rfind("runtime error:"); size_t p3 = s.rfind("terminate called");
	if (pos != std::string::npos) return s.substr(pos, 700);
	if (p2 != std::string::npos) return s.substr(p2 > 100 ? p2 - 100 : 0, 700);
	if (p3 != std::string::npos) return s.substr(p3, 400);
	return s.size() > 300 ? s.substr(s.size() - 300) : s;
}

// run exactly the given list of cases in a fresh process; returns empty string when it completes
static std::string replay_run(const std::vector<std::pair<int, uint64_t>> &cases, double limit, int slot, bool &hang)
{
	Shard *s = &shm[slot]; memset((void *) s, 0, sizeof(*s)); hang = false;
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0) { child_setup(slot, true); for (auto &c : cases) run_case(c.first, c.second); _exit(0); }
	double t0 = now(); int st;
	for (;;) {
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) break;
		if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hang = true; break; }
		usleep(2000);
	}
	std::string e = read_err(pid); 
	if (hang) return "no termination within " + std::to_string((int) limit) + " s";
	if (s->failed) return s->msg;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
	char b[100]; if (WIFSIGNALED(st)) snprintf(b, 100, "crash (signal %d): ", WTERMSIG(st)); else snprintf(b, 100, "abnormal exit (%d): ", WEXITSTATUS(st));
	return b + e;
}

static std::string jesc(const std::string &s)
{
	std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
	return o;
}

int main(int argc, char **argv)
{
	int nsh = 8; double cap = 240; const char *outp = NULL, *replay = NULL, *statep = NULL, *only = NULL; bool list = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--tier") g_thorough = !strcmp(argv[++i], "thorough");
		else if (a == "--shards") nsh = atoi(argv[++i]);
		else if (a == "--cap") cap = atof(argv[++i]);
		else if (a == "--out") outp = argv[++i];
		else if (a == "--replay") replay = argv[++i];
		else if (a == "--only") only = argv[++i];
		else if (a == "--list") list = true;
	}
	(void) statep;
	if (nsh > MAXSH - 1) nsh = MAXSH - 1;
	harness_register();
	if (only) { std::vector<Fam> k; for (auto &f : fams) if (f.name.find(only) == 0) k.push_back(f); fams = k; }
	if (list) { for (auto &f : fams) printf("%-40s %lu  %s\n", f.name.c_str(), (unsigned long) f.n, f.opt.note); return 0; }
	shm = (Shard *) mmap(NULL, sizeof(Shard) * MAXSH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

	if (replay) {
		// family:idx  or family:idx:prefix:shard:nsh
		std::vector<std::string> tok; std::string r = replay; size_t p;
		while ((p = r.find('@')) != std::string::npos) { tok.push_back(r.substr(0, p)); r = r.substr(p + 1); } tok.push_back(r);
		int fi = -1; for (size_t i = 0; i < fams.size(); i++) if (fams[i].name == tok[0]) fi = i;
		if (fi < 0) { printf("unknown family\n"); return 2; }
		uint64_t idx = strtoull(tok[1].c_str(), 0, 10);
		std::vector<std::pair<int, uint64_t>> cs;
		if (tok.size() >= 4) { int sh = atoi(tok[2].c_str()), ns = atoi(tok[3].c_str());
			for (int f = 0; f <= fi; f++) for (uint64_t k = sh; k < fams[f].n && (f < fi || k <= idx); k += ns) cs.push_back({f, k}); }
		else cs.push_back({fi, idx});
		g_replay = cs.size() == 1; bool hang;
		std::string e = replay_run(cs, 600, MAXSH - 1, hang);
		printf("%s\n%s\n", shm[MAXSH - 1].desc, e.empty() ? "case passes" : e.c_str());
		return e.empty() ? 0 : 1;
	}

	double start = now(); int statefd[MAXSH];
	std::vector<pid_t> pids(nsh); std::vector<int> running(nsh, 1); std::vector<int> status(nsh, 0);
	double deadline = start + cap; g_deadline = deadline;
	for (int s = 0; s < nsh; s++) {
		char nm[64]; snprintf(nm, 64, "/tmp/mc-st-XXXXXX"); statefd[s] = mkstemp(nm); unlink(nm);
		fflush(NULL);
		pid_t pid = fork();
		if (pid == 0) {
			child_setup(s, false);
			for (size_t f = 0; f < fams.size(); f++)
				for (uint64_t k = s; k < fams[f].n; k += nsh) {
					run_case(f, k);
					if (me->capped || ((me->cases & 7) == 0 && now() > deadline)) { me->capped = 1; goto out; }
				}
			out:
			publish(); me->complete = 1; me->t0 = 0;
			std::vector<uint64_t> v(states.begin(), states.end());
			size_t off = 0, tot = v.size() * 8; while (off < tot) { ssize_t w = write(statefd[s], (char *) v.data() + off, tot - off); if (w <= 0) break; off += w; }
			_exit(0);
		}
		pids[s] = pid;
	}
	int left = nsh; bool bad = false, scherr = false; std::vector<std::pair<int, std::string>> failures;  // shard, reason
	while (left) {
		for (int s = 0; s < nsh; s++) if (running[s]) {
			int st; pid_t r = waitpid(pids[s], &st, WNOHANG);
			if (r == pids[s]) {
				running[s] = 0; left--; std::string e = read_err(pids[s]);
				if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm[s].complete) continue;
				if (WIFEXITED(st) && WEXITSTATUS(st) == 9) { printf("%s\n", e.c_str()); scherr = true; }
				char b[120]; if (shm[s].failed) failures.push_back({s, shm[s].msg});
				else { if (WIFSIGNALED(st)) snprintf(b, 100, "crash (signal %d): ", WTERMSIG(st)); else snprintf(b, 100, "abnormal exit (%d): ", WEXITSTATUS(st)); failures.push_back({s, b + e}); }
				bad = true;
			} else if (shm[s].t0 > 0 && now() - shm[s].t0 > (fams[shm[s].fam].opt.hang_s > 0 ? fams[shm[s].fam].opt.hang_s : 25)) {
				kill(pids[s], SIGKILL); waitpid(pids[s], &st, 0); running[s] = 0; left--; read_err(pids[s]);
				failures.push_back({s, "HANG"}); bad = true;
			}
		}
		if (bad) {   // let the others finish their current case briefly, then stop
			double t1 = now() + 0.3; while (now() < t1) usleep(20000);
			for (int s = 0; s < nsh; s++) if (running[s]) { int st; pid_t r = waitpid(pids[s], &st, WNOHANG);
				if (r == pids[s]) { std::string e = read_err(pids[s]); if (shm[s].failed) failures.push_back({s, shm[s].msg}); else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) failures.push_back({s, "crash: " + e}); }
				else { kill(pids[s], SIGKILL); waitpid(pids[s], &st, 0); read_err(pids[s]); } running[s] = 0; left--; }
			break;
		}
		usleep(5000);
	}
	if (scherr) failures.clear();
	// confirm by replay: alone, then with the shard's prefix
	int confirmed = 0; std::string vj; std::vector<std::string> unconf;
	struct V { int fam; uint64_t idx; std::string msg, desc, rep; }; std::vector<V> vs;
	// simplest first
	std::sort(failures.begin(), failures.end(), [&](auto &a, auto &b) { return std::make_pair((int) shm[a.first].fam, (uint64_t) shm[a.first].idx) < std::make_pair((int) shm[b.first].fam, (uint64_t) shm[b.first].idx); });
	for (auto &fl : failures) {
		int s = fl.first; int f = shm[s].fam; uint64_t idx = shm[s].idx; bool hang = false;
		double lim = (fams[f].opt.hang_s > 0 ? fams[f].opt.hang_s : 25) * 2;
		g_replay = true;
		std::string e = replay_run({{f, idx}}, lim, MAXSH - 1, hang);
		g_replay = false;
		std::string rep = fams[f].name + "@" + std::to_string(idx), desc = shm[MAXSH - 1].desc;
		if (e.empty()) {
			std::vector<std::pair<int, uint64_t>> cs;
			for (int g = 0; g <= f; g++) for (uint64_t k = s; k < fams[g].n && (g < f || k <= idx); k += nsh) cs.push_back({g, k});
			e = replay_run(cs, 300, MAXSH - 1, hang);
			if (!e.empty()) { e = "[depends on earlier operations in the same process] " + e; rep += "@" + std::to_string(s) + "@" + std::to_string(nsh); desc = shm[s].desc; }
		}
		if (e.empty()) { unconf.push_back(fams[f].name + "@" + std::to_string(idx) + ": " + fl.second); continue; }
		vs.push_back({f, idx, e, desc, rep}); confirmed++;
		if (confirmed >= 3 || hang) break;
	}
	if (scherr) { printf("the scheduler could not control an execution (shard ended with status 9): no verdict\n"); return 2; }
	// merge
	std::vector<uint64_t> all; uint64_t tr = 0, tc = 0, cs = 0; bool capped = false; std::map<std::string, uint64_t> outs; std::vector<std::string> samples; uint64_t famdone[MAXFAM] = {};
	for (int s = 0; s < nsh; s++) {
		tr += shm[s].transitions; tc += shm[s].traces; cs += shm[s].cases; capped |= shm[s].capped != 0;
		for (int i = 0; i < shm[s].nout; i++) outs[shm[s].oname[i]] += shm[s].ocount[i];
		for (int i = 0; i < shm[s].nsamp && samples.size() < 5; i++) samples.push_back(shm[s].samp[i]);
		for (size_t f = 0; f < fams.size(); f++) famdone[f] += shm[s].fam_done[f];
		off_t sz = lseek(statefd[s], 0, SEEK_END); lseek(statefd[s], 0, SEEK_SET); std::vector<uint64_t> v(sz / 8); size_t off = 0;
		while (off < (size_t) sz) { ssize_t k = read(statefd[s], (char *) v.data() + off, sz - off); if (k <= 0) break; off += k; }
		all.insert(all.end(), v.begin(), v.end()); close(statefd[s]);
	}
	std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
	std::string j = "{";
	j += "\"property\":\"" + std::string(harness_property) + "\",\"states\":" + std::to_string(all.size()) + ",\"transitions\":" + std::to_string(tr) + ",\"traces\":" + std::to_string(tc) + ",\"cases\":" + std::to_string(cs) + ",\"capped\":" + (capped ? "true" : "false");
	j += ",\"wall\":" + std::to_string(now() - start) + ",\"families\":{";
	for (size_t f = 0; f < fams.size(); f++) j += std::string(f ? "," : "") + "\"" + jesc(fams[f].name) + "\":{\"size\":" + std::to_string(fams[f].n) + ",\"done\":" + std::to_string(famdone[f]) + ",\"note\":\"" + jesc(fams[f].opt.note) + "\"}";
	j += "},\"outcomes\":{"; bool first = true; for (auto &o : outs) { j += std::string(first ? "" : ",") + "\"" + jesc(o.first) + "\":" + std::to_string(o.second); first = false; }
	j += "},\"samples\":["; for (size_t i = 0; i < samples.size(); i++) j += std::string(i ? "," : "") + "\"" + jesc(samples[i]) + "\"";
	j += "],\"violations\":["; for (size_t i = 0; i < vs.size(); i++) j += std::string(i ? "," : "") + "{\"replay\":\"" + jesc(vs[i].rep) + "\",\"msg\":\"" + jesc(vs[i].msg) + "\",\"desc\":\"" + jesc(vs[i].desc) + "\"}";
	j += "],\"unconfirmed\":["; for (size_t i = 0; i < unconf.size(); i++) j += std::string(i ? "," : "") + "\"" + jesc(unconf[i]) + "\"";
	j += "],\"assumptions\":["; for (int i = 0; harness_assumptions[i]; i++) j += std::string(i ? "," : "") + "\"" + jesc(harness_assumptions[i]) + "\"";
	j += "]}\n";
	if (outp) { FILE *f = fopen(outp, "w"); fputs(j.c_str(), f); fclose(f); } else fputs(j.c_str(), stdout);
	return vs.empty() ? (unconf.empty() ? 0 : 4) : 1;
}
