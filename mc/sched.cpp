// Controlled scheduler.  The library's C files are compiled with -fsanitize=thread, but linked against the hooks in
// this file instead of the TSan runtime, and against the OpenMP runtime below instead of libgomp.  Threads are fibers
// of one OS thread; a switch can only happen at scheduling points, so an execution is determined by the list of
// choices made there and can be replayed.  Scheduling points: synchronisation operations, and every access made by a
// code site that was seen to touch a location shared with a conflicting access (the set of sites is grown to a
// fixpoint).  Depth-first search over all choices with at most K preemptions; states are identified by the
// happens-before hash of the past, and not expanded twice.
#include "explorer.h"
#include <omp.h>
#include <csetjmp>
#include <unordered_map>
#include <unordered_set>
#include <cerrno>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

// ------------------------------------------------------------------ memory
static const size_t ARENA = (size_t) 256 << 20;
static unsigned char *arena, *shadow; static size_t apos;
static std::unordered_map<size_t, size_t> blocks;       // offset -> size (live)
static bool in_arena(const void *p) { return arena && (const unsigned char *) p >= arena && (const unsigned char *) p < arena + ARENA; }
static void arena_reset()
{
	if (!arena) { arena = (unsigned char *) mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); shadow = (unsigned char *) mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
	memset(shadow, 0, apos + 64 < ARENA ? apos + 64 : ARENA); apos = 64; blocks.clear();
}

// ------------------------------------------------------------------ scheduler state
static const int MAXT = 8; static const size_t STK = 256 << 10;
struct Thr { void *sp; char *stack; enum { NEW, READY, LOCK, BARRIER, JOIN, YIELD, DONE } st; void *lock; uint64_t h; int wsn; uint64_t yseen, ylast; };
static Thr thr[MAXT]; static int NT = 1, cur; static bool in_region, exploring, aborting;
static int cfg_threads = 1; static bool chunk1 = true; static int max_pieces;
static void (*reg_fn)(void *); static void *reg_data;
static uint64_t writes; static int idle_rounds; static int barrier_in;
static jmp_buf driver_jb;

struct Point { unsigned char nopt, chosen; signed char opt[MAXT]; unsigned char cost[MAXT]; int before; };
static std::vector<Point> path; static size_t depth; static int spent, bound;
static std::unordered_map<uint64_t, int> visited;
static SchedStats *S; static uint64_t steps_in_exec; static bool nondet;

// ------------------------------------------------------------------ sites and cells
struct Site { uint64_t pc; bool conflict; };
static std::vector<Site> sites; static std::unordered_map<uint64_t, int> site_of; static bool sites_changed;
struct Cell { uint64_t key; uint32_t epoch; unsigned char rmask, wmask, ns, hot; uint64_t lw, rd; int s[6]; };
static Cell *cells; static const size_t NC = 1 << 20; static uint32_t epoch; static size_t ncell;
static Cell *cell(uint64_t key)
{
	size_t i = (key * 0x9E3779B97F4A7C15ULL) >> 44;
	for (;;) { Cell &c = cells[i]; if (c.epoch != epoch) { if (++ncell > NC / 2) { fprintf(stderr, "scheduler: too many locations\n"); _exit(9); } c.epoch = epoch; c.key = key; c.rmask = c.wmask = c.ns = c.hot = 0; c.lw = c.rd = 0; return &c; } if (c.key == key) return &c; i = (i + 1) & (NC - 1); }
}
static int site(uint64_t pc) { static uint64_t lp; static int ls; if (pc == lp) return ls; auto it = site_of.find(pc); if (it == site_of.end()) { sites.push_back({pc, false}); it = site_of.emplace(pc, (int) sites.size() - 1).first; } lp = pc; return ls = it->second; }
static void flag(int s) { if (!sites[s].conflict) { sites[s].conflict = true; sites_changed = true; } }

static std::string symb(uint64_t pc)
{
	char cmd[200], out[400] = "", exe[200] = ""; if (readlink("/proc/self/exe", exe, 199) < 0) return "?";
	snprintf(cmd, 200, "addr2line -s -f -e %s %lx 2>/dev/null", exe, (unsigned long) pc - 1);
	FILE *f = popen(cmd, "r"); if (!f) return "?"; size_t k = fread(out, 1, 399, f); out[k] = 0; pclose(f);
	for (char *c = out; *c; c++) { if (*c == '\n') *c = ' '; }
	return out;
}
static std::string schedule_text()
{
	std::string s; char b[40]; int last = -1, n = 0; s = "schedule (thread:number of points): ";
	for (size_t i = 0; i < depth && i < path.size(); i++) { int t = path[i].opt[path[i].chosen]; if (t == last) n++; else { if (last >= 0) { snprintf(b, 40, "%d:%d ", last, n); s += b; } last = t; n = 1; } if (s.size() > 900) break; }
	if (last >= 0) { snprintf(b, 40, "%d:%d", last, n); s += b; } return s;
}
extern "C" void mc_sched_suffix(char *buf, size_t n) { if (exploring) { size_t l = strlen(buf); snprintf(buf + l, n - l, " [%s]", schedule_text().c_str()); } }

// ------------------------------------------------------------------ switching
extern "C" void mc_switch(void **save, void *to);
asm(".text\n.globl mc_switch\nmc_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
static void point(bool free_switch);
[[noreturn]] static void prune() { S->pruned++; in_region = false; longjmp(driver_jb, 1); }
static void go(int t) { if (t == cur) return; int f = cur; cur = t; mc_switch(&thr[f].sp, thr[t].sp); }
extern "C" void mc_fiber_main() { thr[cur].st = Thr::READY; reg_fn(reg_data); thr[cur].st = Thr::DONE; writes++; thr[cur].h = hmix(thr[cur].h, 0xD0); point(true); abort(); }
asm(".text\nmc_entry:\n xor %ebp,%ebp\n and $-16,%rsp\n call mc_fiber_main\n ud2\n"); extern "C" void mc_entry();

static bool enabled(int t)
{
	Thr &x = thr[t];
	switch (x.st) {
	case Thr::NEW: for (int u = 1; u < t; u++) if (thr[u].st == Thr::NEW) return false; return true;    // unstarted workers are interchangeable
	case Thr::READY: return true;
	case Thr::LOCK: return *(int *) x.lock == 0;
	case Thr::JOIN: for (int u = 0; u < NT; u++) if (u != t && thr[u].st != Thr::DONE) return false; return true;
	case Thr::YIELD: return x.yseen != writes;
	default: return false;
	}
}
static void stuck()
{
	bool y = false; for (int t = 0; t < NT; t++) y |= thr[t].st == Thr::YIELD;
	if (y) violation("no progress: the threads wait for each other forever (busy waiting)");
	violation("deadlock: no thread can run");
}
// one scheduling decision; returns when the current fiber is scheduled again
static void point(bool free_switch)
{
	if (!in_region || NT == 1) return;
	if (++steps_in_exec > 400000) violation("no termination: more than 400000 scheduling points in one execution");
	if (thr[cur].st == Thr::READY) thr[cur].h = hmix(thr[cur].h, 0x77);      // two points of a thread are different positions
	int opt[MAXT], n = 0; bool ce = enabled(cur);
	if (ce) opt[n++] = cur;
	for (int t = 0; t < NT; t++) if (t != cur && enabled(t)) opt[n++] = t;
	if (n == 0) {      // only spinning threads left: give each of them another turn, a bounded number of times
		bool y = false; for (int t = 0; t < NT; t++) y |= thr[t].st == Thr::YIELD;
		if (!y || ++idle_rounds > 40) stuck();
		for (int t = 0; t < NT; t++) if (thr[t].st == Thr::YIELD) { thr[t].yseen = ~0ULL; opt[n++] = t; }
	} 
	static uint64_t lastw; if (writes != lastw) { lastw = writes; idle_rounds = 0; }
	int pick = 0;
	if (n > 1) {
		if (depth < path.size()) {
			Point &p = path[depth]; bool same = p.nopt == n; for (int i = 0; same && i < n; i++) same = p.opt[i] == opt[i];
			if (!same) { nondet = true; fprintf(stderr, "scheduler: replay diverged\n"); _exit(9); }
			pick = p.chosen; spent = p.before + p.cost[pick]; depth++;
		} else {
			uint64_t h = 1469598103934665603ULL; for (int t = 0; t < NT; t++) h = hmix(h, thr[t].h * 32 + thr[t].st + (thr[t].st == Thr::YIELD && thr[t].yseen == writes ? 8 : 0) + (thr[t].ylast == writes ? 16 : 0));
			uint64_t key = hmix(h, (uint64_t) cur * 2 + (ce && !free_switch)); state(key);
			auto it = visited.find(key);
			if (it != visited.end() && it->second <= spent) prune();
			visited[key] = spent;
			Point p; p.nopt = n; p.chosen = 0; p.before = spent; for (int i = 0; i < n; i++) { p.opt[i] = opt[i]; p.cost[i] = (ce && !free_switch && opt[i] != cur) ? 1 : 0; }
			path.push_back(p); depth++; spent += p.cost[0];
		}
		S->points++; step();
	}
	int t = opt[pick];
	if (thr[t].st == Thr::YIELD || thr[t].st == Thr::LOCK || thr[t].st == Thr::JOIN) thr[t].st = Thr::READY;
	go(t);
}

// ------------------------------------------------------------------ accesses
static void heap_check(const void *a, size_t n, bool w, void *pc)
{
	if (!in_arena(a) || aborting) return;
	size_t o = (unsigned char *) a - arena;
	for (size_t i = 0; i < n; i++) if (shadow[o + i] != 1) { aborting = true;
		violation("%s of %zu bytes %s, at %s%s", w ? "write" : "read", n, shadow[o + i] == 2 ? "in a block that was already freed or reallocated" : "outside every allocated block", symb((uint64_t) pc).c_str(), ""); }
}
static void event(uint64_t key, bool w, int s)
{
	Cell *c = cell(key); Thr &t = thr[cur]; unsigned char me = 1 << cur;
	bool conf = w ? ((c->rmask | c->wmask) & ~me) : (c->wmask & ~me);
	if (s >= 0) {
		if (c->hot) flag(s);
		else { bool have = false; for (int i = 0; i < c->ns; i++) have |= c->s[i] == s; if (!have && c->ns < 6) c->s[c->ns++] = s; 
			if (conf) { c->hot = 1; for (int i = 0; i < c->ns; i++) flag(c->s[i]); flag(s); } }
	}
	uint64_t e = hmix(t.h, (uint64_t) (s + 2) * 2 + w); e = hmix(e, c->lw); if (w) e = hmix(e, c->rd);
	t.h = e;
	if (w) { c->wmask |= me; c->lw = e; c->rd = 0; if (conf || c->hot) writes++; } else { c->rmask |= me; c->rd += e; }
}
// busy waiting without a fence: after very many points without any change the thread is made to give way
static void yield_();
static uint64_t spin_w; static int spin_n, spin_t;
static void spin() { if (spin_w != writes || spin_t != cur) { spin_w = writes; spin_t = cur; spin_n = 0; } if (++spin_n > 500) { spin_n = 0; thr[cur].ylast = writes; yield_(); } }
static inline void access(const void *a, size_t n, bool w, void *pc)
{
	heap_check(a, n, w, pc);
	if (!in_region) return;
	int s = site((uint64_t) pc);
	if (sites[s].conflict) { spin(); point(false); heap_check(a, n, w, pc); }
	event((uint64_t) a, w, s);
}
static void range(const void *a, size_t n, bool w, void *pc)
{
	if (n == 0) return;
	heap_check(a, n, w, pc);
	if (!in_region) return;
	int s = site((uint64_t) pc);
	if (sites[s].conflict) { point(false); heap_check(a, n, w, pc); }
	for (size_t i = 0; i < n; i += 4) event((uint64_t) a + i, w, s);
}
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define RW(n) void __tsan_read##n(void *a) { access(a, n, false, PC); } void __tsan_write##n(void *a) { access(a, n, true, PC); } \
	void __tsan_unaligned_read##n(void *a) { access(a, n, false, PC); } void __tsan_unaligned_write##n(void *a) { access(a, n, true, PC); } \
	void __tsan_volatile_read##n(void *a) { access(a, n, false, PC); } void __tsan_volatile_write##n(void *a) { access(a, n, true, PC); } \
	void __tsan_read##n##_pc(void *a, void *pc) { access(a, n, false, pc); } void __tsan_write##n##_pc(void *a, void *pc) { access(a, n, true, pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { range(a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { range(a, n, true, PC); }
#define AT(b, T) \
	T __tsan_atomic##b##_load(const volatile T *a, int) { access((const void *) a, sizeof(T), false, PC); return *a; } \
	void __tsan_atomic##b##_store(volatile T *a, T v, int) { access((const void *) a, sizeof(T), true, PC); *a = v; } \
	T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { access((const void *) a, sizeof(T), true, PC); T o = *a; *a = v; return o; } \
	T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { access((const void *) a, sizeof(T), true, PC); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { access((const void *) a, sizeof(T), true, PC); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { access((const void *) a, sizeof(T), true, PC); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { access((const void *) a, sizeof(T), true, PC); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { access((const void *) a, sizeof(T), true, PC); T o = *a; *a = o ^ v; return o; } \
	T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { access((const void *) a, sizeof(T), true, PC); T o = *a; *a = ~(o & v); return o; } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { access((const void *) a, sizeof(T), true, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { access((const void *) a, sizeof(T), true, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T e, T v, int, int) { access((const void *) a, sizeof(T), true, PC); T o = *a; if (o == e) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
// a fence or yield: anybody may go on; a thread that yields again although nothing changed in between is spinning and
// waits until another thread changes something
}
static void yield_()
{
	if (!in_region || NT == 1) return;
	thr[cur].h = hmix(thr[cur].h, 0xF1);
	if (thr[cur].ylast != writes) { thr[cur].ylast = writes; point(true); return; }
	thr[cur].st = Thr::YIELD; thr[cur].yseen = writes; point(true); if (thr[cur].st == Thr::YIELD) thr[cur].st = Thr::READY; thr[cur].ylast = writes;
}
extern "C" {
void __tsan_atomic_thread_fence(int) { yield_(); }
void __tsan_atomic_signal_fence(int) {}
int mc_sched_yield(void) { yield_(); return 0; }
int mc_usleep(unsigned) { yield_(); return 0; }

// memory functions called by the library (built with -fno-builtin)
void *mc_memcpy(void *d, const void *s, size_t n) { range(s, n, false, PC); range(d, n, true, PC); return memmove(d, s, n); }
void *mc_memmove(void *d, const void *s, size_t n) { range(s, n, false, PC); range(d, n, true, PC); return memmove(d, s, n); }
void *mc_memset(void *d, int c, size_t n) { range(d, n, true, PC); return memset(d, c, n); }

extern int mc_fill;
static void *take(size_t n)
{
	if (n > (size_t) 1 << 28) { errno = ENOMEM; return NULL; }
	if (apos + n + 128 > ARENA) violation("memory runaway: the library allocated more than %zu MB in one case", ARENA >> 20);
	size_t o = apos; apos = (apos + n + 32 + 31) & ~(size_t) 31;
	memset(shadow + o, 1, n); memset(arena + o, mc_fill, n); blocks[o] = n; return arena + o;
}
void *mc_malloc(size_t n) { return take(n); }
void *mc_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return NULL; void *p = take(n); if (p) memset(p, 0, n); return p; }
void mc_free(void *p)
{
	if (!p) return;
	if (!in_arena(p)) { free(p); return; }
	size_t o = (unsigned char *) p - arena; auto it = blocks.find(o); if (it == blocks.end()) violation("free of a pointer that is not a live block, at %s", symb((uint64_t) PC).c_str());
	range(p, it->second, true, PC);       // giving the block back conflicts with every access to it
	it = blocks.find(o); if (it == blocks.end()) violation("double free, at %s", symb((uint64_t) PC).c_str());
	memset(shadow + o, 2, it->second); memset(arena + o, 0xdd, it->second); blocks.erase(it);
}
void *mc_realloc(void *q, size_t n)
{
	if (q && n == 0) { mc_free(q); return NULL; }
	if (!q) return take(n);
	size_t o = (unsigned char *) q - arena; if (!in_arena(q) || !blocks.count(o)) violation("realloc of a pointer that is not a live block, at %s", symb((uint64_t) PC).c_str());
	size_t old = blocks[o];
	range(q, old, false, PC);             // the copy
	void *p = take(n); if (!p) return NULL;
	memcpy(p, q, old < n ? old : n);
	range(q, old, true, PC);              // a write made between the copy and the release is lost
	if (!blocks.count(o)) violation("realloc: the block was released by another thread, at %s", symb((uint64_t) PC).c_str());
	memset(shadow + o, 2, old); memset(arena + o, 0xdd, old); blocks.erase(o); return p;
}
int mc_posix_memalign(void **pp, size_t, size_t n) { *pp = take(n); return *pp ? 0 : ENOMEM; }
void *mc_aligned_alloc(size_t, size_t n) { return take(n); }
// the shared random generator: an ordered operation of the history, but not a switching point
void mc_sched_rand_event() { if (in_region) event(1, true, -2); }

// ------------------------------------------------------------------ OpenMP
struct WS { bool init; long next, end, incr, chunk; bool guided; long piece; };
static void ws_init(WS &w, long s, long e, long inc, long chunk, bool g) { w.init = true; w.next = s; w.end = e; w.incr = inc; w.chunk = chunk; w.guided = g; long tot = inc > 0 ? (e - s + inc - 1) / inc : (s - e - inc - 1) / -inc; w.piece = max_pieces ? (tot + max_pieces - 1) / max_pieces : 1; }
static WS ws[64]; static unsigned long long ws_key(int k) { return 0x1000 + k * 8; }
static int g_single[64];

}
extern char __start_spasmdata[] __attribute__((weak)), __stop_spasmdata[] __attribute__((weak)), __start_spasmbss[] __attribute__((weak)), __stop_spasmbss[] __attribute__((weak));
static char *stack_base;
// identity of the whole state once the region is over: library memory, statics, the stack of the caller (garbage
// included: two states that hash equal are equal), random source
static void __attribute__((noinline)) wipe_stack() { volatile char b[48 << 10]; memset((void *) b, 0, sizeof b); asm volatile("" : : "r"(b) : "memory"); }   // no leftovers in the holes of later frames
static uint64_t __attribute__((noinline)) memory_hash()
{
	__builtin_unwind_init(); char *sp; asm volatile("mov %%rsp,%0" : "=r"(sp));
	uint64_t h = mc_rand_state(); h = hash_bytes(arena, apos, h); h = hash_bytes(shadow, apos, h); h = hash_bytes(sp, stack_base - sp, h);
	if (__start_spasmdata) h = hash_bytes(__start_spasmdata, __stop_spasmdata - __start_spasmdata, h);
	if (__start_spasmbss) h = hash_bytes(__start_spasmbss, __stop_spasmbss - __start_spasmbss, h);
	return h;
}
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned)
{
	int n = num ? (int) num : cfg_threads; if (n > MAXT) n = MAXT;
	if (in_region || !exploring || n <= 1) { fn(data); return; }
	NT = n; if (++epoch == 0) { memset(cells, 0, NC * sizeof(Cell)); epoch = 1; } ncell = 0;
	static uint64_t region_no; region_no++;
	uint64_t seed = hmix(thr[0].h, 0xA11);
	reg_fn = fn; reg_data = data; cur = 0; barrier_in = 0; memset(ws, 0, sizeof ws); memset(g_single, 0, sizeof g_single);
	for (int t = 0; t < NT; t++) { Thr &x = thr[t]; x.st = t ? Thr::NEW : Thr::READY; x.h = hmix(seed, t); x.wsn = 0; x.lock = NULL; x.yseen = 0; x.ylast = ~0ULL;
		if (t) { if (!x.stack) x.stack = (char *) mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			void **sp = (void **) (x.stack + STK - 64); *--sp = NULL; *--sp = (void *) mc_entry; for (int i = 0; i < 6; i++) *--sp = NULL; x.sp = sp; } }
	in_region = true;
	point(true);
	fn(data);
	thr[0].st = Thr::JOIN; writes++; thr[0].h = hmix(thr[0].h, 0xD1);
	if (NT > 1) point(true);
	in_region = false; NT = 1; cur = 0; wipe_stack(); thr[0].h = memory_hash();
}
void GOMP_barrier(void)
{
	if (!in_region || NT == 1) return;
	thr[cur].h = hmix(thr[cur].h, 0xBA);
	if (++barrier_in == NT) {
		uint64_t s = 0; for (int t = 0; t < NT; t++) s += thr[t].h; barrier_in = 0; writes++;
		for (int t = 0; t < NT; t++) { if (thr[t].st == Thr::BARRIER) thr[t].st = Thr::READY; thr[t].h = hmix(hmix(s, t), 0xBB); }
		if (++epoch == 0) { memset(cells, 0, NC * sizeof(Cell)); epoch = 1; } ncell = 0;
		point(true);
	} else { thr[cur].st = Thr::BARRIER; point(true); }
}
static int lk_default, lk_atomic; static std::unordered_map<void *, int> lk;      // 0 free, else held
static void lock(int *l, uint64_t key)
{
	if (!in_region || NT == 1) { return; }
	point(false);
	while (*l) { thr[cur].st = Thr::LOCK; thr[cur].lock = l; point(true); thr[cur].st = Thr::READY; }
	*l = 1 + cur; event(key, true, -1); writes++;
}
static void unlock(int *l, uint64_t key) { if (!in_region || NT == 1) return; if (*l != 1 + cur) violation("a lock is released by a thread that does not hold it"); *l = 0; event(key, true, -1); writes++; point(false); }
void GOMP_critical_start(void) { lock(&lk_default, 0x10); }
void GOMP_critical_end(void) { unlock(&lk_default, 0x10); }
void GOMP_critical_name_start(void **p) { lock(&lk[p], (uint64_t) p); }
void GOMP_critical_name_end(void **p) { unlock(&lk[p], (uint64_t) p); }
void GOMP_atomic_start(void) { lock(&lk_atomic, 0x18); }
void GOMP_atomic_end(void) { unlock(&lk_atomic, 0x18); }
void omp_init_lock(omp_lock_t *p) { lk[p] = 0; }
void omp_destroy_lock(omp_lock_t *) {}
void omp_set_lock(omp_lock_t *p) { lock(&lk[p], (uint64_t) p); }
void omp_unset_lock(omp_lock_t *p) { unlock(&lk[p], (uint64_t) p); }
int omp_test_lock(omp_lock_t *p) { if (!in_region) return 1; point(false); if (lk[p]) { event((uint64_t) p, false, -1); return 0; } lk[p] = 1 + cur; event((uint64_t) p, true, -1); writes++; return 1; }

static long pl_s, pl_e, pl_i, pl_c; static bool pl_g, pl_pending; static void (*pl_fn)(void *); static void *pl_d;
static bool ws_next(long *a, long *b)
{
	if (!in_region) { if (!pl_pending) return false; pl_pending = false; *a = pl_s; *b = pl_e; return pl_i > 0 ? pl_s < pl_e : pl_s > pl_e; }
	WS &w = ws[thr[cur].wsn & 63];
	point(true);                                      // who takes the next piece of work is a free choice
	event(ws_key(thr[cur].wsn & 63), true, -3); writes++;
	long left = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr;
	if (left <= 0) return false;
	long c = chunk1 ? (max_pieces ? std::max(1L, w.piece) : 1) : w.guided ? std::max(w.chunk, (left + NT - 1) / NT) : std::max(1L, w.chunk); if (c > left) c = left;
	*a = w.next; w.next += c * w.incr; *b = w.next; if (w.incr > 0 ? *b > w.end : *b < w.end) *b = w.end; return true;
}
static bool ws_start(long s, long e, long inc, long chunk, bool guided, long *a, long *b)
{
	if (!in_region) { *a = s; *b = e; return inc > 0 ? s < e : s > e; }
	thr[cur].wsn++; WS &w = ws[thr[cur].wsn & 63];
	if (!w.init) ws_init(w, s, e, inc, chunk, guided);
	return ws_next(a, b);
}
#define LOOP(nm, g) bool GOMP_loop_##nm##_start(long s, long e, long i, long c, long *a, long *b) { return ws_start(s, e, i, c, g, a, b); } bool GOMP_loop_##nm##_next(long *a, long *b) { return ws_next(a, b); }
LOOP(dynamic, false) LOOP(guided, true) LOOP(nonmonotonic_dynamic, false) LOOP(nonmonotonic_guided, true)
#define LOOPR(nm) bool GOMP_loop_##nm##_start(long s, long e, long i, long *a, long *b) { return ws_start(s, e, i, 1, false, a, b); } bool GOMP_loop_##nm##_next(long *a, long *b) { return ws_next(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
bool GOMP_loop_static_start(long s, long e, long i, long c, long *a, long *b) { return ws_start(s, e, i, c ? c : 1, false, a, b); }
bool GOMP_loop_static_next(long *a, long *b) { return ws_next(a, b); }
#define ULL(nm, g) bool GOMP_loop_ull_##nm##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { (void) up; return ws_start(s, e, i, c, g, (long *) a, (long *) b); } bool GOMP_loop_ull_##nm##_next(unsigned long long *a, unsigned long long *b) { return ws_next((long *) a, (long *) b); }
ULL(dynamic, false) ULL(guided, true) ULL(nonmonotonic_dynamic, false) ULL(nonmonotonic_guided, true)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
static void pl_tramp(void *d) { (void) d; if (in_region) { thr[cur].wsn++; WS &w = ws[thr[cur].wsn & 63]; if (!w.init) ws_init(w, pl_s, pl_e, pl_i, pl_c, pl_g); } pl_fn(pl_d); }
static void pl(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, bool g) { pl_fn = fn; pl_d = d; pl_s = s; pl_e = e; pl_i = i; pl_c = c; pl_g = g; bool single = in_region || !exploring || (n ? (int) n : cfg_threads) <= 1; if (single) { if (in_region) { fprintf(stderr, "scheduler: nested combined loop\n"); _exit(9); } pl_pending = true; fn(d); return; } GOMP_parallel(pl_tramp, NULL, n, 0); }
#define PLOOP(nm, g) void GOMP_parallel_loop_##nm(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { pl(fn, d, n, s, e, i, c, g); }
#define PLOOPR(nm) void GOMP_parallel_loop_##nm(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { pl(fn, d, n, s, e, i, 1, false); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
PLOOP(dynamic, false) PLOOP(guided, true) PLOOP(static, false) PLOOP(nonmonotonic_dynamic, false) PLOOP(nonmonotonic_guided, true)
bool GOMP_single_start(void) { if (!in_region || NT == 1) return true; point(true); int k = ++thr[cur].wsn & 63; event(ws_key(k), true, -3); writes++; if (g_single[k]) return false; g_single[k] = 1; return true; }
static unsigned sec_at, sec_n;
unsigned GOMP_sections_start(unsigned n) { long a, b; if (!in_region) { sec_n = n; sec_at = n ? 1 : 0; return sec_at; } return ws_start(0, n, 1, 1, false, &a, &b) ? (unsigned) a + 1 : 0; }
unsigned GOMP_sections_next(void) { if (!in_region) return sec_at < sec_n ? ++sec_at : 0; long a, b; return ws_next(&a, &b) ? (unsigned) a + 1 : 0; }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned) { bool single = in_region || !exploring || (n ? (int) n : cfg_threads) <= 1; if (single) { if (in_region) { fprintf(stderr, "scheduler: nested combined sections\n"); _exit(9); } sec_n = count; sec_at = 0; fn(d); return; } pl_fn = fn; pl_d = d; pl_s = 0; pl_e = count; pl_i = 1; pl_c = 1; pl_g = false; GOMP_parallel(pl_tramp, NULL, n, 0); }
static void *g_copy[64];
void *GOMP_single_copy_start(void) { if (!in_region || NT == 1) return NULL; if (GOMP_single_start()) return NULL; int k = thr[cur].wsn & 63; GOMP_barrier(); event(ws_key(k), false, -4); return g_copy[k]; }
void GOMP_single_copy_end(void *d) { if (!in_region || NT == 1) return; int k = thr[cur].wsn & 63; g_copy[k] = d; event(ws_key(k), true, -4); writes++; GOMP_barrier(); }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { yield_(); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long, bool, unsigned, void **, int) { std::vector<char> b(sz + 64); char *q = b.data() + (64 - (uintptr_t) b.data() % 64) % 64; if (cpy) cpy(q, data); else memcpy(q, data, sz); fn(q); }
int omp_get_num_threads(void) { return in_region ? NT : 1; }
int omp_get_thread_num(void) { return in_region ? cur : 0; }
int omp_get_max_threads(void) { return cfg_threads; }
int omp_get_num_procs(void) { return cfg_threads; }
int omp_in_parallel(void) { return in_region; }
int omp_get_level(void) { return in_region; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime(void) { return 1; }
// the clock stands still: an execution depends on nothing but the schedule
int mc_gettimeofday(struct timeval *t, void *) { t->tv_sec = 1; t->tv_usec = 0; return 0; }
int mc_clock_gettime(clockid_t, struct timespec *t) { t->tv_sec = 1; t->tv_nsec = 0; return 0; }
time_t mc_time(time_t *t) { if (t) *t = 1; return 1; }
}

// the explorer's own variables stay out of the part of the stack that identifies a state
static void __attribute__((noinline)) call_run(const std::function<void()> &run) { stack_base = (char *) __builtin_frame_address(0); wipe_stack(); run(); asm volatile(""); }

SchedStats explore(const SchedOpt &o, const std::function<void()> &setup, const std::function<void()> &run, const std::function<void()> &check)
{
	SchedStats st; S = &st;
	if (!cells) cells = (Cell *) mmap(NULL, NC * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	static std::vector<char> d0, b0; static bool snap;
	if (!snap) { snap = true; if (__start_spasmdata) d0.assign(__start_spasmdata, __stop_spasmdata); if (__start_spasmbss) b0.assign(__start_spasmbss, __stop_spasmbss); }
	for (auto &s : sites) s.conflict = false;
	cfg_threads = o.threads; chunk1 = o.chunk1; max_pieces = o.max_pieces; bound = o.preemptions;
	path.clear(); visited.clear(); exploring = false;
	for (;;) {
		// one execution, following `path`
		if (!d0.empty()) memcpy(__start_spasmdata, d0.data(), d0.size());
		if (!b0.empty()) memcpy(__start_spasmbss, b0.data(), b0.size());
		arena_reset(); in_region = false; exploring = false; NT = 1; cur = 0; depth = 0; spent = 0; steps_in_exec = 0; writes = 0; idle_rounds = 0; spin_w = 0; spin_n = spin_t = 0; lk.clear(); lk_default = lk_atomic = 0; sites_changed = false;
		rand_lcg(12345);
		setup();
		thr[0].h = 1; exploring = true; st.executions++;
		volatile bool full = false; mc_heartbeat();
		if (setjmp(driver_jb) == 0) { call_run(run); full = true; }
		in_region = false; NT = 1; cur = 0;
		if (full) { mc_traces++; check(); }
		if (sites_changed) { path.clear(); visited.clear(); st.restarts++; continue; }     // more switching points: start again
		path.resize(depth); if (depth > st.maxdepth) st.maxdepth = depth;
		// next schedule
		bool more = false;
		while (!path.empty()) {
			Point &p = path.back(); int c = p.chosen + 1; while (c < p.nopt && p.before + p.cost[c] > bound) c++;
			if (c < p.nopt) { p.chosen = c; more = true; break; }
			path.pop_back();
		}
		if (!more) break;
		if (getenv("SCHED_TRACE") && st.executions % 20000 == 0) { std::string t = schedule_text(); fprintf(stderr, "%lu executions, %lu restarts, depth %zu, %zu conflict sites: %s\n", (unsigned long) st.executions, (unsigned long) st.restarts, depth, (size_t) std::count_if(sites.begin(), sites.end(), [](const Site &x) { return x.conflict; }), t.c_str()); for (auto &x : sites) if (x.conflict) fprintf(stderr, "   %s\n", symb(x.pc).c_str()); }
		if ((st.executions & 63) == 0 && mc_out_of_time()) break;
		if (st.executions >= o.max_exec) { st.truncated = true; break; }
	}
	exploring = false; return st;
}
