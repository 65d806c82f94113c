// Exploration runtime shared by all sequential harnesses.
//
// A harness registers FAMILIES: finite, indexed spaces of executions (case index -> one execution of
// the real library code, compared with a reference).  The runtime enumerates every index of every
// family, spread over forked shards, detects crashes / hangs / reports, replays before reporting and
// counts what was covered.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>
extern "C" {
#include "spasm.h"
}

typedef std::function<void(uint64_t)> CaseFn;

struct FamilyOpt { bool thorough_only = false; double hang_s = 0; const char *note = ""; };
void family(const std::string &name, uint64_t count, CaseFn fn, FamilyOpt opt = FamilyOpt());
bool tier_thorough();
bool replaying();

// a harness defines this one
void harness_register();
extern const char *harness_property;
extern const char *harness_assumptions[];   // NULL terminated

// ---- reporting from inside a case
[[noreturn]] void violation(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define EXPECT(c, ...) do { if (!(c)) violation(__VA_ARGS__); } while (0)
void describe_clear();
void describe(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // text kept for sample/replay
extern uint64_t mc_transitions, mc_traces;
inline void step(uint64_t k = 1) { mc_transitions += k; }    // one call into the library
void state(uint64_t h);                                       // one observed state (hash of it)
void outcome(const char *name);                               // class of outcome (counted, few names)
bool want_sample();
bool mc_out_of_time();                                        // the time of the whole run is over: give the case up
void mc_heartbeat();                                          // the case is long but alive
uint64_t mc_rand_state();
size_t mc_live_blocks(std::string *what);           // blocks the library holds at this moment

uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0x9E3779B97F4A7C15ULL);
inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 29); }

// ---- environment of the library code (malloc/rand/err/... of /repo objects are routed here)
extern "C" {
extern int mc_fill;                 // byte pattern put in fresh memory
extern long mc_alloc_count;         // number of allocations so far (this case)
extern long mc_alloc_fail_at, mc_alloc_fail_at2; // k-th allocation fails (1-based), 0 = never
extern int mc_trace_allocs;                       // remember who asks for memory
extern int mc_huge_ok;                            // requests above 256 MB succeed (lazily)
extern long mc_alloc_failed;        // how many failures were delivered
}
void rand_script(const std::vector<int> &answers, bool cycle = false);  // answers of rand(); then LCG, or cycle
void rand_lcg(uint32_t seed);
long rand_calls();

// ---- calling code that may legitimately report an error
struct Outcome { enum K { OK, ERR, EXIT, ASSERT, ABORT } kind = OK; int code = 0; char msg[400] = ""; 
	bool reported() const { return kind == ERR || (kind == EXIT && code != 0); } 
	const char *name() const { static const char *n[] = {"ok", "err", "exit", "assert", "abort"}; return n[kind]; } };
typedef void (*GuardFn)(void *);
Outcome guarded_raw(GuardFn fn, void *arg);
template <class F> Outcome guarded(F f) { return guarded_raw([](void *a) { (*(F *) a)(); }, &f); }
