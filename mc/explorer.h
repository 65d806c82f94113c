// Controlled scheduler: explores every interleaving (up to a preemption bound) of the library's OpenMP regions.
#pragma once
#include "ref.h"
#include <functional>

struct SchedOpt { int threads = 2, preemptions = 2; uint64_t max_exec = 2000000; bool chunk1 = true; int max_pieces = 0; /* 0: every iteration is a piece of work of its own; else a loop is handed out in at most that many pieces */ };
struct SchedStats { uint64_t executions = 0, pruned = 0, points = 0, restarts = 0, maxdepth = 0; bool truncated = false; };
// For every schedule: reset all library memory, setup() builds the inputs, run() calls the library (no C++ heap
// objects may live across it), check() judges the results.  A report of the library's error path is a violation.
SchedStats explore(const SchedOpt &o, const std::function<void()> &setup, const std::function<void()> &run, const std::function<void()> &check);
