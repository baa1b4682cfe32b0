// sched.hpp - exploring the interleavings of the real code.
//
// The harness and the library are compiled with -fsanitize=thread, which makes every memory access, atomic operation and
// function-static initialisation call a hook; none of gcc's runtime libraries for it (libtsan, libgomp) is linked.  omprt.cpp
// defines those hooks, the OpenMP runtime and the pthread primitives: real threads, of which exactly one holds the token and
// runs.  The token changes hands only at scheduling points, so an execution is determined by its list of decisions.
//
// Scheduling points are: every access to a location on which two accesses of different threads, at least one of them a write
// and unordered by happens-before, have been seen in any explored execution of this configuration; every atomic operation,
// lock, critical, single, work-sharing chunk request and static initialisation while at least two threads are alive; and
// every blocking operation and thread end.  Accesses that conflict with nothing commute with everything, so interleavings
// that differ only in them are equivalent.  When a newly seen conflict adds a point, the exploration starts over with it.
//
// The exploration of the decisions is exhaustive up to a bound on preemptions (teams of at most 3) or on delays with respect
// to the round-robin order (larger teams).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {
struct Config {
    int max_threads = 1;          // what omp_get_max_threads() says
    int deliver = 1000;           // the largest team the runtime delivers
    int active_levels = 1;        // nested parallel regions that get more than one thread
    int bound = 2;
    bool delays = false;          // bound delays instead of preemptions
    int max_schedules = 4000;
};
struct Outcome {
    int status = 0;               // 0: finished; otherwise see msg
    std::string msg;
    std::vector<double> vals;
    std::vector<int> decisions;   // the schedule
};
struct Stats { uint64_t schedules = 0, points = 0, accesses = 0, conflicts = 0, restarts = 0, threads = 0; bool capped = false; };
using Sink = std::vector<double>;
// runs body under every schedule within the bound; judge is called with every outcome (it throws to stop)
Stats explore(const Config& c, const std::function<void(Sink&)>& body, const std::function<void(const Outcome&)>& judge);
// one execution, default schedule
Outcome once(const Config& c, const std::function<void(Sink&)>& body);
}
