// Controlled scheduling of the threads of an execution.
//
// Sources compiled in mode "sched" call this runtime for every memory access, atomic operation and
// synchronisation call. Exactly one thread runs at a time; which one runs next is a decision drawn
// from the engine (continuing the running thread is free, preempting it costs one deviation).
// Plain accesses that are not ordered by synchronisation are reported as data races.
#pragma once
#include <cstdint>

namespace mc::sched {
// The calling thread becomes thread 0. At most `preemptions` preemptive switches are explored.
void Begin(int preemptions);
// Ends control. Threads other than the caller must have finished.
void End();
// A decision point; also lets the other threads run first when `yield` is set.
void Point();
void Yield();
// Number of scheduling points passed so far.
uint64_t PointCount();
// Data races are violations by default.
void ReportRaces(bool on);
// Counts every departure from round robin order as a deviation, also where the running thread waits (off by default):
// the bound of Begin is then a bound on delays.
void CountDelays(bool on);
// Waits returning without a signal cost one deviation when on (off by default).
void SpuriousWakeups(bool on);
// Bookkeeping of the harness itself: neither a decision point nor a shared access.
struct Hidden {
    Hidden();
    ~Hidden();
};
// Identity of the running thread (0 = main).
int Self();
}  // namespace mc::sched
