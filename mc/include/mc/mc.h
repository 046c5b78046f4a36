// Exhaustive stateless exploration engine.
//
// A scenario is a function that draws every nondeterministic decision (inputs, operations,
// injected faults, crash points, thread schedules) from Choose(). The engine re-executes the
// scenario for every possible sequence of answers (depth-first, complete tree within the bounds
// the scenario itself states), so the scenario's checks are evaluated on every execution.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

// Draws a value in [0, n). Branches the search. Choose(1) is free.
int Choose(int n);
// Draws 0 at no cost, or 1..n-1 at a cost of one deviation. Once the deviation budget of the
// current execution is used up only 0 is explored.
int ChooseDev(int n);
void SetDeviationBound(int bound);
int DeviationsUsed();

inline bool ChooseBool() { return Choose(2) == 1; }
// Draws a value in [lo, hi].
inline int64_t ChooseRange(int64_t lo, int64_t hi) {
    return lo + Choose(static_cast<int>(hi - lo + 1));
}
template <typename T>
const T& Pick(const std::vector<T>& v) {
    return v[Choose(static_cast<int>(v.size()))];
}
template <typename T, size_t N>
const T& Pick(const T (&v)[N]) {
    return v[Choose(static_cast<int>(N))];
}

// Abandons the current execution (not counted as explored).
[[noreturn]] void Prune();
inline void Assume(bool cond) {
    if (!cond) Prune();
}

// Records that the current execution violates the property. `sig` identifies the kind of failure
// (stable across runs, used for the known-findings file), the rest describes it.
[[noreturn]] void Fail(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void FailStr(const char* sig, const std::string& msg);

// True while a listed known finding has the given signature.
bool IsKnown(const char* sig);
// Like Fail, except that a listed known finding is noted and the execution goes on.
void FailUnlessKnown(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

// Coverage accounting.
void State(uint64_t hash);           // a distinct state / input class that was reached
void Steps(uint64_t n = 1);          // transitions executed on the implementation
void Outcome(const std::string& s);  // label of an observed outcome (small set)
void Nontrivial();                   // the current execution exercised the property's premise
void TraceValidated();               // one model trace replayed against the implementation
void Log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // only in replay mode
bool Replaying();
bool Thorough();

// Hash helper.
struct Hash {
    uint64_t h = 1469598103934665603ULL;
    void Bytes(const void* p, size_t n) {
        auto* c = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; i++) {
            h ^= c[i];
            h *= 1099511628211ULL;
        }
    }
    Hash& U(uint64_t v) {
        Bytes(&v, sizeof(v));
        return *this;
    }
    Hash& S(const std::string& s) {
        U(s.size());
        Bytes(s.data(), s.size());
        return *this;
    }
};

// FORK: every execution runs in a process of its own (needed when it starts threads).
enum Tier { QUICK = 1, THOROUGH = 2, BOTH = 3, FORK = 4 };

struct Scenario {
    const char* name;
    void (*body)();
    int tiers;
    int split;        // number of leading choices used to divide the work between workers
    const char* doc;  // bounds, in words
};
struct Register {
    explicit Register(const Scenario& s);
};

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
// MC_SCENARIO(name, tiers, split, "bounds in words") { body }
#define MC_SCENARIO(name, tiers, split, doc)                                              \
    static void mc_body_##name();                                                         \
    static ::mc::Register MC_CAT(mc_reg_, name)({#name, &mc_body_##name, tiers, split, doc}); \
    static void mc_body_##name()

#define MC_CHECK(cond, sig, ...)                 \
    do {                                         \
        if (!(cond)) ::mc::Fail(sig, __VA_ARGS__); \
    } while (0)

// Unwinds an execution; never catch it in a scenario.
struct Unwind {};

int Main(int argc, char** argv);

// Called by the scheduler runtime on failure inside a worker thread of an execution: records the
// failure and ends the process (the driver replays it).
void SetAbortOnFail(bool on);

}  // namespace mc
