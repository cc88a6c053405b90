// Interface between scenarios (instrumented) and the model-checking runtime.
#pragma once
#include <cstdint>
#include <cstddef>

namespace mc {

using ns_t = long long;

// --- to be used inside a running scenario -------------------------------------------
/// Report a property violation and abandon this execution.
[[noreturn]] void fail(const char* category, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
/// Nondeterministic value in [0, n); all values are explored (no deviation cost).
int choose(int n, const char* what = "");
/// Scheduling points that stamp the begin/end of an operation in the global history; return
/// the step number. The order of begins among each other (and of ends among each other) is
/// not observable by interval-order oracles and thus treated as independent.
int log_begin();
int log_end();
/// Print a note in replay traces
void note(const char* fmt, ...);
/// Virtual clock at a given step / i-th clock advance
ns_t clock_at(int step);
int clock_events(int i, int* step, ns_t* t);
/// Current virtual time in ns since scenario start (no scheduling point).
ns_t now();
/// Register an additional instant at which the clock may stop.
void interesting_time(ns_t t);
/// Forget the not yet reached registered instants.
void clear_interesting_times();
/// Block until no other thread can run and the clock has reached `until`.
void wait_quiescent(ns_t until = 0);
/// Identity of current thread (0 = scenario main)
int self();
/// Number of threads that exist and have not finished.
int live_threads();
/// Blocked signals of current thread (bit set by signal number)
uint64_t blocked_signals();
/// Steps at which thread t called pthread_join for the first time (or -1)
int first_join_step(int t);
int step();
/// binary gate: waiters block until opened
struct Gate { void wait(); void open(); bool is_open() const { return opened; } bool opened = false; };
/// While such an object exists, the current thread has to proceed without waiting for time to pass or for
/// anything that only happens after all threads have come to rest.
struct Prompt { Prompt(const char* category, const char* what); ~Prompt(); Prompt(const Prompt&) = delete; };
/// Count of live heap allocations in this execution.
int live_allocations();
/// Raise "generic" (category-free) failures to a named category while set.
void set_fault_after(int n); ///< n-th allocation from now on throws bad_alloc (-1: off)
void fail_thread_creation_after(int n); ///< the creation of the n-th thread from now on fails (-1: off)
bool memory_alive(const void* p);
/// Happens-before edges for the harness's own data (no scheduling points)
void hb_release(const void* key);
void hb_acquire(const void* key);

// --- scenario registration --------------------------------------------------------
struct Job
{
    const char* name;
    int param[8];
    int bound;          // deviation bound (preemptions, early clock advances, ...)
    int spurious;       // number of spurious wakeups allowed
    long max_execs;     // cap (0: none)
};
typedef void (*ScenarioFn)(const int* param);
struct Scenario { const char* name; ScenarioFn fn; };

// Provided by the scenario file:
extern const Scenario scenarios[];
extern const int num_scenarios;
/// Fill jobs for (property, tier); returns count.
int make_jobs(const char* property, bool thorough, Job* out, int max);
/// Does a violation of `category` count for `property`?
bool category_matters(const char* property, const char* category);

} // namespace mc
