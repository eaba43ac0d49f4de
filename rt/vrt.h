// vrt: controlled-concurrency runtime for property-based testing of boost.fiber.
//
// All threads of a generated case are real pthreads, but exactly one of them
// runs at any time: every instrumented memory access, atomic operation and
// pthread/futex/time call is a point at which the runtime may hand the token to
// another thread.  All decisions (who runs, how time passes, what the program
// looks like) are taken from recorded choice streams, so a case is a pure
// function of its choices and can be replayed and shrunk.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
#include <cstdarg>

namespace vrt {

enum Stream { PROG = 0, SCHED = 1, TIME = 2, ALGO = 3, NSTREAM = 4 };

// ---- choices -------------------------------------------------------------
// value in [0,n); 0 is by convention the simplest choice
uint32_t draw(Stream s, uint32_t n);
// range helper, inclusive
inline int range(Stream s, int lo, int hi) { return lo + (int)draw(s, (uint32_t)(hi - lo + 1)); }
inline bool chance(Stream s, uint32_t num, uint32_t den) { return draw(s, den) >= den - num; } // false is simplest

// ---- result --------------------------------------------------------------
[[noreturn]] void fail(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
// report a violation that a known-findings entry may cover (class is the key)
[[noreturn]] void fail_as(const char * cls, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
void label(const char * name);             // classification counter
void nontrivial();                         // mark case as non-trivial by the scenario's rule
void note(const char * fmt, ...) __attribute__((format(printf, 1, 2)));  // human readable trace line
bool tracing();                            // is note() kept?

// ---- threads / time --------------------------------------------------------
struct Policy {
    uint64_t progress_limit = 4000000;      // points without harness progress => "no progress"
    bool allow_mem_preempt = true;
    bool spurious_cv = true;               // inject spurious condition-variable wakeups
    bool weak_cas = true;
};
Policy & policy();

int  spawn(std::function<void()> fn);      // create a virtual thread (before or during run)
void run();                                // coordinator: run all spawned threads to completion
int  tid();                                // current virtual thread or -1
void progress();                           // the harness observed progress
uint64_t now();                            // virtual ns since case start (no tick)
void on_idle(std::function<void()> fn);    // called (not preemptible) whenever every thread sleeps, before the clock is advanced; valid for the next run()
void busy(uint64_t ns);                    // current thread computes for ns (time passes)
void point();                              // explicit schedule point
void yield();                              // let others run
bool idle_only_time();                     // no tick, no overshoot drawn in this case
void set_time_mode(int m);                 // 0 idle-only,1 small ticks,2 +overshoot (default: drawn)
uint64_t steps();
uint64_t switches();                       // preemptive switches taken so far

void hb_sync(void const * a, bool acq, bool rel);        // harness-made synchronisation on a
void set_hb(bool on);                        // detect data races (happens-before)
bool hb();
void quiet(bool on);                         // no preemption except by blocking, yielding or after a long run (skips boring stretches)
struct NoPreempt { NoPreempt(); ~NoPreempt(); };
void event_begin(); 

// blocking primitive for harness (not a boost.fiber object)
void block_on(void const * addr);          // blocks current thread until wake_all(addr)
void wake_all(void const * addr);
void gate(int * have, int need, bool wait);   // atomic counter rendezvous

// ---- memory ----------------------------------------------------------------
struct HeapStat { uint64_t live_blocks, live_bytes, allocs; };
HeapStat heap();
void heap_untrack_begin(); void heap_untrack_end();
bool addr_live(void const * p, size_t n);
bool in_arena(void const * p);
std::string leak_report();

// fault injection: n-th allocation (>= min size) from now fails with bad_alloc / nullptr; 0 = off
void set_alloc_fault(uint64_t nth, size_t min_size);
bool alloc_fault_fired();

// virtual files for topology tests (see vfs.cpp)

// ---- engine internals -------------------------------------------------------
void case_setup(uint64_t seed, bool replay, const std::vector<std::vector<uint32_t>> * choices);
void case_finish();                        // after run(): leak accounting etc.

struct Shared;                             // parent/child shared memory
Shared * shared();

}
