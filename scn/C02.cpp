#include "mutex_prog.h"
using namespace mp;
// progress oracle: (a) whenever every thread sleeps, no free mutex may have waiters;
// (b) the generated programs are deadlock-free, so each must terminate (deadlock/livelock detection of the runtime)
static void threads() { Params p; p.timed_bias = true; run_program(p); }
static void one_thread() { Params p; p.max_threads = 1; p.max_fibers = 6; p.max_ops = 8; p.timed_bias = true; p.max_mutexes = 2; run_program(p); }
static void small() { Params p; p.max_threads = 3; p.max_fibers = 2; p.max_ops = 4; p.max_mutexes = 1; p.timed_bias = true; p.probes = false; run_program(p); }
static void locks() { Params p; p.max_threads = 3; p.max_fibers = 2; p.max_ops = 6; p.max_mutexes = 1; p.busy = false; run_program(p); }
static void migrating() { Params p; static const int k[] = { S_SHARED, S_SHARED_SUSP, S_WS, S_WS_SUSP }; p.sched = k[draw(PROG, 4)]; p.timed_bias = true; run_program(p); }
#define RULE "some acquire ran while another fiber held or wanted the same mutex"
PBT_MAIN("C02",
    { "progress_threads", threads, 130000, 1300000, false, RULE },
    { "progress_one_thread", one_thread, 64000, 640000, false, RULE },
    { "progress_small", small, 130000, 1300000, false, RULE },
    { "progress_locks", locks, 130000, 1300000, false, RULE },
    { "progress_migrating", migrating, 10000, 100000, true, RULE })
