#include "mutex_prog.h"
using namespace mp;
static void threads() { Params p; run_program(p); }
static void one_thread() { Params p; p.max_threads = 1; p.max_fibers = 6; p.max_ops = 10; run_program(p); }
static void small() { Params p; p.max_threads = 2; p.max_fibers = 2; p.max_ops = 5; p.max_mutexes = 1; run_program(p); }
static void migrating() { Params p; static const int k[] = { S_SHARED, S_SHARED_SUSP, S_WS, S_WS_SUSP }; p.sched = k[draw(PROG, 4)]; run_program(p); }
PBT_MAIN("C01",
    { "mutex_threads", threads, 220000, 2200000, false, "some acquire ran while another fiber held or wanted the same mutex" },
    { "mutex_one_thread", one_thread, 110000, 1100000, false, "some acquire ran while another fiber held or wanted the same mutex" },
    { "mutex_small", small, 220000, 2200000, false, "some acquire ran while another fiber held or wanted the same mutex" },
    { "mutex_migrating", migrating, 16000, 160000, true, "some acquire ran while another fiber held or wanted the same mutex" })
