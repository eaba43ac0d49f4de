#include "channel_prog.h"
using namespace cp;
static Params base() { Params p; p.close_bias = true; p.block_bias = true; return p; }
static void threads() { run_channel<Tracked>(base()); }
static void one_thread() { Params p = base(); p.max_threads = 1; p.max_prod = 5; p.max_cons = 5; run_channel<Tracked>(p); }
static void small() { Params p = base(); p.max_threads = 2; p.max_prod = 2; p.max_cons = 2; p.max_ops = 6; run_channel<Tracked>(p); }
static void timed() { Params p = base(); p.timed_bias = true; p.max_ops = 6; run_channel<Tracked>(p); }
static void migrating() { Params p = base(); static const int k[] = { S_SHARED, S_SHARED_SUSP, S_WS, S_WS_SUSP }; p.sched = k[draw(PROG, 4)]; run_channel<Tracked>(p); }
#define RULE "a value was received and two operations overlapped"
static void races() { race_channel<Tracked>(true); }
PBT_MAIN("C07",
    { "buf_close_races", races, 150000, 1500000, false, "operations of different threads overlapped twice" },
    { "close_threads", threads, 120000, 1200000, false, RULE },
    { "close_one_thread", one_thread, 60000, 600000, false, RULE },
    { "close_small", small, 120000, 1200000, false, RULE },
    { "close_timed", timed, 120000, 1200000, false, RULE },
    { "close_migrating", migrating, 4000, 60000, true, RULE })
