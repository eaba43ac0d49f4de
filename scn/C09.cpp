#include "channel_prog.h"
using namespace cp;
static Params base() { Params p; p.buffered = false; p.close_bias = true; p.block_bias = true; return p; }
static void threads() { run_channel<Tracked>(base()); }
static void one_thread() { Params p = base(); p.max_threads = 1; p.max_prod = 5; p.max_cons = 5; run_channel<Tracked>(p); }
static void small() { Params p = base(); p.max_threads = 2; p.max_prod = 2; p.max_cons = 2; p.max_ops = 6; run_channel<Tracked>(p); }
static void timed() { Params p = base(); p.timed_bias = true; p.max_ops = 6; run_channel<Tracked>(p); }
static void migrating() { Params p = base(); static const int k[] = { S_SHARED, S_SHARED_SUSP, S_WS, S_WS_SUSP }; p.sched = k[draw(PROG, 4)]; run_channel<Tracked>(p); }
#define RULE "a value was handed over and two operations overlapped"
static void races() { race_channel<Tracked>(false); }
PBT_MAIN("C09",
    { "unbuf_close_races", races, 150000, 1500000, false, "operations of different threads overlapped twice" },
    { "unbuf_close_threads", threads, 150000, 1500000, false, RULE },
    { "unbuf_close_one_thread", one_thread, 75000, 750000, false, RULE },
    { "unbuf_close_small", small, 150000, 1500000, false, RULE },
    { "unbuf_close_timed", timed, 150000, 1500000, false, RULE },
    { "unbuf_close_migrating", migrating, 4500, 60000, true, RULE })
