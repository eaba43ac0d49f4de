#include "channel_prog.h"
using namespace cp;
static void threads() { Params p; p.buffered = false; run_channel<Tracked>(p); }
static void one_thread() { Params p; p.buffered = false; p.max_threads = 1; p.max_prod = 4; p.max_cons = 4; run_channel<Tracked>(p); }
static void small() { Params p; p.buffered = false; p.max_threads = 2; p.max_prod = 2; p.max_cons = 2; p.max_ops = 3; p.timed_bias = true; p.close_bias = true; run_channel<Tracked>(p); }
static void migrating() { Params p; p.buffered = false; static const int k[] = { S_SHARED, S_SHARED_SUSP, S_WS, S_WS_SUSP }; p.sched = k[draw(PROG, 4)]; run_channel<Tracked>(p); }
#define RULE "a value was handed over and two operations overlapped"
static void races() { race_channel<Tracked>(false); }
PBT_MAIN("C08",
    { "unbuf_races", races, 150000, 1500000, false, "operations of different threads overlapped twice" },
    { "unbuf_threads", threads, 96000, 960000, false, RULE },
    { "unbuf_one_thread", one_thread, 48000, 480000, false, RULE },
    { "unbuf_small", small, 96000, 960000, false, RULE },
    { "unbuf_migrating", migrating, 8000, 80000, true, RULE })
