#include "mig_prog.h"
#include "numa_world.h"
#include <algorithm>
#include <thread>
static void shared_() { run_shared(S_SHARED, 4, 10, 50); } static void shared_susp() { run_shared(S_SHARED_SUSP, 4, 10, 50); }
static void ws() { run_shared(S_WS, 4, 10, 50); } static void ws_susp() { run_shared(S_WS_SUSP, 4, 10, 50); }
static void ws_many() { run_shared(draw(PROG, 2) ? S_WS : S_WS_SUSP, 3, 24, 90); } static void sh_many() { run_shared(draw(PROG, 2) ? S_SHARED : S_SHARED_SUSP, 6, 24, 90); }
static void numa_case(bool susp, int maxT) { // work stealing that prefers processors of the same NUMA node
    static NumaWorld nw; int T = range(PROG, 1, maxT); nw.gen(T);
    run_shared(susp ? S_WS_SUSP : S_WS, -T, 12, 60, [susp](int t) { nw.install(t, susp); }, nullptr, false);
}
static void numa_spin() { numa_case(false, 4); } static void numa_susp() { numa_case(true, 4); }
static void ws_wrap() { // the ring buffers of the ready queues are about to wrap around when the program starts
    int T = range(PROG, 2, 4), kind = draw(PROG, 2) ? S_WS : S_WS_SUSP, base = draw(PROG, 3) ? 2048 : 4096; static int skip[8]; for (int t = 0; t < T; ++t) skip[t] = t == 0 || draw(PROG, 2) ? base - 1 - (int)draw(PROG, 64) : 0;
    run_shared(kind, -T, 8, 50, [T, kind](int t) { install(kind, T); vrt::quiet(true); for (int r = 0; r < skip[t]; ++r) { boost::this_fiber::yield(); vrt::progress(); } vrt::quiet(false); note("the thread has yielded %d times", skip[t]); }, nullptr, false);
}
// fibers that are always ready pass a token around a ring and look for it by yielding: each of them has to get its turn
static void polls() {
    world_reset(); static const int K[] = { S_SHARED, S_WS, S_SHARED_SUSP, S_WS_SUSP }; int kind = K[draw(PROG, 4)], T = range(PROG, 1, 3), n = range(PROG, 2, 5), rounds = range(PROG, 1, 3), token = 0, spread = 0; std::vector<std::vector<int>> on(T); std::vector<std::thread::id> last(n); int moved = 0;
    for (int i = 0; i < n; ++i) on[draw(PROG, T)].push_back(i); for (auto & x : on) if (!x.empty()) ++spread; if (draw(PROG, 2)) for (auto & x : on) std::reverse(x.begin(), x.end());
    std::vector<ThreadPlan> plan(T); for (auto & p : plan) p.sched = kind; bf::launch pol = draw_launch(); if (kind == S_SHARED || kind == S_SHARED_SUSP) pol = bf::launch::post; // shared_work prefers ready fibers to the main fiber that still has to launch the others
    on_threads(T, plan, [&](int t) { std::vector<bf::fiber> fs;
        for (int i : on[t]) fs.emplace_back(pol, [&, i] { for (int r = 0; r < rounds; ++r) {
            for (;;) { { vrt::NoPreempt np; if (token % n == i) { ++token; note("fiber %d has the token (%d)", i, token); break; } } boost::this_fiber::yield(); }
            vrt::NoPreempt np; stamp(); if (r && last[i] != std::this_thread::get_id()) ++moved; last[i] = std::this_thread::get_id(); } });
        for (auto & f : fs) f.join(); });
    CHECK(token == n * rounds, "internal"); if (n > 2 && rounds > 1) vrt::nontrivial(); if (spread > 1) vrt::label("several threads"); if (moved) vrt::label("migrated");
}
#define RULE "fibers were resumed at least twice on a thread other than the one they last ran on"
PBT_MAIN("C16",
    { "shared_work", shared_, 3000, 60000, true, RULE }, { "shared_work_suspending", shared_susp, 9000, 60000, true, RULE },
    { "work_stealing", ws, 2000, 60000, true, RULE }, { "work_stealing_suspending", ws_susp, 9000, 60000, true, RULE },
    { "shared_work_many_fibers", sh_many, 1000, 20000, true, RULE }, { "work_stealing_many_fibers", ws_many, 1000, 20000, true, RULE },
    { "work_stealing_wraparound", ws_wrap, 400, 6000, true, RULE },
    { "polling_fibers", polls, 1500, 20000, true, "three or more fibers passed the token around more than once" },
    { "numa_work_stealing", numa_spin, 1500, 40000, true, RULE }, { "numa_work_stealing_suspending", numa_susp, 6000, 40000, true, RULE })
