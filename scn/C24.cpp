#include "signal_prog.h"
#include "numa_world.h"
static NumaWorld nw;
// --- an idle thread sleeps, and is woken in time
static void lazy(int kind, int maxT, int maxF, int maxS, bool numa = false) {
    static Sched sc; int T = range(PROG, kind == S_RR || kind == S_SHARED_SUSP ? 1 : numa ? 1 : 2, maxT); sc = Sched(); sc.lazy = true; sc.share = kind != S_RR; sc.name = numa ? "numa work_stealing(suspend)" : sched_name(kind);
    if (numa) { nw.gen(T); sc.inst = [](int t) { nw.install(t, true); }; }
    else { bool def = kind == S_RR && draw(PROG, 2); sc.inst = [kind, T, def](int) { if (!def) install(kind, T); }; }
    run_signals(-T, maxF, maxS, &sc);
}
static void lazy_rr() { lazy(S_RR, 4, 5, 8); } static void lazy_shared() { lazy(S_SHARED_SUSP, 4, 5, 8); } static void lazy_ws() { lazy(S_WS_SUSP, 4, 5, 8); } static void lazy_numa() { lazy(S_WS_SUSP, 4, 5, 8, true); }
// --- idle threads of a sharing scheduler run the fibers that wait behind one that hogs its thread
struct Take { int n = 0, done = 0, elsewhere = 0, hogs = 0; std::vector<int> t, ops; std::unique_ptr<bf::barrier> all; };
static Take * K;
static void take(int kind, int maxT, bool numa = false) {
    world_reset(); int T = range(PROG, 2, maxT); if (numa) nw.gen(T); K = new Take; Take & k = *K; k.n = range(PROG, 1, 8); k.hogs = range(PROG, 1, T - 1); for (int i = 0; i < k.n; ++i) k.ops.push_back((int)draw(PROG, 4)); int warm = (int)draw(PROG, 3), base = (int)draw(PROG, 2);
    note("%d threads, %d fibers hog their threads until %d others have ended", T, k.hogs, k.n);
    Gate up(T); vrt::spawn([T] { K->all.reset(new bf::barrier(T)); }); vrt::run();
    for (int t = 0; t < T; ++t) vrt::spawn([&, t] {
        if (numa) nw.install(t, false); else install(kind, T);
        for (int y = 0; y < warm; ++y) boost::this_fiber::yield();
        up.arrive_and_wait();
        std::vector<bf::fiber> fs;
        if (t == 0) {
            for (int h = 0; h < k.hogs; ++h) fs.emplace_back(bf::launch::post, [h] { int at; { vrt::NoPreempt np; at = vrt::tid(); note("fiber hogs thread %d", at); K->t.push_back(at); } for (;;) { { vrt::NoPreempt np; if (K->done == K->n) break; } vrt::yield(); } });
            for (int i = 0; i < k.n; ++i) fs.emplace_back(bf::launch::post, [i] { for (int y = 0; y < K->ops[i]; ++y) { boost::this_fiber::yield(); } vrt::NoPreempt np; stamp(); ++K->done; bool hog = false; for (int x : K->t) hog |= x == vrt::tid(); if (vrt::tid() != 0) ++K->elsewhere; CHECK(!hog, "internal: a hogged thread ran another fiber"); note("fiber %d ends on thread %d", i, vrt::tid()); });
        }
        for (auto & f : fs) f.join();
        k.all->wait();
    });
    vrt::run(); CHECK(k.done == k.n, "a fiber was lost");
    if (k.elsewhere >= 1 && k.t.size() && base >= 0) vrt::nontrivial(); if (k.hogs > 1) vrt::label("several threads are hogged");
    vrt::spawn([&] { delete K; }); vrt::run();
}
static void take_shared() { take(S_SHARED, 4); } static void take_ws() { take(S_WS, 4); } static void take_numa() { take(S_WS, 4, true); }
#define RULE "at least two signals were received by a fiber that was waiting already, some between threads"
#define RULE2 "a fiber was run by another thread than the one it was launched on while a fiber hogged its thread"
PBT_MAIN("C24",
    { "sleep_round_robin", lazy_rr, 60000, 900000, false, RULE }, { "sleep_shared_work", lazy_shared, 8000, 100000, true, RULE }, { "sleep_work_stealing", lazy_ws, 8000, 100000, true, RULE }, { "sleep_numa", lazy_numa, 6000, 80000, true, RULE },
    { "takeover_shared_work", take_shared, 2000, 20000, true, RULE2 }, { "takeover_work_stealing", take_ws, 2000, 20000, true, RULE2 }, { "takeover_numa", take_numa, 2000, 20000, true, RULE2 })
