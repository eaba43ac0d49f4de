#include "world.h"
using namespace w;
enum Op { SLEEP_FOR, SLEEP_UNTIL, SLEEP_SYS, YIELD, BUSY, CVWAIT, NOTIFY, NOTIFY_ALL, TMUTEX, FUT };
static const char * on[] = { "sleep_for", "sleep_until", "sleep_until(system)", "yield", "busy", "wait_for", "notify_one", "notify_all", "try_lock_for", "future" };
struct Rec { int fib, thread; uint64_t b, e = 0, dl; uint64_t bs, es = ~0ull; bool conv, pure; };
struct H {
    std::vector<Rec> r; bool exact;
    size_t begin(int fib, int t, int64_t d, bool conv, uint64_t t0) { vrt::NoPreempt np; Rec x; x.fib = fib; x.thread = t; x.b = t0; x.dl = d > 0 ? t0 + d : t0; x.bs = stamp(); x.conv = conv; x.pure = true; r.push_back(x); note("fiber %d sleeps until %s", fib, ms(x.dl)); return r.size() - 1; }
    void end(size_t i) {
        vrt::NoPreempt np; Rec & x = r[i]; x.e = vrt::now(); x.es = stamp(); note("fiber %d awake", x.fib);
        if (!x.conv || exact) CHECK(x.e >= x.dl, "fiber %d woke at %s, before its deadline %s", x.fib, ms(x.e), ms(x.dl));
        if (exact) CHECK(x.e == x.dl, "fiber %d woke at %s although its deadline was %s and the processor was free", x.fib, ms(x.e), ms(x.dl));
    }
};
struct Fib { int id; bf::launch pol; std::vector<std::pair<int, int64_t>> ops; };
static void run_sleep(int maxT, int maxF, int maxOps, bool many, int sched) {
    world_reset(); int T = range(PROG, 1, maxT); bool busy = draw(PROG, 3) == 2; bool grid = draw(PROG, 2);
    std::vector<std::vector<Fib>> prog(T); int id = 0;
    for (int t = 0; t < T; ++t) { int F = range(PROG, many ? 8 : 1, maxF); for (int f = 0; f < F; ++f) {
        Fib x; x.id = ++id; x.pol = draw_launch(); int n = range(PROG, 1, maxOps);
        for (int k = 0; k < n; ++k) { uint32_t c = draw(PROG, 16); int o = c < 4 ? SLEEP_FOR : c < 7 ? SLEEP_UNTIL : c < 8 ? SLEEP_SYS : c < 9 ? YIELD : c < 10 ? (busy ? BUSY : SLEEP_FOR) : c < 12 ? CVWAIT : c < 13 ? NOTIFY : c < 14 ? NOTIFY_ALL : c < 15 ? TMUTEX : FUT;
            if (many && draw(PROG, 2)) o = SLEEP_UNTIL;
            int64_t d = grid ? (int64_t)draw(PROG, 12) * 1000000 : (int64_t)draw_dur(); if (draw(PROG, 12) == 11) d = -5000000; if (draw(PROG, 24) == 23) d = 3600ll * 1000000000; x.ops.push_back({ o, d }); }
        prog[t].push_back(x); } }
    std::vector<ThreadPlan> plan = draw_plan(T); bool rr = sched < 0; if (sched < 0 && draw(PROG, 2)) for (auto & p : plan) p.sched = S_DEFAULT; if (sched >= 0) for (auto & p : plan) { p.sched = sched; p.immediate_exit = false; }
    for (auto & p : plan) if (p.sched == S_CHAOS) rr = false;
    if (vrt::tracing()) for (int t = 0; t < T; ++t) { note("thread %d: %s", t, sched_name(plan[t].sched)); for (auto & f : prog[t]) { std::string s; for (auto & o : f.ops) s += std::string(" ") + on[o.first] + "/" + std::to_string(o.second); note("  fiber %d:%s", f.id, s.c_str()); } }
    H h; h.exact = !busy && vrt::idle_only_time() && sched < 0;
    struct Sh { bf::condition_variable cv; bf::mutex m; bf::timed_mutex tm; std::vector<std::unique_ptr<bf::promise<void>>> p; } * sh = nullptr;
    vrt::spawn([&] { sh = new Sh(); }); vrt::run();
    on_threads(T, plan, [&](int t) {
        std::vector<bf::fiber> fs;
        for (auto & f : prog[t]) fs.emplace_back(f.pol, [&, t, pf = &f] {
            for (auto & o : pf->ops) { int64_t d = o.second; uint64_t t0 = vrt::now(); size_t i;
                switch (o.first) {
                    case SLEEP_FOR: i = h.begin(pf->id, t, d, false, t0); if (d % 1000000 == 0) boost::this_fiber::sleep_for(std::chrono::milliseconds(d / 1000000)); else boost::this_fiber::sleep_for(ns(d)); h.end(i); break;
                    case SLEEP_UNTIL: { auto tp = Clock::now() + ns(d); i = h.begin(pf->id, t, d, false, t0); boost::this_fiber::sleep_until(tp); h.end(i); break; }
                    case SLEEP_SYS: { auto tp = std::chrono::system_clock::now() + ns(d); i = h.begin(pf->id, t, d, true, t0); boost::this_fiber::sleep_until(tp); h.end(i); break; }
                    case YIELD: boost::this_fiber::yield(); stamp(); break;
                    case BUSY: vrt::busy(d > 0 && d < 1000000000 ? d : 1000); stamp(); break;
                    case CVWAIT: { std::unique_lock<bf::mutex> lk(sh->m); sh->cv.wait_for(lk, ns(d)); stamp(); break; }
                    case NOTIFY: sh->cv.notify_one(); stamp(); break;
                    case NOTIFY_ALL: sh->cv.notify_all(); stamp(); break;
                    case TMUTEX: if (sh->tm.try_lock_for(ns(d > 1000000000 ? 1000000000 : d))) { boost::this_fiber::sleep_for(std::chrono::milliseconds(2)); sh->tm.unlock(); } stamp(); break;
                    case FUT: { bf::promise<void> p; auto fu = p.get_future(); CHECK(fu.wait_for(ns(d > 1000000000 ? 1000000 : d)) == bf::future_status::timeout, "a wait for a result nobody stores succeeded"); stamp(); break; }
                }
            }
        });
        for (auto & f : fs) f.join();
    });
    // deadline order among the sleepers of one thread (round robin only: other algorithms may reorder ready fibers)
    size_t conc = 0;
    for (auto & a : h.r) for (auto & b : h.r) if (&a != &b && a.thread == b.thread && !a.conv && !b.conv && a.bs < b.es && b.bs < a.es) {
        ++conc;
        // h.begin is called before the fiber enters the queue: what counts is that a surely was in the queue before b became ready
        if (rr && a.dl < b.dl && a.b < b.dl && !busy && vrt::idle_only_time()) CHECK(a.es < b.es, "fiber %d (deadline %s) woke before fiber %d (deadline %s) of the same thread", b.fib, ms(b.dl), a.fib, ms(a.dl));
    }
    if (conc >= 2) vrt::nontrivial(); if (conc > 40) vrt::label("many concurrent sleepers"); if (h.exact) vrt::label("exact time");
    vrt::spawn([&] { delete sh; }); vrt::run();
    if (sched < 0) check_heap_released("after the sleeps");
}
static void threads() { run_sleep(3, 5, 5, false, -1); }
static void one() { run_sleep(1, 8, 6, false, -1); }
static void many() { run_sleep(1, 30, 4, true, -1); }
static void migrating() { static const int k[] = { S_SHARED, S_WS, S_WS_SUSP }; run_sleep(3, 4, 3, false, k[draw(PROG, 3)]); }
#define RULE "sleeps of several fibers of a thread overlapped"
PBT_MAIN("C14",
    { "sleep_threads", threads, 120000, 1200000, false, RULE },
    { "sleep_one_thread", one, 80000, 800000, false, RULE },
    { "sleep_many", many, 40000, 400000, false, RULE },
    { "sleep_migrating", migrating, 4000, 60000, true, RULE })
