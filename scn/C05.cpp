#include "world.h"
using namespace w;
// Fibers call wait(); a cycle is the set of n arrivals between two releases.
struct Ret { int fib; uint64_t inv, ret; bool lead; };
struct B {
    bf::barrier b; int n; std::vector<Ret> r; uint64_t arrived = 0, returned = 0, leaders = 0; int blocked = 0;
    explicit B(int k) : b((size_t)k), n(k) {}
    void wait(int f) {
        size_t i; { vrt::NoPreempt np; Ret x; x.fib = f; x.inv = stamp(); x.ret = ~0ull; x.lead = false; r.push_back(x); i = r.size() - 1; ++arrived; note("fiber %d wait (arrival %llu)", f, (unsigned long long)arrived); }
        bool l = b.wait();
        { vrt::NoPreempt np; r[i].ret = stamp(); r[i].lead = l; ++returned; if (l) ++leaders; note("fiber %d   released%s", f, l ? " as leader" : "");
          // a return needs complete cycles: no more returns than n * (arrivals / n), no more leaders than cycles
          uint64_t cyc = arrived / n;
          CHECK(returned <= cyc * n, "%llu waits of a barrier for %d returned although only %llu fibers have arrived", (unsigned long long)returned, n, (unsigned long long)arrived);
          CHECK(leaders <= cyc, "%llu waits returned true in %llu cycles", (unsigned long long)leaders, (unsigned long long)cyc); }
    }
    void idle() { // every thread sleeps: every complete cycle has been released
        uint64_t cyc = arrived / n;
        CHECK(returned == cyc * n, "%llu fibers arrived at a barrier for %d but only %llu were released", (unsigned long long)arrived, n, (unsigned long long)returned);
        CHECK(leaders == cyc, "%llu waits returned true in %llu cycles", (unsigned long long)leaders, (unsigned long long)cyc);
    }
};
struct Fp { int cycles; bf::launch pol; int id; std::vector<std::pair<int, int64_t>> before; };
static void run_barrier(int maxT, int maxN, int sched, bool surplus) {
    world_reset();
    int T = range(PROG, 1, maxT), n = range(PROG, 1, maxN), C = range(PROG, 1, 5);
    // surplus: more fibers than n compete; m fibers with C waits each, m*C a multiple of n
    int m = n; if (surplus) { m = n + range(PROG, 0, 4); }
    int tickets = n * C;  // surplus: taken by whoever is free
    bool usebusy = draw(PROG, 2);
    std::vector<std::vector<Fp>> prog(T);
    for (int i = 0; i < m; ++i) {
        Fp f; f.cycles = C; f.pol = draw_launch(); f.id = i;
        for (int c = 0; c < C; ++c) { int k = (int)draw(PROG, 5); f.before.push_back({ k == 4 && !usebusy ? 0 : k, k >= 3 ? (int64_t)draw_dur() : 0 }); }
        prog[draw(PROG, T)].push_back(f);
    }
    std::vector<ThreadPlan> plan = draw_plan(T); if (sched >= 0) for (auto & p : plan) { p.sched = sched; p.immediate_exit = false; }
    if (vrt::tracing()) { note("barrier for %d, %d fibers, %d waits each, %d threads", n, m, C, T); for (int t = 0; t < T; ++t) note("thread %d: %s, %zu fibers", t, sched_name(plan[t].sched), prog[t].size()); }
    B * b = nullptr; int spread = 0; for (auto & p : prog) if (!p.empty()) ++spread;
    vrt::spawn([&] { b = new B(n); }); vrt::run();
    if (sched < 0) vrt::on_idle([&] { b->idle(); });
    std::vector<uint64_t> seen(m, 0);
    on_threads(T, plan, [&](int t) {
        std::vector<bf::fiber> fs;
        for (auto & f : prog[t]) fs.emplace_back(f.pol, [&, pf = &f] {
            for (int c = 0; surplus || c < pf->cycles; ++c) {
                if (surplus) { vrt::NoPreempt np; if (!tickets) break; --tickets; }
                auto & x = pf->before[c % pf->cycles];
                switch (x.first) { case 1: boost::this_fiber::yield(); stamp(); break; case 2: boost::this_fiber::yield(); boost::this_fiber::yield(); stamp(); break; case 3: boost::this_fiber::sleep_for(ns(x.second)); stamp(); break; case 4: vrt::busy(x.second); stamp(); break; }
                b->wait(pf->id);
                if (!surplus) { vrt::NoPreempt np; seen[pf->id] = (uint64_t)c + 1; for (int j = 0; j < m; ++j) CHECK(seen[j] + 1 >= seen[pf->id] && seen[j] <= seen[pf->id] + 1, "fiber %d is in cycle %llu while fiber %d is in cycle %llu", pf->id, (unsigned long long)seen[pf->id], j, (unsigned long long)seen[j]); }
            }
        });
        for (auto & f : fs) f.join();
    });
    b->idle();
    // with exactly n fibers: exactly one leader in every cycle
    if (!surplus) { std::vector<std::vector<Ret>> per(m); for (auto & x : b->r) per[x.fib].push_back(x); for (int c = 0; c < C; ++c) { int l = 0; uint64_t last_inv = 0, first_ret = ~0ull; for (auto & v : per) { l += v[c].lead; last_inv = std::max(last_inv, v[c].inv); first_ret = std::min(first_ret, v[c].ret); } CHECK(l == 1, "cycle %d has %d leaders", c, l); CHECK(last_inv < first_ret, "cycle %d: a wait returned before the last arrival", c); } }
    if (n > 1 && b->arrived / n > 1) vrt::nontrivial();
    if (spread > 1) vrt::label("several threads"); if (n == 1) vrt::label("barrier for one"); if (vrt::switches()) vrt::label("preempted");
    vrt::spawn([&] { delete b; }); vrt::run();
    if (sched < 0) check_heap_released("after the barrier program");
}
static void threads() { run_barrier(4, 6, -1, false); }
static void one() { run_barrier(1, 8, -1, false); }
static void surplus() { run_barrier(3, 4, -1, true); }
static void migrating() { static const int k[] = { S_SHARED, S_WS, S_WS_SUSP }; run_barrier(3, 5, k[draw(PROG, 3)], draw(PROG, 2)); }
static void counts() {
    world_reset();
    vrt::spawn([] {
        size_t n = (size_t[]){ 0, 1, 2, 3, 7, 100, 4096, ~size_t(0) }[draw(PROG, 8)];
        try { bf::barrier b(n); CHECK(n != 0, "a barrier for zero fibers was accepted"); if (n == 1) for (int i = 0; i < 3; ++i) CHECK(b.wait(), "wait of a barrier for one returned false"); }
        catch (bf::fiber_error const & e) { CHECK(n == 0, "a barrier for %zu fibers was refused", n); CHECK(e.code() == std::errc::invalid_argument, "zero was refused with the wrong error"); vrt::nontrivial(); }
    });
    vrt::run();
}
#define RULE "a barrier for more than one fiber went through several cycles"
PBT_MAIN("C05",
    { "bar_threads", threads, 270000, 2700000, false, RULE },
    { "bar_one_thread", one, 90000, 900000, false, RULE },
    { "bar_surplus", surplus, 180000, 1800000, false, RULE },
    { "bar_counts", counts, 900, 9000, false, "the count zero was refused" },
    { "bar_migrating", migrating, 5000, 60000, true, RULE })
