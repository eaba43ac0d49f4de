#include "world.h"
using namespace w;
// Exact model of the ready queue of one thread: the fibers run in the order in which they became ready.
enum Op { YIELD, SPAWN, JOIN, SET, GET, LOCK, NOTIFY, CWAIT };
struct Spec { int parent; bf::launch pol; int ctor; std::vector<std::pair<Op, int>> ops; };
struct Model {
    std::deque<int> q; int running = 0; int thread; int starts = 0, runs = 0, maxq = 0;
    void ready(int f) { for (int x : q) CHECK(x != f, "internal: queued twice"); q.push_back(f); maxq = std::max(maxq, (int)q.size()); }
    void leave() { running = -1; }
    std::string str() { std::string s; for (int x : q) s += " " + std::to_string(x); return s; }
    void resumed(int f) { vrt::NoPreempt np; stamp(); ++runs; CHECK(running == -1, "fiber %d runs while fiber %d has not given way", f, running); CHECK(!q.empty() && q.front() == f, "thread %d: fiber %d runs although the ready fibers became ready in the order%s", thread, f, str().c_str()); q.pop_front(); running = f; note("thread %d: fiber %d resumes", thread, f); }
};
struct Prog {
    std::vector<Spec> s; Model m; std::vector<bf::fiber> h; std::vector<int> ended, waiting_join, waiting_get, set; std::vector<bf::promise<int>> p; std::vector<bf::future<int>> f; int incoming = -1;
    std::vector<int> order;
    void spawn(int me, int k) {
        Spec & x = s[k]; bool disp = x.pol == bf::launch::dispatch;
        { vrt::NoPreempt np; note("thread %d: fiber %d launches %d (%s)", m.thread, me, k, disp ? "dispatch" : "post"); if (disp) { m.ready(me); m.leave(); incoming = k; } else m.ready(k); }
        auto fn = [this, k] { body(k); };
        bf::fiber g = x.ctor == 0 && !disp ? bf::fiber(fn) : x.ctor == 1 ? bf::fiber(x.pol, std::allocator_arg, bf::fixedsize_stack(16384), fn) : bf::fiber(x.pol, fn);
        { vrt::NoPreempt np; h[k] = std::move(g); }
        if (disp) m.resumed(me); else CHECK(m.running == me, "a fiber launched with launch::post ran before its creator gave way");
    }
    void body(int k) {
        if (s[k].pol == bf::launch::dispatch) { vrt::NoPreempt np; stamp(); ++m.runs; CHECK(incoming == k && m.running == -1, "a fiber launched with dispatch did not run at once"); incoming = -1; m.running = k; note("thread %d: fiber %d starts", m.thread, k); } else { CHECK(incoming == -1, "fiber %d was launched with dispatch but fiber %d ran first", incoming, k); m.resumed(k); }
        ops(k);
        { vrt::NoPreempt np; stamp(); note("thread %d: fiber %d ends", m.thread, k); ended[k] = 1; if (waiting_join[k] >= 0) m.ready(waiting_join[k]); m.leave(); }
    }
    void ops(int k) {
        for (auto & o : s[k].ops) {
            CHECK(m.running == k, "fiber %d runs while fiber %d has not given way", k, m.running);
            switch (o.first) {
                case YIELD: { { vrt::NoPreempt np; m.ready(k); m.leave(); note("thread %d: fiber %d yields", m.thread, k); } boost::this_fiber::yield(); m.resumed(k); break; }
                case SPAWN: spawn(k, o.second); break;
                case JOIN: { bool b; { vrt::NoPreempt np; if (!h[o.second].joinable()) break; b = !ended[o.second]; if (b) { waiting_join[o.second] = k; m.leave(); } note("thread %d: fiber %d joins %d", m.thread, k, o.second); } bf::fiber x(std::move(h[o.second])); x.join(); if (b) m.resumed(k); break; }
                case SET: { { vrt::NoPreempt np; set[o.second] = 1; if (waiting_get[o.second] >= 0) m.ready(waiting_get[o.second]); note("thread %d: fiber %d sets %d", m.thread, k, o.second); } p[o.second].set_value(7); break; }
                case GET: { bool b; { vrt::NoPreempt np; b = !set[o.second]; if (b) { waiting_get[o.second] = k; m.leave(); } note("thread %d: fiber %d gets %d", m.thread, k, o.second); } if (draw(PROG, 2)) f[o.second].wait(); else CHECK(f[o.second].get() == 7, "value"); if (b) m.resumed(k); break; }
                default: break;
            }
        }
    }
};
static void run_order(int maxT) {
    world_reset(); int T = range(PROG, 1, maxT);
    std::vector<Prog> P(T); std::vector<ThreadPlan> plan(T);
    for (int t = 0; t < T; ++t) {
        Prog & p = P[t]; p.m.thread = t; plan[t].sched = draw(PROG, 3) ? S_DEFAULT : S_RR; plan[t].immediate_exit = draw(PROG, 2);
        int n = range(PROG, 2, 9), np = range(PROG, 0, 3);
        for (int i = 0; i < n; ++i) { Spec x; x.parent = i ? (int)draw(PROG, i) : -1; x.pol = draw_launch(); x.ctor = (int)draw(PROG, 3); p.s.push_back(x); } // fiber 0: main
        for (int i = 0; i < n; ++i) {
            auto & o = p.s[i].ops; std::vector<int> kids; for (int k = i + 1; k < n; ++k) if (p.s[k].parent == i) kids.push_back(k);
            for (int k : kids) { int y = (int)draw(PROG, 3); while (y-- > 0) o.push_back({ YIELD, 0 }); o.push_back({ SPAWN, k }); }
            int y = range(PROG, 0, 4); while (y-- > 0) o.push_back({ YIELD, 0 });
        }
        for (int k = 0; k < np && n > 2; ++k) { int a = (int)draw(PROG, n - 1), b = a + 1 + (int)draw(PROG, n - 1 - a); p.s[a].ops.push_back({ GET, k }); auto & o = p.s[b].ops; o.insert(o.begin() + draw(PROG, (uint32_t)o.size() + 1), { SET, k }); }
        for (int i = 0; i < n; ++i) { auto & o = p.s[i].ops; for (int k = i + 1; k < n; ++k) if (p.s[k].parent == i) o.push_back({ JOIN, k }); int y = (int)draw(PROG, 3); while (y-- > 0) o.push_back({ YIELD, 0 }); }
        p.h.resize(n); p.ended.assign(n, 0); p.waiting_join.assign(n, -1); p.waiting_get.assign(np, -1); p.set.assign(np, 0);
        // a SET placed before a fiber's launches must not be a wait: it never blocks
    }
    on_threads(T, plan, [&](int t) {
        Prog & p = P[t]; size_t np = p.set.size();
        for (size_t i = 0; i < np; ++i) { bf::promise<int> x; bf::future<int> f = x.get_future(); vrt::NoPreempt n; p.p.push_back(std::move(x)); p.f.push_back(std::move(f)); }
        { vrt::NoPreempt n; p.m.running = 0; }
        p.ops(0);
        for (size_t k = 1; k < p.s.size(); ++k) CHECK(p.ended[k], "fiber %zu did not end", k);
        p.p.clear(); p.f.clear(); // within the thread
    });
    int runs = 0, mq = 0; for (auto & p : P) { runs += p.m.runs; mq = std::max(mq, p.m.maxq); }
    if (mq >= 3) vrt::nontrivial(); if (mq >= 5) vrt::label("five or more fibers ready"); if (T > 1) vrt::label("several threads");
    P.clear(); check_heap_released("after the program");
}
static void one() { run_order(1); }
static void many() { run_order(3); }
// interval check: between two runs of a fiber every other ready fiber runs (yield storms)
static void fairness() {
    world_reset();
    vrt::spawn([] {
        int n = range(PROG, 2, 40), k = range(PROG, 1, 20); install(draw(PROG, 2) ? S_RR : S_DEFAULT, 1); std::vector<int> cnt(n, 0), seq; seq.reserve(n * k); std::vector<bf::fiber> f;
        for (int i = 0; i < n; ++i) f.emplace_back(bf::launch::post, [&, i] { for (int j = 0; j < k; ++j) { ++cnt[i]; seq.push_back(i); stamp(); boost::this_fiber::yield(); for (int m = 0; m < n; ++m) CHECK(cnt[m] >= j + 1, "fiber %d runs a second time before fiber %d has run", i, m); } });
        for (auto & x : f) x.join();
        for (int i = 0; i < (int)seq.size(); ++i) CHECK(seq[i] == i % n, "round %d: fiber %d ran in place of fiber %d", i / n, seq[i], i % n);
        vrt::nontrivial();
    });
    vrt::run();
}
// Fibers made ready by other threads: the order of the wake-ups is the order of running, and a wake-up that
// returned before another one began comes first.  All fibers are blocked before the first wake-up, so each is resumed by its wake-up.
static void remote_wakes() {
    world_reset(); int n = range(PROG, 2, 10), S = range(PROG, 1, 3), rounds = range(PROG, 1, 3), kind = (int)draw(PROG, 3); bool blockmain = draw(PROG, 2); uint64_t comp = draw(PROG, 2) ? draw_dur() : 0;
    struct Ev { std::unique_ptr<bf::promise<int>> p; bf::mutex m; bf::condition_variable c; bool set = false; uint64_t b = 0, e = 0, run = 0; };
    std::vector<std::vector<std::unique_ptr<Ev>>> ev(rounds); std::vector<std::vector<bf::future<int>>> fut(rounds);
    std::vector<std::vector<std::vector<int>>> who(rounds); std::vector<std::vector<uint64_t>> gap(rounds);
    for (int r = 0; r < rounds; ++r) {
        for (int i = 0; i < n; ++i) { ev[r].emplace_back(new Ev); ev[r].back()->p.reset(new bf::promise<int>); fut[r].push_back(ev[r].back()->p->get_future()); gap[r].push_back(draw(PROG, 3) ? 0 : draw_dur()); }
        std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[draw(PROG, i + 1)]);
        who[r].resize(S); for (int i : perm) who[r][draw(PROG, S)].push_back(i);
    }
    std::vector<std::unique_ptr<Gate>> go; for (int r = 0; r < rounds; ++r) go.emplace_back(new Gate(S + 1));
    for (int k = 0; k < S; ++k) vrt::spawn([&, k] {
        for (int r = 0; r < rounds; ++r) { go[r]->arrive_and_wait();
            for (int i : who[r][k]) { if (gap[r][i]) vrt::busy(gap[r][i]); Ev & e = *ev[r][i]; e.b = stamp();
                if (kind == 0) e.p->set_value(i); else { { std::unique_lock<bf::mutex> lk(e.m); e.set = true; } if (kind == 1) e.c.notify_one(); else e.c.notify_all(); }
                e.e = stamp(); } }
    });
    vrt::spawn([&] {
        install(draw(PROG, 3) ? S_DEFAULT : S_RR, 1); std::vector<bf::fiber> f; int waiting = 0, done = 0;
        for (int i = 0; i < n; ++i) f.emplace_back(draw_launch(), [&, i] { for (int r = 0; r < rounds; ++r) {
            Ev & e = *ev[r][i]; if (kind == 0) { ++waiting; CHECK(fut[r][i].get() == i, "value"); } else { std::unique_lock<bf::mutex> lk(e.m); ++waiting; while (!e.set) e.c.wait(lk); }
            e.run = stamp(); ++done; { vrt::NoPreempt np; note("fiber %d resumes in round %d", i, r); } while (done < (r + 1) * n) boost::this_fiber::yield(); } });
        for (int r = 0; r < rounds; ++r) {
            while (waiting < (r + 1) * n) boost::this_fiber::yield();
            boost::this_fiber::yield(); boost::this_fiber::yield();
            go[r]->arrive(); if (comp) vrt::busy(comp);
            if (blockmain) boost::this_fiber::sleep_for(ns(draw_dur())); while (done < (r + 1) * n) { stamp(); boost::this_fiber::yield(); }
        }
        for (auto & x : f) x.join();
    });
    vrt::run();
    int most = 0;
    for (int r = 0; r < rounds; ++r) {
        for (int i = 0; i < n; ++i) { int waitingThen = 0; for (int j = 0; j < n; ++j) { if (i == j) continue; Ev & a = *ev[r][i], & b = *ev[r][j];
            if (a.e < b.b) { CHECK(a.run < b.run, "round %d: fiber %d was made ready by another thread before fiber %d, but ran after it", r, i, j); if (b.e < a.run) ++waitingThen; } }
            most = std::max(most, waitingThen); }
    }
    if (most >= 1) vrt::nontrivial(); if (most >= 3) vrt::label("four or more wake-ups pending together"); if (S > 1) vrt::label("several waking threads");
    fut.clear(); ev.clear(); check_heap_released("after the program");
}
#define RULE "at least three fibers were ready at the same time"
PBT_MAIN("C13",
    { "order_one_thread", one, 600000, 6000000, false, RULE },
    { "order_threads", many, 200000, 2000000, false, RULE },
    { "order_rounds", fairness, 50000, 500000, false, "every case" },
    { "order_remote", remote_wakes, 100000, 1000000, false, "two or more wake-ups were pending when the first of them ran" })
