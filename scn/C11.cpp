#include "future_prog.h"
#include <cstring>
using namespace fp;
static int g_calls[128]; // target id -> calls
static void no_exc(const char * where) { vrt::NoPreempt np; CHECK(std::current_exception() == nullptr, "a fiber that handles no exception sees the exception of another fiber (%s)", where); }
struct St { Outcome o; bool ready = false; int target; };
typedef std::shared_ptr<St> SP;
// target: throws if a is divisible by 3
template<class K> struct Target {
    int id; Tracked t; explicit Target(int i) : id(i), t(i) {}
    typename K::R operator()(int a, Tracked b) { return call(a, b, K()); }
    void body(int a, Tracked & b) { { vrt::NoPreempt np; ++g_calls[id]; CHECK(t.id == id, "the target was moved away before the call"); t.use("called"); CHECK(b.id == a + 7, "argument %d arrived as %d", a + 7, b.id); } if (a % 3 == 0) throw Err{ a }; }
    Tracked call(int a, Tracked & b, KVal) { body(a, b); return Tracked(a); }
    MoveTracked call(int a, Tracked & b, KMove) { body(a, b); return MoveTracked(a); }
    int & call(int a, Tracked & b, KRef) { body(a, b); return g_refs[a & 4095]; }
    void call(int a, Tracked & b, KVoid) { body(a, b); }
};
template<class K> static Outcome expected(int a) { Outcome o; o.k = a % 3 == 0 ? EXC : VALUE; o.id = o.k == EXC || K::has_id ? a : 0; return o; }
template<class K> static void sequential() {
    world_reset(); g_alloc = AllocStat(); memset(g_calls, 0, sizeof g_calls);
    vrt::spawn([] {
        typedef typename K::R R; typedef bf::packaged_task<R(int, Tracked)> Task;
        struct P { Task p; SP s; bool obt = false; } p[3]; struct F { bf::future<R> f; SP s; } f[3];
        int n = range(PROG, 3, 40), next = 1, tid = 1, gets = 0, resets = 0;
        auto drop = [](P & x) { if (x.s && x.obt && !x.s->ready) { x.s->ready = true; x.s->o.k = BROKEN; } x.s.reset(); x.obt = false; };
        for (int i = 0; i < n; ++i) {
            P & a = p[draw(PROG, 3)]; P & b = p[draw(PROG, 3)]; F & g = f[draw(PROG, 3)];
            switch (draw(PROG, 12)) {
                case 0: case 1: { int how = (int)draw(PROG, 3), id = tid++; note("new task %d", id); if (how == 0) a.p = Task(Target<K>(id)); else if (how == 1) { Target<K> t(id); a.p = Task(std::allocator_arg, CountAlloc<int>(), t); CHECK(t.t.id == id, "constructing a task from an lvalue modified it"); } else { a.p = Task(std::allocator_arg, CountAlloc<int>(), Target<K>(id)); } drop(a); a.s = std::make_shared<St>(); a.s->target = id; break; }
                case 2: a.p = Task(); drop(a); note("task destroyed"); break;
                case 3: a.p = std::move(b.p); note("task moved"); if (&a != &b) { drop(a); a.s = b.s; a.obt = b.obt; b.s.reset(); b.obt = false; } break;
                case 4: if (draw(PROG, 2)) a.p.swap(b.p); else swap(a.p, b.p); std::swap(a.s, b.s); std::swap(a.obt, b.obt); note("tasks swapped"); break;
                case 5: case 6: { bf::future<R> x; int r = status_of([&] { x = a.p.get_future(); }); note("get_future -> %s", stname(r)); CHECK(r == (a.obt ? 3 : !a.s ? 2 : 0), "get_future reported %s", stname(r)); if (!r) { a.obt = true; g.f = std::move(x); g.s = a.s; } break; }
                case 7: case 8: { int arg = next++; int before = a.s ? g_calls[a.s->target] : 0; int r = status_of([&] { a.p(arg, Tracked(arg + 7)); }); note("invoke(%d) -> %s", arg, stname(r)); CHECK(r == (!a.s ? 2 : a.s->ready ? 1 : 0), "invoking a task %s reported %s", !a.s ? "without state" : a.s->ready ? "a second time" : "", stname(r)); no_exc("after an invocation");
                    if (!r) { a.s->ready = true; a.s->o = expected<K>(arg); CHECK(g_calls[a.s->target] == before + 1, "the target was called %d times by one invocation", g_calls[a.s->target] - before); } break; }
                case 9: { int r = status_of([&] { a.p.reset(); }); note("reset -> %s", stname(r)); CHECK(r == (a.s ? 0 : 2), "reset reported %s", stname(r)); if (!r) { int t = a.s->target; drop(a); a.s = std::make_shared<St>(); a.s->target = t; ++resets; } break; }
                default: if (g.s && !g.s->ready) { CHECK(g.f.wait_for(ns(0)) == bf::future_status::timeout, "the future of a task that has not run is ready"); break; }
                    int e; Outcome o = outcome_of([&] { return K::get(g.f); }, K::has_id, e); note("get -> %s", e ? stname(e) : oname(o)); CHECK(e == (g.s ? 0 : 2), "get reported %s", stname(e)); if (g.s) { CHECK(o == g.s->o, "the future delivered %s instead of %s", oname(o), oname(g.s->o)); ++gets; } g.s.reset();
            }
            for (auto & x : p) CHECK(x.p.valid() == !!x.s, "valid() of a task is wrong");
            for (auto & x : f) { CHECK(x.f.valid() == !!x.s, "valid() of a future is wrong"); if (x.s) CHECK((x.f.wait_for(ns(0)) == bf::future_status::ready) == x.s->ready, "a future is%s ready", x.s->ready ? " not" : ""); }
        }
        if (gets && resets) vrt::nontrivial();
    });
    vrt::run(); check_values_released(); CHECK(g_alloc.live == 0, "%lld states were not returned to their allocator", (long long)g_alloc.live);
    check_heap_released("after the task program");
}
// ---------------------------------------------------------------- tasks on other fibers/threads, async
struct StackStat { int64_t live = 0, total = 0; };
static StackStat g_stk;
struct CountStack { size_t size; typedef boost::context::stack_traits traits_type;
    explicit CountStack(size_t s) : size(s) {}
    boost::context::stack_context allocate() { { vrt::NoPreempt np; ++g_stk.live; ++g_stk.total; } bf::fixedsize_stack a(size); return a.allocate(); }
    void deallocate(boost::context::stack_context & c) noexcept { { vrt::NoPreempt np; --g_stk.live; } bf::fixedsize_stack a(size); a.deallocate(c); } };
template<class K> struct Job {
    int id; int how; bf::launch pol; int arg; int before; int64_t bd, inner; bool ignore; int wthread;
    int calls = 0; uint64_t ran = ~0ull, ret = ~0ull; bf::future<typename K::R> f; bool ready = false; uint64_t made = 0;
};
template<class K> struct Fn { // runs a job
    Job<K> * j; Tracked t;
    typename K::R operator()(int a, MoveTracked m) { body(a, m); return res(a, K()); }
    void body(int a, MoveTracked & m) {
        { vrt::NoPreempt np; ++j->calls; stamp(); t.use("called"); CHECK(a == j->arg && m.id == j->arg + 7, "task %d received wrong arguments", j->id); }
        no_exc("in a task");
        if (j->inner == -1) boost::this_fiber::yield(); else if (j->inner > 0) boost::this_fiber::sleep_for(ns(j->inner));
        no_exc("in a task after a suspension");
        { vrt::NoPreempt np; j->ran = stamp(); note("task %d %s", j->id, a % 3 == 0 ? "throws" : "returns"); }
        if (a % 3 == 0) throw Err{ a };
    }
    MoveTracked res(int a, KMove) { return MoveTracked(a); } Tracked res(int a, KVal) { return Tracked(a); } int & res(int a, KRef) { return g_refs[a & 4095]; } void res(int, KVoid) {}
};
enum { H_ASYNC, H_ASYNC_POL, H_ASYNC_STACK, H_ASYNC_ALLOC, H_FIBER, H_INVOKE, H_DROP };
template<class K> static void run_jobs(int maxT, int sched) {
    world_reset(); g_alloc = AllocStat(); g_stk = StackStat();
    typedef typename K::R R; typedef bf::packaged_task<R(int, MoveTracked)> Task;
    int T = range(PROG, 1, maxT), n = range(PROG, 1, 6); bool busy = draw(PROG, 3) == 2;
    std::vector<Job<K>> jobs(n); std::vector<std::vector<int>> mk(T), wt(T);
    for (int i = 0; i < n; ++i) { auto & j = jobs[i]; j.id = i; j.how = (int)draw(PROG, 7); j.pol = draw_launch(); j.arg = 3 * i + (int)draw(PROG, 3); j.before = (int)draw(PROG, busy ? 4 : 3); j.bd = j.before >= 2 ? (int64_t)draw_dur() : 0; j.inner = draw(PROG, 3) ? draw(PROG, 2) ? -1 : (int64_t)draw_dur() : 0; j.ignore = draw(PROG, 5) == 4; mk[draw(PROG, T)].push_back(i); j.wthread = (int)draw(PROG, T); if (!j.ignore) wt[j.wthread].push_back(i); }
    std::vector<ThreadPlan> plan = draw_plan(T); if (sched >= 0) for (auto & p : plan) { p.sched = sched; p.immediate_exit = false; }
    if (vrt::tracing()) { static const char * h[] = { "async", "async(policy)", "async(policy,stack)", "async(policy,stack,alloc)", "task in a fiber", "task invoked", "task dropped" }; for (int t = 0; t < T; ++t) { note("thread %d: %s", t, sched_name(plan[t].sched)); for (int i : mk[t]) note("  job %d: %s %s arg %d%s", i, h[jobs[i].how], jobs[i].pol == bf::launch::post ? "post" : "dispatch", jobs[i].arg, jobs[i].ignore ? " future ignored" : ""); for (int i : wt[t]) note("  waiter for job %d", i); } }
    int left = n; // detached fibers must end before their threads do anything final
    on_threads(T, plan, [&](int t) {
        std::vector<bf::fiber> fb;
        for (int i : wt[t]) fb.emplace_back(bf::launch::post, [&, i] {
            auto & j = jobs[i]; while (!([&] { vrt::NoPreempt np; vrt::hb_sync(&j.ready, true, false); return j.ready; }())) { no_exc("while polling"); boost::this_fiber::sleep_for(std::chrono::microseconds(300)); }
            stamp(); int e; Outcome o = outcome_of([&] { return K::get(j.f); }, K::has_id, e); { vrt::NoPreempt np; j.ret = stamp(); note("job %d delivered %s", i, oname(o)); }
            no_exc("after get");
            Outcome w = expected<K>(j.arg); if (j.how == H_DROP) { w.k = BROKEN; } CHECK(!e && o == w, "the future of job %d delivered %s instead of %s", i, e ? stname(e) : oname(o), oname(w)); if (j.how != H_DROP) CHECK(j.ran < j.ret, "job %d: get returned before the function ended", i);
        });
        for (int i : mk[t]) fb.emplace_back(jobs[i].pol, [&, i] {
            auto & j = jobs[i];
            switch (j.before) { case 1: boost::this_fiber::yield(); stamp(); break; case 2: boost::this_fiber::sleep_for(ns(j.bd)); stamp(); break; case 3: vrt::busy(j.bd); stamp(); break; }
            bf::future<R> f; bool first = false; Fn<K> fn{ &j, Tracked(i) };
            switch (j.how) {
                case H_ASYNC: f = bf::async(std::move(fn), j.arg, MoveTracked(j.arg + 7)); break;
                case H_ASYNC_POL: f = bf::async(j.pol, fn, j.arg, MoveTracked(j.arg + 7)); first = true; break;
                case H_ASYNC_STACK: f = bf::async(j.pol, std::allocator_arg, CountStack(16384), fn, j.arg, MoveTracked(j.arg + 7)); first = true; break;
                case H_ASYNC_ALLOC: f = bf::async(j.pol, std::allocator_arg, CountStack(16384), CountAlloc<int>(), fn, j.arg, MoveTracked(j.arg + 7)); first = true; break;
                default: {
                    Task task = draw(PROG, 2) ? Task(fn) : Task(std::allocator_arg, CountAlloc<int>(), fn);
                    f = task.get_future();
                    if (j.how != H_FIBER) break;
                    { vrt::NoPreempt np; j.f = std::move(f); j.ready = true; vrt::hb_sync(&j.ready, false, true); } bf::fiber x(j.pol, std::move(task), j.arg, MoveTracked(j.arg + 7)); if (j.inner & 1) x.join(); else x.detach(); return; }
            }
            if (first && sched < 0) { int c; { vrt::NoPreempt np; c = j.calls; } if (j.pol == bf::launch::dispatch) CHECK(c == 1, "async with launch::dispatch returned before the function was started"); else CHECK(c == 0, "async with launch::post started the function at once"); }
            if (j.how == H_INVOKE) { Task task(fn); f = task.get_future(); { vrt::NoPreempt np; if (j.ignore) {} else { j.f = std::move(f); j.ready = true; vrt::hb_sync(&j.ready, false, true); } } task(j.arg, MoveTracked(j.arg + 7)); no_exc("after an invocation"); return; }
            if (j.ignore) return; // the future is destroyed here
            vrt::NoPreempt np; j.f = std::move(f); j.ready = true; vrt::hb_sync(&j.ready, false, true); note("job %d started", i);
        });
        for (auto & x : fb) x.join();
        // jobs nobody waits for: keep the scheduler running until they are done
        if (sched >= 0 || !plan[t].immediate_exit) for (;;) { bool all = true; { vrt::NoPreempt np; for (int i : mk[t]) if ((jobs[i].how != H_DROP && jobs[i].ran == ~0ull) || (!jobs[i].ignore && jobs[i].ret == ~0ull)) all = false; if (sched >= 0) for (auto & j : jobs) if (j.how != H_DROP && j.ran == ~0ull) all = false; } if (all) break; boost::this_fiber::sleep_for(std::chrono::microseconds(500)); }
    });
    (void)left;
    int thr = 0; for (auto & j : jobs) { CHECK(j.calls == (j.how == H_DROP ? 0 : 1), "the function of job %d was called %d times", j.id, j.calls); if (j.how != H_DROP) CHECK(j.ran != ~0ull, "job %d was never completed", j.id); if (j.ignore) vrt::label("future ignored"); if (j.arg % 3 == 0) { ++thr; vrt::label("throws"); } if (j.how == H_DROP) vrt::label("task dropped"); }
    if (n > 1 && (T > 1 || thr)) vrt::nontrivial();
    vrt::spawn([&] { jobs.clear(); }); vrt::run();
    check_values_released(); if (sched < 0) { CHECK(g_alloc.live == 0, "%lld states were not returned to their allocator", (long long)g_alloc.live); CHECK(g_stk.live == 0, "%lld stacks were not returned to their allocator", (long long)g_stk.live); check_heap_released("after the task program"); }
}
static void jv() { run_jobs<KVal>(3, -1); } static void jr() { run_jobs<KRef>(3, -1); } static void jw() { run_jobs<KVoid>(3, -1); }
static void one() { switch (draw(PROG, 4)) { case 3: run_jobs<KMove>(2, -1); break; case 0: run_jobs<KVal>(1, -1); break; case 1: run_jobs<KRef>(1, -1); break; default: run_jobs<KVoid>(1, -1); } }
static void migrating() { static const int k[] = { S_SHARED, S_WS, S_WS_SUSP }; int s = k[draw(PROG, 3)]; if (draw(PROG, 2)) run_jobs<KVal>(3, s); else run_jobs<KVoid>(3, s); }
#define R1 "results were obtained and tasks were reset"
#define R2 "several tasks on several threads, or one that throws"
PBT_MAIN("C11",
    { "seq_value", sequential<KVal>, 100000, 1000000, false, R1 }, { "seq_reference", sequential<KRef>, 52000, 520000, false, R1 }, { "seq_move_only", sequential<KMove>, 52000, 520000, false, R1 }, { "seq_void", sequential<KVoid>, 52000, 520000, false, R1 },
    { "jobs_value", jv, 180000, 1800000, false, R2 }, { "jobs_reference", jr, 70000, 700000, false, R2 }, { "jobs_void", jw, 180000, 1800000, false, R2 }, { "jobs_various", one, 52000, 520000, false, R2 },
    { "jobs_migrating", migrating, 5500, 60000, true, R2 })
