#pragma once
#include "world.h"
using namespace w;
// Programs over fibers that migrate between threads.  Operations are generated in one
// linear order in which every wait follows its signal, so no program can dead-lock by itself.
enum Op { YIELD, SLEEP, BUSY, LOCK, LAUNCH, SIGNAL, WAIT, TIMEDWAIT, THROW, JOIN, PUSH, POP };
struct Step { Op op; int64_t a; };
struct Watch { virtual ~Watch() {} virtual void start(int, int) {} virtual void deadline(int, int64_t, bool) {} virtual void joining(int, int) {} virtual void end(int) {} virtual void between(int) {} }; // told under NoPreempt what the fibers do
static Watch * g_watch;
struct Fib { int data = 0, in = 0, parent = -1, main = -1, home = -1; bf::launch pol = bf::launch::post; bool detach = false; std::vector<Step> ops; // home: the thread it must stay on
    int starts = 0, moves = 0; bool ended = false, out = false; int last = -1; std::unique_ptr<bf::fiber> h; };
struct Event { bool set = false; bf::mutex m; bf::condition_variable cv; };
static void watch_deadline(int i, Clock::time_point tp, bool sleep = false) { vrt::NoPreempt np; if (g_watch) g_watch->deadline(i, tp == Clock::time_point::max() ? -1 : (int64_t)tp.time_since_epoch().count(), sleep); }
struct World {
    std::deque<Fib> f; std::deque<Event> ev; bf::mutex mx[2]; int inside[2] = { 0, 0 }, guarded[2] = { 0, 0 }; bf::buffered_channel<int> chan{ 4 }; std::set<int> sent, got; int nsent = 0, moves = 0, migrated = 0; int unended = 0;
    std::unique_ptr<bf::barrier> bar;
    void step(int i, Step const & s); void body(int i); bool all_ended() { vrt::NoPreempt np; return unended == 0; }
};
static World * W;
struct Oops { int v; };
void World::step(int i, Step const & s) {
    Fib & me = f[i];
    switch (s.op) {
        case YIELD: boost::this_fiber::yield(); break;
        case SLEEP: if (s.a & 1) boost::this_fiber::sleep_for(ns(s.a)); else { Clock::time_point tp = Clock::now() + ns(s.a); watch_deadline(i, tp, true); boost::this_fiber::sleep_until(tp); watch_deadline(i, Clock::time_point::max()); } break;
        case BUSY: vrt::busy(s.a); break;
        case LOCK: { int k = (int)s.a & 1; std::unique_lock<bf::mutex> lk(mx[k]); if (vrt::hb()) guarded[k]++; { vrt::NoPreempt np; CHECK(++inside[k] == 1, "two fibers are inside the critical section"); } for (int64_t y = s.a >> 1; y > 0; --y) boost::this_fiber::yield(); vrt::NoPreempt np; CHECK(--inside[k] == 0, "two fibers are inside the critical section"); break; }
        case LAUNCH: { int c = (int)s.a; { vrt::NoPreempt np; note("fiber %d launches %d", i, c); } if (vrt::hb()) f[c].in = c + 1; bf::fiber x(f[c].pol, [this, c] { body(c); }); if (f[c].detach) x.detach(); else { vrt::NoPreempt np; f[c].h.reset(new bf::fiber(std::move(x))); } break; }
        case SIGNAL: { Event & e = ev[s.a]; { std::unique_lock<bf::mutex> lk(e.m); e.set = true; } e.cv.notify_all(); note("event %d set", (int)s.a); break; }
        case WAIT: { Event & e = ev[s.a]; std::unique_lock<bf::mutex> lk(e.m); e.cv.wait(lk, [&] { return e.set; }); break; }
        case TIMEDWAIT: { Event & e = ev[s.a & 255]; std::unique_lock<bf::mutex> lk(e.m); e.cv.wait_for(lk, ns(s.a >> 8), [&] { return e.set; }); break; }
        case THROW: { int v = 0; try { boost::this_fiber::yield(); throw Oops{ i }; } catch (Oops const & o) { v = o.v; } CHECK(v == i, "fiber %d caught another exception", i); break; }
        case JOIN: { Fib & c = f[s.a]; { vrt::NoPreempt np; if (g_watch) g_watch->joining(i, (int)s.a); } c.h->join(); if (vrt::hb()) CHECK(c.data == (int)c.ops.size() + 1, "what fiber %d wrote is not visible after join", (int)s.a); vrt::NoPreempt np; if (g_watch) g_watch->joining(i, -1); CHECK(c.ended, "join of fiber %d returned before it had ended", (int)s.a); c.h.reset(); break; }
        case PUSH: { int v; { vrt::NoPreempt np; v = ++nsent; sent.insert(v); } Clock::time_point tp = Clock::now() + ns(s.a); watch_deadline(i, tp); auto r = chan.push_wait_until(v, tp); watch_deadline(i, Clock::time_point::max()); vrt::NoPreempt np; if (r == bf::channel_op_status::timeout) { CHECK(!got.count(v), "value %d was received although its push timed out", v); sent.erase(v); } else CHECK(r == bf::channel_op_status::success, "push failed"); break; }
        case POP: { int v = -1; Clock::time_point tp = Clock::now() + ns(s.a); watch_deadline(i, tp); auto r = chan.pop_wait_until(v, tp); watch_deadline(i, Clock::time_point::max()); vrt::NoPreempt np; if (r == bf::channel_op_status::success) { CHECK(sent.count(v) && got.insert(v).second, "received value %d that was not sent or was received before", v); } else CHECK(r == bf::channel_op_status::timeout, "pop failed"); break; }
    }
}
void World::body(int i) {
    Fib & me = f[i]; volatile uint64_t loc[24]; bf::fiber::id id = boost::this_fiber::get_id();
    { vrt::NoPreempt np; CHECK(++me.starts == 1, "fiber %d was started twice", i); me.last = vrt::tid(); note("fiber %d starts on thread %d", i, me.last); if (g_watch) g_watch->start(i, me.last); }
    for (int k = 0; k < 24; ++k) loc[k] = (uint64_t)i * 1000003 + k;
    if (vrt::hb()) { CHECK(me.parent < 0 || me.in == i + 1 || !me.in, "what was written before fiber %d was launched is not visible to it", i); me.data++; }
    for (size_t p = 0; p < me.ops.size(); ++p) {
        bf::fiber::id n = boost::this_fiber::get_id();
        { vrt::NoPreempt np; CHECK(!me.out, "fiber %d is run by two threads", i); me.out = true; CHECK(vrt::tid() == me.last, "fiber %d changed threads without suspending", i); }
        step(i, me.ops[p]); if (vrt::hb()) me.data++; if (g_watch) g_watch->between(i);
        bf::fiber::id m = boost::this_fiber::get_id();
        vrt::NoPreempt np; stamp(); CHECK(me.out && !me.ended, "fiber %d is run by two threads", i); me.out = false; int t = vrt::tid();
        CHECK(m == id && n == id, "the id of fiber %d changed", i);
        for (int k = 0; k < 24; ++k) CHECK(loc[k] == (uint64_t)i * 1000003 + k + p, "fiber %d: a local variable changed its value", i); for (int k = 0; k < 24; ++k) loc[k] = loc[k] + 1;
        if (t != me.last) { CHECK(me.main < 0, "the main fiber of thread %d was run by thread %d", me.last, t); CHECK(me.home < 0, "fiber %d of thread %d, whose scheduler does not share fibers, was run by thread %d", i, me.last, t); note("fiber %d moved from thread %d to %d", i, me.last, t); if (!me.moves++) ++migrated; ++moves; me.last = t; }
    }
    vrt::NoPreempt np; me.ended = true; --unended; note("fiber %d ends", i); if (g_watch) g_watch->end(i);
}
static void run_shared(int kind, int maxT, int maxF, int maxOps, std::function<void(int)> inst = nullptr, std::function<bool()> nontriv = nullptr, bool local = true) {
    if (!inst) local = false;
    world_reset(); World * w = new World(); W = w; int T = maxT < 0 ? -maxT : range(PROG, 1, maxT); bool foreign = !local && draw(PROG, 4) == 3; int M = T + (foreign ? 1 : 0), F = M + range(PROG, 1, maxF), N = range(PROG, F, maxOps); bool busy = draw(PROG, 4) == 3, locks = draw(PROG, 2), chans = draw(PROG, 3) == 2;
    for (int i = 0; i < M; ++i) { w->f.emplace_back(); w->f[i].main = i; w->f[i].home = i; }
    std::vector<int> waitkind(M, 0); bool susp = kind == S_SHARED_SUSP || kind == S_WS_SUSP, leave = T > 1 && !local && draw(PROG, 4) == 3; // a suspended thread is not told about fibers another thread leaves behind when it ends
    for (int t = 0; t < M; ++t) waitkind[t] = leave ? (t == 0 ? 1 : (int)draw(PROG, susp ? 2 : 3)) : 0; // 0 barrier 1 poll 2 leave at once
    int setev = 0;
    for (int k = 0; k < N; ++k) {
        int cur = (int)w->f.size(), i = (int)draw(PROG, (uint32_t)cur); Fib & me = w->f[i]; uint32_t c = draw(PROG, 16);
        if (cur < F && (c < 5 || N - k <= F - cur)) { int id = cur; w->f.emplace_back(); Fib & x = w->f[id]; x.parent = i; x.pol = draw_launch(); x.detach = draw(PROG, 3) == 2; x.home = local ? w->f[i].home : i < T ? -1 : w->f[i].home; w->f[i].ops.push_back({ LAUNCH, id }); continue; }
        if (c < 7) me.ops.push_back({ YIELD, 0 });
        else if (c == 7) me.ops.push_back({ SLEEP, (int64_t)draw_dur() });
        else if (c == 8) me.ops.push_back({ busy ? BUSY : YIELD, (int64_t)draw_dur() });
        else if (c == 9) me.ops.push_back({ locks ? LOCK : YIELD, (int64_t)draw(PROG, 6) });
        else if (c < 12) { if (setev < 200) { w->ev.emplace_back(); me.ops.push_back({ SIGNAL, setev++ }); } }
        else if (c < 14) { if (setev) me.ops.push_back({ WAIT, (int64_t)draw(PROG, (uint32_t)setev) }); }
        else if (c == 14) { if (chans) me.ops.push_back({ draw(PROG, 2) ? PUSH : POP, (int64_t)draw_dur() }); else if (setev) me.ops.push_back({ TIMEDWAIT, (int64_t)draw(PROG, (uint32_t)setev) + ((int64_t)draw_dur() << 8) }); }
        else me.ops.push_back({ THROW, 0 });
    }
    for (int i = (int)w->f.size() - 1; i >= M; --i) if (!w->f[i].detach) w->f[w->f[i].parent].ops.push_back({ JOIN, i });
    w->unended = (int)w->f.size();
    int inbar = 0; for (int t = 0; t < M; ++t) inbar += waitkind[t] == 0; if (inbar) w->bar.reset(new bf::barrier(inbar));
    if (vrt::tracing()) { static const char * on[] = { "yield", "sleep", "busy", "lock", "launch", "signal", "wait", "wait_for", "throw", "join", "push", "pop" }; note("%d threads with %s%s", T, local ? "a recording algorithm" : sched_name(kind), foreign ? ", one with round_robin" : ""); for (size_t i = 0; i < w->f.size(); ++i) { std::string s; for (auto & o : w->f[i].ops) s += std::string(" ") + on[o.op] + "/" + std::to_string(o.a); note("fiber %zu%s%s:%s", i, w->f[i].main >= 0 ? " (main)" : w->f[i].detach ? " (detached)" : "", w->f[i].main >= 0 && waitkind[w->f[i].main] == 2 ? " (leaves early)" : "", s.c_str()); } }
    for (int t = 0; t < M; ++t) vrt::spawn([&, t] {
        if (inst && t < T) inst(t); else if (t < T) install(kind, T); else if (draw(PROG, 2)) install(S_CHAOS, 1);
        w->body(t);
        if (waitkind[t] == 0) w->bar->wait();
        if (waitkind[t] != 2) for (int r = 0; r < 4000 && !w->all_ended(); ++r) boost::this_fiber::sleep_for(std::chrono::microseconds(300));
    });
    vrt::run();
    for (size_t i = 0; i < w->f.size(); ++i) CHECK(w->f[i].ended, "fiber %zu %s", i, w->f[i].starts ? "was lost: it never ended" : "was lost: it was never run");
    if (nontriv ? nontriv() : w->moves >= 2) vrt::nontrivial(); if (w->migrated >= 3) vrt::label("three or more fibers migrated"); if (foreign) vrt::label("with a thread that does not share"); for (int k : waitkind) if (k == 2) { vrt::label("a thread leaves early"); break; }
    vrt::spawn([&] { delete w; }); vrt::run();
}
