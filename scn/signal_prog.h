#pragma once
#include "world.h"
using namespace w;
// Signals between fibers of different threads.  Sends and receives are generated in one linear order.
enum Kind { PROMISE, CV, CVANY, MUTEX, BCHAN, UCHAN, BARRIER, TIMEDCV, TIMEDFUT, TIMEDCHAN, NKIND };
enum Op { SEND, RECV, YIELD, SLEEP, BUSY, JOIN };
static const int64_t FAR = 3600ll * 1000000000;
struct Sig { int kind, data = 0, back = 0; bool sent = false, received = false; uint64_t t_sent = 0;
    bf::promise<int> p; bf::future<int> f; bf::mutex m; bf::timed_mutex tm; bf::condition_variable cv; bf::condition_variable_any cva; bool flag = false; std::unique_ptr<bf::buffered_channel<int>> b; bf::unbuffered_channel<int> u; bf::barrier bar{ 2 }; };
struct Fib { int thread, data = 0; bool main; std::vector<std::pair<Op, int64_t>> ops; bool detach = false, ended = false, joined_elsewhere = false; uint64_t t_end = 0; std::unique_ptr<bf::fiber> h; bf::launch pol; };
struct World { std::unique_ptr<bf::barrier> all; std::deque<Sig> s; std::deque<Fib> f; int cross = 0, idle_wakes = 0, early = 0; std::vector<char> gone; bool exact = false, share = false; };
struct Sched { std::function<void(int)> inst; bool share = false, lazy = false; const char * name = ""; }; // of all threads; lazy: idle threads have to sleep
static World * W;
static void timely(uint64_t t0, uint64_t t_sent, const char * what, int k) { // the receiver resumed without a further event
    uint64_t n = vrt::now(); CHECK(n < (uint64_t)FAR / 2, "%s %d reached its receiver only after a timeout", what, k);
    if (W->exact) CHECK(n <= std::max(t0, t_sent) + 3000000 /* a contended spinlock may have slept */, "%s %d was sent at %s and received at %s although nothing else was running: the sleeping thread was not woken", what, k, ms(t_sent), ms(n));
}
static void body(int i) {
    Fib & me = W->f[i]; int t = me.thread;
    for (auto & o : me.ops) {
        int k = (int)o.second;
        switch (o.first) {
            case YIELD: boost::this_fiber::yield(); break;
            case SLEEP: { uint64_t t0 = vrt::now(); boost::this_fiber::sleep_for(ns(o.second)); vrt::NoPreempt np; uint64_t d = vrt::now() - t0; CHECK(d >= (uint64_t)o.second, "sleeping for %s ended after %s", ms(o.second), ms(d));
                if (W->exact) CHECK(d <= (uint64_t)o.second + 3000000, "sleeping for %s ended after %s although nothing else was running", ms(o.second), ms(d)); break; }
            case BUSY: vrt::busy(o.second); break;
            case SEND: { Sig & s = W->s[k]; { vrt::NoPreempt np; note("fiber %d sends %d", i, k); s.sent = true; s.t_sent = vrt::now(); } if (vrt::hb()) s.data = k + 1;
                switch (s.kind) {
                    case PROMISE: case TIMEDFUT: { bf::promise<int> p(std::move(s.p)); p.set_value(k); break; }
                    case CV: case TIMEDCV: { std::unique_lock<bf::mutex> lk(s.m); s.flag = true; if (o.second & 1) lk.unlock(); s.cv.notify_one(); break; }
                    case CVANY: { std::unique_lock<bf::timed_mutex> lk(s.tm); s.flag = true; if (o.second & 1) lk.unlock(); s.cva.notify_all(); break; }
                    case BCHAN: case TIMEDCHAN: CHECK(s.b->push(k) == bf::channel_op_status::success, "push failed"); break;
                    case UCHAN: CHECK(s.u.push(k) == bf::channel_op_status::success, "push failed"); break;
                    case BARRIER: s.bar.wait(); break;
                    case MUTEX: { s.m.unlock(); break; }
                }
                if (vrt::hb() && s.kind == BARRIER) CHECK(s.back == k + 1, "what was written before the barrier is not visible after it");
                { vrt::NoPreempt np; if (s.received && W->gone[k]) ++W->early; note("fiber %d has sent %d", i, k); } break; }
            case RECV: { Sig & s = W->s[k]; uint64_t t0; bool was; { vrt::NoPreempt np; t0 = vrt::now(); was = s.sent; note("fiber %d receives %d", i, k); } if (vrt::hb() && s.kind == BARRIER) s.back = k + 1;
                switch (s.kind) {
                    case PROMISE: { bf::future<int> f(std::move(s.f)); CHECK(f.get() == k, "wrong value"); break; }
                    case TIMEDFUT: { bf::future<int> f(std::move(s.f)); CHECK(f.wait_for(ns(FAR)) == bf::future_status::ready, "the value of signal %d did not reach its receiver", k); CHECK(f.get() == k, "wrong value"); break; }
                    case CV: { std::unique_lock<bf::mutex> lk(s.m); s.cv.wait(lk, [&] { return s.flag; }); break; }
                    case TIMEDCV: { std::unique_lock<bf::mutex> lk(s.m); CHECK(s.cv.wait_for(lk, ns(FAR), [&] { return s.flag; }), "signal %d did not reach its receiver", k); break; }
                    case CVANY: { std::unique_lock<bf::timed_mutex> lk(s.tm); s.cva.wait(lk, [&] { return s.flag; }); break; }
                    case BCHAN: { int v = -1; CHECK(s.b->pop(v) == bf::channel_op_status::success && v == k, "pop"); break; }
                    case TIMEDCHAN: { int v = -1; CHECK(s.b->pop_wait_for(v, ns(FAR)) == bf::channel_op_status::success && v == k, "signal %d did not reach its receiver", k); break; }
                    case UCHAN: { int v = -1; CHECK(s.u.pop(v) == bf::channel_op_status::success && v == k, "pop"); break; }
                    case BARRIER: s.bar.wait(); break;
                    case MUTEX: { s.m.lock(); s.m.unlock(); break; }
                }
                if (vrt::hb()) CHECK(s.data == k + 1, "what was written before signal %d was sent is not visible to its receiver", k);
                { vrt::NoPreempt np; s.received = true; CHECK(s.sent, "signal %d was received before it was sent", k); timely(t0, s.t_sent, "signal", k); if (!was) ++W->idle_wakes; note("fiber %d has received %d", i, k); } break; }
            case JOIN: { Fib & x = W->f[k]; for (;;) { { vrt::NoPreempt np; vrt::hb_sync(&x.h, true, false); if (x.h) break; } boost::this_fiber::sleep_for(std::chrono::microseconds(100)); }
                bool was; uint64_t t0; { vrt::NoPreempt np; was = x.ended; t0 = vrt::now(); note("fiber %d joins %d", i, k); } x.h->join(); if (vrt::hb()) CHECK(x.data == k + 1, "what fiber %d wrote is not visible after join", k); vrt::NoPreempt np; CHECK(x.ended, "join of fiber %d returned before it had ended", k); timely(t0, x.t_end, "end of fiber", k); if (!was) ++W->idle_wakes; x.h.reset(); break; }
        }
        { vrt::NoPreempt np; stamp(); CHECK((W->share && !me.main) || vrt::tid() == t, "fiber %d of thread %d was resumed by thread %d", i, t, vrt::tid()); }
    }
    if (vrt::hb()) me.data = i + 1;
    vrt::NoPreempt np; me.ended = true; me.t_end = vrt::now(); note("fiber %d ends", i);
}
static void check_lazy(uint64_t n, size_t nops, int T) {
    if (getenv("LAZY")) fprintf(stderr, "%llu steps, %zu ops, %d threads: %.0f\n", (unsigned long long)n, nops, T, (double)n / (double)(nops + T));
    CHECK(n <= 6000 * (nops + (size_t)T), "the threads made %llu steps for %zu operations: an idle thread does not sleep", (unsigned long long)n, nops);
}
static void run_signals(int maxT, int maxF, int maxS, Sched const * sc = nullptr) {
    static const int64_t LONG[] = { 1000000, 50000000, 3000000000ll, 30000000000ll }; // an idle thread that does not sleep shows up as endless work
    world_reset(); World * w = new World(); W = w; int T = maxT < 0 ? -maxT : range(PROG, 2, maxT), F = T + range(PROG, T > 1 ? 0 : 1, maxF), S = range(PROG, 1, maxS); bool busy = draw(PROG, 4) == 3; int only = draw(PROG, 2) ? (int)draw(PROG, NKIND) : -1;
    for (int i = 0; i < F; ++i) { w->f.emplace_back(); Fib & x = w->f[i]; x.main = i < T; x.thread = x.main ? i : (int)draw(PROG, T); x.detach = draw(PROG, 3) == 2 && !(sc && sc->share); // (threads of a sharing scheduler have to stay until the last fiber has ended)
        x.pol = draw_launch(); }
    for (int k = 0; k < S; ++k) {
        int a = (int)draw(PROG, F), b = (int)draw(PROG, F - 1); if (b >= a) ++b;
        w->s.emplace_back(); Sig & s = w->s[k]; s.kind = only >= 0 ? only : (int)draw(PROG, NKIND); if (w->f[a].thread != w->f[b].thread) ++w->cross;
        for (int z = 0; z < 2; ++z) { auto & o = w->f[z ? a : b].ops; uint32_t c = draw(PROG, 10); if (c == 7) o.push_back({ YIELD, 0 }); else if (c == 8) o.push_back({ SLEEP, sc ? LONG[draw(PROG, 4)] : (int64_t)draw_dur() }); else if (c == 9) o.push_back({ busy ? BUSY : YIELD, (int64_t)draw_dur() }); }
        if (s.kind == MUTEX) { s.kind = CV; if (w->f[a].ops.empty() || a < T) { s.kind = MUTEX; } if (a >= T || s.kind == CV) s.kind = CV; else w->f[a].ops.insert(w->f[a].ops.begin(), { JOIN, -1 - k }); } // locked by the main fiber before it starts the others, unlocked by SEND
        w->f[a].ops.push_back({ SEND, k }); w->f[b].ops.push_back({ RECV, k });
    }
    std::vector<int> perm; for (int i = 0; i < F; ++i) perm.push_back(i); for (int i = F - 1; i > 0; --i) std::swap(perm[i], perm[draw(PROG, i + 1)]);
    for (int x = 0; x < F; ++x) { Fib & a = w->f[perm[x]]; if (a.main || a.detach || x == F - 1) continue; int y = x + 1 + (int)draw(PROG, F - 1 - x); a.joined_elsewhere = true; if (w->f[perm[y]].thread != a.thread) ++w->cross; w->f[perm[y]].ops.push_back({ JOIN, perm[x] }); }
    w->gone.assign(S, 0); std::vector<std::vector<int>> locks(T); for (int t = 0; t < T; ++t) { auto & o = w->f[t].ops; for (size_t i = 0; i < o.size();) if (o[i].first == JOIN && o[i].second < 0) { locks[t].push_back(-1 - (int)o[i].second); o.erase(o.begin() + i); } else ++i; }
    std::vector<ThreadPlan> plan; if (!sc) plan = draw_plan(T); else w->share = sc->share; w->exact = vrt::idle_only_time() && !busy;
    if (vrt::tracing()) { static const char * kn[] = { "promise", "condition_variable", "condition_variable_any", "mutex", "buffered_channel", "unbuffered_channel", "barrier", "condition_variable(timed)", "future(timed)", "buffered_channel(timed)" }, * on[] = { "send", "receive", "yield", "sleep", "busy", "join" }; for (int k = 0; k < S; ++k) note("signal %d: %s", k, kn[w->s[k].kind]); for (int i = 0; i < F; ++i) { std::string s; for (auto & o : w->f[i].ops) s += std::string(" ") + on[o.first] + "/" + std::to_string(o.second); note("fiber %d%s on thread %d (%s)%s:%s", i, w->f[i].main ? " (main)" : "", w->f[i].thread, sc ? sc->name : sched_name(plan[w->f[i].thread].sched), w->f[i].detach ? " detached" : "", s.c_str()); } }
    vrt::spawn([&] { for (auto & s : w->s) { s.f = s.p.get_future(); s.b.reset(new bf::buffered_channel<int>(2)); } }); vrt::run();
    Gate locked(T); size_t nops = 0; for (auto & x : w->f) nops += x.ops.size() + 2; if (sc && w->share) w->all.reset(new bf::barrier(T)); uint64_t steps0 = vrt::steps();
    for (int t = 0; t < T; ++t) vrt::spawn([&, t] {
        if (sc) sc->inst(t); else install(plan[t].sched, T);
        for (int k : locks[t]) w->s[k].m.lock();
        locked.arrive_and_wait();
        std::vector<int> mine;
        for (int i = T; i < F; ++i) if (w->f[i].thread == t) { bf::fiber x(w->f[i].pol, [i] { body(i); }); if (w->f[i].detach) x.detach(); else { vrt::NoPreempt np; w->f[i].h.reset(new bf::fiber(std::move(x))); vrt::hb_sync(&w->f[i].h, false, true); if (!w->f[i].joined_elsewhere) mine.push_back(i); } }
        body(t);
        for (int i : mine) w->f[i].h->join();
        if (w->all) w->all->wait();
    });
    vrt::run(); if (sc && sc->lazy) check_lazy(vrt::steps() - steps0, nops, T); // every thread ends as soon as its own fibers have ended
    for (int i = 0; i < F; ++i) CHECK(w->f[i].ended, "fiber %d was lost when its thread ended", i);
    if (w->idle_wakes >= 2 && w->cross) vrt::nontrivial(); if (w->exact && w->idle_wakes) vrt::label("exact time of the wake-up checked");
    vrt::spawn([&] { delete w; }); vrt::run(); if (!sc) check_heap_released("after the program");
}
