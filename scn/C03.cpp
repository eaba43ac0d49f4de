#include "mutex_prog.h"
#include "channel_prog.h"
using namespace w;
using cp::St;
// a clock of the user: other epoch than the steady clock
struct Shifted {
    typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<Shifted, duration> time_point;
    static const bool is_steady = true;
    static time_point now() { return time_point(Clock::now().time_since_epoch() - std::chrono::hours(30)); }
};
template<class F, class U> static auto timed(int fl, int64_t d, F f, U u) -> decltype(f(ns(0))) {
    switch (fl) {
        case 0: return f(ns(d));
        case 1: return u(Clock::now() + ns(d));
        case 2: return u(std::chrono::system_clock::now() + ns(d));
        case 3: return u(Shifted::now() + ns(d));
        case 4: if (d % 1000 == 0) return f(std::chrono::microseconds(d / 1000)); return f(ns(d));
        default: if (d % 1000000 == 0) return f(std::chrono::milliseconds(d / 1000000)); return u(std::chrono::high_resolution_clock::now() + ns(d));
    }
}
enum Obj { TM, RTM, CV, CV_PRED, CVA, CVA_PRED, FUT, SFUT, BPUSH, BPOP, UPUSH, UPOP, NOBJ };
static const char * obj_name[] = { "timed_mutex", "recursive_timed_mutex", "condition_variable", "condition_variable+pred", "condition_variable_any", "condition_variable_any+pred", "future", "shared_future", "buffered push", "buffered pop", "unbuffered push", "unbuffered pop" };
struct Slot {
    int kind, fl; int64_t D, E, start; int wt, at; bool all; int vain = 0; int64_t gap = 0;   // vain: number of wakeups in vain
    // E: -2 never, -1 before, >=0 at start+E
    bf::timed_mutex tm; bf::recursive_timed_mutex rtm; bf::condition_variable cv; bf::condition_variable_any cva; bf::mutex m; bool flag = false;
    bf::promise<int> pr; bf::future<int> fu; bf::shared_future<int> sf;
    bf::buffered_channel<int> bc{ 2 }; bf::unbuffered_channel<int> uc;
    bool armed = false, fired = false, fire_done = false, fire_done_before = false; uint64_t fire_begin_st = ~0ull, fire_done_t = 0, fire_begin_t = 0;
    bool ok = false, armed_at_start = false, done = false; uint64_t t0 = 0, t1 = 0, st1 = 0; int got = -1; bool peer_ok = false;
};
// resumes the waiter without the event: the wait has to go on with its old deadline (waiter on the same thread, unless predicates are concerned)
static void in_vain(Slot & s, int k) {
    note("wakes %s in vain", obj_name[s.kind]);
    switch (s.kind) {
        case TM: s.tm.unlock(); s.tm.lock(); break;
        case RTM: if (s.all) break; s.rtm.unlock(); s.rtm.lock(); break;
        case CV_PRED: if (k & 1) s.cv.notify_one(); else s.cv.notify_all(); break;
        case CVA_PRED: if (k & 1) s.cva.notify_one(); else s.cva.notify_all(); break;
        case BPUSH: { int v = -1; if (s.bc.try_pop(v) == St::success) s.bc.try_push(v); } break;
        case BPOP: { int v = -1; if (s.bc.try_push(8) == St::success) s.bc.try_pop(v); } break;
    }
}
static void actor(Slot & s) {
    switch (s.kind) {
        case TM: s.tm.lock(); break; case RTM: s.rtm.lock(); if (s.all) s.rtm.lock(); break;
        case BPUSH: while (s.bc.try_push(7) == St::success) ; break;
        default: break;
    }
    { vrt::NoPreempt np; s.armed = true; }
    uint64_t at = s.E == -1 ? 0 : s.E == -2 ? 30000000000ull : (uint64_t)(s.start + s.E);
    for (int k = 0; k < s.vain; ++k) { uint64_t when = (uint64_t)(s.start + (k + 1) * s.gap); if (when >= at) break; if (when > vrt::now()) boost::this_fiber::sleep_for(ns(when - vrt::now())); in_vain(s, k); }
    if (at > vrt::now()) { if (s.all) boost::this_fiber::sleep_until(Clock::now() + ns(at - vrt::now())); else boost::this_fiber::sleep_for(ns(at - vrt::now())); }
    { vrt::NoPreempt np; s.fired = true; s.fire_begin_t = vrt::now(); s.fire_begin_st = stamp(); note("event for %s", obj_name[s.kind]); }
    switch (s.kind) {
        case TM: s.tm.unlock(); break;
        case RTM: s.rtm.unlock(); if (s.all) s.rtm.unlock(); break;
        case CV: case CV_PRED: { std::unique_lock<bf::mutex> lk(s.m); s.flag = true; if (s.fl & 1) lk.unlock(); if (s.all) s.cv.notify_all(); else s.cv.notify_one(); } break;
        case CVA: case CVA_PRED: { std::unique_lock<bf::mutex> lk(s.m); s.flag = true; if (s.fl & 1) lk.unlock(); if (s.all) s.cva.notify_all(); else s.cva.notify_one(); } break;
        case FUT: case SFUT: if (s.all) s.pr.set_value(5); else s.pr.set_exception(std::make_exception_ptr(7)); break;
        case BPUSH: { int v; s.bc.pop(v); } break;
        case BPOP: s.bc.push(9); break;
        case UPUSH: { int v = -1; s.peer_ok = s.uc.pop_wait_for(v, std::chrono::seconds(40)) == St::success; } break;
        case UPOP: s.peer_ok = s.uc.push_wait_for(9, std::chrono::seconds(40)) == St::success; break;
    }
    { vrt::NoPreempt np; s.fire_done = true; s.fire_done_t = vrt::now(); }
}
static void waiter(Slot & s) {
    boost::this_fiber::sleep_for(ns(s.start));
    std::unique_lock<bf::mutex> lk(s.m, std::defer_lock);
    if (s.kind >= CV && s.kind <= CVA_PRED) lk.lock();
    { vrt::NoPreempt np; s.armed_at_start = s.armed; s.fire_done_before = s.fire_done; s.t0 = vrt::now(); note("wait on %s, clock flavour %d, %.6f ms", obj_name[s.kind], s.fl, (double)s.D / 1e6); }
    bool ok = false;
    auto pred = [&s] { return s.flag; };
    auto ncv = [](bf::cv_status st) { return st == bf::cv_status::no_timeout; };
    auto nfu = [](bf::future_status st) { return st == bf::future_status::ready; };
    switch (s.kind) {
        case TM: ok = timed(s.fl, s.D, [&](auto d) { return s.tm.try_lock_for(d); }, [&](auto t) { return s.tm.try_lock_until(t); }); break;
        case RTM: ok = timed(s.fl, s.D, [&](auto d) { return s.rtm.try_lock_for(d); }, [&](auto t) { return s.rtm.try_lock_until(t); }); break;
        case CV: ok = timed(s.fl, s.D, [&](auto d) { return ncv(s.cv.wait_for(lk, d)); }, [&](auto t) { return ncv(s.cv.wait_until(lk, t)); }); break;
        case CV_PRED: ok = timed(s.fl, s.D, [&](auto d) { return s.cv.wait_for(lk, d, pred); }, [&](auto t) { return s.cv.wait_until(lk, t, pred); }); break;
        case CVA: ok = timed(s.fl, s.D, [&](auto d) { return ncv(s.cva.wait_for(lk, d)); }, [&](auto t) { return ncv(s.cva.wait_until(lk, t)); }); break;
        case CVA_PRED: ok = timed(s.fl, s.D, [&](auto d) { return s.cva.wait_for(lk, d, pred); }, [&](auto t) { return s.cva.wait_until(lk, t, pred); }); break;
        case FUT: ok = timed(s.fl, s.D, [&](auto d) { return nfu(s.fu.wait_for(d)); }, [&](auto t) { return nfu(s.fu.wait_until(t)); }); break;
        case SFUT: ok = timed(s.fl, s.D, [&](auto d) { return nfu(s.sf.wait_for(d)); }, [&](auto t) { return nfu(s.sf.wait_until(t)); }); break;
        case BPUSH: ok = timed(s.fl, s.D, [&](auto d) { return s.bc.push_wait_for(3, d); }, [&](auto t) { return s.bc.push_wait_until(3, t); }) == St::success; break;
        case BPOP: ok = timed(s.fl, s.D, [&](auto d) { return s.bc.pop_wait_for(s.got, d); }, [&](auto t) { return s.bc.pop_wait_until(s.got, t); }) == St::success; break;
        case UPUSH: ok = timed(s.fl, s.D, [&](auto d) { return s.uc.push_wait_for(3, d); }, [&](auto t) { return s.uc.push_wait_until(3, t); }) == St::success; break;
        case UPOP: ok = timed(s.fl, s.D, [&](auto d) { return s.uc.pop_wait_for(s.got, d); }, [&](auto t) { return s.uc.pop_wait_until(s.got, t); }) == St::success; break;
    }
    { vrt::NoPreempt np; s.t1 = vrt::now(); s.st1 = stamp(); s.ok = ok; s.done = true; note("wait on %s -> %s", obj_name[s.kind], ok ? "event" : "timeout"); }
    if (s.kind >= CV && s.kind <= CVA_PRED) CHECK(lk.owns_lock(), "the lock is not owned after the wait");
    if (ok && s.kind == TM) s.tm.unlock();
    if (ok && s.kind == RTM) s.rtm.unlock();
}
static void timed_events(int max_threads, int max_slots, int sched) {
    world_reset();
    int T = range(PROG, 1, max_threads), n = range(PROG, 1, max_slots);
    std::vector<ThreadPlan> plan = draw_plan(T); if (sched >= 0) for (auto & p : plan) { p.sched = sched; p.immediate_exit = false; }
    bool exact = vrt::idle_only_time() && sched < 0;
    struct Cfg { int kind, fl; int64_t D, E, start; int wt, at; bool all; int vain; int64_t gap; };
    std::vector<Cfg> cfg;
    static const int64_t ev[] = { 1000000, 0, 1, 999999, 2000000, 500000, 20000000, 1000001 };
    for (int i = 0; i < n; ++i) {
        Cfg c; c.kind = (int)draw(PROG, NOBJ); c.fl = (int)draw(PROG, 6); c.D = (int64_t)draw_dur(); if (!c.D && draw(PROG, 2)) c.D = -3000000;
        int e = (int)draw(PROG, 10); c.E = e == 9 ? -2 : e == 8 ? -1 : ev[e]; if (e < 8 && draw(PROG, 3) == 1) c.E = std::max<int64_t>(0, c.D + (int64_t)draw(PROG, 3) - 1);
        c.start = 1000000 + (int64_t)draw(PROG, 3) * 500000; c.wt = (int)draw(PROG, T); c.at = (int)draw(PROG, T); c.all = draw(PROG, 2); c.vain = 0; c.gap = 0;
        bool pred = c.kind == CV_PRED || c.kind == CVA_PRED, same = sched < 0 && c.wt == c.at && (c.kind == TM || c.kind == RTM || c.kind == BPUSH || c.kind == BPOP);
        if ((pred || same) && draw(PROG, 3) == 2) { static const int64_t g[] = { 100000, 333333, 600000, 999999, 1000000, 3000000 }; c.vain = range(PROG, 1, 12); c.gap = g[draw(PROG, 6)]; } cfg.push_back(c);
    }
    int noise = (int)draw(PROG, 4);
    std::deque<Slot> * S = nullptr;
    vrt::spawn([&] { S = new std::deque<Slot>(); for (int i = 0; i < n; ++i) { S->emplace_back(); Slot & s = S->back(); Cfg & c = cfg[i]; s.kind = c.kind; s.fl = c.fl; s.D = c.D; s.E = c.E; s.start = c.start; s.wt = c.wt; s.at = c.at; s.all = c.all; s.vain = c.vain; s.gap = c.gap; s.fu = s.pr.get_future(); if (s.kind == SFUT) s.sf = s.fu.share(); } });
    vrt::run();
    for (auto & c : cfg) note("%s: waiter T%d start %s, limit %.6f ms (flavour %d); event on T%d %s", obj_name[c.kind], c.wt, ms(c.start), (double)c.D / 1e6, c.fl, c.at, c.E == -2 ? "never" : c.E == -1 ? "before" : (std::string("after ") + ms(c.E)).c_str()), c.vain ? note("  %d times woken in vain, each %s", c.vain, ms(c.gap)) : void();
    on_threads(T, plan, [&](int t) {
        std::vector<bf::fiber> fs;
        for (auto & s : *S) { if (s.at == t) fs.emplace_back(bf::launch::dispatch, [&s] { actor(s); }); if (s.wt == t) fs.emplace_back([&s] { waiter(s); }); }
        if (t == 0) for (int k = 0; k < noise; ++k) fs.emplace_back([k] { for (int q = 0; q < 3; ++q) boost::this_fiber::sleep_for(ns(700000 * (k + 1) + q)); });
        for (auto & f : fs) f.join();
    });
    bool nt = false;
    for (auto & s : *S) {
        const char * nm = obj_name[s.kind]; int64_t D = s.D > 0 ? s.D : 0; uint64_t L = s.t0 + D; bool steady = s.fl <= 1 || s.fl == 4;
        CHECK(s.done, "internal: unfinished wait");
        if (!s.ok) {
            if (steady || exact) CHECK(s.t1 >= L, "%s reported timeout at %s, before its deadline %s", nm, ms(s.t1), ms(L));
            bool level = s.kind != CV && s.kind != CVA && s.kind != UPUSH && s.kind != UPOP;
            if (level && s.fire_done_before && s.armed_at_start) fail("%s reported timeout although the awaited event had happened before the call", nm);
            if (s.kind != UPUSH && s.kind != UPOP && s.armed_at_start && s.fired && s.fire_done && s.fire_done_t < L && (level || s.fire_begin_t > s.t0) && steady && s.fire_begin_st < s.st1) fail("%s reported timeout at %s (deadline %s) although the event had been completed at %s", nm, ms(s.t1), ms(L), ms(s.fire_done_t));
        } else if (s.armed_at_start) {
            CHECK(s.fire_begin_st < s.st1, "%s reported success although the awaited event did not take place", nm);
        }
        if ((s.kind == UPUSH || s.kind == UPOP)) CHECK(s.ok == s.peer_ok, "%s and its peer disagree about the hand-over", nm);
        if (exact && s.armed_at_start && !((s.kind == CV || s.kind == CVA) && s.E == 0)) {
            uint64_t F = s.E == -2 ? ~0ull : s.E == -1 ? 0 : (uint64_t)(s.start + s.E);
            bool edge = s.kind == CV || s.kind == CVA;
            if (edge && s.E == -1) F = ~0ull;
            if (F < s.t0) F = s.t0;
            if (F < L) { CHECK(s.ok, "%s reported timeout although the event took place at %s, before the deadline %s", nm, ms(F), ms(L)); CHECK(s.t1 == F, "%s resumed at %s, the event took place at %s", nm, ms(s.t1), ms(F)); }
            else if (F > L) { CHECK(!s.ok, "%s reported success", nm); CHECK(s.t1 == L, "%s gave up at %s, its deadline was %s and the processor was free", nm, ms(s.t1), ms(L)); }
            else CHECK(s.t1 == L, "%s returned at %s, deadline and event were at %s", nm, ms(s.t1), ms(L));
            if (s.E == -1 && s.kind != UPUSH && s.kind != UPOP && !edge) CHECK(s.ok, "%s failed although the event had happened before", nm);
        }
        vrt::label(s.ok ? "event" : "timeout"); if (s.t1 > s.t0) nt = true;
        if (s.ok && s.t1 > L) vrt::label("event reported after the deadline");
        if (s.D <= 0) vrt::label("expired deadline");
    }
    vrt::spawn([&] { delete S; }); vrt::run();
    if (nt) vrt::nontrivial();
}
static void ev_threads() { timed_events(3, 4, -1); }
static void ev_one() { timed_events(1, 4, -1); }
static void ev_migrating() { static const int k[] = { S_SHARED, S_SHARED_SUSP, S_WS, S_WS_SUSP }; timed_events(3, 3, k[draw(PROG, 4)]); }
static void mutexes() { mp::Params p; p.timed_bias = true; p.busy = false; p.max_fibers = 3; run_program(p); }
static void bchan() { cp::Params p; p.timed_bias = true; p.busy = false; cp::run_channel<Tracked>(p); }
static void uchan() { cp::Params p; p.buffered = false; p.timed_bias = true; p.busy = false; cp::run_channel<Tracked>(p); }
#define RULE "some wait actually took time"
PBT_MAIN("C03",
    { "events_threads", ev_threads, 150000, 1500000, false, RULE },
    { "events_one_thread", ev_one, 150000, 1500000, false, RULE },
    { "events_migrating", ev_migrating, 4500, 60000, true, RULE },
    { "timed_locks", mutexes, 75000, 750000, false, "some acquire ran while another fiber held or wanted the same mutex" },
    { "timed_buffered", bchan, 75000, 750000, false, "a value was handed over and two operations overlapped" },
    { "timed_unbuffered", uchan, 75000, 750000, false, "a value was handed over and two operations overlapped" })
