#include "world.h"
using namespace w;
struct WRec { int fib; uint64_t b, reg = ~0ull, ret = ~0ull; int out = 0; uint64_t t0 = 0, t1 = 0; int64_t d = -1; bool conv = false; }; // out: 0 pending 1 resumed 2 timeout 3 either
struct NRec { int fib; uint64_t b, e = ~0ull; bool all; };
enum Lk { UL_MUTEX, UL_TIMED, UL_REC, RAW_MUTEX, USER_FIBER, USER_STD };
static const char * lk_name[] = { "unique_lock<mutex>", "unique_lock<timed_mutex>", "unique_lock<recursive_mutex>", "mutex", "user lock", "user lock over std::mutex" };
enum Code { WAIT, WAIT_PRED, WAIT_FOR, WAIT_UNTIL, WAIT_FOR_PRED, WAIT_UNTIL_PRED, N_ONE, N_ALL, SLEEP, YIELD, BUSY, HOLD };
static const char * code_name[] = { "wait", "wait(pred)", "wait_for", "wait_until", "wait_for(pred)", "wait_until(pred)", "notify_one", "notify_all", "sleep", "yield", "busy", "hold" };
struct Op { Code c; int64_t d; int fl; };
struct W {
    bool any; int lk;
    bf::condition_variable cv; bf::condition_variable_any cva;
    bf::mutex m; bf::timed_mutex tm; bf::recursive_mutex rm; std::mutex sm;
    std::vector<WRec> ws; std::vector<NRec> ns_; int owner = -1; int items = 0; int left = 0; bool exact = false; uint64_t idles = 0; bool stopping = false;
    void acquired(int f) { vrt::NoPreempt np; CHECK(owner == -1, "fiber %d got the lock while fiber %d owns it", f, owner); owner = f; uint64_t s = stamp(); for (auto & x : ws) if (x.out == 0 && x.reg == ~0ull && x.fib != f) x.reg = s; }
    void releasing(int f) { vrt::NoPreempt np; CHECK(owner == f, "fiber %d releases a lock owned by %d", f, owner); owner = -1; stamp(); }
    size_t wbegin(int f, int64_t d, bool conv) { vrt::NoPreempt np; WRec r; r.fib = f; r.b = stamp(); r.t0 = vrt::now(); r.d = d; r.conv = conv; ws.push_back(r); return ws.size() - 1; }
    void wend(size_t i, int out) {
        vrt::NoPreempt np; WRec & r = ws[i]; if (r.out) return; r.out = out; r.ret = stamp(); r.t1 = vrt::now(); if (r.reg == ~0ull) r.reg = r.ret;
        if (out == 2) { uint64_t dl = r.t0 + (r.d > 0 ? r.d : 0); if (!r.conv || exact) CHECK(r.t1 >= dl, "a wait reported timeout at %s, before its deadline %s", ms(r.t1), ms(dl)); }
    }
    static bool match(std::vector<std::vector<int>> const & adj, size_t nr, std::vector<int> const & cap, int * bad) {
        std::vector<std::vector<int>> at(nr); std::vector<char> seen;
        std::function<bool(int)> go = [&](int l) { for (int r : adj[l]) { if (seen[r]) continue; seen[r] = 1; if ((int)at[r].size() < cap[r]) { at[r].push_back(l); return true; } for (auto & o : at[r]) if (go(o)) { o = l; return true; } } return false; };
        for (size_t l = 0; l < adj.size(); ++l) { seen.assign(nr, 0); if (!go((int)l)) { *bad = (int)l; return false; } }
        return true;
    }
    bool could(NRec const & n, WRec const & x) const { return n.b < x.ret && n.e > x.b; }
    void check(bool quiet) { // quiet: every thread sleeps and the lock is free
        std::vector<int> res; for (size_t i = 0; i < ws.size(); ++i) if (ws[i].out == 1) res.push_back((int)i);
        { std::vector<std::vector<int>> adj; std::vector<int> cap; for (auto & n : ns_) cap.push_back(n.all ? 1000 : 1);
          for (int i : res) { adj.emplace_back(); for (size_t k = 0; k < ns_.size(); ++k) if (could(ns_[k], ws[i])) adj.back().push_back((int)k); }
          int bad; if (!match(adj, ns_.size(), cap, &bad)) fail("a wait of fiber %d returned without a notification for it (more waiters resumed than were notified)", ws[res[bad]].fib); }
        if (!quiet) return;
        uint64_t minreg = ~0ull; int who = -1;
        for (auto & x : ws) if (x.out == 0) {
            for (auto & n : ns_) if (n.all && n.b > x.reg && n.e != ~0ull) fail("notify_all by fiber %d did not wake fiber %d, which had released its lock by waiting before", n.fib, x.fib);
            if (x.reg < minreg) { minreg = x.reg; who = x.fib; }
        }
        if (who < 0) return;
        std::vector<std::vector<int>> adj; std::vector<int> cand; for (size_t i = 0; i < ws.size(); ++i) if (ws[i].out == 1 || ws[i].out == 3) cand.push_back((int)i);
        std::vector<int> must;
        for (size_t k = 0; k < ns_.size(); ++k) if (!ns_[k].all && ns_[k].b > minreg && ns_[k].e != ~0ull) { must.push_back((int)k); adj.emplace_back(); for (size_t c = 0; c < cand.size(); ++c) if (could(ns_[k], ws[cand[c]])) adj.back().push_back((int)c); }
        int bad; if (!match(adj, cand.size(), std::vector<int>(cand.size(), 1), &bad)) fail("a notify_one by fiber %d woke nobody although fiber %d was waiting all the time", ns_[must[bad]].fib, who);
    }
};
template<class L> struct UserLock { // BasicLockable of the user; records when the wait released it
    W & w; L & m; int f; ptrdiff_t cur = -1; bool locked = false;
    void lock() { m.lock(); locked = true; }
    void unlock() { if (cur >= 0) { vrt::NoPreempt np; w.ws[cur].reg = stamp(); } locked = false; m.unlock(); }
};
struct Fib {
    W & w; int me; std::vector<Op> const & ops;
    template<class CV, class L, class Owns> void do_wait(CV & cv, L & lk, Owns owns, ptrdiff_t * cur, Op const & o) {
        auto sd = ns(o.d); uint64_t t0 = vrt::now();
        auto tp = Clock::now() + sd; auto sp = std::chrono::system_clock::now() + sd;
        bool timed = o.c != WAIT && o.c != WAIT_PRED, pred = o.c == WAIT_PRED || o.c >= WAIT_FOR_PRED;
        size_t i = 0; bool open = false;
        auto begin = [&] { vrt::NoPreempt np; i = w.wbegin(me, timed ? o.d : -1, o.fl & 1); w.ws[i].t0 = t0; if (cur) *cur = (ptrdiff_t)i; open = true; w.releasing(me); };
        auto P = [&]() -> bool {
            CHECK(owns(), "the predicate was called without the lock held");
            bool r; bool first;
            { vrt::NoPreempt np; first = !open; r = w.items > 0 || w.stopping; }
            if (!first) { w.wend(i, timed ? 3 : 1); w.acquired(me); }
            if (!r) begin();
            return r;
        };
        note("fiber %d %s%s%s", me, code_name[o.c], timed ? " " : "", timed ? ms(o.d > 0 ? o.d : 0) : "");
        int out = 1; bool ok = true;
        switch (o.c) {
            case WAIT: begin(); cv.wait(lk); break;
            case WAIT_PRED: cv.wait(lk, P); break;
            case WAIT_FOR: begin(); out = cv.wait_for(lk, sd) == bf::cv_status::timeout ? 2 : 1; break;
            case WAIT_UNTIL: begin(); out = ((o.fl & 1) ? cv.wait_until(lk, sp) : cv.wait_until(lk, tp)) == bf::cv_status::timeout ? 2 : 1; break;
            case WAIT_FOR_PRED: ok = cv.wait_for(lk, sd, P); break;
            default: ok = (o.fl & 1) ? cv.wait_until(lk, sp, P) : cv.wait_until(lk, tp, P); break;
        }
        CHECK(owns(), "the lock is not held when %s returns", code_name[o.c]);
        note("fiber %d   %s -> %s", me, code_name[o.c], out == 2 || !ok ? "timeout" : "no timeout");
        if (!pred) { w.wend(i, out); w.acquired(me); }
        else {
            { vrt::NoPreempt np;
              // a false result of a timed predicate wait: the last predicate call left a record open
              if (!ok) { CHECK(open && w.ws[i].out == 0, "internal"); w.owner = me; w.ws[i].out = 3; w.ws[i].ret = stamp(); uint64_t dl = t0 + (o.d > 0 ? o.d : 0); if (!(o.fl & 1) || w.exact) CHECK(vrt::now() >= dl, "a predicate wait gave up at %s, before its deadline %s", ms(vrt::now()), ms(dl)); } }
            if (ok) { vrt::NoPreempt np; CHECK(w.items > 0 || w.stopping, "%s reported success although the predicate is false", code_name[o.c]); if (w.items > 0) --w.items; }
            else { vrt::NoPreempt np; CHECK(w.items == 0 && !w.stopping, "%s reported failure although the predicate is true", code_name[o.c]); }
        }
        if (cur) *cur = -1;
    }
    template<class F> void with_lock(F f) {
        auto run = [&](auto & lk, auto owns, ptrdiff_t * cur) { w.acquired(me); f(lk, owns, cur); w.releasing(me); };
        switch (w.lk) {
            case UL_MUTEX: { std::unique_lock<bf::mutex> lk(w.m); run(lk, [&] { return lk.owns_lock(); }, nullptr); lk.unlock(); break; }
            case UL_TIMED: { std::unique_lock<bf::timed_mutex> lk(w.tm); run(lk, [&] { return lk.owns_lock(); }, nullptr); lk.unlock(); break; }
            case UL_REC: { std::unique_lock<bf::recursive_mutex> lk(w.rm); run(lk, [&] { return lk.owns_lock(); }, nullptr); lk.unlock(); break; }
            case RAW_MUTEX: w.m.lock(); run(w.m, [] { return true; }, nullptr); w.m.unlock(); break;
            case USER_FIBER: { UserLock<bf::mutex> lk{ w, w.m, me }; lk.lock(); run(lk, [&] { return lk.locked; }, &lk.cur); lk.unlock(); break; }
            default: { UserLock<std::mutex> lk{ w, w.sm, me }; lk.lock(); run(lk, [&] { return lk.locked; }, &lk.cur); lk.unlock(); break; }
        }
    }
    void notify(bool all) {
        size_t i; { vrt::NoPreempt np; NRec n; n.fib = me; n.b = stamp(); n.all = all; w.ns_.push_back(n); i = w.ns_.size() - 1; note("fiber %d %s", me, all ? "notify_all" : "notify_one"); }
        if (w.any) { if (all) w.cva.notify_all(); else w.cva.notify_one(); } else { if (all) w.cv.notify_all(); else w.cv.notify_one(); }
        { vrt::NoPreempt np; w.ns_[i].e = stamp(); }
    }
    template<class L, class O> void wait_any(L & lk, O owns, ptrdiff_t * cur, Op const & o) { do_wait(w.cva, lk, owns, cur, o); }
    void op(Op const & o) {
        switch (o.c) {
            case SLEEP: boost::this_fiber::sleep_for(ns(o.d)); stamp(); break;
            case YIELD: boost::this_fiber::yield(); stamp(); break;
            case BUSY: vrt::busy(o.d); stamp(); break;
            case HOLD: with_lock([&](auto &, auto, ptrdiff_t *) { if (w.lk != USER_STD) { if (o.fl & 1) boost::this_fiber::yield(); else boost::this_fiber::sleep_for(ns(o.d)); } }); break;
            case N_ONE: case N_ALL: {
                int k = o.fl & 3; bool give = !(o.fl & 4);
                if (k == 0) { if (give) with_lock([&](auto &, auto, ptrdiff_t *) { vrt::NoPreempt np; w.items++; }); notify(o.c == N_ALL); }
                else with_lock([&](auto &, auto, ptrdiff_t *) { { vrt::NoPreempt np; if (give) w.items++; } notify(o.c == N_ALL); });
                break; }
            default:
                if (!w.any) { std::unique_lock<bf::mutex> lk(w.m); w.acquired(me); do_wait(w.cv, lk, [&] { return lk.owns_lock(); }, nullptr, o); w.releasing(me); lk.unlock(); }
                else with_lock([&](auto & lk, auto owns, ptrdiff_t * cur) { wait_any(lk, owns, cur, o); });
        }
    }
    void go() { for (auto & o : ops) op(o); vrt::NoPreempt np; --w.left; }
};
struct Params { int max_threads = 3, max_fibers = 4, max_ops = 5; bool busy = true; int sched = -1; int bias = 0; };
static void run_cv(Params P) {
    world_reset();
    int T = range(PROG, 1, P.max_threads);
    bool usebusy = P.busy && draw(PROG, 3) == 1;
    W * w = nullptr; int any = (int)draw(PROG, 2); int lk = any ? (int)draw(PROG, 6) : UL_MUTEX;
    if (P.sched >= 0 && lk == USER_STD) lk = USER_FIBER; // a std::mutex must be unlocked by the thread that locked it
    struct FP { std::vector<Op> ops; bf::launch pol; int id; };
    std::vector<std::vector<FP>> prog(T); int id = 0;
    for (int t = 0; t < T; ++t) { int F = range(PROG, 1, P.max_fibers); for (int f = 0; f < F; ++f) {
        FP fp; fp.id = id++; fp.pol = draw_launch(); int n = range(PROG, 1, P.max_ops);
        int role = (int)draw(PROG, 3); // 0 mixed 1 waiter 2 notifier
        for (int k = 0; k < n; ++k) {
            Op o; o.d = 0; o.fl = (int)draw(PROG, 8); uint32_t c = draw(PROG, 16);
            if (role == 1) c = c % 8; else if (role == 2) c = 8 + c % 8;
            if (c < 3) o.c = WAIT; else if (c < 4) o.c = WAIT_PRED; else if (c < 5) o.c = WAIT_FOR; else if (c < 6) o.c = WAIT_UNTIL; else if (c < 7) o.c = WAIT_FOR_PRED; else if (c < 8) o.c = WAIT_UNTIL_PRED;
            else if (c < 11) o.c = N_ONE; else if (c < 12) o.c = N_ALL; else if (c < 13) o.c = SLEEP; else if (c < 14) o.c = YIELD; else if (c < 15) o.c = usebusy ? BUSY : SLEEP; else o.c = HOLD;
            if (P.bias == 1 && o.c == WAIT && draw(PROG, 2)) o.c = WAIT_FOR;
            if (o.c == WAIT_FOR || o.c == WAIT_UNTIL || o.c == WAIT_FOR_PRED || o.c == WAIT_UNTIL_PRED || o.c == SLEEP || o.c == BUSY || o.c == HOLD) o.d = (int64_t)draw_dur();
            if ((o.c == WAIT_FOR || o.c == WAIT_UNTIL) && o.d == 0 && (o.fl & 2)) o.d = -2000000;
            if (o.c == WAIT_FOR || o.c == WAIT_FOR_PRED) o.fl &= ~1;
            fp.ops.push_back(o);
        }
        prog[t].push_back(fp); } }
    std::vector<ThreadPlan> plan = draw_plan(T + 1); if (P.sched >= 0) for (auto & p : plan) { p.sched = P.sched; p.immediate_exit = false; }
    if (vrt::tracing()) { note("%s with %s, %d threads", any ? "condition_variable_any" : "condition_variable", lk_name[lk], T); for (int t = 0; t < T; ++t) { note("thread %d: %s%s", t, sched_name(plan[t].sched), plan[t].immediate_exit ? ", exits at once" : ""); for (auto & f : prog[t]) { std::string s; for (auto & o : f.ops) s += std::string(" ") + code_name[o.c] + (o.d ? "/" + std::to_string(o.d) : "") + (o.c == N_ONE || o.c == N_ALL ? ((o.fl & 3) ? "(locked)" : "(unlocked)") : "") + ";"; note("  fiber %d (%s):%s", f.id, f.pol == bf::launch::post ? "post" : "dispatch", s.c_str()); } } }
    vrt::spawn([&] { w = new W(); }); vrt::run();
    w->any = any; w->lk = lk; w->left = id; w->exact = vrt::idle_only_time() && !usebusy && P.sched < 0;
    uint64_t idles = 0; bool rescued = false;
    if (P.sched < 0) vrt::on_idle([&] { if (w->owner != -1) return; ++idles; for (auto & x : w->ws) if (x.out == 0 && x.reg == ~0ull) x.reg = g_stamp; w->check(true); });
    on_threads(T + 1, plan, [&](int t) {
        if (t == T) {
            uint64_t last = ~0ull; int same = 0;
            for (;;) {
                boost::this_fiber::sleep_for(std::chrono::milliseconds(100));
                { vrt::NoPreempt np; if (w->left == 0) break; if (g_stamp == last) ++same; else same = 0; last = g_stamp; }
                if (same >= 2) { rescued = true; Fib f{ *w, 99, prog[0][0].ops }; f.with_lock([&](auto &, auto, ptrdiff_t *) { { vrt::NoPreempt np; w->stopping = true; } f.notify(true); }); }
            }
            return;
        }
        std::vector<bf::fiber> fs;
        for (auto & f : prog[t]) fs.emplace_back(f.pol, [w, &f] { Fib x{ *w, f.id, f.ops }; x.go(); });
        for (auto & f : fs) f.join();
    });
    w->check(false);
    for (auto & x : w->ws) CHECK(x.out != 0, "internal: unfinished wait");
    int resumed = 0, to = 0; for (auto & x : w->ws) { if (x.out == 1) ++resumed; if (x.out == 2) ++to; if (x.out == 1 && x.d >= 0 && x.t1 > x.t0 + x.d) vrt::label("notified wait resumed after its deadline"); }
    if (resumed) vrt::label("wait resumed by a notification"); if (to) vrt::label("wait timed out"); if (rescued) vrt::label("waiters left without notification (released at the end)"); if (idles) vrt::label("idle check");
    vrt::label(lk_name[lk]);
    if (resumed && w->ns_.size() > 1) vrt::nontrivial();
    vrt::spawn([&] { delete w; }); vrt::run();
    if (P.sched < 0) check_heap_released("after the condition variable program");
}
static void threads() { run_cv(Params{}); }
static void one_thread() { Params p; p.max_threads = 1; p.max_fibers = 6; p.max_ops = 6; run_cv(p); }
static void small() { Params p; p.max_threads = 2; p.max_fibers = 2; p.max_ops = 4; p.bias = 1; run_cv(p); }
static void migrating() { Params p; static const int k[] = { S_SHARED, S_WS, S_WS_SUSP }; p.sched = k[draw(PROG, 3)]; run_cv(p); }
#define RULE "a wait was resumed by one of several notifications"
PBT_MAIN("C04",
    { "cv_threads", threads, 60000, 400000, false, RULE },
    { "cv_one_thread", one_thread, 40000, 200000, false, RULE },
    { "cv_small", small, 80000, 600000, false, RULE },
    { "cv_migrating", migrating, 3000, 60000, true, RULE })
