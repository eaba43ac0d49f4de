// Generated lock/unlock programs over all four mutex types.
#pragma once
#include "world.h"
namespace mp {
using namespace w;

struct AnyMutex {
    int kind;                       // 0 mutex 1 timed 2 recursive 3 recursive_timed
    bf::mutex m; bf::timed_mutex t; bf::recursive_mutex r; bf::recursive_timed_mutex rt;
    explicit AnyMutex(int k) : kind(k) {}
    bool recursive() const { return kind >= 2; }
    bool timed() const { return kind & 1; }
    void lock() { switch (kind) { case 0: m.lock(); break; case 1: t.lock(); break; case 2: r.lock(); break; default: rt.lock(); } }
    void unlock() { switch (kind) { case 0: m.unlock(); break; case 1: t.unlock(); break; case 2: r.unlock(); break; default: rt.unlock(); } }
    bool try_lock() { switch (kind) { case 0: return m.try_lock(); case 1: return t.try_lock(); case 2: return r.try_lock(); default: return rt.try_lock(); } }
    // flavour 0: try_lock_for, 1: steady time point, 2: system time point
    bool try_lock_timed(int flavour, int64_t d) {
        if (flavour == 0) { auto dd = ns(d); return kind == 1 ? t.try_lock_for(dd) : rt.try_lock_for(dd); }
        if (flavour == 1) { auto tp = Clock::now() + ns(d); return kind == 1 ? t.try_lock_until(tp) : rt.try_lock_until(tp); }
        auto tp = std::chrono::system_clock::now() + ns(d); return kind == 1 ? t.try_lock_until(tp) : rt.try_lock_until(tp);
    }
};
static const char * kind_name[] = { "mutex", "timed_mutex", "recursive_mutex", "recursive_timed_mutex" };

enum Code { LOCK, TRY, TIMED, UNLOCK, YIELD, SLEEP, BUSY, PROBE_RELOCK, PROBE_UNLOCK };
struct Op { int code; int m; int64_t d; int flavour; };
struct MState { int owner = -1, data = 0; int count = 0; int inside = 0; int waiting = 0; uint64_t incs = 0; };

struct Params {
    int max_threads = 3, max_fibers = 4, max_ops = 8, max_mutexes = 3;
    int sched = -1;                 // -1: local schedulers drawn per thread
    bool probes = true, busy = true, timed_bias = false, lock_guard_bias = false;
};
struct World {
    std::vector<std::unique_ptr<AnyMutex>> mtx; std::vector<MState> st;
    uint64_t contended = 0, timeouts = 0, waits = 0, probes = 0, late = 0, nested = 0, acquired = 0;
    bool exact_time = false;
    int running = 0, peak = 0;
};

struct Fiber {
    World & W; int me; std::vector<Op> const & ops;
    std::vector<int> held;          // stack of mutex ids, with repeats for recursion
    int count(int m) const { int c = 0; for (int h : held) if (h == m) ++c; return c; }
    int maxheld() const { int x = -1; for (int h : held) if (h > x) x = h; return x; }
    void got(int m, const char * how) {
        MState & s = W.st[m]; if (vrt::hb()) s.data++;
        vrt::NoPreempt np0;
        CHECK(s.owner == -1 || (s.owner == me && W.mtx[m]->recursive()), "fiber %d obtained %s %d by %s while fiber %d owns it", me, kind_name[W.mtx[m]->kind], m, how, s.owner);
        CHECK(s.owner != me || s.count > 0, "internal");
        s.owner = me; s.count++; { vrt::NoPreempt np; held.push_back(m); } W.acquired++;
        if (held.size() > 1) W.nested++;
        note("fiber %d acquired m%d (%s)", me, m, how);
        stamp();
    }
    void do_unlock(int m) {
        MState & s = W.st[m];
        CHECK(s.owner == me && s.count > 0, "ownership of m%d was lost while fiber %d held it (owner now %d)", m, me, s.owner);
        { vrt::NoPreempt np; if (--s.count == 0) s.owner = -1; for (size_t i = held.size(); i-- > 0;) if (held[i] == m) { held.erase(held.begin() + i); break; } }
        note("fiber %d unlocks m%d", me, m); if (vrt::hb()) s.data++;
        W.mtx[m]->unlock();
        stamp();
        { vrt::NoPreempt np; if (count(m) == 0) s.inside--; }
    }
    void acquire(Op const & o, int code) {
        AnyMutex & mx = *W.mtx[o.m]; MState & s = W.st[o.m];
        bool own = count(o.m) > 0;
        if (own && !mx.recursive()) {
            // documented error: the calling fiber already owns the mutex
            if (code == TIMED) return;
            { vrt::NoPreempt np; W.probes++; }
            bool threw = false;
            try { if (code == LOCK) mx.lock(); else mx.try_lock(); }
            catch (bf::lock_error const & e) { threw = true; CHECK(e.code() == std::errc::resource_deadlock_would_occur, "relocking an owned %s reported the wrong error", kind_name[mx.kind]); }
            CHECK(threw, "%s an owned %s by its owner did not report resource_deadlock_would_occur", code == LOCK ? "locking" : "try-locking", kind_name[mx.kind]);
            stamp(); return;
        }
        if (code == LOCK && !own && o.m <= maxheld()) code = TRY;      // keeps programs deadlock-free
        if (code == TIMED && !mx.timed()) code = TRY;
        bool other; uint64_t incs;
        { vrt::NoPreempt np; other = s.inside > 0 && !own; if (!own) { s.inside++; s.incs++; } incs = s.incs; if (other) W.contended++; }
        note("fiber %d %s m%d(%s)%s%s", me, code == LOCK ? "lock" : code == TRY ? "try_lock" : "try_lock_timed", o.m, kind_name[mx.kind], code == TIMED ? " d=" : "", code == TIMED ? ms(o.d) : "");
        if (!own && code != TRY) { vrt::NoPreempt np; s.waiting++; }
        if (code == LOCK) { mx.lock(); { vrt::NoPreempt np; if (!own) s.waiting--; } got(o.m, "lock"); return; }
        uint64_t t0 = vrt::now();
        bool ok = code == TRY ? mx.try_lock() : mx.try_lock_timed(o.flavour, o.d);
        uint64_t t1 = vrt::now();
        if (!own && code != TRY) { vrt::NoPreempt np; s.waiting--; }
        if (ok) { if (code == TIMED && t1 > t0 + (uint64_t)(o.d > 0 ? o.d : 0)) { vrt::NoPreempt np; W.late++; } got(o.m, code == TRY ? "try_lock" : "timed try_lock"); return; }
        note("fiber %d failed on m%d", me, o.m);
        stamp();
        CHECK(!own, "a recursive mutex refused its owner");
        bool touched; { vrt::NoPreempt np; touched = other || s.incs != incs; }
        CHECK(touched, "%s on a free %s %d failed although no other fiber touched it", code == TRY ? "try_lock" : "timed try_lock", kind_name[mx.kind], o.m);
        { vrt::NoPreempt np; s.inside--; }
        if (code == TIMED) {
            { vrt::NoPreempt np; W.timeouts++; }
            uint64_t dl = t0 + (uint64_t)(o.d > 0 ? o.d : 0);
            if (o.flavour != 2 || W.exact_time) CHECK(t1 >= dl, "timed lock attempt gave up at %s, before its deadline %s", ms(t1), ms(dl));
            if (W.exact_time) CHECK(t1 == dl, "timed lock attempt gave up at %s although its deadline was %s and nothing kept the processor busy", ms(t1), ms(dl));
        }
    }
    void probe_unlock(Op const & o) {
        AnyMutex & mx = *W.mtx[o.m];
        if (count(o.m) > 0) return;
        { vrt::NoPreempt np; W.probes++; }
        bool threw = false;
        try { mx.unlock(); } catch (bf::lock_error const & e) { threw = true; CHECK(e.code() == std::errc::operation_not_permitted, "unlock by a non-owner reported the wrong error"); }
        CHECK(threw, "unlocking a %s that the fiber does not own reported no error", kind_name[mx.kind]);
        stamp();
    }
    void go() {
        { vrt::NoPreempt np; W.running++; if (W.running > W.peak) W.peak = W.running; }
        for (Op const & o : ops) switch (o.code) {
            case LOCK: case TRY: case TIMED: acquire(o, o.code); break;
            case UNLOCK: if (!held.empty()) do_unlock(held.back()); break;
            case YIELD: boost::this_fiber::yield(); stamp(); break;
            case SLEEP: boost::this_fiber::sleep_for(ns(o.d)); stamp(); break;
            case BUSY: vrt::busy(o.d); stamp(); break;
            case PROBE_RELOCK: if (!held.empty() && !W.mtx[held.back()]->recursive()) { Op p = o; p.m = held.back(); acquire(p, o.flavour & 1 ? TRY : LOCK); } break;
            case PROBE_UNLOCK: probe_unlock(o); break;
        }
        while (!held.empty()) do_unlock(held.back());
        { vrt::NoPreempt np; std::vector<int>().swap(held); }
    }
};

inline void run_program(Params P) {
    world_reset();
    int T = range(PROG, 1, P.max_threads);
    int M = range(PROG, 1, P.max_mutexes);
    World W;
    for (int i = 0; i < M; ++i) W.mtx.emplace_back(new AnyMutex(P.timed_bias ? (draw(PROG, 4) ? 1 + 2 * (int)draw(PROG, 2) : (int)draw(PROG, 4)) : (int)draw(PROG, 4)));
    W.st.resize(M);
    bool usebusy = P.busy && draw(PROG, 3) != 0;
    W.exact_time = !usebusy && vrt::idle_only_time() && P.sched < 0;
    std::vector<ThreadPlan> plan = draw_plan(T);
    if (P.sched >= 0) for (auto & p : plan) { p.sched = P.sched; p.immediate_exit = false; }
    struct FP { std::vector<Op> ops; bf::launch pol; int me; };
    std::vector<std::vector<FP>> prog(T);
    std::vector<bool> main_works(T);
    int id = 0;
    for (int t = 0; t < T; ++t) {
        int F = range(PROG, 1, P.max_fibers);
        main_works[t] = chance(PROG, 1, 3);
        for (int f = 0; f < F; ++f) {
            FP fp; fp.me = id++; fp.pol = draw_launch();
            int n = range(PROG, 1, P.max_ops);
            for (int k = 0; k < n; ++k) {
                Op o; o.m = (int)draw(PROG, M); o.d = 0; o.flavour = 0;
                uint32_t c = draw(PROG, 16);
                if (c < 4) o.code = P.timed_bias && c < 2 ? TIMED : LOCK;
                else if (c < 6) o.code = TRY;
                else if (c < 9) o.code = TIMED;
                else if (c < 12) o.code = UNLOCK;
                else if (c == 12) o.code = YIELD;
                else if (c == 13) o.code = SLEEP;
                else if (c == 14) o.code = usebusy ? BUSY : SLEEP;
                else o.code = P.probes ? (draw(PROG, 2) ? PROBE_UNLOCK : PROBE_RELOCK) : YIELD;
                if (o.code == TIMED || o.code == SLEEP || o.code == BUSY) o.d = (int64_t)draw_dur();
                if (o.code == TIMED) { o.flavour = (int)draw(PROG, 3); if (o.d == 0 && draw(PROG, 2)) o.d = -5000000; }
                if (o.code == PROBE_RELOCK) o.flavour = (int)draw(PROG, 2);
                fp.ops.push_back(o);
            }
            prog[t].push_back(std::move(fp));
        }
    }
    if (vrt::tracing()) {
        for (int t = 0; t < T; ++t) {
            note("thread %d: scheduler %s%s", t, sched_name(plan[t].sched), plan[t].immediate_exit ? ", exits at once" : "");
            for (auto & f : prog[t]) { std::string s; static const char * nm[] = { "lock", "try", "timed", "unlock", "yield", "sleep", "busy", "relock-probe", "unlock-probe" }; for (auto & o : f.ops) { s += std::string(" ") + nm[o.code] + (o.code <= TIMED || o.code == PROBE_UNLOCK ? " m" + std::to_string(o.m) : "") + (o.d ? "/" + std::to_string(o.d) + "ns" : "") + ";"; } note(" fiber %d (%s):%s", f.me, f.pol == bf::launch::post ? "post" : "dispatch", s.c_str()); }
        }
    }
    uint64_t idle = 0;
    if (P.sched < 0) vrt::on_idle([&] {
        ++idle;
        for (int i = 0; i < M; ++i) CHECK(W.st[i].owner != -1 || W.st[i].waiting == 0, "m%d (%s) is free and %d fibers wait for it, but every thread went to sleep", i, kind_name[W.mtx[i]->kind], W.st[i].waiting);
    });
    on_threads(T, plan, [&](int t) {
        std::vector<bf::fiber> fs;
        for (size_t i = 0; i < prog[t].size(); ++i) {
            FP & fp = prog[t][i];
            if (i == 0 && main_works[t]) continue;
            fs.emplace_back(fp.pol, [&W, &fp] { Fiber f{ W, fp.me, fp.ops, {} }; f.go(); });
        }
        if (main_works[t]) { Fiber f{ W, prog[t][0].me, prog[t][0].ops, {} }; f.go(); }
        for (auto & f : fs) f.join();
    });
    for (int i = 0; i < M; ++i) {
        CHECK(W.st[i].owner == -1, "internal: m%d still owned", i);
    }
    // afterwards every mutex is free again
    vrt::spawn([&] { for (int i = 0; i < M; ++i) { CHECK(W.mtx[i]->try_lock(), "m%d is still locked after every fiber released it", i); W.mtx[i]->unlock(); } });
    vrt::run();
    if (P.sched < 0) check_heap_released("after the lock program");
    if (idle) vrt::label("every thread asleep at some moment");
    if (W.contended) vrt::label("contended acquire");
    if (W.timeouts) vrt::label("timed attempt gave up");
    if (W.late) vrt::label("timed attempt succeeded after its deadline");
    if (W.probes) vrt::label("error probe");
    if (W.nested) vrt::label("nested locks");
    if (T > 1) vrt::label("several threads");
    if (vrt::switches()) vrt::label("preempted");
    if (W.contended && W.acquired > 1) vrt::nontrivial();
}
}
