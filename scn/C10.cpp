#include "future_prog.h"
using namespace fp;
// ---------------------------------------------------------------- one fiber, exact model
struct St { Outcome o; bool ready = false; };
typedef std::shared_ptr<St> SP;
template<class K> static void sequential() {
    world_reset(); g_alloc = AllocStat();
    vrt::spawn([] {
        typedef typename K::R R;
        struct P { std::unique_ptr<bf::promise<R>> p; SP s; bool obt = false; } p[3];
        struct F { bf::future<R> f; SP s; } f[3]; struct S { bf::shared_future<R> f; SP s; } sf[3];
        int n = range(PROG, 3, 40), next = 1; int gets = 0, errs = 0;
        auto drop = [](P & x) { if (x.s && x.obt && !x.s->ready) { x.s->ready = true; x.s->o.k = BROKEN; } x.s.reset(); x.obt = false; };
        auto expect = [&](int got, int want, const char * what) { CHECK(got == want, "%s reported %s instead of %s", what, stname(got), stname(want)); if (want) ++errs; };
        for (int i = 0; i < n; ++i) {
            P & a = p[draw(PROG, 3)]; P & b = p[draw(PROG, 3)]; F & g = f[draw(PROG, 3)]; F & h = f[draw(PROG, 3)]; S & s = sf[draw(PROG, 3)]; S & t = sf[draw(PROG, 3)];
            switch (draw(PROG, 18)) {
                case 0: { int how = (int)draw(PROG, 3); note("new promise"); if (how == 2 && a.p) { *a.p = bf::promise<R>(); drop(a); } else { a.p.reset(); drop(a); if (how) a.p.reset(new bf::promise<R>(std::allocator_arg, CountAlloc<int>())); else a.p.reset(new bf::promise<R>()); } a.s = std::make_shared<St>(); a.obt = false; break; }
                case 1: a.p.reset(); drop(a); note("promise destroyed"); break;
                case 2: if (a.p && b.p) { note("promise moved"); *a.p = std::move(*b.p); if (&a != &b) { drop(a); a.s = b.s; a.obt = b.obt; b.s.reset(); b.obt = false; } } else if (b.p) { a.p.reset(new bf::promise<R>(std::move(*b.p))); a.s = b.s; a.obt = b.obt; b.s.reset(); b.obt = false; } break;
                case 3: if (a.p && b.p) { note("promises swapped"); if (draw(PROG, 2)) a.p->swap(*b.p); else swap(*a.p, *b.p); std::swap(a.s, b.s); std::swap(a.obt, b.obt); } break;
                case 4: case 5: case 6: if (a.p) { int id = next++; int r = status_of([&] { K::set(*a.p, id, draw(PROG, 2)); }); note("set_value %d -> %s", id, stname(r)); expect(r, !a.s ? 2 : a.s->ready ? 1 : 0, "set_value"); if (!r) { a.s->ready = true; a.s->o.k = VALUE; a.s->o.id = K::has_id ? id : 0; } } break;
                case 7: if (a.p) { int id = next++; int r = status_of([&] { a.p->set_exception(std::make_exception_ptr(Err{ id })); }); note("set_exception %d -> %s", id, stname(r)); expect(r, !a.s ? 2 : a.s->ready ? 1 : 0, "set_exception"); if (!r) { a.s->ready = true; a.s->o.k = EXC; a.s->o.id = id; } } break;
                case 8: case 9: if (a.p) { bf::future<R> x; int r = status_of([&] { x = a.p->get_future(); }); note("get_future -> %s", stname(r)); expect(r, a.obt ? 3 : !a.s ? 2 : 0, "get_future"); if (!r) { a.obt = true; CHECK(x.valid(), "get_future returned an invalid future"); g.f = std::move(x); g.s = a.s; } CHECK(!x.valid() , "a moved-from future is valid"); } break;
                case 10: { if (!g.s || g.s->ready) { int e; Outcome o = outcome_of([&] { return K::get(g.f); }, K::has_id, e); note("get -> %s", e ? stname(e) : oname(o)); expect(e, g.s ? 0 : 2, "future::get"); if (g.s) { CHECK(o == g.s->o, "get delivered %s, the state contains %s", oname(o), oname(g.s->o)); ++gets; } g.s.reset(); CHECK(!g.f.valid(), "a future is valid after get"); } break; }
                case 11: { if (!g.s || g.s->ready) { std::exception_ptr e; int r = status_of([&] { e = g.f.get_exception_ptr(); }); expect(r, g.s ? 0 : 2, "get_exception_ptr"); if (g.s) { Outcome o = from_ptr(e), q = g.s->o; if (q.k == VALUE) q.id = o.id; CHECK(o == q, "get_exception_ptr delivered %s, the state contains %s", oname(o), oname(g.s->o)); CHECK(g.f.valid(), "get_exception_ptr invalidated the future"); } } break; }
                case 12: { bf::future_status q = bf::future_status::deferred; int how = (int)draw(PROG, 3); int r = status_of([&] { if (how == 0) q = g.f.wait_for(ns(draw(PROG, 2) * 1000000)); else if (how == 1) q = g.f.wait_until(Clock::now() - ns(1)); else if (!g.s || g.s->ready) { g.f.wait(); q = bf::future_status::ready; } else q = g.f.wait_until(std::chrono::system_clock::now()); }); expect(r, g.s ? 0 : 2, "future wait"); if (g.s) CHECK(q == (g.s->ready ? bf::future_status::ready : bf::future_status::timeout), "a future whose result is %s reported the opposite", g.s->ready ? "available" : "missing"); break; }
                case 13: if (draw(PROG, 2)) { bf::future<R> x(std::move(h.f)); CHECK(!h.f.valid() && x.valid() == !!h.s, "move construction of a future left it in the source"); g.f = std::move(x); CHECK(!x.valid(), "a moved-from future is valid"); } else g.f = std::move(h.f); if (&g != &h) { g.s = h.s; h.s.reset(); } note("future moved"); break;
                case 14: { int r = 0; int how = (int)draw(PROG, 3); if (how == 0) r = status_of([&] { s.f = g.f.share(); }); else if (how == 1) s.f = bf::shared_future<R>(std::move(g.f)); else s.f = std::move(g.f); note("shared"); if (how == 0) expect(r, g.s ? 0 : 2, "share"); if (!r) { s.s = g.s; g.s.reset(); } CHECK(!g.f.valid(), "a future is valid after share"); break; }
                case 15: if (draw(PROG, 4) == 3) { bf::shared_future<R> c(t.f), x(std::move(t.f)); CHECK(!t.f.valid() && c.valid() == !!t.s && x.valid() == !!t.s, "copy or move construction of a shared_future is wrong"); if (&s == &t) { t.f = std::move(c); } else { s.f = std::move(x); CHECK(!x.valid(), "a moved-from shared_future is valid"); s.s = t.s; t.s.reset(); } } else if (draw(PROG, 2)) { s.f = t.f; s.s = t.s; } else { s.f = std::move(t.f); if (&s != &t) { s.s = t.s; t.s.reset(); } } break;
                case 16: { if (!s.s || s.s->ready) { int e; Outcome o = outcome_of([&] { return K::get(s.f); }, K::has_id, e); expect(e, s.s ? 0 : 2, "shared_future::get"); if (s.s) { CHECK(o == s.s->o, "shared get delivered %s, the state contains %s", oname(o), oname(s.s->o)); ++gets; CHECK(s.f.valid(), "get invalidated a shared_future"); } } break; }
                default: { bf::future_status q = bf::future_status::deferred; std::exception_ptr e; int r = status_of([&] { q = s.f.wait_for(ns(draw(PROG, 2))); }); expect(r, s.s ? 0 : 2, "shared_future wait"); if (s.s) { CHECK(q == (s.s->ready ? bf::future_status::ready : bf::future_status::timeout), "a shared_future whose result is %s reported the opposite", s.s->ready ? "available" : "missing"); if (s.s->ready) { e = s.f.get_exception_ptr(); Outcome o = from_ptr(e), w = s.s->o; if (w.k == VALUE) w.id = o.id; CHECK(o == w, "shared get_exception_ptr delivered %s, the state contains %s", oname(o), oname(s.s->o)); } } break; }
            }
            for (auto & x : f) CHECK(x.f.valid() == !!x.s, "valid() of a future is wrong");
            for (auto & x : sf) CHECK(x.f.valid() == !!x.s, "valid() of a shared_future is wrong");
            if (K::has_id && !std::is_reference<R>::value) { std::set<St *> st; for (auto & x : p) if (x.s) st.insert(x.s.get()); for (auto & x : f) if (x.s) st.insert(x.s.get()); for (auto & x : sf) if (x.s) st.insert(x.s.get()); size_t vals = 0; for (auto * x : st) if (x->o.k == VALUE) ++vals; CHECK(g_reg.live.size() == vals, "%zu values are alive, %zu shared states with a value are referred to", g_reg.live.size(), vals); }
        }
        if (gets && errs) vrt::nontrivial();
    });
    vrt::run(); check_values_released(); CHECK(g_alloc.live == 0, "%lld states were not returned to their allocator", (long long)g_alloc.live);
    check_heap_released("after the future program");
}
// ---------------------------------------------------------------- concurrent setters, waiters, owner
template<class K> struct Conc {
    typedef typename K::R R;
    struct Set { int fib; Outcome o; uint64_t inv, ret = ~0ull; int st = -1; };
    struct Wait { int fib; int how; uint64_t inv, ret = ~0ull, t0, t1 = 0; int64_t d; bool conv; Outcome o; bool ready = false; };
    std::unique_ptr<bf::promise<R>> p; std::vector<Set> sets; std::vector<Wait> waits; int users = 0; uint64_t drop_inv = ~0ull, drop_ret = ~0ull; bool exact = false;
    size_t wbegin(int fib, int how, int64_t d, bool conv) { vrt::NoPreempt np; Wait x; x.fib = fib; x.how = how; x.inv = stamp(); x.t0 = vrt::now(); x.d = d; x.conv = conv; waits.push_back(x); note("fiber %d wait kind %d%s%s", fib, how, d >= 0 ? " " : "", d >= 0 ? ms(d) : ""); return waits.size() - 1; }
    void wend(size_t i, bool ready, Outcome o) { vrt::NoPreempt np; Wait & x = waits[i]; x.ready = ready; x.o = o; x.ret = stamp(); x.t1 = vrt::now(); note("fiber %d   -> %s", x.fib, ready ? oname(o) : "timeout"); }
    void set(int fib, Outcome o, bool rv) {
        size_t i; { vrt::NoPreempt np; Set x; x.fib = fib; x.o = o; if (!K::has_id && o.k == VALUE) x.o.id = 0; x.inv = stamp(); sets.push_back(x); i = sets.size() - 1; note("fiber %d sets %s", fib, oname(o)); }
        int r = status_of([&] { if (o.k == VALUE) K::set(*p, o.id, rv); else p->set_exception(std::make_exception_ptr(Err{ o.id })); });
        { vrt::NoPreempt np; sets[i].ret = stamp(); sets[i].st = r; note("fiber %d   set -> %s", fib, stname(r)); CHECK(r == 0 || r == 1, "setting a result reported %s", stname(r)); }
    }
    void done() { bool last; { vrt::NoPreempt np; vrt::hb_sync(&users, true, true); last = --users == 0; if (last) { drop_inv = stamp(); note("promise destroyed"); } } if (last) { p.reset(); vrt::NoPreempt np; drop_ret = stamp(); } }
    template<class Fu> void wait_op(Fu & f, int fib, int how, int64_t d) {
        bool timed = how == 1 || how == 2; size_t i = wbegin(fib, how, timed ? d : -1, how == 2); Outcome o; bool ready = true; int e = 0;
        switch (how) {
            case 0: f.wait(); break;
            case 1: ready = f.wait_for(ns(d)) == bf::future_status::ready; break;
            case 2: ready = f.wait_until(std::chrono::system_clock::now() + ns(d)) == bf::future_status::ready; break;
            case 3: { auto x = f.get_exception_ptr(); o = from_ptr(x); if (o.k == VALUE) o.id = -1; break; }
            default: o = outcome_of([&] { return K::get(f); }, K::has_id, e); CHECK(!e, "get reported %s", stname(e));
        }
        wend(i, ready, o);
    }
    Outcome winner(Set ** w = nullptr) { Outcome o; int n = 0; for (auto & s : sets) if (s.st == 0) { o = s.o; ++n; if (w) *w = &s; } CHECK(n <= 1, "%d fibers set the result of one promise successfully", n); return o; }
    bool settled() { for (auto & s : sets) if (s.ret != ~0ull) return true; return drop_ret != ~0ull; }
    void idle() { if (!settled()) return; for (auto & x : waits) CHECK(x.ret != ~0ull, "fiber %d sleeps in a wait for a result that has been stored", x.fib); }
    void check() {
        Set * ws = nullptr; Outcome w = winner(&ws); uint64_t inv = drop_inv, ret = drop_ret;
        if (ws) { inv = ws->inv; ret = ws->ret; } else { CHECK(sets.empty(), "no setter succeeded"); w.k = BROKEN; }
        for (auto & s : sets) if (s.st == 1) CHECK(s.ret > inv, "promise_already_satisfied was reported before any result was set");
        for (auto & s : sets) if (ws && &s != ws) CHECK(s.ret > ws->inv, "a later setter won");
        for (auto & x : waits) {
            uint64_t dl = x.t0 + (x.d > 0 ? x.d : 0);
            CHECK(x.ret != ~0ull, "internal: unfinished wait");
            if (!x.ready) { CHECK(ret > x.inv, "a wait reported timeout although the result had been stored before"); if (!x.conv || exact) CHECK(x.t1 >= dl, "a wait reported timeout at %s, before its deadline %s", ms(x.t1), ms(dl)); if (exact) CHECK(x.t1 == dl, "a wait reported timeout at %s although its deadline was %s and the processor was free", ms(x.t1), ms(dl)); }
            else { CHECK(x.ret > inv, "a wait returned before a result was stored"); if (x.o.k) { Outcome o = x.o; if (o.k == VALUE && o.id == -1) o.id = w.id; CHECK(o == w, "fiber %d received %s but the result is %s", x.fib, oname(x.o), oname(w)); } }
        }
    }
};
template<class K> static void concurrent(int maxT, int sched) {
    world_reset(); g_alloc = AllocStat();
    int T = range(PROG, 1, maxT), ns_ = range(PROG, 0, 3), nw = range(PROG, 1, 4); bool shared = draw(PROG, 3) != 2; if (!shared) nw = 1; bool busy = draw(PROG, 3) == 2; bool owner = ns_ == 0 || draw(PROG, 2); bool alloc = draw(PROG, 2);
    struct Op { int how; int64_t d; }; struct Fib { bool waiter; std::vector<Op> ops; bf::launch pol; int id; Outcome o; bool rv; int before; int64_t bd; };
    std::vector<std::vector<Fib>> prog(T); int id = 0;
    for (int i = 0; i < ns_ + nw + (owner ? 1 : 0); ++i) {
        Fib f; f.waiter = i >= ns_ && i < ns_ + nw; f.id = ++id; f.pol = draw_launch(); f.rv = draw(PROG, 2); f.before = (int)draw(PROG, busy ? 4 : 3); f.bd = f.before >= 2 ? (int64_t)draw_dur() : 0; f.o.k = i < ns_ ? draw(PROG, 3) == 2 ? EXC : VALUE : NONE; f.o.id = f.id;
        if (f.waiter) { int n = range(PROG, 1, 4); for (int k = 0; k < n; ++k) { Op o; o.how = (int)draw(PROG, 5); if (o.how == 4 && !shared && k < n - 1) o.how = 1; o.d = (int64_t)draw_dur(); f.ops.push_back(o); } }
        prog[draw(PROG, T)].push_back(f);
    }
    std::vector<ThreadPlan> plan = draw_plan(T); if (sched >= 0) for (auto & p : plan) { p.sched = sched; p.immediate_exit = false; }
    if (vrt::tracing()) { note("promise<%s>, %d setters, %d waiters on %s, %d threads%s", K::name(), ns_, nw, shared ? "copies of a shared_future" : "a future", T, owner ? ", an owner destroys the promise" : ""); for (int t = 0; t < T; ++t) { note("thread %d: %s", t, sched_name(plan[t].sched)); for (auto & f : prog[t]) note("  fiber %d %s%s", f.id, f.waiter ? "waits" : f.o.k ? "sets " : "owner", f.o.k ? oname(f.o) : ""); } }
    Conc<K> * c = nullptr; std::vector<bf::shared_future<typename K::R>> sfs; std::vector<bf::future<typename K::R>> fs;
    vrt::spawn([&] { c = new Conc<K>(); c->p.reset(alloc ? new bf::promise<typename K::R>(std::allocator_arg, CountAlloc<char>()) : new bf::promise<typename K::R>()); fs.emplace_back(c->p->get_future()); if (shared) { sfs.emplace_back(fs[0].share()); for (int i = 1; i < nw; ++i) sfs.push_back(sfs[0]); fs.clear(); } }); vrt::run();
    c->users = ns_ + (owner ? 1 : 0); c->exact = !busy && vrt::idle_only_time() && sched < 0;
    if (sched < 0) vrt::on_idle([&] { c->idle(); });
    int wi = 0; std::vector<std::vector<int>> widx(T); for (int t = 0; t < T; ++t) for (auto & f : prog[t]) widx[t].push_back(f.waiter ? wi++ : -1);
    on_threads(T, plan, [&](int t) {
        std::vector<bf::fiber> fb;
        for (size_t k = 0; k < prog[t].size(); ++k) { Fib & f = prog[t][k]; int ix = widx[t][k];
            fb.emplace_back(f.pol, [&, ix] {
                switch (f.before) { case 1: boost::this_fiber::yield(); stamp(); break; case 2: boost::this_fiber::sleep_for(ns(f.bd)); stamp(); break; case 3: vrt::busy(f.bd); stamp(); break; }
                if (f.waiter) { if (shared) { bf::shared_future<typename K::R> mine(std::move(sfs[ix])); for (auto & o : f.ops) c->wait_op(mine, f.id, o.how, o.d); } else { bf::future<typename K::R> mine(std::move(fs[0])); for (auto & o : f.ops) c->wait_op(mine, f.id, o.how, o.d); } }
                else { if (f.o.k) c->set(f.id, f.o, f.rv); c->done(); }
            }); }
        for (auto & x : fb) x.join();
    });
    c->check();
    int r = 0, to = 0; for (auto & x : c->waits) { if (x.ready) ++r; else ++to; } if (to) vrt::label("timeout"); if (r) vrt::label("ready"); if (c->sets.size() > 1) vrt::label("competing setters"); if (c->sets.empty()) vrt::label("broken promise");
    bool ov = false; for (auto & x : c->waits) if (x.inv < (c->sets.empty() ? c->drop_ret : c->sets[0].ret)) ov = true; if (ov) vrt::nontrivial();
    vrt::spawn([&] { delete c; sfs = std::vector<bf::shared_future<typename K::R>>(); fs = std::vector<bf::future<typename K::R>>(); }); vrt::run();
    check_values_released(); CHECK(g_alloc.live == 0, "%lld states were not returned to their allocator", (long long)g_alloc.live);
    if (sched < 0) check_heap_released("after the future program");
}
static int mig() { static const int k[] = { S_SHARED, S_WS, S_WS_SUSP }; return k[draw(PROG, 3)]; }
static void migrating() { int s = mig(); switch (draw(PROG, 3)) { case 0: concurrent<KVal>(3, s); break; case 1: concurrent<KRef>(3, s); break; default: concurrent<KVoid>(3, s); } }
static void cm() { concurrent<KMove>(3, -1); } static void cv() { concurrent<KVal>(3, -1); } static void cr() { concurrent<KRef>(3, -1); } static void cw() { concurrent<KVoid>(3, -1); }
#define R1 "results were obtained and misuse was reported"
#define R2 "a wait began before the result was stored"
PBT_MAIN("C10",
    { "seq_value", sequential<KVal>, 200000, 2000000, false, R1 }, { "seq_reference", sequential<KRef>, 100000, 1000000, false, R1 }, { "seq_move_only", sequential<KMove>, 100000, 1000000, false, R1 }, { "seq_void", sequential<KVoid>, 100000, 1000000, false, R1 },
    { "conc_value", cv, 200000, 3000000, false, R2 }, { "conc_reference", cr, 150000, 1500000, false, R2 }, { "conc_move_only", cm, 100000, 1000000, false, R2 }, { "conc_void", cw, 150000, 1500000, false, R2 },
    { "conc_migrating", migrating, 7000, 70000, true, R2 })
