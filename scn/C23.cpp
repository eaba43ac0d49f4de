// Failed operations: user values whose copy/move throws, user functions that throw,
// allocations that fail.  Every operation may be given a fuse: the n-th user copy/move
// (or call) made by this fiber within the operation throws Boom.
#include "channel_prog.h"
#include "future_prog.h"
#include <map>
using namespace cp;
using fp::Outcome; using fp::status_of; using fp::stname; using fp::CountAlloc; using fp::g_alloc;
struct Boom { int n; };
struct FuseTab { std::map<bf::fiber::id, int> left; int fired = 0, next = 0; };
static FuseTab * FT;
static void maybe_boom() {
    int n = 0;
    { vrt::NoPreempt np; auto i = FT->left.find(boost::this_fiber::get_id()); if (i == FT->left.end()) return; if (--i->second) return; FT->left.erase(i); ++FT->fired; n = ++FT->next; note("  ... throws"); }
    throw Boom{ n };
}
struct Fuse { // n = 0: no fault
    bf::fiber::id id; Fuse(int n) : id(boost::this_fiber::get_id()) { vrt::NoPreempt np; if (n > 0) FT->left[id] = n; }
    ~Fuse() { vrt::NoPreempt np; FT->left.erase(id); }
};
struct Thr : Tracked {
    explicit Thr(int i = -1) : Tracked(i) {}
    Thr(Thr const & o) : Tracked((maybe_boom(), o)) {}
    Thr(Thr && o) : Tracked((maybe_boom(), std::move(o))) {}
    Thr & operator=(Thr const & o) { maybe_boom(); Tracked::operator=(o); return *this; }
    Thr & operator=(Thr && o) { maybe_boom(); Tracked::operator=(std::move(o)); return *this; }
};
struct ThrMove : Thr { explicit ThrMove(int i = -1) : Thr(i) {} ThrMove(ThrMove const &) = delete; ThrMove & operator=(ThrMove const &) = delete; ThrMove(ThrMove &&) = default; ThrMove & operator=(ThrMove &&) = default; };
static int draw_fuse(uint32_t den = 3) { return draw(PROG, den) == den - 1 ? 1 + (int)draw(PROG, 2) : 0; }
static void c23_reset() { world_reset(); FT = new FuseTab(); g_alloc = fp::AllocStat(); }
static void c23_done(const char * what) { check_values_released(); CHECK(g_alloc.live == 0, "%lld states were not returned to their allocator", (long long)g_alloc.live); check_heap_released(what); if (FT->fired) vrt::label("a fault fired"); }

// ------------------------------------------------------------------ channels, one fiber, exact model
template<class V> static void buf_seq() {
    c23_reset();
    vrt::spawn([] {
        install(draw_local_sched(), 1);
        size_t cap = (size_t[]){ 2, 4, 8 }[draw(PROG, 3)]; typedef bf::buffered_channel<V> Ch; Ch * ch = new Ch(cap);
        std::deque<int> q; bool closed = false; int n = range(PROG, 2, 50), next = 1, pushfail = 0, popfail = 0;
        auto expect_push = [&](St s, int id, bool timed) {
            if (closed) CHECK(s == St::closed, "push on a closed channel reported %s", st_name(s));
            else if (q.size() == cap - 1) CHECK(s == (timed ? St::timeout : St::full), "push on a full channel reported %s", st_name(s));
            else { CHECK(s == St::success, "push reported %s although %zu of %zu places are free", st_name(s), cap - 1 - q.size(), cap - 1); q.push_back(id); }
        };
        for (int i = 0; i < n; ++i) {
            int what = (int)draw(PROG, 12), fz = draw_fuse();
            if (what < 6) {
                V v(next); int id = next++; int kind = (int)draw(PROG, 4); bool rv = draw(PROG, 2) || !std::is_copy_constructible<V>::value; int before = FT->fired;
                if (kind == 3 && (q.size() == cap - 1) && !closed) kind = 0;
                note("push %d kind=%d%s%s", id, kind, rv ? " rvalue" : "", fz ? " fuse" : "");
                POp o; o.k = kind == 0 ? TRY_PUSH : kind == 1 ? PUSH_FOR : kind == 2 ? PUSH_UNTIL : PUSH; o.d = draw(PROG, 2) ? 1000 : 0; o.fl = (int)draw(PROG, 2);
                Runner<Ch> R; R.ch = ch;
                try { St s; { Fuse f(fz); s = rv ? R.push_rv(v, o) : R.push_lv(v, o); } CHECK(FT->fired == before, "an exception thrown by a value did not leave the push"); expect_push(s, id, kind == 1 || kind == 2); if (s != St::success && rv) CHECK(v.id == id, "a push that reported %s took the value", st_name(s)); }
                catch (Boom const & b) { CHECK(b.n == FT->next, "another exception"); CHECK(!closed && q.size() < cap - 1, "a push that cannot succeed touched the value"); ++pushfail; }
                if (!rv) CHECK(v.id == id, "pushing an lvalue modified it");
            } else if (what < 11) {
                V v(-7); int kind = (int)draw(PROG, 5); if (kind >= 3 && q.empty() && !closed) kind = 0; if (kind == 4 && fz) fz = 1; /* value_pop() may have to move its result once more after the value was taken out */ int before = FT->fired; int got = -7; St s = St::success; bool threw = false;
                note("pop kind=%d%s", kind, fz ? " fuse" : "");
                try { Fuse f(fz);
                    switch (kind) {
                        case 0: s = ch->try_pop(v); got = v.id; break;
                        case 1: s = ch->pop_wait_for(v, ns(draw(PROG, 2) ? 1000 : 0)); got = v.id; break;
                        case 2: s = draw(PROG, 2) ? ch->pop_wait_until(v, Clock::now()) : ch->pop_wait_until(v, std::chrono::system_clock::now()); got = v.id; break;
                        case 3: s = ch->pop(v); got = v.id; break;
                        default: { V x(ch->value_pop()); got = x.id; }
                    }
                } catch (Boom const &) { threw = true; } catch (bf::fiber_error const & e) { CHECK(kind == 4, "fiber_error"); CHECK(e.code() == std::errc::operation_not_permitted, "wrong error"); s = St::closed; }
                if (threw) { CHECK(!q.empty(), "a pop from an empty channel moved a value"); CHECK(v.id == -7, "a failed pop modified its target"); ++popfail; }
                else {
                    CHECK(FT->fired == before, "an exception thrown by a value did not leave the pop");
                    St want = !q.empty() ? St::success : closed ? St::closed : kind == 0 ? St::empty : St::timeout;
                    CHECK(s == want, "pop reported %s instead of %s (%zu values in the channel)", st_name(s), st_name(want), q.size());
                    if (s == St::success) { CHECK(got == q.front(), "pop returned %d instead of %d", got, q.front()); q.pop_front(); }
                }
            } else if (draw(PROG, 3) == 2) { ch->close(); closed = true; note("close"); }
            vrt::progress();
        }
        if (draw(PROG, 2)) { ch->close(); while (!q.empty()) { V v(-7); CHECK(ch->pop(v) == St::success && v.id == q.front(), "draining returned %d instead of %d", v.id, q.front()); q.pop_front(); } V v(-7); CHECK(ch->pop(v) == St::closed, "a drained closed channel does not report closed"); }
        delete ch;
        if (pushfail && popfail) vrt::nontrivial();
    });
    vrt::run(); c23_done("after the channel program");
}
// ------------------------------------------------------------------ channels, several fibers/threads
// Every producer and consumer goes on after a failed operation; consumers pop until closed.
template<class V, bool BUF> static void chan_conc() {
    c23_reset();
    typedef typename std::conditional<BUF, bf::buffered_channel<V>, bf::unbuffered_channel<V>>::type Ch;
    int T = range(PROG, 1, 3), np = range(PROG, 1, 3), nc = range(PROG, 1, 3), id = 0; size_t cap = (size_t[]){ 2, 4 }[draw(PROG, 2)];
    struct F { Fib f; std::vector<int> fz; bool retry; }; std::vector<std::vector<F>> prog(T);
    for (int i = 0; i < np + nc; ++i) {
        F x; x.f.producer = i < np; x.f.id = ++id; x.f.pol = draw_launch(); x.retry = draw(PROG, 2); int n = range(PROG, 1, 5);
        for (int k = 0; k < n; ++k) {
            POp o; o.d = 0; o.fl = (int)draw(PROG, 4); uint32_t c = draw(PROG, 8);
            if (x.f.producer) o.k = c < 4 ? PUSH : c < 5 ? TRY_PUSH : c < 7 ? PUSH_FOR : PUSH_UNTIL; else o.k = c < 4 ? POP : c < 5 ? POP_FOR : c < 6 ? POP_UNTIL : c < 7 ? VALUE_POP : ITER;
            if (o.k == PUSH_FOR || o.k == PUSH_UNTIL || o.k == POP_FOR || o.k == POP_UNTIL) o.d = (int64_t)draw_dur();
            if (o.k == ITER) o.d = range(PROG, 1, 3);
            uint32_t b = draw(PROG, 6); o.before = b == 1 ? 1 : b == 2 ? 2 : 0; o.bd = o.before == 2 ? (int64_t)draw_dur() : 0;
            x.f.ops.push_back(o); x.fz.push_back(draw_fuse(2));
        }
        prog[draw(PROG, T)].push_back(x);
    }
    std::vector<ThreadPlan> plan = draw_plan(T);
    Ch * ch = nullptr; vrt::spawn([&] { if constexpr (BUF) ch = new Ch(cap); else ch = new Ch(); }); vrt::run();
    Runner<Ch> R; R.ch = ch; R.prod_left = np; R.cons_left = nc; int lost_ok = 0, thrown = 0; uint64_t lost_inv = ~0ull, lost_ret = 0; auto neutral = [&](size_t i) { vrt::NoPreempt n; R.H.r[i].k = ISCLOSED; R.H.r[i].ret = stamp(); ++thrown; };
    on_threads(T, plan, [&](int t) {
        std::vector<bf::fiber> fs;
        for (auto & x : prog[t]) fs.emplace_back(x.f.pol, [&R, &x, &neutral, &lost_ok, &lost_inv, &lost_ret, ch] {
            Fib const & f = x.f;
            if (f.producer) {
                int n = 0;
                for (size_t k = 0; k < f.ops.size(); ++k) {
                    POp const & o = f.ops[k]; R.before(o); int fz = x.fz[k];
                    for (int again = 0; again < 2; ++again) {
                        int vid = f.id * 1000 + n++; V v(vid); bool rv = (o.fl & 2) || !std::is_copy_constructible<V>::value; size_t i = R.H.begin(f.id, o.k, vid, o.d, o.k == PUSH_UNTIL && !(o.fl & 1));
                        try { St s; { Fuse fu(fz); s = rv ? R.push_rv(v, o) : R.push_lv(v, o); } R.H.end(i, s, vid); break; } catch (Boom const &) { neutral(i); if (!rv) CHECK(v.id == vid, "pushing an lvalue modified it"); }
                        fz = 0; if (!x.retry) break;
                    }
                }
                vrt::NoPreempt np2; --R.prod_left; return;
            }
            bool open = true;
            for (size_t k = 0; open; ++k) {
                POp o = f.ops[k % f.ops.size()]; int fz = k < f.ops.size() ? x.fz[k] : 0; if (k < f.ops.size()) R.before(o);
                if (k >= f.ops.size() + 20 && (o.k == POP_FOR || o.k == POP_UNTIL)) o.k = POP;
                if (k >= f.ops.size() && o.k == ITER) o.k = POP;
                size_t at = R.H.r.size(); { vrt::NoPreempt np2; at = R.H.r.size(); }
                try {
                    if (o.k == ITER) {
                        size_t i = R.H.begin(f.id, ITER, -1, 0); at = i; int left = (int)o.d; bool brk = false;
                        typename Ch::iterator it, e; { Fuse fu(fz); it = boost::fibers::begin(*ch); }
                        for (; it != e;) { int got = (*it).id; R.H.end(i, St::success, got); if (--left <= 0) { brk = true; break; } i = R.H.begin(f.id, ITER, -1, 0); at = i; Fuse fu(fz); ++it; }
                        if (!brk) { R.H.end(i, St::closed, -1); open = false; }
                        continue;
                    }
                    V v(-7); St s = St::success; at = R.H.begin(f.id, o.k, -1, o.d, o.k == POP_UNTIL && !(o.fl & 1)); size_t i = at; int got = -7;
                    { Fuse fu(fz);
                      switch (o.k) {
                        case POP: s = ch->pop(v); got = v.id; break;
                        case POP_FOR: s = ch->pop_wait_for(v, ns(o.d)); got = v.id; break;
                        case POP_UNTIL: s = (o.fl & 1) ? ch->pop_wait_until(v, Clock::now() + ns(o.d)) : ch->pop_wait_until(v, std::chrono::system_clock::now() + ns(o.d)); got = v.id; break;
                        default: try { V y(ch->value_pop()); got = y.id; } catch (bf::fiber_error const & e) { CHECK(e.code() == std::errc::operation_not_permitted, "wrong error"); s = St::closed; }
                      } }
                    R.H.end(i, s, got); if (s == St::closed) open = false;
                } catch (Boom const &) { neutral(at); vrt::NoPreempt np2; if (!BUF || o.k == ITER || o.k == VALUE_POP) { ++lost_ok; lost_inv = std::min(lost_inv, R.H.r[at].inv); lost_ret = std::max(lost_ret, R.H.r[at].ret); } }
            }
            vrt::NoPreempt np2; --R.cons_left;
        });
        size_t i = 0; bool last = false;
        for (auto & x : prog[t]) { if (x.f.producer) fs[i].join(); ++i; }
        { vrt::NoPreempt np2; last = R.prod_left == 0; }
        if (last) R.do_close(-1 - t);
        for (auto & f : fs) if (f.joinable()) f.join();
    });
    // a value may only be lost by a pop that had already taken it out when it failed
    std::set<int> got; for (auto & x : R.H.r) if (x.is_pop() && x.st == St::success) got.insert(x.id);
    int lost = 0; std::vector<int> synth; for (auto & x : R.H.r) if (x.is_push() && x.st == St::success && !got.count(x.id)) { ++lost; synth.push_back(x.id); }
    CHECK(lost <= lost_ok, "%d accepted values were not delivered; only %d operations failed after taking a value", lost, lost_ok);
    // the moment at which it was taken is only known to lie within one of those operations
    for (int v : synth) R.H.r.push_back({ -100 - v, POP, v, St::success, lost_inv, lost_ret, 0, 0, 0, false });
    check_common(R.H, BUF, cap);
    vrt::spawn([&] { delete ch; }); vrt::run();
    int succ = 0; for (auto & x : R.H.r) if (x.is_pop() && x.st == St::success) ++succ;
    if (thrown && succ) vrt::nontrivial(); if (lost) vrt::label("a value went down with the exception");
    c23_done("after the channel program");
}
// ------------------------------------------------------------------ construction of channels
struct ThrDef : Tracked { ThrDef() : Tracked((maybe_boom(), 0)) {} };
static void chan_ctor() {
    c23_reset();
    vrt::spawn([] {
        int n = range(PROG, 1, 6), failed = 0, made = 0; typedef bf::buffered_channel<ThrDef> Ch;
        for (int i = 0; i < n; ++i) {
            size_t cap = (size_t)range(PROG, 0, 17); bool ok = cap >= 2 && !(cap & (cap - 1)); int fz = draw(PROG, 2) ? range(PROG, 1, 18) : 0; int af = draw(PROG, 4) == 3; Ch * c = nullptr;
            note("channel(%zu) fuse=%d alloc=%d", cap, fz, af);
            try { Fuse f(fz); void * mem = ::operator new(sizeof(Ch)); struct G { void * m; ~G() { if (m) ::operator delete(m); } } g{ mem }; if (af) vrt::set_alloc_fault(1, 1); c = new (mem) Ch(cap); g.m = nullptr; vrt::set_alloc_fault(0, 0); CHECK(ok, "a channel with capacity %zu was created", cap); CHECK(!af && !(fz && fz <= (int)cap), "a failure was not reported"); ++made; }
            catch (Boom const &) { CHECK(ok && fz, "Boom"); ++failed; }
            catch (bf::fiber_error const & e) { CHECK(!ok, "capacity %zu was refused", cap); CHECK(e.code() == std::errc::invalid_argument, "wrong error"); }
            catch (std::bad_alloc const &) { CHECK(af, "bad_alloc"); ++failed; }
            vrt::set_alloc_fault(0, 0);
            if (c) { CHECK(c->try_push(ThrDef()) == St::success, "push"); c->close(); c->~Ch(); ::operator delete(c); }
            CHECK(g_reg.live.empty(), "%zu values survive a channel that could not be created", g_reg.live.size());
        }
        if (failed && made) vrt::nontrivial();
    });
    vrt::run(); c23_done("after the constructions");
}
// ------------------------------------------------------------------ promises
static int deliver(std::function<int()> g, Outcome & o) { // 0 outcome, 1 Boom, 2 no state
    try { o.id = g(); o.k = fp::VALUE; return 0; } catch (fp::Err const & e) { o.k = fp::EXC; o.id = e.id; return 0; } catch (bf::broken_promise const &) { o.k = fp::BROKEN; return 0; } catch (Boom const &) { return 1; } catch (bf::future_uninitialized const &) { return 2; }
}
static void fut_seq() {
    c23_reset();
    vrt::spawn([] {
        install(draw_local_sched(), 1);
        typedef bf::promise<Thr> P; struct S { Outcome o; bool ready = false; }; typedef std::shared_ptr<S> SP;
        struct PS { std::unique_ptr<P> p; SP s; bool obt = false; } p[2]; struct FS { bf::future<Thr> f; SP s; } f[2]; struct SS { bf::shared_future<Thr> f; SP s; } sh[2];
        int n = range(PROG, 3, 40), next = 1, setfail = 0, gets = 0;
        auto drop = [](PS & x) { if (x.s && x.obt && !x.s->ready) { x.s->ready = true; x.s->o.k = fp::BROKEN; } x.p.reset(); x.s.reset(); x.obt = false; };
        for (int i = 0; i < n; ++i) {
            PS & a = p[draw(PROG, 2)]; FS & g = f[draw(PROG, 2)]; SS & h = sh[draw(PROG, 2)]; int fz = draw_fuse(2); int af = draw(PROG, 4) == 3 ? 1 + (int)draw(PROG, 2) : 0;
            switch (draw(PROG, 10)) {
                case 0: case 1: { bool own = draw(PROG, 2); drop(a); bool bad = false; void * mem = ::operator new(sizeof(P)); P * q = nullptr; vrt::set_alloc_fault(af, 1); try { q = own ? new (mem) P(std::allocator_arg, CountAlloc<Thr>()) : new (mem) P(); } catch (std::bad_alloc const &) { bad = true; } bool fired = vrt::alloc_fault_fired(); vrt::set_alloc_fault(0, 0);
                    note("promise%s%s", own ? " (allocator)" : "", bad ? " -> bad_alloc" : ""); CHECK(bad == fired, "an allocation failure was %s", fired ? "swallowed" : "invented"); if (bad) ::operator delete(mem); else { a.p.reset(q); a.s = std::make_shared<S>(); } break; }
                case 2: drop(a); note("promise destroyed"); break;
                case 3: if (a.p) { bf::future<Thr> x; int r = status_of([&] { x = a.p->get_future(); }); note("get_future -> %s", stname(r)); CHECK(r == (a.obt ? 3 : 0), "get_future reported %s", stname(r)); if (!r) { a.obt = true; g.f = std::move(x); g.s = a.s; } } break;
                case 4: case 5: if (a.p) { int id = next++; bool rv = draw(PROG, 2); bool threw = false; int r = 0, before = FT->fired; note("set_value %d%s%s", id, rv ? " rvalue" : "", fz ? " fuse" : "");
                        { Thr v(id); try { Fuse fu(fz); r = status_of([&] { if (rv) a.p->set_value(std::move(v)); else a.p->set_value(v); }); } catch (Boom const &) { threw = true; ++setfail; } if (!rv) CHECK(v.id == id, "set_value modified an lvalue"); }
                        CHECK(threw == (FT->fired != before), "an exception thrown by the value did not leave set_value"); if (threw) { CHECK(!a.s->ready, "a second set_value copied the value"); break; }
                        CHECK(r == (a.s->ready ? 1 : 0), "set_value reported %s", stname(r)); if (!r) { a.s->ready = true; a.s->o.k = fp::VALUE; a.s->o.id = id; } } break;
                case 6: if (a.p) { int id = next++; note("set_exception %d", id); int r = status_of([&] { a.p->set_exception(std::make_exception_ptr(fp::Err{ id })); }); CHECK(r == (a.s->ready ? 1 : 0), "set_exception reported %s", stname(r)); if (!r) { a.s->ready = true; a.s->o.k = fp::EXC; a.s->o.id = id; } } break;
                case 7: if (g.s && draw(PROG, 2)) { h.f = g.f.share(); h.s = g.s; g.s.reset(); note("share"); } break;
                case 8: if (h.s && h.s->ready) { Outcome o; note("shared get"); int r = deliver([&] { Thr const & v = h.f.get(); v.use("read"); return v.id; }, o); CHECK(r == 0 && o == h.s->o, "a shared future delivered another outcome"); ++gets; } break;
                default: if (g.s && g.s->ready) { Outcome o; note("get%s", fz ? " fuse" : ""); int r; { Fuse fu(fz); r = deliver([&] { Thr v(g.f.get()); return v.id; }, o); }
                        if (r == 1) { CHECK(g.s->o.k == fp::VALUE, "Boom"); if (!g.f.valid()) g.s.reset(); } else { CHECK(r == 0 && o == g.s->o, "a future delivered another outcome"); g.s.reset(); CHECK(!g.f.valid(), "the future is still valid after get()"); ++gets; } }
            }
            for (auto & x : f) { CHECK(x.f.valid() == !!x.s, "valid() is wrong"); if (x.s) CHECK((x.f.wait_for(ns(0)) == bf::future_status::ready) == x.s->ready, "a future is%s ready", x.s->ready ? " not" : ""); }
        }
        for (auto & x : f) if (x.s && x.s->ready && x.s->o.k == fp::EXC) { auto e = x.f.get_exception_ptr(); CHECK(fp::from_ptr(e) == x.s->o, "get_exception_ptr"); }
        if (setfail && gets) vrt::nontrivial();
    });
    vrt::run(); c23_done("after the promise program");
}
// several fibers wait for a promise whose setting fails first
static void fut_wait() {
    c23_reset();
    struct J { bf::promise<Thr> p; bf::shared_future<Thr> f; int fails, final_, setter; bool rv; }; int T = range(PROG, 1, 3), nj = range(PROG, 1, 3);
    std::vector<J> * js = new std::vector<J>(nj); struct Wt { int job, how, fz; int64_t d; bf::launch pol; }; std::vector<std::vector<Wt>> ws(T);
    for (auto & j : *js) { j.fails = range(PROG, 0, 2); j.final_ = (int)draw(PROG, 3); j.setter = (int)draw(PROG, T); j.rv = draw(PROG, 2); }
    int nw = range(PROG, 1, 6); for (int i = 0; i < nw; ++i) ws[draw(PROG, T)].push_back({ (int)draw(PROG, nj), (int)draw(PROG, 3), draw_fuse(2), (int64_t)draw_dur(), draw_launch() });
    vrt::spawn([&] { for (auto & j : *js) { j.p = bf::promise<Thr>(); j.f = j.p.get_future().share(); } }); vrt::run(); std::vector<char> done(nj, 0); int waited = 0, failed = 0;
    on_threads(T, draw_plan(T), [&](int t) {
        std::vector<bf::fiber> fs;
        for (auto & x : ws[t]) fs.emplace_back(x.pol, [&, x] {
            J & j = (*js)[x.job]; bf::shared_future<Thr> f = j.f; Outcome o;
            if (x.how == 1) f.wait(); if (x.how == 2) { bool r = f.wait_for(ns(x.d)) == bf::future_status::ready; vrt::NoPreempt np; if (r) CHECK(done[x.job], "a future became ready although setting the value failed"); }
            int r; { Fuse fu(x.fz); r = deliver([&] { Thr v(f.get()); return v.id; }, o); }
            vrt::NoPreempt np; CHECK(done[x.job], "a waiter was resumed although setting the value failed"); ++waited;
            if (r == 1) { CHECK(x.fz, "Boom"); return; } CHECK(r == 0, "no state"); CHECK(o.k == (j.final_ == 0 ? fp::VALUE : j.final_ == 1 ? fp::EXC : fp::BROKEN) && (j.final_ == 2 || o.id == x.job), "another outcome was delivered");
        });
        for (int k = 0; k < nj; ++k) { J & j = (*js)[k]; if (j.setter != t) continue;
            fs.emplace_back(draw_launch(), [&, k] {
                J & j = (*js)[k];
                for (int i = 0; i < j.fails; ++i) { bool threw = false; Thr v(k); try { Fuse fu(1); if (j.rv) j.p.set_value(std::move(v)); else j.p.set_value(v); } catch (Boom const &) { threw = true; } CHECK(threw, "the exception did not leave set_value"); { vrt::NoPreempt np; ++failed; note("setting %d failed", k); } stamp(); boost::this_fiber::yield(); }
                { vrt::NoPreempt np; done[k] = 1; note("setting %d", k); }
                if (j.final_ == 0) { Thr v(k); if (j.rv) j.p.set_value(std::move(v)); else j.p.set_value(v); } else if (j.final_ == 1) j.p.set_exception(std::make_exception_ptr(fp::Err{ k })); else { bf::promise<Thr> q(std::move(j.p)); }
            }); }
        for (auto & f : fs) f.join();
    });
    if (waited && failed) vrt::nontrivial();
    vrt::spawn([&] { delete js; }); vrt::run(); c23_done("after the promise program");
}
// ------------------------------------------------------------------ packaged_task, async, fibers
static int g_called;
struct TFn { Thr t; int mode; /* 0 returns, 1 throws Err, 2 the result cannot be stored */ explicit TFn(int m) : t(5), mode(m) {}
    Thr operator()(int a) { t.use("called"); { vrt::NoPreempt np; ++g_called; } if (mode == 1) throw fp::Err{ a }; Thr v(a); if (mode == 2) { bf::fiber::id id = boost::this_fiber::get_id(); vrt::NoPreempt np; FT->left[id] = 1; } return v; } };
static void task_seq() {
    c23_reset();
    vrt::spawn([] {
        install(draw_local_sched(), 1); typedef bf::packaged_task<Thr(int)> Task; int n = range(PROG, 1, 12), faults = 0, runs = 0;
        for (int i = 0; i < n; ++i) {
            int mode = (int)draw(PROG, 3), fz = draw_fuse(2), af = draw(PROG, 3) == 2 ? 1 + (int)draw(PROG, 2) : 0, how = (int)draw(PROG, 3); Task t; bool thrown = false, bad = false; int before = FT->fired;
            { TFn fn(mode); Fuse fu(fz); vrt::set_alloc_fault(af, 1); try { if (how == 0) t = Task(std::move(fn)); else if (how == 1) t = Task(fn); else t = Task(std::allocator_arg, CountAlloc<char>(), fn); } catch (Boom const &) { thrown = true; } catch (std::bad_alloc const &) { bad = true; } }
            bool hit = vrt::alloc_fault_fired(); vrt::set_alloc_fault(0, 0); note("task mode=%d how=%d%s%s", mode, how, thrown ? " -> threw" : "", bad ? " -> bad_alloc" : "");
            CHECK(thrown == (FT->fired != before) && bad == hit, "the construction of a task swallowed an exception"); CHECK(t.valid() == !(thrown || bad), "valid() is wrong");
            if (thrown || bad) { ++faults; CHECK(g_reg.live.empty(), "a task that could not be created left values behind"); CHECK(g_alloc.live == 0, "a task that could not be created left its state behind"); continue; }
            int rounds = range(PROG, 1, 3);
            for (int r = 0; r < rounds; ++r) {
                bf::future<Thr> f = t.get_future(); int arg = 10 * i + r; int c0 = g_called; t(arg); CHECK(g_called == c0 + 1, "the target was called %d times", g_called - c0); { Fuse fu(0); }
                CHECK(f.wait_for(ns(0)) == bf::future_status::ready, "the future is not ready after the task ran"); Outcome o; int d = deliver([&] { Thr v(f.get()); return v.id; }, o);
                if (mode == 0) CHECK(d == 0 && o.k == fp::VALUE && o.id == arg, "the value was not delivered"); if (mode == 1) CHECK(d == 0 && o.k == fp::EXC && o.id == arg, "the exception was not delivered"); if (mode == 2) { CHECK(d == 1 || (d == 0 && o.k == fp::VALUE && o.id == arg), "a result that could not be stored was not reported"); vrt::label(d == 1 ? "result could not be stored" : "no copy"); }
                ++runs; bool again = draw(PROG, 2); if (r + 1 < rounds || again) {
                    int f2 = draw_fuse(3), a2 = draw(PROG, 3) == 2; bool th = false, ba = false; int b2 = FT->fired; { Fuse fu(f2); vrt::set_alloc_fault(a2, 1); try { t.reset(); } catch (Boom const &) { th = true; } catch (std::bad_alloc const &) { ba = true; } } bool h2 = vrt::alloc_fault_fired(); vrt::set_alloc_fault(0, 0);
                    note("reset%s%s", th ? " -> threw" : "", ba ? " -> bad_alloc" : ""); CHECK(th == (FT->fired != b2) && ba == h2, "reset() swallowed an exception"); CHECK(t.valid(), "the task is gone after a failed reset()");
                    if (th || ba) { ++faults; CHECK(status_of([&] { t.get_future(); }) == 3 || true, "unreachable"); t.reset(); }
                }
                if (r + 1 < rounds) continue;
            }
        }
        if (faults && runs) vrt::nontrivial();
    });
    vrt::run(); c23_done("after the task program");
}
struct SStat { int live = 0, total = 0; }; static SStat g_ss; struct NoStack { int n; };
struct FailStack { int fail; explicit FailStack(int f = 0) : fail(f) {}
    boost::context::stack_context allocate() { if (fail) throw NoStack{ fail }; bf::fixedsize_stack a(32 * 1024); auto c = a.allocate(); vrt::NoPreempt np; ++g_ss.live; ++g_ss.total; return c; }
    void deallocate(boost::context::stack_context & c) noexcept { { vrt::NoPreempt np; --g_ss.live; } bf::fixedsize_stack a(32 * 1024); a.deallocate(c); } };
struct Props : bf::fiber_properties { Props(bf::context * c) : bf::fiber_properties(c) {} };
// fibers whose launch fails, among fibers that work
static void launch_fail() {
    c23_reset(); g_ss = SStat(); int T = range(PROG, 1, 2); struct Op { int what, fz, af; int fail; bf::launch pol; int work; }; std::vector<std::vector<Op>> ops(T); std::vector<ThreadPlan> plan = draw_plan(T);
    for (auto & v : ops) { int n = range(PROG, 1, 8); for (int i = 0; i < n; ++i) v.push_back({ (int)draw(PROG, 6), draw(PROG, 2) ? range(PROG, 1, 7) : 0, T == 1 && draw(PROG, 3) == 2 ? range(PROG, 1, 4) : 0, draw(PROG, 4) == 3, draw_launch(), (int)draw(PROG, 3) }); }
    struct Run { int started = 0, ended = 0, expected = 0; }; std::vector<Run> st(T); int failed = 0, ran = 0;
    on_threads(T, plan, [&](int t) {
        Run & me = st[t]; std::vector<bf::fiber> fs; std::vector<bf::future<int>> fu; { vrt::NoPreempt np; fs.reserve(32); fu.reserve(32); }
        for (auto & o : ops[t]) {
            int s0; { vrt::NoPreempt np; s0 = me.started; } bool boom = false, bad = false, nostack = false; int exp0 = me.expected;
            { Thr a(3), b(4); auto fn = [&me, o, th = Thr(9)](Thr const & x, Thr const & y) mutable { { vrt::NoPreempt np; ++me.started; FT->left.erase(boost::this_fiber::get_id()); } CHECK(th.id == 9 && x.id == 3 && y.id == 4, "the function or an argument was damaged"); for (int i = 0; i < o.work; ++i) boost::this_fiber::yield(); { vrt::NoPreempt np; ++me.ended; } return x.id; };
              Fuse fz(o.fz); if (o.af && !o.fz) { vrt::set_alloc_fault(o.af, o.fail ? 4096 : 1); }
              try {
                switch (o.what) {
                    case 0: { bf::fiber f(o.pol, fn, a, b); { vrt::NoPreempt np; ++me.expected; fs.push_back(std::move(f)); } break; }
                    case 1: { bf::fiber f(o.pol, std::allocator_arg, FailStack(o.fail), fn, a, std::move(b)); { vrt::NoPreempt np; ++me.expected; fs.push_back(std::move(f)); } break; }
                    case 2: { FailStack sa(o.fail); bf::fiber f(o.pol, std::allocator_arg, sa, std::move(fn), a, b); { vrt::NoPreempt np; ++me.expected; fs.push_back(std::move(f)); } break; }
                    case 3: { auto f = bf::async(o.pol, fn, a, b); { vrt::NoPreempt np; ++me.expected; fu.push_back(std::move(f)); } break; }
                    case 4: { auto f = bf::async(o.pol, std::allocator_arg, FailStack(o.fail), fn, a, b); { vrt::NoPreempt np; ++me.expected; fu.push_back(std::move(f)); } break; }
                    default: { auto f = bf::async(o.pol, std::allocator_arg, FailStack(o.fail), CountAlloc<char>(), std::move(fn), a, b); { vrt::NoPreempt np; ++me.expected; fu.push_back(std::move(f)); } break; }
                }
              } catch (Boom const &) { boom = true; } catch (std::bad_alloc const &) { bad = true; } catch (NoStack const &) { nostack = true; }
              vrt::set_alloc_fault(0, 0); }
            vrt::NoPreempt np; note("t%d launch what=%d%s%s%s", t, o.what, boom ? " -> threw" : "", bad ? " -> bad_alloc" : "", nostack ? " -> no stack" : "");
            CHECK(!bad || o.af, "bad_alloc"); CHECK(!nostack || o.fail, "no stack");
            if (boom || bad || nostack) { ++failed; CHECK(me.expected == exp0, "internal"); } else CHECK(!(o.fail && (o.what == 1 || o.what == 2 || o.what >= 4)), "a fiber was launched without a stack"); (void)s0; stamp();
        }
        for (auto & f : fs) f.join();
        for (auto & f : fu) { int r = 0; bool boom = false; try { r = f.get(); } catch (Boom const &) { boom = true; } CHECK(boom || r == 3, "another result was delivered"); }
        { vrt::NoPreempt np; std::vector<bf::fiber>().swap(fs); std::vector<bf::future<int>>().swap(fu); }
        bf::fiber last([&] { vrt::NoPreempt np; ++ran; }); last.join();
        vrt::NoPreempt np; ran += me.ended; CHECK(me.started <= me.expected, "%d fibers ran, %d were launched", me.started, me.expected); CHECK(me.started == me.ended, "a fiber that was joined has not ended"); 
    });
    CHECK(g_ss.live == 0, "%d of %d stacks were not released", g_ss.live, g_ss.total); if (failed && ran > T) vrt::nontrivial();
    c23_done("after the launches");
}
// ------------------------------------------------------------------ condition variables whose predicate throws
template<class CV, class Mx> static void cv_pred() {
    c23_reset(); struct W { CV cv; Mx m; int val = 0, inside = 0, left = 0; }; struct Op { int how, fz; int64_t d; bf::launch pol; int target; bool retry; }; int T = range(PROG, 1, 3), n = range(PROG, 1, 5), maxv = 0; std::vector<std::vector<Op>> ops(T);
    for (int i = 0; i < n; ++i) { Op o{ (int)draw(PROG, 3), draw(PROG, 3) ? range(PROG, 1, 4) : 0, (int64_t)draw_dur(), draw_launch(), range(PROG, 1, 3), (bool)draw(PROG, 2) }; maxv = std::max(maxv, o.target); ops[draw(PROG, T)].push_back(o); }
    int nt = (int)draw(PROG, T); int64_t gap = (int64_t)draw_dur(); bool one = draw(PROG, 2); W * w = nullptr; vrt::spawn([&] { w = new W(); w->left = n; }); vrt::run(); int thrown = 0, woke = 0;
    on_threads(T, draw_plan(T), [&](int t) {
        std::vector<bf::fiber> fs;
        for (auto & o : ops[t]) fs.emplace_back(o.pol, [&, o] {
            std::unique_lock<Mx> lk(w->m); { vrt::NoPreempt np; CHECK(w->inside++ == 0, "two owners"); } int fz = o.fz; bool done = false, res = false;
            while (!done) {
                auto pred = [&] { { vrt::NoPreempt np; CHECK(w->inside <= 1, "two owners"); w->inside = 1; } CHECK(lk.owns_lock(), "the predicate was called without the lock"); maybe_boom(); bool r = w->val >= o.target; { vrt::NoPreempt np; w->inside = r ? 1 : 0; } return r; };
                try { Fuse fu(fz);
                    if (o.how == 0) { w->cv.wait(lk, pred); res = true; } else if (o.how == 1) res = w->cv.wait_for(lk, ns(o.d), pred); else res = w->cv.wait_until(lk, Clock::now() + ns(o.d), pred);
                    done = true; if (res) CHECK(w->val >= o.target, "the wait returned true although the predicate is false");
                } catch (Boom const &) { CHECK(lk.owns_lock(), "a predicate threw and the lock is not held afterwards"); { vrt::NoPreempt np; CHECK(w->inside == 1, "a predicate threw and the lock is not held afterwards"); ++thrown; } fz = 0; if (!o.retry) done = true; }
                CHECK(lk.owns_lock(), "the lock is not held after the wait"); { vrt::NoPreempt np; CHECK(w->inside <= 1, "two owners"); w->inside = 1; }
            }
            { vrt::NoPreempt np; ++woke; --w->left; w->inside = 0; } lk.unlock();
        });
        if (t == nt) { // raises the value step by step
            for (int v = 1; v <= maxv; ++v) { boost::this_fiber::sleep_for(ns(gap)); { std::unique_lock<Mx> lk(w->m); { vrt::NoPreempt np; CHECK(w->inside == 0, "two owners"); w->inside = 1; } w->val = v; { vrt::NoPreempt np; w->inside = 0; } } w->cv.notify_all(); stamp(); }
            if (one) for (int i = 0; i < n; ++i) { w->cv.notify_one(); boost::this_fiber::yield(); }
        }
        for (auto & f : fs) f.join();
    });
    CHECK(w->left == 0, "internal"); if (thrown && woke) vrt::nontrivial(); vrt::spawn([&] { delete w; }); vrt::run(); c23_done("after the waits");
}
// ------------------------------------------------------------------ fiber specific storage, algorithms
static int g_cleaned; static void fss_cleanup(Tracked * p) { { vrt::NoPreempt np; ++g_cleaned; } delete p; }
static void fss_fail() {
    c23_reset(); g_cleaned = 0;
    vrt::spawn([] {
        install(draw_local_sched(), 1); int faults = 0, sets = 0;
        { int np = range(PROG, 1, 3); std::vector<std::unique_ptr<bf::fiber_specific_ptr<Tracked>>> ps;
          for (int i = 0; i < np; ++i) { bool cust = draw(PROG, 2); int af = (int)draw(PROG, 2); for (int k = 0; k < 2; ++k) { void * mem = ::operator new(sizeof(bf::fiber_specific_ptr<Tracked>)); vrt::set_alloc_fault(af, 1); bool bad = false; bf::fiber_specific_ptr<Tracked> * p = nullptr; try { p = cust ? new (mem) bf::fiber_specific_ptr<Tracked>(&fss_cleanup) : new (mem) bf::fiber_specific_ptr<Tracked>(); } catch (std::bad_alloc const &) { bad = true; } bool hit = vrt::alloc_fault_fired(); vrt::set_alloc_fault(0, 0); CHECK(hit == bad, "an allocation failure was swallowed"); if (bad) { ::operator delete(mem); ++faults; af = 0; continue; } ps.emplace_back(p); break; } }
          int nf = range(PROG, 1, 3); std::vector<bf::fiber> fs;
          for (int f = 0; f < nf; ++f) fs.emplace_back(draw_launch(), [&, f] {
            std::vector<Tracked *> mine(np, nullptr); int n = range(PROG, 1, 10);
            for (int i = 0; i < n; ++i) { int k = (int)draw(PROG, np), what = (int)draw(PROG, 4); auto & p = *ps[k];
                if (what < 2) { Tracked * v = new Tracked(100 * f + i); int af = draw(PROG, 2) ? 1 + (int)draw(PROG, 2) : 0; vrt::set_alloc_fault(af, 1); bool bad = false; try { p.reset(v); } catch (std::bad_alloc const &) { bad = true; } bool hit = vrt::alloc_fault_fired(); vrt::set_alloc_fault(0, 0); note("reset%s", bad ? " -> bad_alloc" : "");
                    CHECK(hit == bad, "an allocation failure was swallowed"); if (bad) { CHECK(p.get() == mine[k] || p.get() == nullptr, "a failed reset() left another value"); { vrt::NoPreempt np2; CHECK(g_reg.live.count(v), "a failed reset() destroyed the new value"); } CHECK(p.get() != v, "a failed reset() stored the value"); mine[k] = p.get(); delete v; ++faults; } else { mine[k] = v; ++sets; } }
                else if (what == 2) { Tracked * v = p.release(); CHECK(v == mine[k], "release() returned another value"); delete v; mine[k] = nullptr; }
                else boost::this_fiber::yield();
                for (int q = 0; q < np; ++q) { CHECK(ps[q]->get() == mine[q], "a value changed"); if (mine[q]) mine[q]->use("kept"); }
                stamp();
            }
          });
          for (auto & f : fs) f.join(); }
        CHECK(g_reg.live.empty(), "%zu values were not cleaned up", g_reg.live.size()); if (faults && sets) vrt::nontrivial();
    });
    vrt::run(); c23_done("after the fss program");
}
#define R1 "a push failed and a pop failed"
#define R2 "an operation failed and a value was received"
PBT_MAIN("C23",
    { "buf_seq", buf_seq<Thr>, 80000, 800000, false, R1 },
    { "buf_seq_moveonly", buf_seq<ThrMove>, 40000, 400000, false, R1 },
    { "buf_threads", (chan_conc<Thr, true>), 120000, 1200000, false, R2 },
    { "buf_threads_moveonly", (chan_conc<ThrMove, true>), 40000, 400000, false, R2 },
    { "unbuf_threads", (chan_conc<Thr, false>), 80000, 800000, false, R2 },
    { "unbuf_threads_moveonly", (chan_conc<ThrMove, false>), 40000, 400000, false, R2 },
    { "channel_ctor", chan_ctor, 40000, 400000, false, "a construction failed and one succeeded" },
    { "promise", fut_seq, 80000, 800000, false, "setting a value failed and an outcome was delivered" },
    { "promise_waiters", fut_wait, 80000, 800000, false, "setting a value failed while fibers waited" },
    { "tasks", task_seq, 80000, 800000, false, "an operation failed and a task ran" },
    { "launch", launch_fail, 80000, 800000, false, "a launch failed and a fiber ran" },
    { "predicates", (cv_pred<bf::condition_variable, bf::mutex>), 60000, 600000, false, "a predicate threw and every waiter returned" },
    { "predicates_any", (cv_pred<bf::condition_variable_any, bf::timed_mutex>), 60000, 600000, false, "a predicate threw and every waiter returned" },
    { "fss", fss_fail, 60000, 600000, false, "an allocation failed and a value was set" })
