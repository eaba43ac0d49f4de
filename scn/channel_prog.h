// Generated producer/consumer programs over buffered and unbuffered channels,
// with a history oracle.
#pragma once
#include "world.h"
#include <algorithm>
#include <map>
namespace cp {
using namespace w;
typedef bf::channel_op_status St;
inline const char * st_name(St s) { switch (s) { case St::success: return "success"; case St::empty: return "empty"; case St::full: return "full"; case St::closed: return "closed"; case St::timeout: return "timeout"; } return "?"; }

enum Kind { PUSH, PUSH_RV, TRY_PUSH, TRY_PUSH_RV, PUSH_FOR, PUSH_UNTIL, POP, TRY_POP, POP_FOR, POP_UNTIL, VALUE_POP, ITER, CLOSE, ISCLOSED };
static const char * kind_name[] = { "push", "push&&", "try_push", "try_push&&", "push_wait_for", "push_wait_until", "pop", "try_pop", "pop_wait_for", "pop_wait_until", "value_pop", "iterate", "close", "is_closed" };
struct Rec { int fib; Kind k; int id; St st; uint64_t inv, ret, t0, t1; int64_t d; bool conv; bool timed() const { return k == PUSH_FOR || k == PUSH_UNTIL || k == POP_FOR || k == POP_UNTIL; } bool is_push() const { return k <= PUSH_UNTIL; } bool is_pop() const { return k >= POP && k <= ITER; } };

struct Hist {
    std::vector<Rec> r; int closers = 0, before_close = 0; bool exact_time = false, left = false; uint64_t close_inv = ~0ull, close_ret = ~0ull;
    size_t begin(int fib, Kind k, int id, int64_t d, bool conv = false) {
        vrt::NoPreempt np; Rec x{ fib, k, id, St::success, stamp(), ~0ull, vrt::now(), 0, d, conv };
        note("f%d %s%s%s%s%s", fib, kind_name[k], id >= 0 ? " v=" : "", id >= 0 ? std::to_string(id).c_str() : "", x.timed() ? " d=" : "", x.timed() ? ms(d > 0 ? d : 0) : "");
        r.push_back(x); return r.size() - 1;
    }
    void end(size_t i, St s, int id) {
        if (vrt::hb() && s == St::closed) { bool one; { vrt::NoPreempt np; one = closers == 1; } if (one) CHECK(before_close == 1, "what was written before close() is not visible to a fiber that found the channel closed"); }
        vrt::NoPreempt np; Rec & x = r[i]; x.st = s; x.ret = stamp(); x.t1 = vrt::now(); if (x.is_pop()) x.id = id;
        note("f%d   %s -> %s%s%s", x.fib, kind_name[x.k], st_name(s), x.is_pop() && s == St::success ? " v=" : "", x.is_pop() && s == St::success ? std::to_string(id).c_str() : "");
    }
};

struct Cfg { bool buffered; size_t cap; bool moveonly; };
template<class Ch> struct is_buf { static const bool value = false; };
template<class T> struct is_buf<bf::buffered_channel<T>> { static const bool value = true; };

template<class Ch> struct Ops {
    typedef typename Ch::value_type V;
    template<class C = Ch> static typename std::enable_if<is_buf<C>::value, St>::type try_push(C & c, V const & v) { return c.try_push(v); }
    template<class C = Ch> static typename std::enable_if<is_buf<C>::value, St>::type try_push(C & c, V && v) { return c.try_push(std::move(v)); }
    template<class C = Ch> static typename std::enable_if<is_buf<C>::value, St>::type try_pop(C & c, V & v) { return c.try_pop(v); }
    template<class C = Ch> static typename std::enable_if<!is_buf<C>::value, St>::type try_push(C & c, V const & v) { return c.push_wait_for(v, ns(0)); }
    template<class C = Ch> static typename std::enable_if<!is_buf<C>::value, St>::type try_push(C & c, V && v) { return c.push_wait_for(std::move(v), ns(0)); }
    template<class C = Ch> static typename std::enable_if<!is_buf<C>::value, St>::type try_pop(C & c, V & v) { return c.pop_wait_for(v, ns(0)); }
};

struct POp { Kind k; int64_t d; int fl; int before; int64_t bd; }; // before: 0 none 1 yield 2 sleep 3 busy
struct Fib { bool producer; std::vector<POp> ops; bf::launch pol; int id; bool closes_midway = false; bool detached_iter = false; };

struct Params { bool buffered = true; int max_threads = 3, max_prod = 3, max_cons = 3, max_ops = 5; int sched = -1; bool busy = true; bool timed_bias = false; bool close_bias = false; bool iter_bias = false, block_bias = false, leave = false; };

template<class Ch> struct Runner {
    typedef typename Ch::value_type V;
    Hist H; Ch * ch; int prod_left = 0, cons_left = 0;
    void before(POp const & o) {
        switch (o.before) { case 1: boost::this_fiber::yield(); stamp(); break; case 2: boost::this_fiber::sleep_for(ns(o.bd)); stamp(); break; case 3: vrt::busy(o.bd); stamp(); break; }
    }
    void do_close(int fib) {
        bool first;
        { vrt::NoPreempt np; uint64_t s = stamp(); if (H.close_inv == ~0ull) H.close_inv = s; note("f%d close", fib); first = H.closers++ == 0; }
        if (vrt::hb() && first) H.before_close = 1;
        ch->close();
        { vrt::NoPreempt np; uint64_t s = stamp(); if (H.close_ret == ~0ull) H.close_ret = s; note("f%d   closed", fib); }
        CHECK(ch->is_closed(), "is_closed() is false after close()");
    }
    template<class VV> typename std::enable_if<std::is_copy_constructible<VV>::value, St>::type push_lv(VV & v, POp const & o) {
        switch (o.k) {
            case PUSH: return ch->push(v);
            case TRY_PUSH: return Ops<Ch>::try_push(*ch, v);
            case PUSH_FOR: return ch->push_wait_for(v, ns(o.d));
            default: return o.fl ? ch->push_wait_until(v, Clock::now() + ns(o.d)) : ch->push_wait_until(v, std::chrono::system_clock::now() + ns(o.d));
        }
    }
    template<class VV> typename std::enable_if<!std::is_copy_constructible<VV>::value, St>::type push_lv(VV & v, POp const & o) { return push_rv(v, o); }
    St push_rv(V & v, POp const & o) {
        switch (o.k) {
            case PUSH: return ch->push(std::move(v));
            case TRY_PUSH: return Ops<Ch>::try_push(*ch, std::move(v));
            case PUSH_FOR: return ch->push_wait_for(std::move(v), ns(o.d));
            default: return o.fl ? ch->push_wait_until(std::move(v), Clock::now() + ns(o.d)) : ch->push_wait_until(std::move(v), std::chrono::system_clock::now() + ns(o.d));
        }
    }
    void producer(Fib const & f) {
        int n = 0;
        for (POp const & o : f.ops) {
            if (o.k == CLOSE) { do_close(f.id); continue; }
            before(o);
            int id = f.id * 1000 + n++;
            V v(id);
            size_t i = H.begin(f.id, o.k, id, o.d, (o.k == PUSH_UNTIL) && !o.fl);
            bool rv = o.fl & 2;
            St s = rv ? push_rv(v, o) : push_lv(v, o);
            H.end(i, s, id);
            if (!rv && std::is_copy_constructible<V>::value) CHECK(v.id == id, "pushing an lvalue modified it");
        }
        vrt::NoPreempt np; --prod_left;
    }
    bool pop_one(Fib const & f, POp const & o) { // false: closed
        V v(-7);
        size_t i = H.begin(f.id, o.k, -1, o.d, (o.k == POP_UNTIL) && !o.fl);
        St s = St::success;
        switch (o.k) {
            case POP: s = ch->pop(v); break;
            case TRY_POP: s = Ops<Ch>::try_pop(*ch, v); break;
            case POP_FOR: s = ch->pop_wait_for(v, ns(o.d)); break;
            case POP_UNTIL: s = o.fl ? ch->pop_wait_until(v, Clock::now() + ns(o.d)) : ch->pop_wait_until(v, std::chrono::system_clock::now() + ns(o.d)); break;
            case VALUE_POP:
                try { V x(ch->value_pop()); v = std::move(x); }
                catch (bf::fiber_error const & e) { CHECK(e.code() == std::errc::operation_not_permitted, "value_pop on a closed channel reported the wrong error"); s = St::closed; }
                break;
            default: break;
        }
        H.end(i, s, v.id);
        if (s != St::success) CHECK(v.id == -7, "a pop that reported %s modified the target", st_name(s));
        return s != St::closed;
    }
    void consumer(Fib const & f, bool until_closed) {
        size_t n = 0; bool open = true;
        for (POp const & o : f.ops) {
            if (o.k == CLOSE) { do_close(f.id); continue; }
            before(o);
            if (o.k == ITER) {
                size_t i = H.begin(f.id, ITER, -1, 0);
                int left = (int)(o.d); bool brk = false;
                for (auto & v : *ch) {
                    int id = v.id; v.use("read");
                    H.end(i, St::success, id);
                    if (o.fl & 1) boost::this_fiber::yield();
                    CHECK(v.id == id, "the value an iterator refers to changed while the iterator stood still");
                    if (--left <= 0) { brk = true; break; }
                    i = H.begin(f.id, ITER, -1, 0);
                }
                if (!brk) { H.end(i, St::closed, -1); open = false; break; }
                continue;
            }
            if (!pop_one(f, o)) { open = false; break; }
        }
        if (until_closed) while (open) {
            POp o = f.ops[n++ % f.ops.size()];
            if (o.k == CLOSE || o.k == ITER || o.k == TRY_POP || ((o.k == POP_FOR || o.k == POP_UNTIL) && (o.d < 1000000 || n > 20))) o.k = POP;
            open = pop_one(f, o);
        }
        vrt::NoPreempt np; --cons_left;
    }
};

inline void check_common(Hist & H, bool buffered, size_t cap) {
    auto & r = H.r;
    std::map<int, Rec *> push, pop;
    for (auto & x : r) {
        CHECK(x.ret != ~0ull, "internal: unfinished %s", kind_name[x.k]);
        if (x.is_push()) push[x.id] = &x;
        if (x.is_pop() && x.st == St::success) {
            CHECK(!pop.count(x.id), "value %d was received twice", x.id);
            pop[x.id] = &x;
        }
    }
    for (auto & p : pop) {
        CHECK(push.count(p.first), "value %d was received but never pushed", p.first);
        Rec * q = push[p.first];
        CHECK(q->st == St::success, "value %d was received although its push reported %s", p.first, st_name(q->st));
        CHECK(q->inv < p.second->ret, "value %d was received before it was pushed", p.first);
        if (!buffered) CHECK(p.second->inv < q->ret, "push of %d returned before anybody asked for a value", p.first);
    }
    for (auto & q : push) if (q.second->st == St::success && !(buffered && H.left)) CHECK(pop.count(q.first), "value %d was accepted but never delivered", q.first);
    // order
    for (auto & a : pop) for (auto & b : pop) {
        Rec * pa = push[a.first], * pb = push[b.first];
        if (pa->ret < pb->inv) CHECK(!(b.second->ret < a.second->inv), "order: %d was pushed before %d but taken after it", a.first, b.first);
        if (pa->fib == pb->fib && pa->inv < pb->inv && a.second->fib == b.second->fib) CHECK(a.second->inv < b.second->inv, "order: consumer received %d before %d of the same producer", b.first, a.first);
    }
    // close
    uint64_t ci = H.close_inv, cr = H.close_ret;
    for (auto & x : r) {
        if (x.st == St::closed) CHECK(ci < x.ret, "%s reported closed before the channel was closed", kind_name[x.k]);
        if (x.is_push() && x.inv > cr) CHECK(x.st == St::closed, "%s after close reported %s", kind_name[x.k], st_name(x.st));
        if (x.is_pop() && x.st == St::closed) {
            for (auto & y : r) if (y.is_pop() && y.st == St::success) CHECK(!(y.inv > x.ret) || (!buffered && push[y.id]->ret > x.inv), "%s received %d after an earlier pop had reported closed", kind_name[y.k], y.id);
            if (buffered) for (auto & q : push) if (q.second->st == St::success && q.second->ret < x.inv) CHECK(pop.count(q.first) && pop[q.first]->inv < x.ret, "pop reported closed although %d was still in the channel", q.first);
        }
        if (!buffered && x.is_pop() && x.st == St::success) CHECK(push[x.id]->inv < cr, "value %d was pushed after close", x.id);
    }
    // occupancy bounds (buffered)
    if (buffered) {
        struct Ev { uint64_t t; int lo, hi; };
        std::vector<Ev> ev; // lo: certainly contained, hi: possibly contained
        for (auto & q : push) if (q.second->st == St::success) { ev.push_back({ q.second->inv, 0, 1 }); ev.push_back({ q.second->ret, 1, 0 }); }
        for (auto & p : pop) { ev.push_back({ p.second->inv, -1, 0 }); ev.push_back({ p.second->ret, 0, -1 }); }
        std::sort(ev.begin(), ev.end(), [](Ev const & a, Ev const & b) { return a.t < b.t; });
        int lo = 0; for (auto & e : ev) { lo += e.lo; CHECK(lo <= (int)cap, "the channel holds %d values, its capacity is %zu", lo, cap); }
        auto range_of = [&](uint64_t a, uint64_t b, int & minlo, int & maxhi) {
            int l = 0, h = 0; bool in = false; minlo = 1 << 30; maxhi = -1;
            for (auto & e : ev) {
                if (e.t > a && !in) { in = true; minlo = l; maxhi = h; }
                if (e.t > b) break;
                l += e.lo; h += e.hi;
                if (in) { minlo = std::min(minlo, l); maxhi = std::max(maxhi, h); }
            }
            if (!in) { minlo = l; maxhi = h; }
        };
        for (auto & x : r) {
            int a, b;
            if (x.st == St::full) { range_of(x.inv, x.ret, a, b); CHECK(b >= (int)cap - 1, "%s reported full while at most %d of %zu places could be taken", kind_name[x.k], b, cap); }
            if (x.st == St::empty) { range_of(x.inv, x.ret, a, b); CHECK(a <= 0, "%s reported empty while at least %d values were in the channel", kind_name[x.k], a); }
            if (x.st == St::timeout && x.is_push()) { range_of(x.inv, x.ret, a, b); CHECK(b >= (int)cap - 1, "%s timed out while at most %d of %zu places could be taken", kind_name[x.k], b, cap); }
            if (x.st == St::timeout && x.is_pop()) { range_of(x.inv, x.ret, a, b); CHECK(a <= 0, "%s timed out while at least %d values were in the channel", kind_name[x.k], a); }
        }
    }
    // time
    for (auto & x : r) if (x.timed() && x.st == St::timeout) {
        uint64_t dl = x.t0 + (x.d > 0 ? (uint64_t)x.d : 0);
        if (!x.conv || H.exact_time) CHECK(x.t1 >= dl, "%s reported timeout at %s, before its deadline %s", kind_name[x.k], ms(x.t1), ms(dl));
        if (H.exact_time) CHECK(x.t1 == dl, "%s reported timeout at %s although its deadline was %s and the processor was free", kind_name[x.k], ms(x.t1), ms(dl));
    }
    for (auto & x : r) CHECK(!((x.st == St::timeout) && !x.timed() && buffered) && !(x.st == St::full && x.k != TRY_PUSH) && !(x.st == St::empty && x.k != TRY_POP), "%s reported %s", kind_name[x.k], st_name(x.st));
}

template<class V> inline void run_channel(Params P) {
    world_reset();
    int T = range(PROG, 1, P.max_threads);
    size_t cap = P.buffered ? (size_t[]){ 2, 4, 2, 8, 16 }[draw(PROG, P.block_bias ? 3 : 5)] : 0;
    bool usebusy = P.busy && draw(PROG, 2);
    bool supervised = draw(PROG, 2);           // close by timer-driven supervisor, else by joining the producers
    bool midclose = draw(PROG, P.close_bias ? 2 : 4) == 1;
    int np = range(PROG, 1, P.max_prod), nc = range(PROG, 1, P.max_cons);
    std::vector<std::vector<Fib>> prog(T);
    int id = 0;
    auto gen = [&](bool producer) {
        Fib f; f.producer = producer; f.id = ++id; f.pol = draw_launch();
        int n = range(PROG, 1, P.max_ops);
        for (int k = 0; k < n; ++k) {
            POp o; o.d = 0; o.fl = (int)draw(PROG, 4);
            uint32_t c = draw(PROG, 8);
            if (producer) o.k = c < 3 ? PUSH : c < 4 ? TRY_PUSH : c < 6 ? PUSH_FOR : c < 7 ? PUSH_UNTIL : PUSH;
            else o.k = c < 2 ? POP : c < 3 ? TRY_POP : c < 5 ? POP_FOR : c < 6 ? POP_UNTIL : c < 7 ? VALUE_POP : ITER;
            if (P.block_bias && draw(PROG, 2)) o.k = producer ? PUSH : POP;
            if (P.iter_bias && !producer && draw(PROG, 2)) o.k = ITER;
            if (P.timed_bias && draw(PROG, 2)) o.k = producer ? PUSH_FOR : POP_FOR;
            if (o.k == PUSH_FOR || o.k == PUSH_UNTIL || o.k == POP_FOR || o.k == POP_UNTIL) { o.d = (int64_t)draw_dur(); if (!o.d && draw(PROG, 2)) o.d = -3000000; }
            if (o.k == ITER) o.d = range(PROG, 1, 4);
            uint32_t b = draw(PROG, 6); o.before = b == 1 ? 1 : b == 2 ? 2 : b == 3 && usebusy ? 3 : 0; o.bd = o.before >= 2 ? (int64_t)draw_dur() : 0;
            f.ops.push_back(o);
        }
        if (midclose && draw(PROG, np + nc) == 0) { POp o; o.k = CLOSE; o.d = 0; o.fl = 0; o.before = 0; o.bd = 0; f.ops.insert(f.ops.begin() + draw(PROG, (uint32_t)f.ops.size() + 1), o); }
        prog[draw(PROG, T)].push_back(f);
    };
    for (int i = 0; i < np; ++i) gen(true);
    for (int i = 0; i < nc; ++i) gen(false);
    int TT = supervised ? T + 1 : T;
    std::vector<ThreadPlan> plan = draw_plan(TT);
    if (P.sched >= 0) for (auto & p : plan) { p.sched = P.sched; p.immediate_exit = false; }
    typedef bf::buffered_channel<V> BC; typedef bf::unbuffered_channel<V> UC;
    if (vrt::tracing()) {
        note("%s channel cap=%zu, %d threads, %s", P.buffered ? "buffered" : "unbuffered", cap, TT, supervised ? "closed by a supervisor once all producers or all consumers are done" : "closed after the producers; consumers run until closed");
        for (int t = 0; t < T; ++t) { note("thread %d: %s%s", t, sched_name(plan[t].sched), plan[t].immediate_exit ? ", exits at once" : ""); for (auto & f : prog[t]) { std::string s; for (auto & o : f.ops) { s += std::string(" ") + (o.before == 1 ? "yield," : o.before == 2 ? "sleep," : o.before == 3 ? "busy," : "") + kind_name[o.k] + (o.d ? "/" + std::to_string(o.d) : "") + ";"; } note("  f%d %s(%s):%s", f.id, f.producer ? "producer" : "consumer", f.pol == bf::launch::post ? "post" : "dispatch", s.c_str()); } }
    }
    auto body = [&](auto * chp) {
        typedef typename std::remove_pointer<decltype(chp)>::type Ch;
        Runner<Ch> R; R.ch = chp; R.prod_left = np; R.cons_left = nc;
        R.H.exact_time = !usebusy && vrt::idle_only_time() && P.sched < 0;
        uint64_t idles = 0;
        if (P.sched < 0) vrt::on_idle([&] {
            ++idles;
            int prod = 0, cons = 0, in = 0, pf = 0, cf = 0;
            for (auto & x : R.H.r) {
                if (x.ret == ~0ull) { if (x.is_push()) { ++prod; pf = x.fib; } else if (x.is_pop()) { ++cons; cf = x.fib; } }
                else if (x.st == St::success) in += x.is_push() ? 1 : x.is_pop() ? -1 : 0;
            }
            if (R.H.close_ret != ~0ull) { CHECK(!prod, "fiber %d sleeps in a push although the channel has been closed", pf); CHECK(!cons, "fiber %d sleeps in a pop although the channel has been closed", cf); return; }
            if (R.H.close_inv != ~0ull) return;
            if (P.buffered) {
                CHECK(!(prod && in < (int)cap - 1), "fiber %d sleeps in a push although the channel holds only %d values (capacity %zu)", pf, in, cap);
                CHECK(!(cons && in > 0), "fiber %d sleeps in a pop although %d values are in the channel", cf, in);
            } else CHECK(!(prod && cons), "producer %d and consumer %d both sleep although one hand-over is possible", pf, cf);
            if (prod || cons) vrt::label("idle check with blocked fibers");
        });
        on_threads(TT, plan, [&](int t) {
            if (t == T) { // supervisor
                uint64_t last = 0; int same = 0;
                for (;;) {
                    boost::this_fiber::sleep_for(std::chrono::milliseconds(100));
                    vrt::NoPreempt np;
                    if (R.prod_left == 0 || R.cons_left == 0) break;
                    if (g_stamp == last) ++same; else same = 0;
                    last = g_stamp;
                    if (same > 40) vrt::fail_as("stranded", "stranded: %d producers and %d consumers of an open channel sleep although a hand-over is possible", R.prod_left, R.cons_left);
                }
                R.do_close(0);
                return;
            }
            std::vector<bf::fiber> fs;
            for (auto & f : prog[t]) fs.emplace_back(f.pol, [&R, &f, supervised] { if (f.producer) R.producer(f); else R.consumer(f, !supervised); });
            if (!supervised) {
                // join the producers first; the thread that sees the last one finish closes
                size_t i = 0; bool last = false;
                for (auto & f : prog[t]) { if (f.producer) { fs[i].join(); } ++i; }
                { vrt::NoPreempt np; last = R.prod_left == 0; }
                if (last) R.do_close(-1 - t);
            }
            for (auto & f : fs) if (f.joinable()) f.join();
        });
        // whatever is left can still be taken
        if (P.leave && draw(PROG, 4)) { R.H.left = true; vrt::label("destroyed undrained"); }
        else { vrt::spawn([&] {
            if (!R.ch->is_closed()) R.do_close(0);
            Fib f; f.id = 99; POp o; o.k = POP; o.d = 0; o.fl = 0; o.before = 0; o.bd = 0;
            for (int i = 0; i < 100; ++i) if (!R.pop_one(f, o)) break;
            V v(5); CHECK(R.ch->push(std::move(v)) == St::closed, "push on a closed channel");
        });
        vrt::run(); }
        check_common(R.H, P.buffered, cap);
        for (auto & x : R.H.r) {
            if (x.st == St::timeout) vrt::label(x.is_push() ? "push timeout" : "pop timeout");
            if (x.st == St::closed && x.is_push()) vrt::label("push closed");
            if (x.st == St::full) vrt::label("full"); if (x.st == St::empty) vrt::label("empty");
            if (x.timed() && x.st == St::success && x.t1 > x.t0 + (x.d > 0 ? x.d : 0)) vrt::label("timed op succeeded after its deadline");
        }
        int succ = 0; bool overlap = false;
        for (auto & x : R.H.r) { if (x.is_pop() && x.st == St::success) succ++; for (auto & y : R.H.r) if (&x != &y && x.inv < y.inv && y.inv < x.ret) overlap = true; }
        if (succ && overlap) vrt::nontrivial();
    };
    if (P.buffered) {
        BC * c = nullptr;
        vrt::spawn([&] { c = new BC(cap); }); vrt::run();
        body(c);
        vrt::spawn([&] { delete c; }); vrt::run();
    } else {
        UC * c = nullptr;
        vrt::spawn([&] { c = new UC(); }); vrt::run();
        body(c);
        vrt::spawn([&] { delete c; }); vrt::run();
    }
    check_values_released();
    if (P.sched < 0) check_heap_released("after the channel program");
    if (T > 1) vrt::label("several threads");
    if (vrt::switches()) vrt::label("preempted");
}

// Dense races: every thread performs a few operations at once, one of them (or several) closes the channel.
template<class V, class Ch> inline void race_body(Ch * ch, bool buffered, size_t cap) {
    int T = range(PROG, 2, 4), closers = draw(PROG, 4) == 3 ? 2 : 1; if (closers > T - 1) closers = T - 1;
    struct Th { std::vector<POp> ops; std::vector<char> push; bool closes = false; }; std::vector<Th> th(T);
    for (int t = 0; t < T; ++t) {
        th[t].closes = t < closers; int n = t < closers ? (int)draw(PROG, 3) : range(PROG, 1, 3); int bias = (int)draw(PROG, 3); // mostly pushes / pops / mixed
        for (int k = 0; k < n; ++k) {
            POp o; o.d = 0; o.bd = 0; o.before = draw(PROG, 8) == 7; o.fl = (int)draw(PROG, 4); bool p = bias == 2 ? draw(PROG, 2) : (draw(PROG, 6) == 5) != (bias == 0); uint32_t c = draw(PROG, 6);
            if (t < closers || c == 4) { o.k = p ? TRY_PUSH : TRY_POP; if (draw(PROG, 3) == 2) { o.k = p ? PUSH_FOR : POP_FOR; o.d = (int64_t)draw_dur(); } }
            else if (c == 5) { o.k = p ? PUSH_FOR : POP_FOR; o.d = (int64_t)draw_dur(); }
            else o.k = p ? PUSH : c == 3 ? VALUE_POP : POP;
            th[t].ops.push_back(o); th[t].push.push_back(p);
        }
    }
    std::vector<ThreadPlan> plan = draw_plan(T); int pre = buffered ? (int)draw(PROG, (uint32_t)cap + 1) : 0, turn = buffered ? (int)draw(PROG, (uint32_t)cap) : 0;
    if (vrt::tracing()) for (int t = 0; t < T; ++t) { std::string s; for (auto & o : th[t].ops) s += std::string(" ") + kind_name[o.k] + (o.d ? "/" + std::to_string(o.d) : "") + ";"; note("thread %d (%s):%s%s", t, sched_name(plan[t].sched), s.c_str(), th[t].closes ? " close" : ""); }
    Runner<Ch> R; R.ch = ch; POp po; po.k = PUSH; po.d = 0; po.fl = 0; po.before = 0; po.bd = 0;
    auto push = [&](int f, POp const & o, int id) { V v(id); size_t i = R.H.begin(f, o.k, id, o.d); St s = (o.fl & 2) ? R.push_rv(v, o) : R.push_lv(v, o); R.H.end(i, s, id); };
    if (buffered) { vrt::spawn([&] { int id = 90000; Fib f; f.id = 90; POp q = po; q.k = POP; for (int i = 0; i < turn; ++i) { push(91, po, id++); R.pop_one(f, q); } for (int i = 0; i < pre && i < (int)cap - 1; ++i) push(91, po, id++); }); vrt::run(); }
    vrt::on_idle([&] {
        int prod = 0, cons = 0, in = 0; for (auto & x : R.H.r) if (x.ret == ~0ull) { if (x.is_push()) ++prod; else if (x.is_pop()) ++cons; } else if (x.st == St::success) in += x.is_push() ? 1 : x.is_pop() ? -1 : 0;
        if (R.H.close_ret != ~0ull) { CHECK(!prod && !cons, "%d pushes and %d pops sleep although the channel has been closed", prod, cons); return; }
        if (R.H.close_inv != ~0ull) return;
        if (buffered) { CHECK(!(prod && in < (int)cap - 1), "a push sleeps although the channel holds only %d values (capacity %zu)", in, cap); CHECK(!(cons && in > 0), "a pop sleeps although %d values are in the channel", in); }
        else CHECK(!(prod && cons), "a push and a pop both sleep although one hand-over is possible");
    });
    Gate go(T);
    on_threads(T, plan, [&](int t) {
        bf::mutex warm; warm.lock(); warm.unlock(); go.arrive_and_wait(); Fib f; f.id = t + 1;
        for (size_t k = 0; k < th[t].ops.size(); ++k) { POp const & o = th[t].ops[k]; R.before(o); if (th[t].push[k]) push(t + 1, o, (t + 1) * 1000 + (int)k); else R.pop_one(f, o); }
        if (th[t].closes) R.do_close(t + 1);
    });
    vrt::spawn([&] { Fib f; f.id = 99; POp o = po; o.k = POP; for (int i = 0; i < 100; ++i) if (!R.pop_one(f, o)) break; V v(5); CHECK(ch->push(std::move(v)) == St::closed, "push on a closed channel"); }); vrt::run();
    check_common(R.H, buffered, cap);
    int n = 0; for (auto & x : R.H.r) for (auto & y : R.H.r) if (&x != &y && x.fib != y.fib && x.inv < y.inv && y.inv < x.ret) ++n; if (n >= 2) vrt::nontrivial();
    for (auto & x : R.H.r) { if (x.inv < R.H.close_ret && x.ret > R.H.close_inv) vrt::label("overlaps close"); if (x.st == St::closed && x.is_push()) vrt::label("push closed"); if (x.st == St::timeout) vrt::label("timeout"); }
}
template<class V> inline void race_channel(bool buffered) {
    world_reset();
    if (buffered) { typedef bf::buffered_channel<V> C; C * c = nullptr; size_t cap = draw(PROG, 3) == 2 ? 4 : 2; vrt::spawn([&] { c = new C(cap); }); vrt::run(); race_body<V>(c, true, cap); vrt::spawn([&] { delete c; }); vrt::run(); }
    else { typedef bf::unbuffered_channel<V> C; C * c = nullptr; vrt::spawn([&] { c = new C(); }); vrt::run(); race_body<V>(c, false, 0); vrt::spawn([&] { delete c; }); vrt::run(); }
    check_values_released(); check_heap_released("after the channel program");
}
}
