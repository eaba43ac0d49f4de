#include "world.h"
#include <cstring>
using namespace w;
// ------------------------------------------------------------------------------------------
// Stack allocators that account for every stack they hand out.
struct Stack { char * bottom, * top; int alloc; size_t want; int fiber = -1; bool dead = false; int maker; };
struct Acct { std::vector<Stack> s; int made = 0, freed = 0, deep = 0; };
static Acct * A; struct FRun; static void stack_freed(Stack & s);
static void account(boost::context::stack_context const & c, int id, size_t want) {
    vrt::NoPreempt np; Stack x; x.top = (char *)c.sp; x.bottom = x.top - c.size; x.alloc = id; x.want = want; x.maker = vrt::tid();
    for (auto & o : A->s) CHECK(o.dead || x.top <= o.bottom || o.top <= x.bottom, "check error: overlapping stacks"); A->s.push_back(x); ++A->made;
}
static void discount(boost::context::stack_context const & c, int id) {
    vrt::NoPreempt np; char here; Stack * f = nullptr;
    for (auto & o : A->s) if (!o.dead && o.top == (char *)c.sp && o.bottom == o.top - c.size) f = &o;
    CHECK(f, "an allocator was given back a stack that is not in use (released twice, or not as it was handed out)");
    CHECK(f->alloc == id, "a stack of allocator %d was given back to allocator %d", f->alloc, id);
    CHECK(!(&here >= f->bottom && &here < f->top), "a stack was released while code was running on it");
    stack_freed(*f); f->dead = true; ++A->freed;
}
template<class Inner> struct Counting { // copies share nothing but the id (and the pool of a pooled allocator)
    Inner inner; int id; size_t want;
    Counting(Inner const & i, int k, size_t w) : inner(i), id(k), want(w) {}
    boost::context::stack_context allocate() { boost::context::stack_context c = inner.allocate(); account(c, id, want); return c; }
    void deallocate(boost::context::stack_context & c) { discount(c, id); inner.deallocate(c); }
};
struct RawStack { // heap memory of exactly the requested size, misaligned top allowed by the interface
    size_t n; RawStack(size_t k) : n(k) {}
    boost::context::stack_context allocate() { char * p = (char *)std::malloc(n); boost::context::stack_context c; c.size = n; c.sp = p + n; return c; }
    void deallocate(boost::context::stack_context & c) { std::free((char *)c.sp - c.size); }
};
enum Kind { RAW, FIXED, PROT, POOLED, BUILTIN_FIXED, BUILTIN_PROT, BUILTIN_POOLED, DEFAULT, ASYNC, NKIND };
enum Fate { JOIN, DETACH, LATE, ELSEWHERE };
struct Big { Tracked t; alignas(32) char pad[1500]; int i; explicit Big(int k) : t(k), i(k) { memset(pad, k, sizeof pad); } bool ok() const { return pad[0] == (char)i && pad[1499] == (char)i && t.id == i && !((uintptr_t)pad & 31); } };
struct FRun { int thread, parent; int kind, how; size_t size; int fate; bf::launch pol; bool big; std::vector<std::pair<int, int64_t>> ops; int starts = 0; bool started = false, ended = false, handle = true; int stack = -1; std::unique_ptr<bf::fiber> h; bf::future<int> fut; };
struct World { std::deque<FRun> f; int T; std::vector<std::unique_ptr<bf::pooled_fixedsize_stack>> pool; std::vector<std::unique_ptr<Counting<bf::pooled_fixedsize_stack>>> cpool; };
static World * W;
static void stack_freed(Stack & s) { if (s.fiber < 0) return; FRun & f = W->f[s.fiber]; CHECK(f.ended, "the stack of fiber %d was released although the fiber may still run", s.fiber); CHECK(!f.handle, "the stack of fiber %d was released although a handle of it exists", s.fiber); note("stack of fiber %d released", s.fiber); }
static void launch(int c);
static int body(int i, Tracked & arg) {
    FRun & me = W->f[i]; char here; char * sp = &here; bool counted = me.kind <= POOLED || me.kind == ASYNC; Stack st; 
    { vrt::NoPreempt np; CHECK(++me.starts == 1, "fiber %d was started twice", i); me.started = true; note("fiber %d starts", i); stamp(); CHECK(arg.id == 100 + i, "wrong argument"); arg.use("received");
      int k = -1; for (size_t j = 0; j < A->s.size(); ++j) if (!A->s[j].dead && sp >= A->s[j].bottom && sp < A->s[j].top) k = (int)j;
      if (counted) { CHECK(k >= 0, "fiber %d does not run on a stack of the allocator it was launched with", i); CHECK(A->s[k].fiber < 0, "fibers %d and %d share a stack", i, A->s[k].fiber); CHECK(A->s[k].alloc == me.kind * 1000 + (me.kind == POOLED ? me.thread : i), "fiber %d runs on a stack of another allocator", i); A->s[k].fiber = i; me.stack = k; st = A->s[k]; CHECK((size_t)(st.top - st.bottom) >= st.want, "stack too small"); CHECK(sp - st.bottom + 1200 + (me.big ? 3600 : 0) + 600 >= (long)st.want, "fiber %d: only %ld of %zu bytes of the stack are usable", i, (long)(sp - st.bottom), st.want); }
      else CHECK(k < 0, "fiber %d runs on a stack that was allocated for something else", i); }
    // write the whole stack below the current frame (some room is left for the calls made from here)
    char * lo = counted ? st.bottom + (me.kind == PROT ? 4096 : 0) : sp - (long)(me.size > 24000 ? me.size - 20000 : 2000), * hi = sp - 9000; bool deep = me.how & 1; unsigned char pat = (unsigned char)(i * 7 + 3);
    if (deep && hi > lo) { vrt::NoPreempt np; memset(lo, pat, hi - lo); ++A->deep; } else deep = false;
    for (auto & o : me.ops) {
        switch (o.first) { case 0: boost::this_fiber::yield(); break; case 1: boost::this_fiber::sleep_for(ns(o.second)); break; case 2: launch((int)o.second); break; }
        vrt::NoPreempt np; stamp(); if (deep) for (char * p = lo; p < hi; ++p) CHECK((unsigned char)*p == pat, "fiber %d: its stack was overwritten (%ld bytes above the bottom)", i, (long)(p - lo)); if (me.stack >= 0) CHECK(!A->s[me.stack].dead, "the stack of fiber %d was released while it was running", i); arg.use("kept");
    }
    for (size_t c = 0; c < W->f.size(); ++c) { FRun & x = W->f[c]; if (x.parent != i || x.kind == ASYNC || x.fate != LATE || !x.h) continue; { vrt::NoPreempt np; x.handle = false; } x.h->join(); vrt::NoPreempt np; CHECK(x.ended, "joined before the end"); x.h.reset(); }
    vrt::NoPreempt np; me.ended = true; note("fiber %d ends", i); return i;
}
struct Fun { int i; Big b; explicit Fun(int k) : i(k), b(k) {} int operator()(Tracked & a) { CHECK(b.ok(), "the function object of fiber %d was damaged", i); int r = body(i, a); CHECK(b.ok(), "the function object of fiber %d was damaged", i); return r; } };
struct Small { int i; int operator()(Tracked & a) { return body(i, a); } };
struct ByVal { int i; int operator()(Tracked a) { return body(i, a); } };
template<class SA> static bf::fiber mk(FRun & x, int i, SA & sa) {
    Tracked t(100 + i); // the argument is copied; the copy lives as long as the function runs
    auto fn = [i](Tracked a) { body(i, a); }; auto big = [i, b = Big(i)](Tracked a) { CHECK(b.ok(), "the function object of fiber %d was damaged", i); body(i, a); CHECK(b.ok(), "the function object of fiber %d was damaged", i); };
    bool post = x.pol == bf::launch::post && (x.how & 2);
    if (x.how & 4) { SA tmp(sa); if (x.big) return post ? bf::fiber(std::allocator_arg, std::move(tmp), big, t) : bf::fiber(x.pol, std::allocator_arg, std::move(tmp), std::move(big), t); return post ? bf::fiber(std::allocator_arg, std::move(tmp), fn, t) : bf::fiber(x.pol, std::allocator_arg, std::move(tmp), fn, std::move(t)); }
    if (x.big) return post ? bf::fiber(std::allocator_arg, sa, std::move(big), t) : bf::fiber(x.pol, std::allocator_arg, sa, big, t);
    return post ? bf::fiber(std::allocator_arg, sa, fn, t) : bf::fiber(x.pol, std::allocator_arg, sa, fn, std::move(t));
}
static void launch(int c) {
    FRun & x = W->f[c]; bf::fiber f; int before; { vrt::NoPreempt np; note("launch fiber %d", c); before = A->made; }
    switch (x.kind) {
        case RAW: { Counting<RawStack> sa(RawStack(x.size), RAW * 1000 + c, x.size); f = mk(x, c, sa); break; }
        case FIXED: { Counting<bf::fixedsize_stack> sa(bf::fixedsize_stack(x.size), FIXED * 1000 + c, x.size); f = mk(x, c, sa); break; }
        case PROT: { Counting<bf::protected_fixedsize_stack> sa(bf::protected_fixedsize_stack(x.size), PROT * 1000 + c, x.size); f = mk(x, c, sa); break; }
        case POOLED: { f = mk(x, c, *W->cpool[x.thread]); break; }
        case BUILTIN_FIXED: { bf::fixedsize_stack sa(x.size); f = mk(x, c, sa); break; }
        case BUILTIN_PROT: { bf::protected_fixedsize_stack sa(x.size); f = mk(x, c, sa); break; }
        case BUILTIN_POOLED: f = mk(x, c, *W->pool[x.thread]); break;
        case DEFAULT: { Tracked t(100 + c); if (x.pol == bf::launch::post && (x.how & 2)) f = bf::fiber([c](Tracked a) { body(c, a); }, t); else f = bf::fiber(x.pol, [c](Tracked a) { body(c, a); }, t); break; }
        case ASYNC: { Counting<bf::fixedsize_stack> sa(bf::fixedsize_stack(x.size), ASYNC * 1000 + c, x.size); { vrt::NoPreempt np; x.handle = false; } Tracked t(100 + c); bf::future<int> r; if (x.how & 2) r = bf::async(x.pol, std::allocator_arg, sa, ByVal{ c }, t); else r = bf::async(x.pol, std::allocator_arg, sa, std::allocator<char>(), ByVal{ c }, t);
            { vrt::NoPreempt np; if (x.pol == bf::launch::post) CHECK(A->made >= before + 1, "async did not use the stack allocator"); } if (x.fate == JOIN) { CHECK(r.get() == c, "async returned another value"); vrt::NoPreempt np; CHECK(x.ended, "get() returned before the end"); } else { vrt::NoPreempt np; x.fut = std::move(r); } return; }
    }
    switch (x.fate) {
        case JOIN: { vrt::NoPreempt np; x.handle = false; } f.join(); CHECK(x.ended, "joined before the end"); break;
        case DETACH: { vrt::NoPreempt np; x.handle = false; } f.detach(); break;
        default: { vrt::NoPreempt np; x.h.reset(new bf::fiber(std::move(f))); vrt::hb_sync(&x.h, false, true); }
    }
}
static void run_stacks(int maxT, int maxF) {
    world_reset(); World * w = new World(); W = w; A = new Acct(); int T = w->T = range(PROG, 1, maxT), n = range(PROG, 1, maxF); static const size_t sz[] = { 32 * 1024, 16 * 1024, 20 * 1024 + 8, 65536, 128 * 1024, 40000 }; int only = draw(PROG, 2) ? (int)draw(PROG, NKIND) : -1;
    for (int i = 0; i < n; ++i) { w->f.emplace_back(); FRun & x = w->f[i]; x.parent = i < T ? -1 : (int)draw(PROG, i + 1) - 1; x.thread = x.parent < 0 ? (int)draw(PROG, T) : w->f[x.parent].thread; x.kind = only >= 0 ? only : (int)draw(PROG, NKIND); x.how = (int)draw(PROG, 8); x.size = sz[draw(PROG, 6)]; if (x.kind == POOLED || x.kind == BUILTIN_POOLED) x.size = 32 * 1024; x.fate = (int)draw(PROG, 4); if (x.kind == PROT || x.kind == BUILTIN_PROT) x.size = (x.size + 4095) & ~(size_t)4095; if (x.kind == DEFAULT) x.size = 16384; if ((x.kind == POOLED || x.kind == BUILTIN_POOLED) && x.fate == ELSEWHERE) x.fate = LATE; if (x.fate == LATE && x.parent < 0) x.fate = ELSEWHERE; if (x.fate == ELSEWHERE && (x.kind == POOLED || x.kind == BUILTIN_POOLED)) x.fate = DETACH; x.pol = draw_launch(); x.big = draw(PROG, 3) == 2 && x.kind != DEFAULT; int k = range(PROG, 0, 4); for (int j = 0; j < k; ++j) { bool s = draw(PROG, 3) == 2; x.ops.push_back({ s ? 1 : 0, s ? (int64_t)draw_dur() : 0 }); } }
    for (int i = 0; i < n; ++i) if (w->f[i].parent >= 0) { auto & o = w->f[w->f[i].parent].ops; o.insert(o.begin() + draw(PROG, (uint32_t)o.size() + 1), { 2, i }); }
    std::vector<ThreadPlan> plan = draw_plan(T);
    if (vrt::tracing()) { static const char * kn[] = { "heap block", "fixedsize", "protected_fixedsize", "pooled", "plain fixedsize", "plain protected", "plain pooled", "default", "async" }, * fn[] = { "joined", "detached", "joined late", "joined elsewhere" }; for (int i = 0; i < n; ++i) { FRun & x = w->f[i]; std::string s; for (auto & o : x.ops) s += (o.first == 2 ? " launch/" + std::to_string(o.second) : o.first ? " sleep" : " yield"); note("fiber %d of %d on thread %d: stack %s of %zu, %s, %s%s:%s", i, x.parent, x.thread, kn[x.kind], x.size, x.pol == bf::launch::post ? "post" : "dispatch", fn[x.fate], x.big ? ", large function object" : "", s.c_str()); } }
    w->pool.resize(T); w->cpool.resize(T); std::vector<char> shared_handle(n, 0);
    on_threads(T, plan, [&](int t) {
        { auto * a = new bf::pooled_fixedsize_stack(32 * 1024); auto * b = new Counting<bf::pooled_fixedsize_stack>(bf::pooled_fixedsize_stack(32 * 1024, 2, 0), POOLED * 1000 + t, 32 * 1024); vrt::NoPreempt np; w->pool[t].reset(a); w->cpool[t].reset(b); }
        for (int i = 0; i < n; ++i) if (w->f[i].parent < 0 && w->f[i].thread == t) launch(i);
        if (draw(PROG, 2)) { std::unique_ptr<bf::pooled_fixedsize_stack> a; std::unique_ptr<Counting<bf::pooled_fixedsize_stack>> b; bool open = false; { vrt::NoPreempt np; for (auto & x : w->f) if (x.thread == t && !x.started) open = true; if (!open) { a = std::move(w->pool[t]); b = std::move(w->cpool[t]); } } } // the pool's last handle goes before its fibers
        for (int i = 0; i < n; ++i) { FRun & x = w->f[i]; if (x.kind == ASYNC || x.fate != ELSEWHERE || (i % T) != t) continue; for (;;) { { vrt::NoPreempt np; vrt::hb_sync(&x.h, true, false); if (x.h) break; } boost::this_fiber::sleep_for(std::chrono::microseconds(200)); } { vrt::NoPreempt np; x.handle = false; } x.h->join(); vrt::NoPreempt np; CHECK(x.ended, "joined before the end"); x.h.reset(); }
        for (;;) { bool all = true; { vrt::NoPreempt np; for (auto & x : w->f) if (x.thread == t && !x.ended) all = false; } if (all) break; boost::this_fiber::sleep_for(std::chrono::microseconds(300)); }
        { std::unique_ptr<bf::pooled_fixedsize_stack> a; std::unique_ptr<Counting<bf::pooled_fixedsize_stack>> b; { vrt::NoPreempt np; a = std::move(w->pool[t]); b = std::move(w->cpool[t]); } }
    });
    for (int i = 0; i < n; ++i) CHECK(w->f[i].ended, "fiber %d was lost", i);
    vrt::spawn([&] { for (auto & x : w->f) x.fut = bf::future<int>(); }); vrt::run();
    CHECK(A->made == A->freed, "%d of %d stacks were not given back to their allocator", A->made - A->freed, A->made);
    check_values_released(); if (A->made >= 2 && A->deep) vrt::nontrivial();
    delete w; delete A; check_heap_released("after the program");
}
static void stacks_one() { run_stacks(1, 8); } static void stacks_threads() { run_stacks(3, 8); }
// ------------------------------------------------------------------------------------------
// the dispatcher's stack
class probe : public bf::algo::round_robin { public: int id; explicit probe(int i) : id(i) {} 
    void suspend_until(std::chrono::steady_clock::time_point const & tp) noexcept override { { vrt::NoPreempt np; char here; bool on = false; for (auto & s : A->s) if (!s.dead && s.alloc == id && &here >= s.bottom && &here < s.top) on = true; CHECK(on, "the dispatcher of thread %d does not run on the stack it was given", id); ++A->deep; } bf::algo::round_robin::suspend_until(tp); } };
struct DispAlloc : Counting<bf::fixedsize_stack> { DispAlloc(size_t n, int id) : Counting(bf::fixedsize_stack(n), id, n) {} };
static void run_dispatcher() {
    world_reset(); W = new World(); A = new Acct(); int T = range(PROG, 1, 3); struct P { size_t size; int again, idle, kids; bool init; std::vector<int64_t> ops; }; std::vector<P> p(T); for (auto & x : p) { x.size = 16384 << draw(PROG, 3); x.again = (int)draw(PROG, 3); x.idle = (int)draw(PROG, 4); x.kids = (int)draw(PROG, 4); x.init = draw(PROG, 4) != 3; for (int i = 0; i < x.kids; ++i) x.ops.push_back((int64_t)draw_dur()); }
    for (int t = 0; t < T; ++t) vrt::spawn([&, t] {
        P & x = p[t]; if (!x.init) boost::this_fiber::yield(); // initialised with the default already
        int before; { vrt::NoPreempt np; before = A->made; }
        bf::algo::algorithm::ptr_t al(x.init ? static_cast<bf::algo::algorithm *>(new probe(t)) : new bf::algo::round_robin());
        bool first = bf::initialize_thread(al, bf::make_stack_allocator_wrapper<DispAlloc>(x.size, t)); al.reset();
        CHECK(first == x.init, "initialize_thread() returned %d on a thread that %s used boost.fiber before", first, x.init ? "had not" : "had");
        { vrt::NoPreempt np; int mine = 0; for (auto & s : A->s) if (s.alloc == t) ++mine; CHECK(mine == (x.init ? 1 : 0), "the dispatcher's stack allocator of thread %d was used %d times", t, mine); }
        for (int k = 0; k < x.again; ++k) CHECK(!bf::initialize_thread(x.init ? static_cast<bf::algo::algorithm *>(new probe(t)) : new bf::algo::round_robin(), bf::make_stack_allocator_wrapper<DispAlloc>(x.size, 1000 + t)), "initialize_thread() claims to have initialised a thread twice");
        std::vector<bf::fiber> f; for (int k = 0; k < x.kids; ++k) f.emplace_back(bf::launch::post, [d = x.ops[k]] { boost::this_fiber::sleep_for(ns(d)); boost::this_fiber::yield(); });
        for (int k = 0; k < x.idle; ++k) boost::this_fiber::sleep_for(std::chrono::milliseconds(1));
        for (auto & y : f) y.join();
        vrt::NoPreempt np; for (auto & s : A->s) if (s.alloc == t) CHECK(!s.dead, "the dispatcher's stack was released before its thread ended"); stamp();
    });
    vrt::run(); CHECK(A->made == A->freed, "%d dispatcher stacks were not released at the end of their threads", A->made - A->freed); for (auto & s : A->s) CHECK(s.alloc < 1000, "a refused initialize_thread() used its stack allocator");
    if (A->deep) vrt::nontrivial(); delete W; delete A; check_heap_released("after the program");
}
// ------------------------------------------------------------------------------------------
// shared states with user allocators: everything goes back through the allocator it came from, rebound
struct StBook { int made = 0, freed = 0; std::map<void *, std::pair<int, size_t>> live; }; static StBook * B;
template<class T> struct CAlloc { typedef T value_type; int id; explicit CAlloc(int i) : id(i) {} template<class U> CAlloc(CAlloc<U> const & o) : id(o.id) {}
    T * allocate(size_t n) { T * p = (T *)std::malloc(n * sizeof(T)); vrt::NoPreempt np; B->live[p] = { id, n * sizeof(T) }; ++B->made; return p; }
    void deallocate(T * p, size_t n) { { vrt::NoPreempt np; auto i = B->live.find(p); CHECK(i != B->live.end(), "an allocator was given back memory it does not own"); CHECK(i->second.first == id && i->second.second == n * sizeof(T), "memory was given back to another allocator or with another size"); B->live.erase(i); ++B->freed; } std::free(p); }
    template<class U> bool operator==(CAlloc<U> const & o) const { return id == o.id; } template<class U> bool operator!=(CAlloc<U> const & o) const { return id != o.id; } };
static void run_states() {
    world_reset(); B = new StBook(); int T = range(PROG, 1, 2), n = range(PROG, 1, 6); struct S { int kind, fate, thread; bf::launch pol; int64_t d; bool reset; }; std::vector<S> s(n); for (auto & x : s) { x.kind = (int)draw(PROG, 5); x.fate = (int)draw(PROG, 4); x.thread = (int)draw(PROG, T); x.pol = draw_launch(); x.d = (int64_t)draw_dur(); x.reset = draw(PROG, 2); }
    int expected = 0; std::vector<ThreadPlan> plan = draw_plan(T); bool multi = false;
    on_threads(T, plan, [&](int t) {
        std::vector<bf::future<Tracked>> later; std::vector<bf::future<void>> laterv; std::vector<bf::shared_future<Tracked>> shared;
        for (int i = 0; i < n; ++i) if (s[i].thread == t) { S & x = s[i]; CAlloc<char> al(i); int before; { vrt::NoPreempt np; before = B->made; } Tracked v(i);
            switch (x.kind) {
                case 0: { bf::promise<Tracked> p(std::allocator_arg, al); bf::future<Tracked> f = p.get_future(); bf::fiber g(x.pol, [&x, i](bf::promise<Tracked> q) { boost::this_fiber::sleep_for(ns(x.d)); if (x.fate != 3) q.set_value(Tracked(i)); }, std::move(p)); if (x.fate & 1) g.join(); else g.detach(); if (x.fate == 0) { CHECK(f.get().id == i, "value"); } else if (x.fate == 3) { f.wait(); bool b = false; try { f.get(); } catch (bf::future_error const &) { b = true; } CHECK(b, "broken promise not reported"); } else if (x.fate == 2) shared.push_back(f.share()); else later.push_back(std::move(f)); break; }
                case 1: { bf::packaged_task<Tracked(int)> pt(std::allocator_arg, al, [v](int k) { boost::this_fiber::yield(); v.use("called"); return Tracked(k); }); bf::future<Tracked> f = pt.get_future(); if (x.reset) { pt.reset(); bool b = false; try { f.get(); } catch (bf::broken_promise const &) { b = true; } CHECK(b, "reset: broken promise not reported"); f = pt.get_future(); } if (x.fate & 1) pt(i); else bf::fiber(x.pol, std::move(pt), i).detach(); if (x.fate < 2) CHECK(f.get().id == i, "value"); else later.push_back(std::move(f)); break; }
                case 2: { bf::future<Tracked> f = bf::async(x.pol, std::allocator_arg, bf::fixedsize_stack(32768), al, [v](int k) { boost::this_fiber::yield(); v.use("called"); return Tracked(k); }, i); if (x.fate < 2) CHECK(f.get().id == i, "value"); else later.push_back(std::move(f)); break; }
                case 3: { bf::promise<void> p(std::allocator_arg, al); bf::future<void> f = p.get_future(); if (x.fate) p.set_value(); if (x.fate == 1) f.get(); else if (x.fate == 2) laterv.push_back(std::move(f)); break; }
                default: { bf::promise<Tracked &> p(std::allocator_arg, al); bf::future<Tracked &> f = p.get_future(); bf::promise<Tracked &> q(std::move(p)); swap(p, q); p.set_value(v); CHECK(&f.get() == &v, "reference"); break; }
            }
            vrt::NoPreempt np; stamp(); CHECK(B->made > before, "shared state %d was not obtained from the given allocator", i); }
        for (auto & f : later) f.get().use("received"); for (auto & f : shared) { auto c = f; c.get().use("received"); } for (auto & f : laterv) f.get();
    });
    CHECK(B->live.empty() && B->made == B->freed, "%zu shared states were not given back to their allocator", B->live.size()); check_values_released(); if (B->made >= 2) vrt::nontrivial(); delete B; check_heap_released("after the program"); (void)expected; (void)multi;
}
#define RULE "at least two stacks were handed out and one was written over its whole length"
PBT_MAIN("C19", { "stacks_one_thread", stacks_one, 100000, 1000000, false, RULE }, { "stacks_threads", stacks_threads, 100000, 1000000, false, RULE },
    { "dispatcher_stack", run_dispatcher, 70000, 700000, false, "a dispatcher slept on its own stack" }, { "shared_states", run_states, 100000, 1000000, false, "at least two shared states were allocated" })
