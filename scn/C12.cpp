#include "world.h"
#include <cstring>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace w;
enum Op { YIELD, SLEEP, BUSY, SPAWN, SELFJOIN, IDS, AWAIT };
enum Fate { JOIN, DETACH, HANDOFF, LATE }; // joined by the parent / detached / joined by a fiber elsewhere / handle kept, joined by the parent at its end
enum Ctor { PLAIN, POLICY, STACK, POLSTACK, NCTOR };
struct Spec { int id, parent; bf::launch pol; int ctor; int fate; int thread, jthread; bool heavy; std::vector<std::pair<Op, int64_t>> ops; std::vector<int> kids; int arg; };
struct Run { int starts = 0, data = 0; bool started = false, ended = false, gone = false; uint64_t end = ~0ull; bf::fiber::id id; bool known = false; uint64_t created = ~0ull; std::unique_ptr<bf::fiber> slot; };
struct World {
    std::vector<Spec> s; std::vector<Run> r; int T;
    std::vector<std::pair<bf::fiber::id, int>> live;
    // events set by a thread that has no other business; fibers may be blocked on them when their thread's function returns
    std::vector<bf::promise<void>> ev; std::vector<bf::shared_future<void>> fu;
    void know(int i, bf::fiber::id id) { // called under NoPreempt
        Run & x = r[i]; CHECK(!!id, "a running or joinable fiber has no id");
        if (x.known) { CHECK(x.id == id, "fiber %d: its id changed", i); return; }
        x.known = true; x.id = id;
        for (auto & l : live) CHECK(l.first != id, "fibers %d and %d are alive and have the same id", l.second, i);
        live.push_back({ id, i });
    }
    void maybe_forget(int i) { Run & x = r[i]; if (x.ended && x.gone) for (size_t k = 0; k < live.size(); ++k) if (live[k].second == i) { live.erase(live.begin() + k); break; } }
    void body(int i, bf::fiber::id caller, int arg, Tracked & t, MoveTracked & m, int & ref);
    void end(int i) { if (vrt::hb()) r[i].data = i + 1; vrt::NoPreempt np; Run & x = r[i]; x.ended = true; x.end = stamp(); note("fiber %d ends", i); maybe_forget(i); }
    void join(int i, bf::fiber & f) {
        { vrt::NoPreempt np; know(i, f.get_id()); CHECK(f.joinable(), "fiber %d is not joinable", i); r[i].gone = true; maybe_forget(i); note("join of fiber %d", i); }
        f.join(); if (vrt::hb()) CHECK(r[i].data == i + 1, "what fiber %d wrote is not visible after join", i);
        { vrt::NoPreempt np; uint64_t e = stamp(); CHECK(r[i].ended && r[i].end < e, "join of fiber %d returned before its function had returned", i); note("fiber %d joined", i); }
        CHECK(!f.joinable() && f.get_id() == bf::fiber::id(), "a joined fiber handle is joinable or has an id");
    }
    static void misuse(bf::fiber & f) {
        for (int k = 0; k < 2; ++k) {
            bool thrown = false;
            try { if (k) f.detach(); else f.join(); } catch (bf::fiber_error const & e) { thrown = true; CHECK(e.code() == std::errc::invalid_argument, "%s of a fiber that is not joinable reported the wrong error", k ? "detach" : "join"); }
            CHECK(thrown, "%s of a fiber that is not joinable reported nothing", k ? "detach" : "join");
        }
    }
    void spawn(int i, bf::fiber::id me);
};
static World * W; static int g_ref[64];
static void entry(int i, bf::fiber::id caller, int arg, Tracked t, MoveTracked m, int & ref) { W->body(i, caller, arg, t, m, ref); }
struct Fun { int i; Tracked keep; char pad[200]; explicit Fun(int k) : i(k), keep(k) { memset(pad, k, sizeof pad); }
    void operator()(bf::fiber::id caller, int arg, Tracked t, MoveTracked m, int & ref) { CHECK(keep.id == i && pad[199] == (char)i, "the function object of fiber %d was damaged", i); keep.use("called"); W->body(i, caller, arg, t, m, ref); } };
struct Mem { int i; void run(bf::fiber::id caller, int arg, Tracked t, MoveTracked m, int & ref) { W->body(i, caller, arg, t, m, ref); } };
void World::spawn(int i, bf::fiber::id me) {
    Spec & x = s[i]; bf::fiber f; CHECK(!f.joinable(), "a default constructed fiber is joinable");
    { vrt::NoPreempt np; note("launch fiber %d", i); r[i].created = stamp(); }
    Tracked t(1000 + i); bf::fixedsize_stack st(x.heavy ? 64 * 1024 : 16 * 1024); int how = x.arg % 3; Mem mem{ i };
#define MK(...) do { if (how == 0) f = bf::fiber(__VA_ARGS__ entry, i, me, x.arg, t, MoveTracked(2000 + i), std::ref(g_ref[i])); else if (how == 1) f = bf::fiber(__VA_ARGS__ Fun(i), me, x.arg, t, MoveTracked(2000 + i), std::ref(g_ref[i])); else { Fun fn(i); f = bf::fiber(__VA_ARGS__ fn, me, x.arg, t, MoveTracked(2000 + i), std::ref(g_ref[i])); CHECK(fn.keep.id == i, "launching with an lvalue function modified it"); } } while (0)
    switch (x.ctor) {
        case PLAIN: MK(); break;
        case POLICY: MK(x.pol,); break;
        case STACK: MK(std::allocator_arg, st,); break;
        default: MK(x.pol, std::allocator_arg, st,); break;
    }
    (void)mem;
    CHECK(t.id == 1000 + i, "launching fiber %d modified an lvalue argument", i);
    { vrt::NoPreempt np; CHECK(f.joinable(), "a new fiber is not joinable"); know(i, f.get_id()); }
    bf::fiber g(std::move(f)); CHECK(!f.joinable() && f.get_id() == bf::fiber::id() && g.joinable(), "moving a fiber handle");
    if (x.arg & 8) { bf::fiber h; h.swap(g); CHECK(h.joinable() && !g.joinable(), "swap"); swap(h, g); f = std::move(g); g = std::move(f); CHECK(g.joinable() && !f.joinable(), "move assignment"); }
    if (x.arg & 16) misuse(f);
    switch (x.fate) {
        case JOIN: join(i, g); if (x.arg & 16) misuse(g); break;
        case DETACH: { { vrt::NoPreempt np; r[i].gone = true; maybe_forget(i); note("detach fiber %d", i); } g.detach(); CHECK(!g.joinable() && g.get_id() == bf::fiber::id(), "a detached handle is joinable or has an id"); break; }
        default: { vrt::NoPreempt np; r[i].slot.reset(new bf::fiber(std::move(g))); vrt::hb_sync(&r[i].slot, false, true); }
    }
}
void World::body(int i, bf::fiber::id caller, int arg, Tracked & t, MoveTracked & m, int & ref) {
    bf::fiber::id me = boost::this_fiber::get_id();
    { vrt::NoPreempt np; Run & x = r[i]; note("fiber %d starts", i); CHECK(++x.starts == 1, "the function of fiber %d was called twice", i); x.started = true; stamp(); know(i, me);
      CHECK(arg == s[i].arg && t.id == 1000 + i && m.id == 2000 + i && &ref == &g_ref[i], "fiber %d received wrong arguments", i); t.use("received"); m.use("received"); CHECK(caller != me, "a fiber runs as its creator"); }
    auto me_ok = [&] { bf::fiber::id n = boost::this_fiber::get_id(); CHECK(n == me, "fiber %d: get_id() changed", i); };
    for (auto & o : s[i].ops) {
        switch (o.first) {
            case YIELD: boost::this_fiber::yield(); break;
            case SLEEP: boost::this_fiber::sleep_for(ns(o.second)); break;
            case BUSY: vrt::busy(o.second); break;
            case AWAIT: fu[(size_t)o.second].wait(); break;
            case SPAWN: spawn((int)o.second, me); break;
            case SELFJOIN: { bf::fiber * p; { vrt::NoPreempt np; p = s[i].fate == LATE ? r[i].slot.get() : nullptr; } if (!p) break; bool th = false; try { p->join(); } catch (bf::fiber_error const & e) { th = true; CHECK(e.code() == std::errc::resource_deadlock_would_occur, "joining oneself reported the wrong error"); } CHECK(th, "a fiber joined itself"); CHECK(p->joinable(), "the refused join changed the handle"); vrt::label("join of oneself refused"); break; }
            case IDS: { vrt::NoPreempt np; auto l = live; for (auto & a : l) for (auto & b : l) { int c = (a.first < b.first) + 2 * (a.first == b.first) + 4 * (a.first > b.first); CHECK(c == 1 || c == 2 || c == 4, "ids compare inconsistently"); CHECK((c == 2) == (a.second == b.second) && (a.first <= b.first) == (c != 4) && (a.first >= b.first) == (c != 1) && (a.first != b.first) == (c != 2), "ids compare inconsistently"); if (c == 2) CHECK(std::hash<bf::fiber::id>()(a.first) == std::hash<bf::fiber::id>()(b.first), "equal ids have different hashes"); for (auto & d : l) if (a.first < b.first && b.first < d.first) CHECK(a.first < d.first, "the order of ids is not transitive"); } break; }
        }
        stamp(); me_ok();
        { vrt::NoPreempt np; t.use("kept"); CHECK(t.id == 1000 + i && m.id == 2000 + i, "the arguments of fiber %d changed", i); ++g_ref[i]; }
    }
    for (int k : s[i].kids) if (s[k].fate == LATE) { bf::fiber * p; { vrt::NoPreempt np; p = r[k].slot.get(); } join(k, *p); vrt::NoPreempt np; r[k].slot.reset(); }
    end(i);
}
static void run_fibers(int maxT, int sched, int maxF) {
    world_reset(); memset(g_ref, 0, sizeof g_ref);
    World * w = new World(); W = w; int T = w->T = range(PROG, 1, maxT), n = range(PROG, 1, maxF); bool busy = draw(PROG, 4) == 3;
    uint32_t E = sched < 0 ? draw(PROG, 4) : 0; w->ev.resize(E); for (auto & e : w->ev) w->fu.push_back(e.get_future().share());
    for (int i = 0; i < n; ++i) {
        Spec x; x.id = i; x.parent = i ? (int)draw(PROG, (uint32_t)i + 1) - 1 : -1; x.pol = draw_launch(); x.ctor = (int)draw(PROG, NCTOR); x.fate = (int)draw(PROG, 4); x.arg = (int)draw(PROG, 96); x.heavy = draw(PROG, 2);
        x.thread = (int)draw(PROG, T); x.jthread = (int)draw(PROG, T);
        if (x.ctor == PLAIN || x.ctor == STACK) x.pol = bf::launch::post;
        int k = range(PROG, 0, 4); for (int j = 0; j < k; ++j) { uint32_t c = draw(PROG, 8 + (E ? 2 : 0)); if (c >= 8) { x.ops.push_back({ AWAIT, (int64_t)draw(PROG, E) }); continue; } int64_t d = (c == 3 || c == 4 || c == 5) ? (int64_t)draw_dur() : 0; x.ops.push_back({ c < 3 ? YIELD : c < 5 ? SLEEP : c == 5 ? (busy ? BUSY : SLEEP) : c == 6 ? SELFJOIN : IDS, d }); }
        w->s.push_back(x);
    }
    for (int i = 0; i < n; ++i) { int p = w->s[i].parent; if (p >= 0) { auto & o = w->s[p].ops; o.insert(o.begin() + draw(PROG, (uint32_t)o.size() + 1), { SPAWN, i }); w->s[p].kids.push_back(i); } }
    w->r.resize(n);
    std::vector<ThreadPlan> plan = draw_plan(T); if (sched >= 0) for (auto & p : plan) { p.sched = sched; p.immediate_exit = false; }
    if (vrt::tracing()) { static const char * fn[] = { "joined by its creator", "detached", "joined elsewhere", "joined late" }; for (int t = 0; t < T; ++t) note("thread %d: %s%s", t, sched_name(plan[t].sched), plan[t].immediate_exit ? ", exits at once" : ""); for (auto & x : w->s) { std::string o; for (auto & k : x.ops) { static const char * on[] = { " yield", " sleep", " busy", " launch", " selfjoin", " ids", " await" }; o += on[k.first]; if (k.second) o += "/" + std::to_string(k.second); } note("fiber %d of %d on thread %d: %s, %s:%s", x.id, x.parent, x.thread, x.pol == bf::launch::post ? "post" : "dispatch", fn[x.fate], o.c_str()); } }
    if (E) vrt::spawn([w, E] { std::vector<int64_t> at; for (uint32_t e = 0; e < E; ++e) at.push_back(draw_dur()); for (uint32_t e = 0; e < E; ++e) { std::this_thread::sleep_for(ns(at[e])); w->ev[e].set_value(); } });
    on_threads(T, plan, [&](int t) {
        bf::fiber::id me = boost::this_fiber::get_id(); CHECK(!!me, "the main fiber has no id");
        { std::ostringstream a, b; a << me; b << bf::fiber::id(); CHECK(!a.str().empty() && a.str() != b.str(), "streaming an id"); }
        std::vector<bf::fiber> jf;
        for (auto & x : w->s) if (x.fate == HANDOFF && x.jthread == t) jf.emplace_back(bf::launch::post, [w, i = x.id] { std::unique_ptr<bf::fiber> f; for (;;) { { vrt::NoPreempt np; f = std::move(w->r[i].slot); vrt::hb_sync(&w->r[i].slot, true, false); } if (f) break; boost::this_fiber::sleep_for(std::chrono::microseconds(250)); } w->join(i, *f); });
        std::vector<int> late;
        for (auto & x : w->s) if (x.parent < 0 && x.thread == t) { w->spawn(x.id, me); if (x.fate == LATE) late.push_back(x.id); CHECK(boost::this_fiber::get_id() == me, "the id of the main fiber changed"); }
        for (int k : late) { w->join(k, *w->r[k].slot); vrt::NoPreempt np; w->r[k].slot.reset(); }
        for (auto & f : jf) f.join();
        // keep the thread's scheduler running while others wait for fibers of this thread
        if (sched >= 0 || !plan[t].immediate_exit) for (;;) { bool all = true; { vrt::NoPreempt np; for (auto & x : w->r) if (!x.ended) all = false; } if (all) break; boost::this_fiber::sleep_for(std::chrono::microseconds(700)); }
    });
    int det = 0, hand = 0; for (int i = 0; i < n; ++i) { CHECK(w->r[i].starts == 1, "the function of fiber %d was called %d times", i, w->r[i].starts); CHECK(w->r[i].ended, "fiber %d did not end", i); det += w->s[i].fate == DETACH; hand += w->s[i].fate == HANDOFF; CHECK(g_ref[i] == (int)w->s[i].ops.size(), "internal"); }
    CHECK(w->live.empty(), "internal: ids");
    if (det) vrt::label("detached"); if (hand) vrt::label("joined on another fiber or thread"); if (n >= 3 && (det || hand)) vrt::nontrivial();
    delete w; check_values_released(); if (sched < 0) check_heap_released("after the fibers");
}
static void threads() { run_fibers(3, -1, 8); }
static void one_thread() { run_fibers(1, -1, 10); }
static void migrating() { static const int k[] = { S_SHARED, S_WS, S_WS_SUSP }; run_fibers(3, k[draw(PROG, 3)], 8); }
// ---------------------------------------------------------------- documented std::terminate cases, in a child process
static void terminates() {
    world_reset();
    vrt::spawn([] {
        int k = (int)draw(PROG, 6), depth = (int)draw(PROG, 3), steps = (int)draw(PROG, 3); bf::launch pol = draw_launch(); install(draw_local_sched(), 1);
        pid_t p; { vrt::NoPreempt np; p = fork(); }
        if (p == 0) {
            std::set_terminate([] { _exit(42); }); alarm(20);
            auto act = [&] {
                for (int i = 0; i < steps; ++i) boost::this_fiber::yield();
                switch (k) {
                    case 0: { bf::fiber f(pol, [] { boost::this_fiber::yield(); }); break; }                                   // destroyed while joinable
                    case 1: { bf::fiber f(pol, [] {}); boost::this_fiber::yield(); boost::this_fiber::yield(); break; }      // the same after the function has ended
                    case 2: { bf::fiber f(pol, [] {}), g; f = std::move(g); f.detach(); break; }                              // assigned to while joinable
                    case 3: { bf::fiber f(pol, [] { boost::this_fiber::yield(); throw 5; }); f.join(); break; }             // exception leaves the function
                    case 4: { bf::fiber f(pol, [] { boost::this_fiber::yield(); throw std::runtime_error("x"); }); f.detach(); for (int i = 0; i < 3000; ++i) boost::this_fiber::yield(); break; }
                    case 5: { bf::fiber f(pol, [] {}); f.join(); f = bf::fiber(); { bf::fiber g(pol, [] {}); g.detach(); } _exit(43); } // allowed
                }
            };
            std::function<void(int)> nest = [&](int d) { if (d == 0) act(); else { bf::fiber f(bf::launch::post, [&, d] { nest(d - 1); }); f.join(); } };
            nest(depth);
            _exit(1);
        }
        int st = 0; { vrt::NoPreempt np; waitpid(p, &st, 0); }
        CHECK(WIFEXITED(st) && WEXITSTATUS(st) == (k == 5 ? 43 : 42), k == 5 ? "std::terminate was called for a handle that is not joinable" : "std::terminate was not called for %s (status %x)", k < 2 ? "the destruction of a joinable fiber" : k == 2 ? "the assignment to a joinable fiber" : "an exception that left a fiber's function", st);
        vrt::nontrivial();
    });
    vrt::run();
}
// --- handles and ids as values
static void ids() {
    world_reset();
    vrt::spawn([] {
        typedef bf::fiber::id Id; struct H { bf::fiber f; Id id; }; std::vector<H> h(range(PROG, 2, 6)); std::vector<Id> all{ boost::this_fiber::get_id(), Id() }; bf::barrier hold(1); bf::mutex m; m.lock(); int n = range(PROG, 4, 30), moved = 0, live = 0, running = 0;
        auto str = [](Id i) { std::ostringstream o; o << i; return o.str(); };
        for (int k = 0; k < n; ++k) {
            H & a = h[draw(PROG, h.size())]; H & b = h[draw(PROG, h.size())];
            switch (draw(PROG, 7)) {
                case 0: case 1: if (!a.f.joinable()) { ++running; bf::fiber x(draw_launch(), [&m, &running] { { std::unique_lock<bf::mutex> l(m); } --running; }); Id i = x.get_id(); CHECK(!!i && x.joinable(), "a new fiber has no id or is not joinable"); for (auto & o : h) CHECK(o.id != i, "two living fibers have the same id"); CHECK(i != boost::this_fiber::get_id(), "a new fiber has the id of the running one"); a.f = std::move(x); a.id = i; ++live; note("fiber created"); } break;
                case 2: if (!a.f.joinable() && &a != &b) { a.f = std::move(b.f); a.id = b.id; b.id = Id(); ++moved; note("moved"); } break;
                case 3: if (draw(PROG, 2)) a.f.swap(b.f); else swap(a.f, b.f); std::swap(a.id, b.id); if (&a != &b) ++moved; note("swapped"); break;
                case 4: if (a.f.joinable()) { bf::fiber x(std::move(a.f)); CHECK(x.get_id() == a.id && !a.f.joinable() && a.f.get_id() == Id(), "move construction of a handle"); a.f = std::move(x); CHECK(!x.joinable(), "a moved-from handle is joinable"); } break;
                case 5: if (a.f.joinable() && draw(PROG, 2)) { m.unlock(); if (draw(PROG, 2)) { a.f.join(); } else { a.f.detach(); } a.id = Id(); m.lock(); note("joined or detached"); } break;
                default: { int e = 0; if (!a.f.joinable()) { try { if (draw(PROG, 2)) a.f.join(); else a.f.detach(); } catch (bf::fiber_error const & x) { e = x.code() == std::make_error_code(std::errc::invalid_argument) ? 1 : 2; } CHECK(e == 1, "join or detach of a handle without a fiber did not report invalid_argument"); } boost::this_fiber::yield(); }
            }
            for (auto & x : h) { CHECK(x.f.joinable() == !!x.id && x.f.get_id() == x.id, "a handle does not refer to the fiber it was given"); if (x.id) all.push_back(x.id); }
        }
        std::sort(all.begin(), all.end()); std::set<Id> u(all.begin(), all.end()); std::hash<Id> hs;
        for (size_t i = 0; i < all.size(); ++i) for (size_t j = 0; j < all.size(); ++j) {
            Id a = all[i], b = all[j]; bool lt = a < b, gt = a > b, eq = a == b;
            CHECK(lt + gt + eq == 1 && (a != b) == !eq && (a <= b) == (lt || eq) && (a >= b) == (gt || eq) && (b < a) == gt, "comparisons of two ids contradict one another");
            CHECK(i >= j || !gt, "ids are not ordered transitively"); if (eq) CHECK(hs(a) == hs(b), "equal ids have different hash values"); CHECK((str(a) == str(b)) == eq, "the textual form of ids is ambiguous");
        }
        CHECK(!Id() && !static_cast<bool>(Id()) && str(Id()) == "{not-valid}", "an id without a fiber claims to have one"); for (auto i : u) CHECK(!i == (i == Id()) && static_cast<bool>(i) == (i != Id()), "operator bool or ! of an id");
        for (auto & x : h) for (auto & y : h) CHECK((x.f < y.f) == (x.id < y.id), "the order of handles is not the order of their ids");
        m.unlock(); for (auto & x : h) if (x.f.joinable()) x.f.join(); while (running) boost::this_fiber::yield(); if (moved && live > 1) vrt::nontrivial();
    });
    vrt::run(); check_heap_released("after the handles were destroyed");
}
#define RULE "three or more fibers, one of them detached or joined on another fiber"
PBT_MAIN("C12",
    { "fib_threads", threads, 120000, 1200000, false, RULE },
    { "fib_one_thread", one_thread, 80000, 800000, false, RULE },
    { "fib_handles", ids, 40000, 400000, false, "two or more fibers, handles moved or swapped" },
    { "fib_terminate", terminates, 1200, 12000, false, "every case" },
    { "fib_migrating", migrating, 5300, 60000, true, RULE })
