// C27: synchronisation objects are destroyed at the earliest moment at which the documentation allows it.
#include "world.h"
using namespace w;
static const int MIG[] = { S_SHARED, S_WS, S_WS_SUSP };
static void pause(int k, int64_t d) { switch (k) { case 1: boost::this_fiber::yield(); break; case 2: boost::this_fiber::yield(); boost::this_fiber::yield(); break; case 3: boost::this_fiber::sleep_for(ns(d)); break; case 4: vrt::busy((uint64_t)d); break; default: break; } stamp(); }
struct Wt { int k = 0; int64_t d = 0; };
static Wt draw_wait() { Wt w; w.k = (int)draw(PROG, 5); w.d = w.k >= 3 ? (int64_t)draw_dur() : 0; return w; }
struct Fp { int id; bf::launch pol; int role = 0, op = 0; std::vector<Wt> w; std::vector<int> k; };
struct Prog { int T; std::vector<ThreadPlan> plan; std::vector<std::vector<Fp>> f; bool mig; };
static Prog draw_prog(int maxT, int n, int nw, int sched) {
    Prog p; p.T = range(PROG, 1, maxT); p.mig = sched >= 0; p.f.resize(p.T);
    for (int i = 0; i < n; ++i) { Fp f; f.id = i; f.pol = draw_launch(); f.op = (int)draw(PROG, 4); for (int j = 0; j < nw; ++j) { f.w.push_back(draw_wait()); f.k.push_back((int)draw(PROG, 6)); } p.f[draw(PROG, p.T)].push_back(f); }
    p.plan = draw_plan(p.T); if (sched >= 0) for (auto & x : p.plan) { x.sched = sched; x.immediate_exit = false; }
    return p;
}
template<class F> static void go(Prog & p, F body) {
    on_threads(p.T, p.plan, [&](int t) { std::vector<bf::fiber> fs; for (auto & f : p.f[t]) fs.emplace_back(f.pol, [&body, pf = &f] { body(*pf); }); for (auto & f : fs) f.join(); });
    int sp = 0; for (auto & x : p.f) if (!x.empty()) ++sp; if (sp > 1) vrt::label("several threads");
}
static void finish(Prog & p, const char * what) { if (!p.mig) check_heap_released(what); else if (vrt::heap().live_blocks > 64) check_heap_released(what); }
static int destroyed, at_once; // objects destroyed; while another operation on it had not returned to its caller

// -------- a mutex is destroyed by the fiber that owned it last
template<class M> struct timed_ { static bool lock(M & m, int64_t d) { return m.try_lock_for(ns(d)); } };
template<> struct timed_<bf::mutex> { static bool lock(bf::mutex & m, int64_t) { return m.try_lock(); } };
template<> struct timed_<bf::recursive_mutex> { static bool lock(bf::recursive_mutex & m, int64_t) { return m.try_lock(); } };
template<class M> struct rec_ { enum { v = 0 }; };
template<> struct rec_<bf::recursive_mutex> { enum { v = 1 }; };
template<> struct rec_<bf::recursive_timed_mutex> { enum { v = 1 }; };
template<class M> struct Shared { M m; int refs, data = 0; explicit Shared(int n) : refs(n) {} };
template<class M> static void last_owner(int maxT, int sched) {
    world_reset(); destroyed = at_once = 0; int n = range(PROG, 2, 5), objs = range(PROG, 1, 2); Prog p = draw_prog(maxT, n, 3, sched);
    std::vector<Shared<M> *> o(objs); vrt::spawn([&] { for (auto & x : o) x = new Shared<M>(n); }); vrt::run();
    int inside = 0;
    go(p, [&](Fp & f) {
        for (int i = 0; i < objs; ++i) { Shared<M> * s = o[(i + f.id) % objs]; int mine = 0;
            for (size_t j = 0; j + 1 < f.w.size(); ++j) { bool got = false;
                pause(f.w[j].k, f.w[j].d);
                switch (f.k[j]) { case 0: continue; case 1: got = s->m.try_lock(); break; case 2: got = timed_<M>::lock(s->m, f.w[j].d); break; default: s->m.lock(); got = true; break; }
                if (!got) continue;
                ++mine; ++s->data; if (rec_<M>::v && f.k[j] == 5) { s->m.lock(); ++s->data; ++mine; s->m.unlock(); }
                if (f.k[j] == 4) boost::this_fiber::yield();
                s->m.unlock();
            }
            pause(f.w.back().k, f.w.back().d);
            { vrt::NoPreempt np; ++inside; note("fiber %d gives object %d up", f.id, (i + f.id) % objs); }
            s->m.lock(); s->data -= mine; bool last = --s->refs == 0; int d = s->data; s->m.unlock();
            if (last) { { vrt::NoPreempt np; ++destroyed; if (inside > 1) ++at_once; note("fiber %d destroys object %d", f.id, (i + f.id) % objs); } CHECK(d == 0, "an update in a critical section was lost"); delete s; }
            { vrt::NoPreempt np; --inside; }
        }
    });
    CHECK(destroyed == objs, "internal"); if (at_once) vrt::nontrivial();
    vrt::spawn([&] { o.clear(); o.shrink_to_fit(); p.f.clear(); }); vrt::run(); finish(p, "after the mutex program");
}
static void mutexes(int T, int sched) { switch (draw(PROG, 4)) { case 0: last_owner<bf::mutex>(T, sched); break; case 1: last_owner<bf::timed_mutex>(T, sched); break; case 2: last_owner<bf::recursive_mutex>(T, sched); break; default: last_owner<bf::recursive_timed_mutex>(T, sched); break; } }
static void mutex_threads() { mutexes(3, -1); }
static void mutex_migrating() { mutexes(3, MIG[draw(PROG, 3)]); }

// -------- condition, mutex and flag are destroyed by the last of those that have waited; the notifier notified under the lock
struct Both { bf::mutex m; bf::condition_variable cv; bf::condition_variable_any any; int left = 0; bool ready = false; int data = 0; };
static void handed(int maxT, int sched) {
    world_reset(); destroyed = at_once = 0; int n = range(PROG, 2, 5), objs = range(PROG, 1, 2); Prog p = draw_prog(maxT, n, 2, sched); bool one = n == 2 && draw(PROG, 2), any = draw(PROG, 2);
    std::vector<Both *> o(objs); vrt::spawn([&] { for (auto & x : o) { x = new Both; x->left = n - 1; } }); vrt::run();
    int notifying = 0;
    go(p, [&](Fp & f) {
        for (int i = 0; i < objs; ++i) { Both * s = o[i];
            pause(f.w[0].k, f.w[0].d);
            if (f.id == i % n) { // notifies
                { vrt::NoPreempt np; ++notifying; note("fiber %d notifies object %d", f.id, i); }
                s->m.lock(); s->ready = true; s->data = 7; if (any) one ? s->any.notify_one() : s->any.notify_all(); else one ? s->cv.notify_one() : s->cv.notify_all(); s->m.unlock();
                { vrt::NoPreempt np; --notifying; note("fiber %d   has notified object %d", f.id, i); }
                continue;
            }
            std::unique_lock<bf::mutex> lk(s->m); auto pred = [s] { return s->ready; };
            auto wait = [&](auto & cv) { switch (f.k[0]) { case 0: case 1: cv.wait(lk, pred); break; case 2: while (!s->ready) cv.wait(lk); break; case 3: while (!cv.wait_for(lk, ns(f.w[1].d + 500000), pred)) stamp(); break; case 4: while (!s->ready) { cv.wait_until(lk, Clock::now() + ns(f.w[1].d + 500000)); stamp(); } break; default: cv.wait_for(lk, ns(f.w[1].d), pred); while (!s->ready) cv.wait(lk); break; } };
            if (any) wait(s->any); else wait(s->cv);
            CHECK(s->data == 7, "the wait returned before the notification"); bool last = --s->left == 0; lk.unlock();
            if (last) { { vrt::NoPreempt np; ++destroyed; if (notifying) ++at_once; note("fiber %d destroys object %d", f.id, i); } delete s; }
        }
    });
    CHECK(destroyed == objs, "internal"); if (at_once) vrt::nontrivial();
    vrt::spawn([&] { o.clear(); o.shrink_to_fit(); p.f.clear(); }); vrt::run(); finish(p, "after the hand-over program");
}
static void cv_threads() { handed(3, -1); }
static void cv_migrating() { handed(3, MIG[draw(PROG, 3)]); }

// -------- a condition variable is destroyed by its notifier: every waiting fiber has been notified, but need not have returned
template<class CV> struct Gone { bf::mutex m; CV * cv = nullptr; bool gone = false; int waiting = 0; };
template<class CV> static void notified(int maxT, int sched, bool timed) {
    world_reset(); destroyed = at_once = 0; int n = range(PROG, 2, 5); Prog p = draw_prog(maxT, n, 2, sched); int how = (int)draw(PROG, 3);
    Gone<CV> * g = nullptr; vrt::spawn([&] { g = new Gone<CV>; g->cv = new CV; }); vrt::run();
    go(p, [&](Fp & f) {
        pause(f.w[0].k, f.w[0].d);
        std::unique_lock<bf::mutex> lk(g->m);
        if (f.id == 0) {
            g->gone = true; int k = g->waiting; { vrt::NoPreempt np; note("fiber 0 notifies %d waiting fibers%s", k, how == 1 ? " after unlocking" : how == 2 ? " one by one" : ""); }
            if (how == 1) lk.unlock();
            if (how == 2) for (int i = 0; i < k; ++i) g->cv->notify_one(); else g->cv->notify_all();
            if (lk.owns_lock()) lk.unlock();
            { vrt::NoPreempt np; ++destroyed; if (g->waiting) ++at_once; note("fiber 0 destroys the condition variable, %d waits have not returned", g->waiting); } delete g->cv;
        } else if (!g->gone) {
            { vrt::NoPreempt np; ++g->waiting; note("fiber %d waits", f.id); }
            if (timed && f.k[0]) { if (f.k[0] & 1) g->cv->wait_for(lk, ns(f.w[1].d)); else g->cv->wait_until(lk, Clock::now() + ns(f.w[1].d)); } else g->cv->wait(lk);
            { vrt::NoPreempt np; --g->waiting; note("fiber %d   returned", f.id); }
        }
    });
    if (at_once) vrt::nontrivial();
    vrt::spawn([&] { delete g; p.f.clear(); }); vrt::run(); finish(p, "after the notification program");
}
static void notified_any(int T, int s, bool timed) { if (draw(PROG, 2)) notified<bf::condition_variable_any>(T, s, timed); else notified<bf::condition_variable>(T, s, timed); }
static void notified_threads() { notified_any(3, -1, false); }
static void notified_timed() { notified_any(3, -1, true); }
static void notified_one() { notified_any(1, -1, true); }
static void notified_migrating() { notified_any(3, MIG[draw(PROG, 3)], true); }

// -------- everybody drops its end of a shared state / its reference to a channel or barrier right after its last call returned
static void inc(int & i) { vrt::NoPreempt np; ++i; }
static void ends(int maxT, int sched) {
    world_reset(); destroyed = at_once = 0; int n = range(PROG, 2, 5), kind = (int)draw(PROG, 5); Prog p = draw_prog(maxT, n, 2, sched); bool except = draw(PROG, 3) == 2; int got = 0, closed = 0, leaders = 0, thrown = 0;
    struct W { bf::promise<Tracked> * pr = nullptr; bf::packaged_task<Tracked()> * pt = nullptr; std::vector<bf::shared_future<Tracked>> fu; std::vector<std::shared_ptr<bf::buffered_channel<Tracked>>> bc; std::vector<std::shared_ptr<bf::unbuffered_channel<Tracked>>> uc; std::vector<std::shared_ptr<bf::barrier>> ba; } * x = nullptr;
    vrt::spawn([&] { x = new W; x->fu.resize(n); x->bc.resize(n); x->uc.resize(n); x->ba.resize(n);
        if (kind == 0) { x->pr = new bf::promise<Tracked>; bf::shared_future<Tracked> s = x->pr->get_future().share(); for (int i = 1; i < n; ++i) x->fu[i] = s; }
        if (kind == 1) { x->pt = new bf::packaged_task<Tracked()>([except] { if (except) throw std::runtime_error("x"); return Tracked(5); }); bf::shared_future<Tracked> s = x->pt->get_future().share(); for (int i = 1; i < n; ++i) x->fu[i] = s; }
        if (kind == 2) { auto c = std::make_shared<bf::buffered_channel<Tracked>>(2); for (auto & y : x->bc) y = c; }
        if (kind == 3) { auto c = std::make_shared<bf::unbuffered_channel<Tracked>>(); for (auto & y : x->uc) y = c; }
        if (kind == 4) { auto c = std::make_shared<bf::barrier>((size_t)n); for (auto & y : x->ba) y = c; } });
    vrt::run();
    auto chan = [&](auto c, Fp & f) { // fiber 0 sends one value per receiver and leaves
        if (f.id == 0) { for (int i = 1; i < n; ++i) { auto r = c->push(Tracked(i)); CHECK(r == bf::channel_op_status::success, "push failed"); } if (except) c->close(); }
        else { Tracked v; auto r = f.k[0] < 3 ? c->pop(v) : c->pop_wait_for(v, std::chrono::hours(1)); if (r == bf::channel_op_status::success) inc(got); else inc(closed); } };
    go(p, [&](Fp & f) {
        pause(f.w[0].k, f.w[0].d);
        if (kind <= 1) {
            if (f.id == 0) { if (kind == 0) { if (except) x->pr->set_exception(std::make_exception_ptr(std::runtime_error("x"))); else x->pr->set_value(Tracked(5)); delete x->pr; } else { (*x->pt)(); delete x->pt; } ++destroyed; }
            else { bf::shared_future<Tracked> s = std::move(x->fu[f.id]); switch (f.k[0]) { case 0: s.wait(); break; case 1: while (s.wait_for(ns(f.w[1].d + 500000)) != bf::future_status::ready) stamp(); break; case 2: s.wait_for(ns(f.w[1].d)); break; default: break; }
                   try { CHECK(s.get().id == 5, "wrong value"); inc(got); } catch (std::runtime_error const &) { inc(thrown); } }
        }
        if (kind == 2) { auto c = std::move(x->bc[f.id]); chan(c, f); }
        if (kind == 3) { auto c = std::move(x->uc[f.id]); chan(c, f); }
        if (kind == 4) { auto b = std::move(x->ba[f.id]); if (b->wait()) inc(leaders); }
    });
    if (kind <= 1) CHECK(except ? thrown == n - 1 : got == n - 1, "not every future delivered the outcome"); if (kind == 4) CHECK(leaders == 1, "%d fibers led the cycle", leaders);
    if (kind == 2 || kind == 3) CHECK(got == n - 1, "%d of %d values were received", got, n - 1);
    vrt::nontrivial(); vrt::label(kind == 0 ? "promise" : kind == 1 ? "task" : kind == 2 ? "buffered channel" : kind == 3 ? "unbuffered channel" : "barrier");
    vrt::spawn([&] { delete x; p.f.clear(); }); vrt::run(); check_values_released(); finish(p, "after the last ends were dropped");
}
static void ends_threads() { ends(3, -1); }
static void ends_migrating() { ends(3, MIG[draw(PROG, 3)]); }
#define R "an object was destroyed while a call on it by another fiber had not returned"
PBT_MAIN("C27",
    { "mutex_last_owner", mutex_threads, 60000, 900000, false, "an object was destroyed while another fiber's release of it had not returned" }, { "cv_handed_over", cv_threads, 60000, 900000, false, R }, { "cv_notified", notified_threads, 40000, 600000, false, R }, { "cv_notified_timed", notified_timed, 60000, 900000, false, R }, { "cv_notified_one_thread", notified_one, 40000, 600000, false, R },
    { "ends_dropped", ends_threads, 60000, 900000, false, "a shared state, channel or barrier was left by its users one after the other" },
    { "mutex_migrating", mutex_migrating, 4000, 60000, true, R }, { "cv_migrating", cv_migrating, 4000, 60000, true, R }, { "notified_migrating", notified_migrating, 4000, 60000, true, R }, { "ends_migrating", ends_migrating, 4000, 60000, true, R })
