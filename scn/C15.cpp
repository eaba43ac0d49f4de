#include "world.h"
using namespace w;
static int vals_alive;
struct Val : Tracked { int owner, slot; Val(int o, int s, int i) : Tracked(i), owner(o), slot(s) { vrt::NoPreempt np; ++vals_alive; } ~Val() { vrt::NoPreempt np; --vals_alive; } };
enum Op { RESET, RESET_NULL, RELEASE, RESET_SAME, GET, YIELD, SLEEP, BUSY, KID, LOCK };
struct Spec { int id, parent; bf::launch pol; int fate; std::vector<std::pair<int, int64_t>> ops; }; // fate: 0 joined 1 detached 2 joined by the thread
struct World {
    std::vector<std::unique_ptr<bf::fiber_specific_ptr<Val>>> p; std::vector<Spec> s; int K = 0, next = 1; std::vector<std::vector<int>> cur; // [fiber][slot] id or 0
    std::vector<bf::fiber::id> ids; std::vector<char> joined, done; std::vector<int> cleaned, created; std::vector<bf::fiber> h; bf::mutex m; int cleanups = 0, moved = 0, atend = 0;
    bool yield_in_cleanup = false, touch_in_cleanup = false;
    void clean(Val * v);
    void check_all(int f) { for (int k = 0; k < K; ++k) { Val * v = p[k]->get(); vrt::NoPreempt np; int want = cur[f][k]; CHECK((v == nullptr) == (want == 0), "fiber %d: slot %d is %s", f, k, v ? "not null although the fiber stored nothing in it" : "null although the fiber stored a value"); if (v) { v->use("found in a fiber specific pointer"); CHECK(v->id == want && v->owner == f && v->slot == k, "fiber %d finds value %d of fiber %d in slot %d instead of its own value %d", f, v->id, v->owner, k, want); } } }
    void body(int f); void run_ops(int f);
    Val * make(int f, int k) { int id; { vrt::NoPreempt np; id = next++; if ((int)cleaned.size() <= id) { cleaned.resize(id + 1); } ++created[0]; } return new Val(f, k, id); }
};
static World * W;
static void cleanup_fn(Val * v) { W->clean(v); delete v; }
void World::clean(Val * v) {
    bf::fiber::id me = boost::this_fiber::get_id();
    { vrt::NoPreempt np; stamp(); CHECK(v != nullptr, "a cleanup function was called with a null pointer"); v->use("passed to a cleanup function"); CHECK(ids[v->owner] == me, "the value of fiber %d is cleaned up in another fiber", v->owner); CHECK(++cleaned[v->id] == 1, "value %d was cleaned up twice", v->id); CHECK(!joined[v->owner], "value %d was cleaned up after its fiber had been joined", v->id); ++cleanups; if (done[v->owner]) ++atend; note("value %d of fiber %d cleaned up", v->id, v->owner);
      if (done[v->owner]) cur[v->owner][v->slot] = 0; }
    if (yield_in_cleanup) boost::this_fiber::yield();
}
struct DVal : Val { using Val::Val; };
void World::run_ops(int f) {
    for (auto & o : s[f].ops) {
        int k = (int)(o.second & 15) % K; int64_t d = o.second >> 4;
        switch (o.first) {
            case RESET: { Val * v = make(f, k); int old; { vrt::NoPreempt np; old = cur[f][k]; note("fiber %d slot %d := %d", f, k, v->id); } p[k]->reset(v); vrt::NoPreempt np; if (old && (k & 1)) CHECK(cleaned[old] == 1, "reset did not clean up the previous value %d", old); cur[f][k] = v->id; break; }
            case RESET_NULL: { int old; { vrt::NoPreempt np; old = cur[f][k]; cur[f][k] = 0; if (old && !(k & 1)) ++cleanups; note("fiber %d slot %d := null", f, k); } p[k]->reset(nullptr); vrt::NoPreempt np; if (old && (k & 1)) CHECK(cleaned[old] == 1, "reset to null did not clean up value %d", old); break; }
            case RELEASE: { int old; { vrt::NoPreempt np; old = cur[f][k]; cur[f][k] = 0; note("fiber %d releases slot %d", f, k); } Val * v = p[k]->release(); CHECK((v ? v->id : 0) == old, "release returned another value"); CHECK(p[k]->get() == nullptr, "the slot is not null after release"); if (v) { v->use("released"); { vrt::NoPreempt np; CHECK(cleaned[v->id] == 0, "release cleaned the value up"); } if (d & 1) boost::this_fiber::yield(); delete v; } break; }
            case RESET_SAME: { Val * v = p[k]->get(); p[k]->reset(v); if (v) { v->use("kept"); CHECK(p[k]->get() == v && (*p[k])->id == v->id && (**p[k]).id == v->id, "reset to the same value changed it"); } break; }
            case YIELD: boost::this_fiber::yield(); break;
            case SLEEP: boost::this_fiber::sleep_for(ns(d)); break;
            case BUSY: vrt::busy(d); break;
            case LOCK: m.lock(); boost::this_fiber::yield(); m.unlock(); break;
            case KID: { int c = (int)o.second; bf::fiber x(s[c].pol, [this, c] { body(c); }); if (s[c].fate == 0) { x.join(); vrt::NoPreempt np; joined[c] = 1; for (int q = 0; q < K; ++q) CHECK(cur[c][q] == 0 || !(q & 1), "fiber %d was joined before value %d was cleaned up", c, cur[c][q]); } else if (s[c].fate == 1) x.detach(); else { vrt::NoPreempt np; h[c] = std::move(x); vrt::hb_sync(&h[c], false, true); } break; }
        }
        stamp(); check_all(f);
    }
}
void World::body(int f) {
    bf::fiber::id me = boost::this_fiber::get_id(); { vrt::NoPreempt np; ids[f] = me; stamp(); }
    check_all(f); run_ops(f);
    vrt::NoPreempt np; done[f] = 1; note("fiber %d ends", f);
}
static void run_fss(int maxT, int maxF, int sched) {
    world_reset(); vals_alive = 0; int T = range(PROG, 1, maxT), n = range(PROG, 1, maxF); bool busy = draw(PROG, 3) == 2;
    World * w = new World(); W = w; w->K = range(PROG, 1, 5); w->created.resize(1); w->yield_in_cleanup = draw(PROG, 4) == 3; w->cur.assign(n, std::vector<int>(w->K, 0)); w->ids.resize(n); w->joined.assign(n, 0); w->done.assign(n, 0); w->h.resize(n); w->cleaned.assign(1000, 0); std::vector<int> thr(n);
    for (int i = 0; i < n; ++i) { Spec x; x.id = i; x.parent = i < T ? -1 : (int)draw(PROG, i + 1) - 1; x.pol = draw_launch(); x.fate = (int)draw(PROG, 3); thr[i] = (int)draw(PROG, T); int k = range(PROG, 1, 7);
        for (int j = 0; j < k; ++j) { uint32_t c = draw(PROG, 12); int op = c < 4 ? RESET : c < 5 ? RESET_NULL : c < 6 ? RELEASE : c < 7 ? RESET_SAME : c < 9 ? YIELD : c < 10 ? SLEEP : c < 11 ? (busy ? BUSY : YIELD) : LOCK; x.ops.push_back({ op, (int64_t)draw(PROG, 16) + (op == SLEEP || op == BUSY ? (int64_t)draw_dur() << 4 : draw(PROG, 2) << 4) }); }
        w->s.push_back(x); }
    for (int i = 0; i < n; ++i) if (w->s[i].parent >= 0) { auto & o = w->s[w->s[i].parent].ops; o.insert(o.begin() + draw(PROG, (uint32_t)o.size() + 1), { KID, i }); }
    std::vector<ThreadPlan> plan = draw_plan(T); if (sched >= 0) for (auto & p : plan) { p.sched = sched; p.immediate_exit = false; }
    if (vrt::tracing()) { static const char * on[] = { "reset", "reset(null)", "release", "reset(same)", "get", "yield", "sleep", "busy", "launch", "lock" }; for (int t = 0; t < T; ++t) note("thread %d: %s%s", t, sched_name(plan[t].sched), plan[t].immediate_exit ? ", exits at once" : ""); for (auto & x : w->s) { std::string s; for (auto & o : x.ops) s += std::string(" ") + on[o.first] + "/" + std::to_string(o.second & 15); note("fiber %d of %d, fate %d:%s", x.id, x.parent, x.fate, s.c_str()); } }
    vrt::spawn([&] { for (int k = 0; k < w->K; ++k) { auto * q = (k & 1) ? new bf::fiber_specific_ptr<Val>(&cleanup_fn) : new bf::fiber_specific_ptr<Val>(); vrt::NoPreempt np; w->p.emplace_back(q); } }); vrt::run();
    on_threads(T, plan, [&](int t) {
        for (int k = 0; k < w->K; ++k) CHECK(w->p[k]->get() == nullptr, "the main fiber of thread %d finds a value it did not store", t);
        for (int i = 0; i < (int)w->s.size(); ++i) if (w->s[i].parent < 0 && thr[i] == t) { bf::fiber x(w->s[i].pol, [w, i] { w->body(i); }); if (w->s[i].fate == 1) x.detach(); else { vrt::NoPreempt np; w->h[i] = std::move(x); vrt::hb_sync(&w->h[i], false, true); } }
        for (int rounds = 0;;) { // join what was left to be joined by a thread
            int j = -1; bool all = true; { vrt::NoPreempt np; for (size_t i = 0; i < w->h.size(); ++i) { if (thr[i] == t && w->h[i].joinable()) j = (int)i; if (!w->done[i] || (w->s[i].fate != 1 && !w->joined[i])) all = false; } }
            if (j >= 0) { bf::fiber x; { vrt::NoPreempt np; x = std::move(w->h[j]); vrt::hb_sync(&w->h[j], true, false); } x.join(); vrt::NoPreempt np; w->joined[j] = 1; for (int q = 0; q < w->K; ++q) CHECK(w->cur[j][q] == 0 || !(q & 1), "fiber %d was joined before value %d was cleaned up", j, w->cur[j][q]); continue; }
            int va; { vrt::NoPreempt np; va = vals_alive; } if (all && (sched < 0 || va == 0 || ++rounds > 3000)) break; // a thread with migrating fibers must not end before their cleanup functions have returned
            boost::this_fiber::sleep_for(std::chrono::microseconds(400));
        }
        for (int k = 0; k < w->K; ++k) CHECK(w->p[k]->get() == nullptr, "the main fiber of thread %d finds a value it did not store", t);
    });
    for (size_t i = 0; i < w->s.size(); ++i) for (int q = 1; q < w->K; q += 2) CHECK(w->cur[i][q] == 0, "value %d of fiber %zu was never cleaned up", w->cur[i][q], i);
    if (w->atend >= 2) vrt::nontrivial(); if (w->atend) vrt::label("cleanup at the end of a fiber"); if (w->yield_in_cleanup && w->cleanups) vrt::label("cleanup that suspends");
    vrt::spawn([&] { w->p.clear(); w->h.clear(); }); vrt::run();
    delete w; check_values_released(); if (sched < 0) check_heap_released("after the program");
}
static void threads() { run_fss(3, 8, -1); } static void one() { run_fss(1, 10, -1); } static void migrating() { static const int k[] = { S_SHARED, S_WS, S_WS_SUSP }; run_fss(3, 8, k[draw(PROG, 3)]); }
#define RULE "at least two values were cleaned up when their fibers ended"
PBT_MAIN("C15",
    { "fss_threads", threads, 280000, 2800000, false, RULE },
    { "fss_one_thread", one, 210000, 2100000, false, RULE },
    { "fss_migrating", migrating, 9200, 92000, true, RULE })
