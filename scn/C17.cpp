#include "mig_prog.h"
// ------------------------------------------------------------------------------------------
// A recording algorithm that holds the library to the interface and runs any announced fiber.
struct FibInfo { bf::context * ctx = nullptr; int64_t deadline = -1; bool sleeps = false; int joining = -1; int tid = -1; };
static std::map<int, FibInfo> * g_info; static int g_suspends, g_picks, g_choices, g_timed;
struct Info : Watch {
    void start(int i, int t) override { (*g_info)[i].ctx = bf::context::active(); (*g_info)[i].tid = t; }
    void deadline(int i, int64_t d, bool s) override { (*g_info)[i].deadline = d; (*g_info)[i].sleeps = s; }
    void joining(int i, int c) override { (*g_info)[i].joining = c; }
    void end(int i) override { g_info->erase(i); }
};
class strict : public bf::algo::algorithm {
    std::vector<bf::context *> rq_; std::mutex mtx_; std::condition_variable cnd_; bool flag_ = false; int owner_; uint32_t spread_; bool lifo_, late_notify_;
    void own(const char * what) const { CHECK(vrt::tid() == owner_, "%s() of the algorithm of thread %d was called by thread %d", what, owner_, vrt::tid()); }
public:
    strict(uint32_t spread, bool lifo, bool late) : owner_(vrt::tid()), spread_(spread), lifo_(lifo), late_notify_(late) { vrt::NoPreempt np; rq_.reserve(64); }
    ~strict() { vrt::NoPreempt np; CHECK(rq_.empty(), "an algorithm was destroyed that still holds %zu ready fibers", rq_.size()); std::vector<bf::context *>().swap(rq_); }
    void awakened(bf::context * c) noexcept override {
        vrt::NoPreempt np; own("awakened"); CHECK(c != nullptr, "awakened() was called with a null fiber");
        for (auto * x : rq_) CHECK(x != c, "awakened(): a fiber that is ready already was announced again");
        CHECK(c != bf::context::active() , "awakened(): the running fiber was announced as ready");
        for (auto & p : *g_info) if (p.second.ctx == c) {
            CHECK(p.second.tid == owner_, "a fiber of thread %d was announced to the algorithm of thread %d", p.second.tid, owner_);
            if (p.second.joining >= 0) CHECK(W->f[p.second.joining].ended, "fiber %d, which is joining fiber %d, was announced as ready although that fiber has not ended", p.first, p.second.joining);
            if (p.second.deadline >= 0 && p.second.sleeps) CHECK((int64_t)Clock::now().time_since_epoch().count() >= p.second.deadline, "a sleeping fiber was announced as ready before its deadline");
        }
        rq_.push_back(c);
    }
    bf::context * pick_next() noexcept override {
        vrt::NoPreempt np; own("pick_next"); if (rq_.empty()) return nullptr;
        size_t n = std::min(rq_.size(), (size_t)spread_), k = draw(ALGO, (uint32_t)n); if (lifo_ && rq_.size() > n) k = rq_.size() - n + k; if (lifo_ && draw(ALGO, 4) == 0) k = 0;
        ++g_picks; if (k) ++g_choices; bf::context * c = rq_[k]; rq_.erase(rq_.begin() + k); return c;
    }
    bool has_ready_fibers() const noexcept override { own("has_ready_fibers"); return !rq_.empty(); }
    void suspend_until(std::chrono::steady_clock::time_point const & tp) noexcept override {
        {
            vrt::NoPreempt np; own("suspend_until"); CHECK(rq_.empty(), "the algorithm was asked to sleep although %zu fibers are ready", rq_.size()); ++g_suspends;
            for (auto & p : *g_info) if (p.second.tid == owner_ && p.second.deadline >= 0) { ++g_timed; CHECK((!p.second.sleeps && p.second.deadline <= (int64_t)Clock::now().time_since_epoch().count()) /* another thread is just about to make it ready */ || (int64_t)tp.time_since_epoch().count() <= p.second.deadline, "the algorithm was asked to sleep beyond the deadline of fiber %d", p.first); }
        }
        std::unique_lock<std::mutex> lk(mtx_);
        if ((std::chrono::steady_clock::time_point::max)() == tp) cnd_.wait(lk, [this] { return flag_; }); else cnd_.wait_until(lk, tp, [this] { return flag_; });
        flag_ = false;
    }
    void notify() noexcept override {
        if (late_notify_) { std::unique_lock<std::mutex> lk(mtx_); flag_ = true; cnd_.notify_all(); return; }
        std::unique_lock<std::mutex> lk(mtx_); flag_ = true; lk.unlock(); cnd_.notify_all();
    }
};
static void run_interface(int maxT) {
    std::map<int, FibInfo> info; g_info = &info; Info wi; g_watch = &wi; g_suspends = g_picks = g_choices = g_timed = 0;
    struct A { uint32_t spread; bool lifo, late; } a[8]; for (auto & x : a) x = { 1 + draw(PROG, 5), (bool)draw(PROG, 2), (bool)draw(PROG, 2) };
    run_shared(S_DEFAULT, maxT, 10, 50, [&](int t) { bf::use_scheduling_algorithm<strict>(a[t].spread, a[t].lifo, a[t].late); }, [&] { return g_choices >= 3 && g_suspends >= 1; });
    if (g_timed) vrt::label("asked to sleep towards a deadline"); g_watch = nullptr; check_heap_released("after the program");
}
static void interface_threads() { run_interface(4); } static void interface_one() { run_interface(1); }
// ------------------------------------------------------------------------------------------
// fiber properties
static int g_props_live, g_props_made, g_changes, g_expected_changes; static std::map<bf::context *, int> * g_newprops;
struct Prop : bf::fiber_properties {
    int serial, prio = 0, magic = 0x9121; bf::context * seen = nullptr; int changes = 0;
    explicit Prop(bf::context * c) : bf::fiber_properties(c) { vrt::NoPreempt np; serial = ++g_props_made; ++g_props_live; }
    ~Prop() { vrt::NoPreempt np; CHECK(magic == 0x9121, "a property object was destroyed twice"); magic = 0; --g_props_live; }
    void set(int p) { { vrt::NoPreempt np; CHECK(magic == 0x9121, "a property object was used after its destruction"); prio = p; } notify(); }
    bf::context * context() const { return ctx_; }
};
struct Other : bf::fiber_properties { explicit Other(bf::context * c) : bf::fiber_properties(c) {} };
class prio_algo : public bf::algo::algorithm_with_properties<Prop> {
    bf::scheduler::ready_queue_type rq_{}; std::mutex mtx_; std::condition_variable cnd_; bool flag_ = false; int n_ = 0; std::map<bf::context *, Prop *> ready_; int mode_;
    void insert(bf::context * c, Prop & p) { auto i = rq_.begin(); if (mode_) while (i != rq_.end() && properties(&*i).prio >= p.prio) ++i; else i = rq_.end(); rq_.insert(i, *c); }
public:
    explicit prio_algo(int mode) : mode_(mode) {}
    ~prio_algo() { vrt::NoPreempt np; CHECK(rq_.empty(), "an algorithm was destroyed that still holds ready fibers"); ready_.clear(); }
    void awakened(bf::context * c, Prop & p) noexcept override {
        vrt::NoPreempt np; CHECK(p.magic == 0x9121, "awakened() was passed a destroyed property object"); CHECK(!ready_.count(c), "a fiber that is ready already was announced again"); CHECK(!c->ready_is_linked(), "a fiber was announced that is linked to a ready queue");
        CHECK(p.context() == c, "the property object passed to awakened() belongs to another fiber");
        ready_[c] = &p; insert(c, p);
    }
    bf::context * pick_next() noexcept override { vrt::NoPreempt np; if (rq_.empty()) return nullptr; bf::context * c = &rq_.front(); rq_.pop_front(); ready_.erase(c); return c; }
    bool has_ready_fibers() const noexcept override { return !rq_.empty(); }
    bool holds(Prop & p) { for (auto & r : ready_) if (r.second == &p) return true; return false; }
    void property_change(bf::context * c, Prop & p) noexcept override {
        vrt::NoPreempt np; ++g_changes; auto i = ready_.find(c); CHECK(i != ready_.end(), "property_change() was called for a fiber that is not in the ready queue"); CHECK(i->second == &p && p.context() == c, "property_change() was passed the property object of another fiber"); ++p.changes;
        c->ready_unlink(); insert(c, p);
    }
    bf::fiber_properties * new_properties(bf::context * c) override { { vrt::NoPreempt np; note("new properties"); } return new Prop(c); }
    void suspend_until(std::chrono::steady_clock::time_point const & tp) noexcept override {
        CHECK(rq_.empty(), "the algorithm was asked to sleep although fibers are ready");
        std::unique_lock<std::mutex> lk(mtx_); if ((std::chrono::steady_clock::time_point::max)() == tp) cnd_.wait(lk, [this] { return flag_; }); else cnd_.wait_until(lk, tp, [this] { return flag_; });
        flag_ = false;
    }
    void notify() noexcept override { std::unique_lock<std::mutex> lk(mtx_); flag_ = true; lk.unlock(); cnd_.notify_all(); }
};
enum POp { PYIELD, PSLEEP, PSET, PSETOTHER, PLAUNCH, PLOCK, PREPLACE, PBADCAST };
struct PStep { int op, a; };
struct PSpec { int parent; bf::launch pol; bool own, detach; int prio; std::vector<PStep> ops; };
struct PRun { Prop * p = nullptr; int serial = 0; bool ended = false, known = false; std::unique_ptr<bf::fiber> h; };
struct PWorld { std::deque<PSpec> s; std::deque<PRun> r; prio_algo * algo = nullptr; bf::mutex m; int sets = 0, announced = 0, replaced = 0; int kind = 0; };
static PWorld * P;
static int pick_algo(int k) { // replace the algorithm; returns whether the new one knows properties
    switch (k) { case 0: case 1: { auto * a = new prio_algo(k); bf::initialize_thread(a, bf::make_stack_allocator_wrapper<bf::default_stack>()); P->algo = a; return 1; } case 2: bf::use_scheduling_algorithm<bf::algo::round_robin>(); break; default: bf::use_scheduling_algorithm<chaos>(3u); }
    P->algo = nullptr; return 0;
}
static void change(int who, Prop & p, int v) {
    int before; bool ready; { vrt::NoPreempt np; before = g_changes; ready = P->algo && P->algo->holds(p); if (ready) ++P->announced; ++P->sets; note("priority of fiber %d := %d (%s)", who, v, ready ? "ready" : "not ready"); }
    if (!P->algo) return; // the announcement would go to an algorithm that does not know about properties
    p.set(v);
    vrt::NoPreempt np; CHECK(g_changes - before == (ready ? 1 : 0), "a change of the property of a fiber that is %s was announced %d times", ready ? "ready" : "not ready", g_changes - before);
}
static void pbody(int i) {
    PSpec & me = P->s[i]; PRun & r = P->r[i];
    auto same = [&](const char * when) {
        Prop & p = boost::this_fiber::properties<Prop>(); vrt::NoPreempt np; CHECK(p.magic == 0x9121, "a fiber's property object was destroyed while it runs");
        if (!r.known) { r.known = true; if (r.p) CHECK(r.p == &p, "fiber %d does not have the property object it was launched with", i); r.p = &p; r.serial = p.serial; } else CHECK(r.p == &p && p.serial == r.serial, "the property object of fiber %d changed %s", i, when);
        CHECK(p.context() == bf::context::active(), "the property object of fiber %d belongs to another fiber", i); if (me.own && p.prio == me.prio) return; };
    if (me.own || (P->algo && draw(PROG, 2))) same("at its start");
    for (auto & o : me.ops) {
        switch (o.op) {
            case PYIELD: boost::this_fiber::yield(); break;
            case PSLEEP: boost::this_fiber::sleep_for(std::chrono::microseconds(o.a * 500)); break;
            case PLOCK: P->m.lock(); boost::this_fiber::yield(); P->m.unlock(); break;
            case PSET: if (P->algo || me.own) { same("before a change"); change(i, boost::this_fiber::properties<Prop>(), o.a); } break;
            case PSETOTHER: { PRun * t = nullptr; { vrt::NoPreempt np; int n = (int)P->r.size(), k = o.a % n; for (int j = 0; j < n; ++j) { PRun & x = P->r[(k + j) % n]; if (x.h && x.h->joinable() && (x.known || x.p) ) { t = &x; k = (k + j) % n; break; } } }
                if (t) { Prop & p = t->h->properties<Prop>(); { vrt::NoPreempt np; CHECK(t->p == &p, "the property object of another fiber was reached through a handle"); } change(-1, p, o.a); } break; }
            case PLAUNCH: { int c = o.a; PSpec & x = P->s[c]; bf::fiber f; Prop * own = nullptr; if (x.own) { own = new Prop(nullptr); own->prio = x.prio; vrt::NoPreempt np; P->r[c].p = own; }
                if (own) f = bf::fiber(x.pol, static_cast<bf::fiber_properties *>(own), [c] { pbody(c); }); else f = bf::fiber(x.pol, [c] { pbody(c); });
                if (own && !P->r[c].ended) { Prop & q = f.properties<Prop>(); CHECK(&q == own && own->context(), "a fiber launched with a property object does not have it"); }
                if (x.detach) f.detach(); else { vrt::NoPreempt np; P->r[c].h.reset(new bf::fiber(std::move(f))); } break; }
            case PREPLACE: { { vrt::NoPreempt np; ++P->replaced; note("fiber %d replaces the algorithm by %d", i, o.a); } pick_algo(o.a); break; }
            case PBADCAST: if (P->algo) { bool bad = false; try { Other & q = boost::this_fiber::properties<Other>(); (void)q; } catch (std::bad_cast const &) { bad = true; } CHECK(bad, "properties<>() of a type other than the algorithm's did not report std::bad_cast"); } break;
        }
        stamp(); if (P->algo && (r.known || me.own)) same("while it ran");
    }
    for (size_t c = 0; c < P->s.size(); ++c) if (P->s[c].parent == i && !P->s[c].detach && P->r[c].h) { { vrt::NoPreempt np; if (P->r[c].p) CHECK(P->r[c].p->magic == 0x9121 && P->r[c].p->context() != nullptr, "the property object of fiber %zu was destroyed before its handle", c); } P->r[c].h->join(); vrt::NoPreempt np; CHECK(P->r[c].ended, "fiber %zu was joined before it had ended", c); P->r[c].h.reset(); P->r[c].p = nullptr; }
    vrt::NoPreempt np; r.ended = true; note("fiber %d ends", i);
}
static void run_props(bool replace) {
    world_reset(); g_props_live = g_props_made = g_changes = 0; PWorld * w = new PWorld(); P = w; int F = range(PROG, 2, 9), N = range(PROG, F, 36), first = (int)draw(PROG, replace ? 4 : 2);
    w->s.push_back({ -1, bf::launch::post, false, false, 0, {} });
    for (int k = 0; k < N; ++k) { int cur = (int)w->s.size(), i = (int)draw(PROG, (uint32_t)cur); uint32_t c = draw(PROG, 14); auto & o = w->s[i].ops;
        if (cur < F && (c < 4 || N - k <= F - cur)) { w->s.push_back({ i, draw_launch(), (bool)draw(PROG, 2), draw(PROG, 3) == 2, (int)draw(PROG, 10), {} }); o.push_back({ PLAUNCH, cur }); continue; }
        if (c < 6) o.push_back({ PYIELD, 0 }); else if (c == 6) o.push_back({ PSLEEP, (int)draw(PROG, 6) }); else if (c < 9) o.push_back({ PSET, (int)draw(PROG, 10) }); else if (c < 11) o.push_back({ PSETOTHER, (int)draw(PROG, 90) }); else if (c == 11) o.push_back({ PLOCK, 0 }); else if (c == 12 && replace) o.push_back({ PREPLACE, (int)draw(PROG, 4) }); else o.push_back({ PBADCAST, 0 }); }
    w->r.resize(w->s.size());
    if (vrt::tracing()) { static const char * on[] = { "yield", "sleep", "set", "set-other", "launch", "lock", "replace", "badcast" }; note("first algorithm %d", first); for (size_t i = 0; i < w->s.size(); ++i) { std::string s; for (auto & o : w->s[i].ops) s += std::string(" ") + on[o.op] + "/" + std::to_string(o.a); note("fiber %zu%s%s:%s", i, w->s[i].own ? " (launched with a property object)" : "", w->s[i].detach ? " (detached)" : "", s.c_str()); } }
    vrt::spawn([=] { if (first < 2 || replace) pick_algo(first); pbody(0); for (int k = 0; k < 2000; ++k) { bool all = true; { vrt::NoPreempt np; for (auto & r : w->r) all = all && r.ended; } if (all) break; boost::this_fiber::sleep_for(std::chrono::microseconds(300)); } });
    vrt::run();
    for (size_t i = 0; i < w->r.size(); ++i) CHECK(w->r[i].ended, "fiber %zu was lost", i);
    CHECK(g_props_live == 0, "%d of %d property objects were not destroyed although every fiber has ended", g_props_live, g_props_made);
    if (replace ? w->replaced >= 1 && w->s.size() > 2 : w->announced >= 1) vrt::nontrivial(); if (w->announced) vrt::label("change announced while ready"); if (w->sets > w->announced) vrt::label("change while not ready");
    delete w; check_heap_released("after the program");
}
static void props() { run_props(false); } static void replaced() { run_props(true); }
PBT_MAIN("C17",
    { "interface_threads", interface_threads, 250000, 2500000, false, "the algorithm chose a fiber other than the first at least three times and was asked to sleep" },
    { "interface_one_thread", interface_one, 200000, 2000000, false, "the algorithm chose a fiber other than the first at least three times and was asked to sleep" },
    { "properties", props, 300000, 3000000, false, "a property of a fiber in the ready queue was changed" },
    { "replace_algorithm", replaced, 300000, 3000000, false, "the algorithm was replaced while several fibers existed" })
