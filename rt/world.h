// Common parts of the generated programs: schedulers, thread/fiber launching,
// tracked values, event stamps.  Only the public API of boost.fiber is used.
#pragma once
#include "engine.h"
#include <boost/fiber/all.hpp>
#include <boost/fiber/algo/round_robin.hpp>
#include <boost/fiber/algo/shared_work.hpp>
#include <boost/fiber/algo/work_stealing.hpp>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <vector>

namespace w {
namespace bf = boost::fibers;
using vrt::PROG; using vrt::SCHED; using vrt::TIME; using vrt::ALGO;
using vrt::draw; using vrt::range; using vrt::chance; using vrt::note; using vrt::fail;
typedef std::chrono::steady_clock Clock;
typedef std::chrono::nanoseconds ns;

#define CHECK(c, ...) do { if (!(c)) ::vrt::fail(__VA_ARGS__); } while (0)

// ---------------------------------------------------------------- event stamps
// Exactly one thread runs at a time, so a counter totally orders all events.
extern uint64_t g_stamp;
inline uint64_t stamp() { vrt::NoPreempt np; vrt::progress(); return ++g_stamp; }

// ---------------------------------------------------------------- schedulers
// A user-written scheduling algorithm: runs ANY ready fiber (drawn), sleeps on
// a condition variable exactly as the documentation describes.
class chaos : public bf::algo::algorithm {
    std::vector<bf::context *> rq_;
    std::mutex mtx_;
    std::condition_variable cnd_;
    bool flag_ = false;
    uint32_t spread_;
public:
    explicit chaos(uint32_t spread = 3) : spread_(spread) { vrt::NoPreempt np; rq_.reserve(64); }
    ~chaos() { vrt::NoPreempt np; std::vector<bf::context *>().swap(rq_); }
    void awakened(bf::context * c) noexcept override {
        vrt::NoPreempt np;
        CHECK(c != nullptr, "scheduling algorithm was handed a null fiber");
        for (auto * x : rq_) CHECK(x != c, "scheduling algorithm: the same fiber was declared ready twice without having run in between");
        rq_.push_back(c);
    }
    bf::context * pick_next() noexcept override {
        vrt::NoPreempt np;
        if (rq_.empty()) return nullptr;
        size_t n = rq_.size(); if (n > spread_) n = spread_;
        size_t k = draw(ALGO, (uint32_t)n);
        bf::context * c = rq_[k]; rq_.erase(rq_.begin() + k);
        return c;
    }
    bool has_ready_fibers() const noexcept override { return !rq_.empty(); }
    void suspend_until(std::chrono::steady_clock::time_point const & tp) noexcept override {
        if ((std::chrono::steady_clock::time_point::max)() == tp) {
            std::unique_lock<std::mutex> lk{ mtx_ };
            cnd_.wait(lk, [this] { return flag_; });
            flag_ = false;
        } else {
            std::unique_lock<std::mutex> lk{ mtx_ };
            cnd_.wait_until(lk, tp, [this] { return flag_; });
            flag_ = false;
        }
    }
    void notify() noexcept override {
        std::unique_lock<std::mutex> lk{ mtx_ };
        flag_ = true;
        lk.unlock();
        cnd_.notify_all();
    }
};

enum SchedKind { S_DEFAULT, S_RR, S_CHAOS, S_SHARED, S_SHARED_SUSP, S_WS, S_WS_SUSP };
inline const char * sched_name(int k) { static const char * n[] = { "default", "round_robin", "chaos", "shared_work", "shared_work(suspend)", "work_stealing", "work_stealing(suspend)" }; return n[k]; }
inline void install(int k, int nthreads) {
    switch (k) {
        case S_DEFAULT: break;
        case S_RR: bf::use_scheduling_algorithm<bf::algo::round_robin>(); break;
        case S_CHAOS: bf::use_scheduling_algorithm<chaos>(); break;
        case S_SHARED: bf::use_scheduling_algorithm<bf::algo::shared_work>(); break;
        case S_SHARED_SUSP: bf::use_scheduling_algorithm<bf::algo::shared_work>(true); break;
        case S_WS: bf::use_scheduling_algorithm<bf::algo::work_stealing>((uint32_t)nthreads); break;
        case S_WS_SUSP: bf::use_scheduling_algorithm<bf::algo::work_stealing>((uint32_t)nthreads, true); break;
    }
}
// schedulers that keep a fiber on its thread
inline int draw_local_sched() { static const int k[] = { S_DEFAULT, S_RR, S_CHAOS, S_CHAOS }; return k[draw(PROG, 4)]; }
inline bf::launch draw_launch() { return draw(PROG, 2) ? bf::launch::dispatch : bf::launch::post; }

// harness rendezvous of threads that does not involve boost.fiber
struct Gate {
    int need, have = 0;
    explicit Gate(int n) : need(n) {}
    void arrive_and_wait() { vrt::gate(&have, need, true); }
    void arrive() { vrt::gate(&have, need, false); }
};

inline const char * ms(uint64_t v) { // ring of formatted numbers
    vrt::NoPreempt np; static char b[8][32]; static int i; i = (i + 1) & 7; snprintf(b[i], 32, "%.3fms", (double)v / 1e6); return b[i];
}

// ---------------------------------------------------------------- tracked values
// Detects double destruction, use after destruction/move-from and leaks.
struct Registry {
    std::set<void const *> live; uint64_t ctor = 0, dtor = 0;
};
extern Registry g_reg;
struct Tracked {
    enum { LIVE = 0x11f3, DEAD = 0x0dead };
    int id; uint32_t tag; int const * chk;
    explicit Tracked(int i = -1) : id(i), tag(LIVE) { add(); }
    Tracked(Tracked const & o) : id(o.id), tag(LIVE) { o.use("copied"); add(); }
    Tracked(Tracked && o) noexcept : id(o.id), tag(LIVE) { o.use("moved from"); o.id = -2; add(); }
    Tracked & operator=(Tracked const & o) { o.use("copied"); use("assigned to"); id = o.id; return *this; }
    Tracked & operator=(Tracked && o) noexcept { o.use("moved from"); use("assigned to"); if (this != &o) { id = o.id; o.id = -2; } return *this; }
    ~Tracked() {
        vrt::NoPreempt np;
        CHECK(g_reg.live.erase(this) == 1 && tag == LIVE, "a value was destroyed that is not alive (double destruction) id=%d", id);
        tag = DEAD; g_reg.dtor++;
    }
    void use(const char * what) const { vrt::NoPreempt np; CHECK(tag == LIVE && g_reg.live.count(this), "a value was %s that is not alive", what); }
    void add() { vrt::NoPreempt np; CHECK(g_reg.live.insert(this).second, "a value was constructed over a live value"); g_reg.ctor++; chk = &id; }
};
struct MoveTracked : Tracked {
    explicit MoveTracked(int i = -1) : Tracked(i) {}
    MoveTracked(MoveTracked const &) = delete;
    MoveTracked & operator=(MoveTracked const &) = delete;
    MoveTracked(MoveTracked &&) = default;
    MoveTracked & operator=(MoveTracked &&) = default;
};

inline void world_reset() { g_stamp = 0; g_reg.live.clear(); g_reg.ctor = g_reg.dtor = 0; }
inline void check_values_released() {
    CHECK(g_reg.live.empty(), "%zu values were never destroyed (constructed %llu, destroyed %llu)", g_reg.live.size(), (unsigned long long)g_reg.ctor, (unsigned long long)g_reg.dtor);
}
inline void check_heap_released(const char * what) {
    vrt::HeapStat h = vrt::heap();
    CHECK(h.live_blocks == 0, "%s: %llu heap blocks (%llu bytes) are still allocated after every thread ended:%s", what, (unsigned long long)h.live_blocks, (unsigned long long)h.live_bytes, vrt::leak_report().c_str());
}

// durations used by generated programs (ns)
inline uint64_t draw_dur(vrt::Stream s = PROG) { static const uint64_t d[] = { 1000000, 0, 1, 1000, 200000, 2000000, 5000000, 20000000, 1000001 }; return d[draw(s, 9)]; }
// convert durations/time points in different clock flavours
template<class Rep = int64_t> inline std::chrono::duration<Rep, std::nano> dur(int64_t n) { return std::chrono::duration<Rep, std::nano>(n); }

// ---------------------------------------------------------------- threads
struct ThreadPlan { int sched = S_DEFAULT; bool immediate_exit = false; };
// Runs fn(i) on n threads, each with its scheduler installed.
inline void on_threads(int n, std::vector<ThreadPlan> const & plan, std::function<void(int)> fn) {
    auto gate = std::make_shared<Gate>(n);
    // With schedulers that share fibers every thread has to keep dispatching until all
    // work is done (as the documentation's examples do): its main fiber waits for the others.
    std::shared_ptr<bf::barrier> fb;
    if (n > 0 && plan[0].sched >= S_SHARED) fb = std::make_shared<bf::barrier>((size_t)n);
    for (int i = 0; i < n; ++i) {
        ThreadPlan p = plan[i];
        vrt::spawn([i, n, p, gate, fb, fn] {
            install(p.sched, n);
            fn(i);
            if (fb) fb->wait();
            if (!p.immediate_exit) gate->arrive_and_wait();
            else gate->arrive();
        });
    }
    vrt::run();
}
inline std::vector<ThreadPlan> draw_plan(int n) {
    std::vector<ThreadPlan> v(n);
    for (auto & p : v) { p.sched = draw_local_sched(); p.immediate_exit = chance(PROG, 1, 3); }
    return v;
}
} // namespace w
