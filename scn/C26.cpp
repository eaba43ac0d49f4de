// C26: waiting for device streams (cuda/hip waitfor_all) over a stand-in runtime whose driver threads run the callbacks.
#include "world.h"
#include <map>
#include <tuple>
#include <boost/fiber/cuda/waitfor.hpp>
#include <boost/fiber/hip/waitfor.hpp>
using namespace w;
struct Stream { int id; int runtime; int fail = 0; int status = 0; int64_t delay = 0; bool pending = false; uint64_t called = ~0ull; int calls = 0, data = 0; };
struct Item { Stream * s; uint64_t due; std::function<void()> fn; };
struct World { std::deque<Stream> st; std::deque<Item> q; int fibers_left = 0, waits = 0, multi = 0, early = 0, regfail = 0; bool at_once = false; int drivers = 1; std::mutex m; std::condition_variable cv; };
static World * W;
static int sched_q;
template<class F> static int add_callback(void * st, F fn) {
    Stream & s = *(Stream *)st;
    if (s.fail) { vrt::NoPreempt np; ++W->regfail; note("stream %d: callback refused (%d)", s.id, s.fail); return s.fail; }
    { vrt::NoPreempt np; CHECK(!s.pending, "a second callback was added to stream %d by one wait", s.id); s.pending = true; W->q.push_back({ &s, vrt::now() + (uint64_t)s.delay, fn }); vrt::hb_sync(&sched_q, true, true); note("stream %d: callback added, due in %s", s.id, ms(s.delay)); }
    { std::lock_guard<std::mutex> lk(W->m); } W->cv.notify_all(); return 0;
}
extern "C" cudaError_t cudaStreamAddCallback(cudaStream_t st, cudaStreamCallback_t cb, void * d, unsigned int fl) { CHECK(fl == 0, "flags"); return (cudaError_t)add_callback(st, [=] { cb(st, (cudaError_t)((Stream *)st)->status, d); }); }
extern "C" hipError_t hipStreamAddCallback(hipStream_t st, hipStreamCallback_t cb, void * d, unsigned int fl) { CHECK(fl == 0, "flags"); return (hipError_t)add_callback(st, [=] { cb(st, (hipError_t)((Stream *)st)->status, d); }); }
static void driver() { // runs callbacks when they are due
    for (;;) {
        Item it{ nullptr, 0, nullptr }; uint64_t next = ~0ull; size_t seen = 0;
        { vrt::NoPreempt np; uint64_t n = vrt::now(); if (W->fibers_left == 0 && W->q.empty()) return;
          std::vector<size_t> ok; for (size_t i = 0; i < W->q.size(); ++i) if (W->q[i].due <= n) ok.push_back(i); else if (W->q[i].due < next) next = W->q[i].due; seen = W->q.size();
          if (!ok.empty()) { size_t k = ok[ok.size() > 1 ? draw(vrt::ALGO, (uint32_t)ok.size()) : 0]; it = W->q[k]; W->q.erase(W->q.begin() + k); vrt::hb_sync(&sched_q, true, false); } }
        if (!it.s) { std::unique_lock<std::mutex> lk(W->m); if (W->q.size() != seen || !W->fibers_left) continue; if (next == ~0ull) W->cv.wait(lk); else W->cv.wait_for(lk, ns(next > vrt::now() ? next - vrt::now() : 0)); continue; }
        { vrt::NoPreempt np; it.s->pending = false; it.s->called = stamp(); ++it.s->calls; note("stream %d: callback with status %d", it.s->id, it.s->status); }
        if (vrt::hb()) it.s->data = it.s->calls;
        it.fn(); stamp();
        { vrt::NoPreempt np; note("stream %d: callback returned", it.s->id); it.fn = nullptr; }
    }
}
struct Cuda { typedef cudaStream_t S; typedef cudaError_t E; static const char * name() { return "cuda"; } template<class... A> static auto wait(A... a) { return bf::cuda::waitfor_all(a...); } };
struct Hip { typedef hipStream_t S; typedef hipError_t E; static const char * name() { return "hip"; } template<class... A> static auto wait(A... a) { return bf::hip::waitfor_all(a...); } };
__attribute__((noinline)) static void scribble() { char b[3000]; memset(b, 0x5a, sizeof b); asm volatile("" :: "r"(b) : "memory"); } // what the wait left on the stack is overwritten
struct Call { std::vector<int> st; std::vector<int64_t> delay; std::vector<int> status, fail; bool hip; };
template<class A> static void do_wait(int f, Call const & c, uint64_t inv) {
    typedef typename A::S S; std::vector<std::tuple<S, typename A::E>> r; auto at = [&](size_t i) { return (S)(void *)&W->st[c.st[i]]; };
    switch (c.st.size()) {
        case 1: r.push_back(A::wait(at(0))); break;
        case 2: r = A::wait(at(0), at(1)); break;
        case 3: r = A::wait(at(0), at(1), at(2)); break;
        default: r = A::wait(at(0), at(1), at(2), at(3)); break;
    }
    scribble();
    if (vrt::hb()) for (size_t i = 0; i < c.st.size(); ++i) { Stream & s = W->st[c.st[i]]; if (!s.fail) CHECK(s.data == s.calls, "what the callback's thread wrote before is not visible after the wait"); }
    vrt::NoPreempt np; note("fiber %d: %s waitfor_all returned %zu results", f, A::name(), r.size());
    std::map<void *, int> want; for (int k : c.st) { Stream & s = W->st[k]; want[&s] = s.fail ? s.fail : s.status; if (!s.fail) { CHECK(!s.pending && s.called != ~0ull && s.called > inv, "the wait returned before stream %d had completed", k); } }
    CHECK(r.size() == want.size(), "waiting for %zu different streams gave %zu results", want.size(), r.size());
    for (auto & x : r) { auto i = want.find((void *)std::get<0>(x)); CHECK(i != want.end(), "a result for a stream that was not waited for, or two for the same"); CHECK((int)std::get<1>(x) == i->second, "stream %d completed with status %d, reported was %d", ((Stream *)i->first)->id, i->second, (int)std::get<1>(x)); want.erase(i); }
}
static void body(int f, std::vector<Call> const & cs, int gap) {
    for (auto & c : cs) {
        uint64_t inv; uint64_t t0; { vrt::NoPreempt np; for (size_t i = 0; i < c.st.size(); ++i) { Stream & s = W->st[c.st[i]]; s.delay = c.delay[i]; s.status = c.status[i]; s.fail = c.fail[i]; s.called = ~0ull; } note("fiber %d: %s waitfor_all of %zu streams", f, c.hip ? "hip" : "cuda", c.st.size()); inv = stamp(); t0 = vrt::now(); ++W->waits; if (c.st.size() > 1) ++W->multi; }
        if (c.hip) do_wait<Hip>(f, c, inv); else do_wait<Cuda>(f, c, inv);
        { vrt::NoPreempt np; int64_t mx = 0; for (size_t i = 0; i < c.st.size(); ++i) if (!c.fail[i]) mx = std::max(mx, c.delay[i]); uint64_t t1 = vrt::now(); if (W->at_once) CHECK(t1 <= t0 + (uint64_t)mx + 12000000, "streams that completed after %s were reported only after %s", ms(mx), ms(t1 - t0)); }
        if (gap) boost::this_fiber::yield();
    }
    { vrt::NoPreempt np; --W->fibers_left; } { std::lock_guard<std::mutex> lk(W->m); } W->cv.notify_all();
}
static void run_streams(int maxT, int maxF) {
    world_reset(); World * w = new World(); W = w; int T = range(PROG, 1, maxT), F = range(PROG, 1, maxF); w->drivers = range(PROG, 1, 2);
    std::vector<std::vector<Call>> cs(F); std::vector<int> thr(F), gap(F); std::vector<bf::launch> pol(F); bool quick = draw(PROG, 2);
    for (int f = 0; f < F; ++f) { // every fiber has streams of its own
        thr[f] = (int)draw(PROG, T); gap[f] = (int)draw(PROG, 2); pol[f] = draw_launch(); int base = (int)w->st.size(), k = range(PROG, 1, 4);
        for (int i = 0; i < k; ++i) { w->st.emplace_back(); w->st.back().id = base + i; }
        int n = range(PROG, 1, 3); for (int i = 0; i < n; ++i) { Call c; c.hip = draw(PROG, 2); int m = range(PROG, 1, 4); for (int j = 0; j < m; ++j) { int s = base + (int)draw(PROG, k); bool dup = false; for (int x : c.st) if (x == s) dup = true; if (dup && m != 1) continue;
            static const int st[] = { 0, 0, 0, 1, 719 }; static const int64_t dl[] = { 0, 0, 100, 5000, 1000000, 20000000 };
            c.st.push_back(s); c.delay.push_back(dl[draw(PROG, quick ? 3 : 6)]); c.status.push_back(st[draw(PROG, 5)]); c.fail.push_back(draw(PROG, 6) == 5 ? 1 : 0); } if (!c.st.empty()) cs[f].push_back(c); }
    }
    w->fibers_left = F; std::vector<ThreadPlan> plan = draw_plan(T); w->at_once = vrt::idle_only_time();
    int beats = (int)draw(PROG, 3); // sibling fibers that have to run while others wait for streams
    for (int d = 0; d < w->drivers; ++d) vrt::spawn([] { driver(); });
    on_threads(T, plan, [&](int t) {
        std::vector<bf::fiber> fb;
        for (int f = 0; f < F; ++f) if (thr[f] == t) fb.emplace_back(pol[f], [f, &cs, &gap] { body(f, cs[f], gap[f]); });
        for (int b = 0; b < beats; ++b) fb.emplace_back([] { for (int i = 0; i < 3; ++i) { uint64_t t0 = vrt::now(); boost::this_fiber::sleep_for(std::chrono::milliseconds(1)); vrt::NoPreempt np; if (W->at_once) CHECK(vrt::now() <= t0 + 1000000 + 12000000, "a fiber was kept from running by another that waits for a stream"); } });
        for (auto & x : fb) x.join();
    });
    CHECK(w->q.empty(), "internal");
    if (w->waits >= 2 && w->multi) vrt::nontrivial(); if (w->regfail) vrt::label("callback refused"); if (w->multi) vrt::label("several streams"); if (w->drivers > 1) vrt::label("two driver threads"); if (T > 1) vrt::label("several threads");
    vrt::spawn([&] { cs.clear(); }); vrt::run();
    delete w; check_heap_released("streams");
}
static void threads() { run_streams(3, 4); } static void one() { run_streams(1, 3); } static void single() { run_streams(1, 1); }
#define R "two or more waits, one of them for several streams"
PBT_MAIN("C26",
    { "streams_threads", threads, 60000, 900000, false, R }, { "streams_one_thread", one, 60000, 900000, false, R }, { "streams_one_fiber", single, 60000, 900000, false, R })
