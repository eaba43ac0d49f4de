// One build configuration of the library (VERIF_CONFIG; the macros come from the command line of scn/C22.sh):
// the programs and oracles of other properties that depend most on the internal locks and queues, and growing ready queues.
#include "world.h"
#include <boost/fiber/future.hpp>
#include <algorithm>
#include <map>
#include <sstream>
#include <array>
#include <exception>
#include <stdexcept>
#include <unistd.h>
#include <sys/wait.h>
#include "mutex_prog.h"
#include "channel_prog.h"
#include "future_prog.h"
#undef PBT_MAIN
#define PBT_MAIN(prop, ...) static const pbt::Scenario scenarios_[] = { __VA_ARGS__ };
namespace c01 {
#include "C01.cpp"
}
#undef RULE
namespace c04 {
#include "C04.cpp"
}
#undef RULE
namespace c06 {
#include "C06.cpp"
}
#undef RULE
namespace c08 {
#include "C08.cpp"
}
#undef RULE
namespace c12 {
#include "C12.cpp"
}
#undef RULE
namespace c18 {
#include "C18.cpp"
}
#undef RULE
namespace mig {
#include "mig_prog.h"
static void ws() { run_shared(S_WS, 4, 10, 50); } static void ws_susp() { run_shared(S_WS_SUSP, 4, 10, 50); }
static void ws_many() { run_shared(draw(PROG, 2) ? S_WS : S_WS_SUSP, 3, 24, 90); }
static void shared() { run_shared(draw(PROG, 2) ? S_SHARED : S_SHARED_SUSP, 4, 10, 50); }
}
#ifdef VERIF_MORE
namespace c03 {
#include "C03.cpp"
}
#undef RULE
namespace c09 {
#include "C09.cpp"
}
#undef RULE
namespace c10 {
#include "C10.cpp"
}
#undef RULE
namespace c14 {
#include "C14.cpp"
}
#undef RULE
namespace c17 {
using namespace mig;
#include "C17.cpp"
}
#undef RULE
#endif
using namespace w;
// A thread makes thousands of fibers ready, more than the ready queue holds at first; the queue has been used before, so it
// has wrapped around.  Every fiber runs exactly as often as it was made ready, wherever it runs.
static void grow() {
    world_reset(); int T = range(PROG, 1, 2), pre = range(PROG, 0, 60), n = range(PROG, 4080, 4180) + (draw(PROG, 4) == 3 ? 4096 : 0), yields = range(PROG, 0, 1); bool susp = draw(PROG, 2);
    vrt::policy().progress_limit = 40000000;
    struct S { std::vector<unsigned char> runs; int pre = 0; bool ready = false; };
    static S * s; s = new S; s->runs.assign(n, 0);
    Gate * gate = new Gate(T);
    for (int t = 0; t < T; ++t) vrt::spawn([=] {
        install(susp ? S_WS_SUSP : S_WS, T);
        if (t == 0) {
            for (int i = 0; i < pre; ++i) { bf::fiber f(bf::launch::post, std::allocator_arg, bf::fixedsize_stack(16384), [] { ++s->pre; }); if (i & 1) f.join(); else f.detach(); }
            std::unique_ptr<bf::fiber[]> f(new bf::fiber[n]);
            for (int i = 0; i < n; ++i) f[i] = bf::fiber(bf::launch::post, std::allocator_arg, bf::fixedsize_stack(16384), [i, yields] { for (int y = 0; y < yields; ++y) { ++s->runs[i]; boost::this_fiber::yield(); } ++s->runs[i]; if ((i & 63) == 0) stamp(); });
            for (int i = 0; i < n; ++i) { f[i].join(); CHECK(s->runs[i] == yields + 1, "fiber %d of %d ran %d times instead of %d", i, n, s->runs[i], yields + 1); if ((i & 63) == 0) stamp(); }
            while (s->pre < pre) boost::this_fiber::sleep_for(std::chrono::microseconds(100));
            s->ready = true;
        } else while (!s->ready) boost::this_fiber::sleep_for(std::chrono::milliseconds(1));
        gate->arrive_and_wait();
    });
    vrt::run(); vrt::nontrivial(); if (pre) vrt::label("the ready queue was in use before it grew"); if (n > 8192) vrt::label("the ready queue grew twice");
    delete s; delete gate;
}
int main(int argc, char ** argv) {
    static std::deque<std::string> names; std::vector<pbt::Scenario> v;
    struct Sel { const char * id; const char * name; int quick, thorough; };
    auto add = [&](const char * id, const pbt::Scenario * s, size_t n, std::vector<Sel> sel) {
        for (auto & x : sel) for (size_t i = 0; i < n; ++i) if (!strcmp(s[i].name, x.name)) { pbt::Scenario c = s[i]; names.push_back(std::string(VERIF_CONFIG) + "." + s[i].name); c.name = names.back().c_str(); c.quick = x.quick; c.thorough = x.thorough; v.push_back(c); }
    };
#define ADD(ns, ...) add(#ns, ns::scenarios_, sizeof ns::scenarios_ / sizeof ns::scenarios_[0], std::vector<Sel> __VA_ARGS__)
    ADD(c01, { { "", "mutex_small", 4000, 80000 }, { "", "mutex_threads", 3000, 60000 } });
    ADD(c04, { { "", "cv_threads", 2000, 40000 }, { "", "cv_migrating", 150, 6000 } });
    ADD(c06, { { "", "buf_threads", 2000, 40000 }, { "", "buf_migrating", 150, 6000 } });
    ADD(c08, { { "", "unbuf_threads", 2000, 40000 } });
    ADD(c12, { { "", "fib_threads", 2000, 40000 } });
    ADD(c18, { { "", "pairs", 3000, 60000 }, { "", "many", 1500, 40000 } });
#ifdef VERIF_MORE
    auto all = [&](const pbt::Scenario * s, size_t n, int d) { for (size_t i = 0; i < n; ++i) { pbt::Scenario c = s[i]; names.push_back(std::string(VERIF_CONFIG) + "." + s[i].name); c.name = names.back().c_str(); c.quick /= d; c.thorough /= d; v.push_back(c); } };
#define ALL(ns, d) all(ns::scenarios_, sizeof ns::scenarios_ / sizeof ns::scenarios_[0], d)
    ALL(c03, 15); ALL(c09, 15); ALL(c10, 15); ALL(c14, 15); ALL(c17, 40);
#endif
    auto own = [&](const char * n, void (*f)(), int q, int t, bool fk, const char * r) { names.push_back(std::string(VERIF_CONFIG) + "." + n); v.push_back({ names.back().c_str(), f, q, t, fk, r }); };
    const char * R = "fibers were resumed at least twice on a thread other than the one they last ran on";
    own("work_stealing", mig::ws, 300, 8000, true, R); own("work_stealing_suspending", mig::ws_susp, 600, 12000, true, R);
    own("work_stealing_many_fibers", mig::ws_many, 150, 4000, true, R); own("shared_work", mig::shared, 300, 6000, true, R);
    own("ready_queue_grows", grow, 16, 400, true, "every case");
    return pbt::engine_main(argc, argv, "C22", v.data(), (int)v.size());
}
