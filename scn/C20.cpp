#include "channel_prog.h"
using namespace cp;
struct alignas(64) Aligned : Tracked {
    explicit Aligned(int i = -1) : Tracked(i) { al(); }
    Aligned(Aligned const & o) : Tracked(o) { al(); }
    Aligned(Aligned && o) noexcept : Tracked(std::move(o)) { al(); }
    Aligned & operator=(Aligned const &) = default;
    Aligned & operator=(Aligned &&) = default;
    void al() { CHECK(((uintptr_t)this & 63) == 0, "an over-aligned value was constructed at a misaligned address"); }
};
static Params base(bool buf) { Params p; p.buffered = buf; p.iter_bias = true; p.leave = true; return p; }
static void b_threads() { run_channel<Tracked>(base(true)); }
static void b_one() { Params p = base(true); p.max_threads = 1; p.max_prod = 4; p.max_cons = 4; run_channel<Tracked>(p); }
static void b_move() { run_channel<MoveTracked>(base(true)); }
static void u_threads() { run_channel<Tracked>(base(false)); }
static void u_one() { Params p = base(false); p.max_threads = 1; p.max_prod = 4; p.max_cons = 4; run_channel<Tracked>(p); }
static void u_move() { run_channel<MoveTracked>(base(false)); }

// explicit iterators against a model: iterator -> value it holds
template<class Ch, class V> static void iter_model(Ch * ch, size_t buffered, /* places of a buffered channel: each always contains a value object */ std::deque<int> & q, bool & closed, int & next, std::function<bool()> more) {
    typedef typename Ch::iterator It;
    struct Slot { std::unique_ptr<It> it; int id = -1; };  // id -1: end
    std::vector<Slot> s(4); int n = range(PROG, 2, 40); int copies = 0, incs = 0;
    auto taken = [&]() -> int { if (q.empty()) return -1; int v = q.front(); q.pop_front(); return v; };
    auto check = [&] {
        size_t vals = 0; It e;
        for (auto & x : s) if (x.it) {
            if (x.id >= 0) { ++vals; CHECK(*x.it != boost::fibers::end(*ch), "an iterator that refers to a value equals end()"); CHECK((**x.it).id == x.id && (*x.it)->id == x.id, "an iterator refers to value %d instead of %d", (**x.it).id, x.id); (**x.it).use("referred to by an iterator"); }
            else CHECK(*x.it == e, "an exhausted iterator differs from end()");
        }
        if (buffered) CHECK(g_reg.live.size() >= vals + q.size() && g_reg.live.size() <= vals + buffered, "%zu values are alive, %zu are held by iterators and %zu by the channel", g_reg.live.size(), vals, buffered);
    };
    for (int i = 0; i < n; ++i) {
        Slot & a = s[draw(PROG, 4)]; Slot & b = s[draw(PROG, 4)];
        switch (draw(PROG, 9)) {
            case 0: if (buffered && !closed) { V v(next); if (ch->push_wait_for(v, ns(0)) == St::success) q.push_back(next); ++next; } break;
            case 1: case 2: if (more()) { a.it.reset(); a.it.reset(new It(ch)); a.id = taken(); note("begin -> %d", a.id); } break;
            case 3: case 4: if (a.it && a.id >= 0 && more()) { ++*a.it; a.id = taken(); ++incs; note("++ -> %d", a.id); } break;
            case 5: if (b.it && &a != &b) { a.it.reset(new It(*b.it)); a.id = b.id; ++copies; note("copied %d", a.id); } break;
            case 6: if (a.it && b.it) { *a.it = *b.it; a.id = b.id; ++copies; note("assigned %d", a.id); } break;
            case 7: if (b.it && &a != &b) { if (a.it && draw(PROG, 2)) *a.it = std::move(*b.it); else a.it.reset(new It(std::move(*b.it))); a.id = b.id; b.it.reset(); note("moved %d", a.id); } break;
            default: a.it.reset(); if (draw(PROG, 6) == 5 && buffered) { ch->close(); closed = true; }
        }
        check();
    }
    if (copies && incs) vrt::nontrivial();
}
template<class V> static void it_buffered() {
    world_reset();
    vrt::spawn([] {
        size_t cap = (size_t[]){ 2, 4, 8 }[draw(PROG, 3)]; auto * ch = new bf::buffered_channel<V>(cap);
        std::deque<int> q; bool closed = false; int next = 0;
        iter_model<bf::buffered_channel<V>, V>(ch, cap, q, closed, next, [&] { return !q.empty() || closed; });
        CHECK(g_reg.live.size() >= q.size() && g_reg.live.size() <= cap, "%zu values are alive but the channel holds %zu", g_reg.live.size(), q.size());
        delete ch; if (!q.empty()) vrt::label("destroyed undrained");
        CHECK(g_reg.live.empty(), "%zu values survive their channel", g_reg.live.size());
    });
    vrt::run(); check_values_released(); check_heap_released("after the iterator program");
}
template<class V> static void it_unbuffered() {
    world_reset();
    vrt::spawn([] {
        install(draw_local_sched(), 1);
        auto * ch = new bf::unbuffered_channel<V>();
        std::deque<int> q; bool closed = false; int next = 0; int total = range(PROG, 0, 12); bool rv = draw(PROG, 2);
        for (int i = 0; i < total; ++i) q.push_back(i);
        bf::fiber p(draw_launch(), [&] { for (int i = 0; i < total; ++i) { V v(i); St st = rv ? ch->push(std::move(v)) : ch->push(v); if (st == St::closed) return; CHECK(st == St::success, "push reported %s", st_name(st)); if (!rv) CHECK(v.id == i, "lvalue modified"); } ch->close(); });
        iter_model<bf::unbuffered_channel<V>, V>(ch, 0, q, closed, next, [] { return true; });
        ch->close(); p.join();
        CHECK(g_reg.live.empty(), "%zu values are alive although nobody holds one", g_reg.live.size());
        delete ch;
    });
    vrt::run(); check_values_released(); check_heap_released("after the iterator program");
}
#define RULE "a value was received and two operations overlapped"
#define RULE2 "iterators were copied and advanced"
PBT_MAIN("C20",
    { "buf_threads", b_threads, 100000, 1000000, false, RULE },
    { "buf_one_thread", b_one, 50000, 500000, false, RULE },
    { "buf_moveonly", b_move, 50000, 500000, false, RULE },
    { "unbuf_threads", u_threads, 100000, 1000000, false, RULE },
    { "unbuf_one_thread", u_one, 50000, 500000, false, RULE },
    { "unbuf_moveonly", u_move, 50000, 500000, false, RULE },
    { "buf_iterators", it_buffered<Tracked>, 75000, 750000, false, RULE2 },
    { "buf_iterators_aligned", it_buffered<Aligned>, 50000, 500000, false, RULE2 },
    { "unbuf_iterators", it_unbuffered<Tracked>, 75000, 750000, false, RULE2 },
    { "unbuf_iterators_aligned", it_unbuffered<Aligned>, 50000, 500000, false, RULE2 })
