#include "channel_prog.h"
using namespace cp;
static void threads() { Params p; run_channel<Tracked>(p); }
static void moveonly() { Params p; p.max_ops = 7; run_channel<MoveTracked>(p); }
static void one_thread() { Params p; p.max_threads = 1; p.max_prod = 4; p.max_cons = 4; run_channel<Tracked>(p); }
static void small() { Params p; p.max_threads = 2; p.max_prod = 2; p.max_cons = 2; p.max_ops = 4; run_channel<Tracked>(p); }
static void migrating() { Params p; static const int k[] = { S_SHARED, S_SHARED_SUSP, S_WS, S_WS_SUSP }; p.sched = k[draw(PROG, 4)]; run_channel<Tracked>(p); }
// one fiber, exact model: a queue of at most capacity-1 values
static void sequential() {
    world_reset();
    vrt::spawn([] {
        size_t cap = draw(PROG, 2) ? draw(PROG, 70) : (size_t[]){ 2, 4, 8, 16, 32, 64, 128, 1, 0, 1000, 1024, ~size_t(0) }[draw(PROG, 12)];
        bool valid = cap >= 2 && (cap & (cap - 1)) == 0;
        bf::buffered_channel<Tracked> * c = nullptr;
        try { c = new bf::buffered_channel<Tracked>(cap); }
        catch (bf::fiber_error const & e) { CHECK(e.code() == std::errc::invalid_argument, "capacity %zu was refused with the wrong error", cap); CHECK(!valid, "capacity %zu was refused", cap); vrt::label("refused capacity"); vrt::nontrivial(); return; }
        CHECK(valid, "capacity %zu was accepted", cap);
        std::deque<int> q; bool closed = false; int n = range(PROG, 1, 60), next = 0; size_t mx = 0; bool wrap = false;
        int bias = (int)draw(PROG, 3);
        for (int i = 0; i < n; ++i) {
            uint32_t o = draw(PROG, 32); bool push = bias == 0 ? (o & 1) : bias == 1 ? (o & 3) != 0 : (o & 3) == 1;
            o >>= 2;
            if (draw(PROG, 40) == 39) { c->close(); closed = true; vrt::label("closed"); CHECK(c->is_closed(), "is_closed"); continue; }
            CHECK(c->is_closed() == closed, "is_closed() is wrong");
            if (push) {
                int id = next++; Tracked v(id); St s; bool full = q.size() >= cap - 1; bool rv = false;
                switch (o) { case 0: s = c->try_push(v); break; case 1: s = c->try_push(std::move(v)); rv = true; break;
                    case 2: s = c->push_wait_for(v, ns(0)); break; case 3: s = c->push_wait_for(std::move(v), std::chrono::milliseconds(1)); rv = true; break;
                    case 4: s = c->push_wait_until(v, Clock::now() - ns(5)); break;
                    default: if (full && !closed) { s = c->try_push(v); break; } if (o & 1) s = c->push(v); else { s = c->push(std::move(v)); rv = true; } }
                bool timed = o >= 2 && o <= 4;
                St want = closed ? St::closed : full ? (timed ? St::timeout : St::full) : St::success;
                CHECK(s == want, "a push onto a channel with %zu of %zu places taken%s reported %s", q.size(), cap - 1, closed ? " (closed)" : "", st_name(s));
                if (!rv) CHECK(v.id == id, "an lvalue was modified by a push"); else if (s != St::success) CHECK(v.id == id, "a failed push moved its argument away");
                if (s == St::success) q.push_back(id);
                mx = std::max(mx, q.size()); if (next > (int)cap) wrap = true;
            } else {
                Tracked v(-7); St s; bool emp = q.empty(); bool timed = o >= 2 && o <= 4; bool thrown = false;
                switch (o) { case 0: case 1: s = c->try_pop(v); break; case 2: s = c->pop_wait_for(v, ns(0)); break; case 3: s = c->pop_wait_for(v, std::chrono::milliseconds(1)); break;
                    case 4: s = c->pop_wait_until(v, std::chrono::system_clock::now()); break;
                    case 5: if (!emp || closed) { try { v = c->value_pop(); s = St::success; } catch (bf::fiber_error const & e) { thrown = true; CHECK(e.code() == std::errc::operation_not_permitted, "value_pop: wrong error"); s = St::closed; } break; } // fall through
                    default: if (emp && !closed) s = c->try_pop(v); else s = c->pop(v); }
                St want = !emp ? St::success : closed ? St::closed : timed ? St::timeout : St::empty;
                CHECK(s == want, "a pop from a channel holding %zu values%s reported %s", q.size(), closed ? " (closed)" : "", st_name(s)); (void)thrown;
                if (s == St::success) { CHECK(v.id == q.front(), "received value %d instead of %d", v.id, q.front()); q.pop_front(); } else CHECK(v.id == -7, "a failed pop modified its target");
            }
        }
        CHECK(g_reg.live.size() >= q.size(), "values in the channel are not alive");
        delete c; if (mx == cap - 1) vrt::label("was full"); if (wrap && mx > 1) vrt::nontrivial();
    });
    vrt::run(); check_values_released(); check_heap_released("after the sequential channel program");
}
#define RULE "a value was received and two operations overlapped"
static void races() { race_channel<Tracked>(true); }
PBT_MAIN("C06",
    { "buf_races", races, 150000, 1500000, false, "operations of different threads overlapped twice" },
    { "buf_threads", threads, 150000, 1500000, false, RULE },
    { "buf_moveonly", moveonly, 75000, 750000, false, RULE },
    { "buf_one_thread", one_thread, 75000, 750000, false, RULE },
    { "buf_small", small, 150000, 1500000, false, RULE },
    { "buf_sequential", sequential, 75000, 750000, false, "the ring wrapped around and held several values, or the capacity was refused" },
    { "buf_migrating", migrating, 4500, 60000, true, RULE })
