// Generated programs over promise/future/shared_future/packaged_task.
#pragma once
#include "world.h"
#include <boost/fiber/future.hpp>
namespace fp {
using namespace w;
struct Err { int id; };
struct AllocStat { int64_t live = 0, total = 0; };
inline AllocStat g_alloc;
template<class T> struct CountAlloc {
    typedef T value_type;
    CountAlloc() = default;
    template<class U> CountAlloc(CountAlloc<U> const &) {}
    T * allocate(size_t n) { T * p = static_cast<T *>(::operator new(n * sizeof(T))); vrt::NoPreempt np; ++g_alloc.live; ++g_alloc.total; return p; }
    void deallocate(T * p, size_t) { { vrt::NoPreempt np; --g_alloc.live; } ::operator delete(p); }
    template<class U> bool operator==(CountAlloc<U> const &) const { return true; }
    template<class U> bool operator!=(CountAlloc<U> const &) const { return false; }
};
enum Out { NONE, VALUE, EXC, BROKEN };
struct Outcome { Out k = NONE; int id = 0; bool operator==(Outcome const & o) const { return k == o.k && (id == o.id || k == BROKEN || k == NONE); } };
inline const char * oname(Outcome o) { static char b[8][32]; static int i; i = (i + 1) & 7; snprintf(b[i], 32, o.k == NONE ? "nothing" : o.k == VALUE ? "value %d" : o.k == EXC ? "exception %d" : "broken_promise", o.id); return b[i]; }

// the three kinds of results
struct KVal {
    typedef Tracked R; static const char * name() { return "value"; } static const bool has_id = true;
    static void set(bf::promise<R> & p, int id, bool rv) { Tracked v(id); if (rv) p.set_value(std::move(v)); else { p.set_value(v); CHECK(v.id == id, "set_value modified an lvalue"); } }
    static int get(bf::future<R> & f) { Tracked v(f.get()); return v.id; }
    static int get(bf::shared_future<R> const & f) { Tracked const & v = f.get(); v.use("read"); return v.id; }
};
struct KMove {
    typedef MoveTracked R; static const char * name() { return "move-only value"; } static const bool has_id = true;
    static void set(bf::promise<R> & p, int id, bool) { MoveTracked v(id); p.set_value(std::move(v)); }
    static int get(bf::future<R> & f) { MoveTracked v(f.get()); return v.id; }
    static int get(bf::shared_future<R> const & f) { MoveTracked const & v = f.get(); v.use("read"); return v.id; }
};
inline int g_refs[4096];
struct KRef {
    typedef int & R; static const char * name() { return "reference"; } static const bool has_id = true;
    static void set(bf::promise<R> & p, int id, bool) { p.set_value(g_refs[id & 4095]); }
    static int get(bf::future<R> & f) { int & r = f.get(); return (int)(&r - g_refs); }
    static int get(bf::shared_future<R> const & f) { int & r = f.get(); return (int)(&r - g_refs); }
};
struct KVoid {
    typedef void R; static const char * name() { return "void"; } static const bool has_id = false;
    static void set(bf::promise<R> & p, int, bool) { p.set_value(); }
    static int get(bf::future<R> & f) { f.get(); return 0; }
    static int get(bf::shared_future<R> const & f) { f.get(); return 0; }
};
inline Outcome from_ptr(std::exception_ptr e) {
    Outcome o; if (!e) { o.k = VALUE; return o; }
    try { std::rethrow_exception(e); }
    catch (Err const & x) { o.k = EXC; o.id = x.id; }
    catch (bf::broken_promise const & b) { CHECK(b.code() == std::make_error_code(bf::future_errc::broken_promise), "broken_promise carries another code"); o.k = BROKEN; }
    return o;
}
// 0 ok 1 already satisfied 2 no state 3 already retrieved 4 other
template<class F> inline int status_of(F f) {
    try { f(); return 0; }
    catch (bf::promise_already_satisfied const & e) { CHECK(e.code() == std::make_error_code(bf::future_errc::promise_already_satisfied), "wrong code"); return 1; }
    catch (bf::future_already_retrieved const & e) { CHECK(e.code() == std::make_error_code(bf::future_errc::future_already_retrieved), "wrong code"); return 3; }
    catch (bf::future_error const & e) { return e.code() == std::make_error_code(bf::future_errc::no_state) ? 2 : 4; }
}
inline const char * stname(int s) { static const char * n[] = { "success", "promise_already_satisfied", "no_state", "future_already_retrieved", "another error" }; return n[s]; }
template<class Fn> inline Outcome outcome_of(Fn f, bool has_id, int & err) { // err: 0 delivered, 2 no_state
    Outcome o; err = 0;
    try { o.id = f(); o.k = VALUE; if (!has_id) o.id = 0; }
    catch (Err const & x) { o.k = EXC; o.id = x.id; }
    catch (bf::broken_promise const &) { o.k = BROKEN; }
    catch (bf::future_error const & e) { err = e.code() == std::make_error_code(bf::future_errc::no_state) ? 2 : 4; }
    return o;
}
}
