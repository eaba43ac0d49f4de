// Runtime: token-passing scheduler, virtual time, checked heap, __tsan_* entry points.
// This file is compiled WITHOUT instrumentation.
#include "vrt.h"
#include "shared.h"
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <unistd.h>
#include <dlfcn.h>
#include <time.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <chrono>
#include <random>
#include <new>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <atomic>
#include <execinfo.h>

extern "C" long __real_syscall(long n, ...);
extern "C" void * __real_malloc(size_t);
extern "C" void   __real_free(void *);
extern "C" void * __real_calloc(size_t, size_t);
extern "C" void * __real_realloc(void *, size_t);

namespace vrt {

// ------------------------------------------------------------------ state
enum TState { T_NEW, T_RUN, T_BLOCK, T_DONE };
struct VThread {
    int id = 0;
    pthread_t pt{};
    std::function<void()> fn;
    std::atomic<uint32_t> word{ 0 };
    TState st = T_NEW;
    void const * baddr = nullptr;
    uint64_t deadline = ~0ull;              // absolute vns, ~0 none
    bool timed_out = false;
    uint32_t prio = 0;
    void * bt[20]; int nbt = 0;
    char altstk[32768];
};

static VThread * vts[64];
static int nvt = 0;
static VThread * running = nullptr;         // who has the token
static __thread VThread * self_ = nullptr;
static std::atomic<uint32_t> coord_word{ 0 };
static bool active_case = false;
static bool started = false;
static Shared * sh = nullptr;
static Policy pol;
static int nopreempt = 0;

// choices
static uint64_t rng_s[2];
static bool replaying = false;
static const std::vector<std::vector<uint32_t>> * rep = nullptr;
static uint32_t rep_pos[NSTREAM];
static bool trace_on = false;
static uint64_t chash;
static bool nontriv;

// schedule
static int smode = 0;
static uint32_t gap_n = 0;                  // gap range
static bool count_mem = false;
static uint64_t gap_left = 0;               // 0 = never
static uint64_t nsteps = 0, nswitch = 0, npreempt = 0, nblocks = 0;
static uint64_t since_progress = 0, since_switch = 0;
static bool pct = false;
static int32_t min_prio = 0;

// time
static uint64_t vnow = 0;
static int tmode = 0;
static uint64_t tick = 0;
static uint64_t nowcalls = 0;
static const uint64_t STEADY_BASE = 1000000000000ull;         // 1000 s
static const uint64_t SYSTEM_BASE = 1700000000000000000ull;

Shared * shared() { return sh; }
void set_shared(Shared * s) { sh = s; }
Policy & policy() { return pol; }

// ------------------------------------------------------------------ util
static uint64_t rng() {
    uint64_t s1 = rng_s[0]; const uint64_t s0 = rng_s[1];
    rng_s[0] = s0; s1 ^= s1 << 23;
    rng_s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return rng_s[1] + s0;
}
static uint64_t splitmix(uint64_t & x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline void hmix(uint64_t v) { chash = (chash ^ v) * 0x100000001b3ull; chash ^= chash >> 29; }

static uint32_t draw_raw(Stream s, uint32_t n, bool nz) {
    if (n <= 1) return 0;
    uint32_t v;
    if (replaying) {
        uint32_t p = rep_pos[s]++;
        v = (*rep)[s].size() > p ? (*rep)[s][p] % n : 0;
    } else {
        v = nz ? 1 + (uint32_t)(rng() % (n - 1)) : (uint32_t)(rng() % n);
    }
    if (sh && sh->nrec[s] < REC_CAP) sh->rec[s][sh->nrec[s]++] = v;
    hmix(((uint64_t)s << 32) ^ v);
    return v;
}
uint32_t draw(Stream s, uint32_t n) { return draw_raw(s, n, false); }

static void die(int code) { __real_syscall(SYS_exit_group, code); __builtin_unreachable(); }

static void describe_threads(char * buf, size_t cap) {
    size_t o = strlen(buf);
    for (int i = 0; i < nvt && o + 100 < cap; ++i) {
        VThread * t = vts[i];
        o += snprintf(buf + o, cap - o, " [thread %d: %s%s%s]", t->id,
            t->st == T_RUN ? "runnable" : t->st == T_BLOCK ? "blocked" : t->st == T_DONE ? "done" : "new",
            t->st == T_BLOCK && t->deadline != ~0ull ? " with timer" : "",
            t == running ? " (running)" : "");
    }
}
static void vfail(const char * cls, const char * fmt, va_list ap) {
    nopreempt++;
    if (sh) {
        sh->failed = 1;
        snprintf(sh->fail_cls, sizeof sh->fail_cls, "%s", cls);
        vsnprintf(sh->fail_msg, sizeof sh->fail_msg, fmt, ap);
        if (trace_on) {
            void * bt[24]; int n = backtrace(bt, 24);
            char b[2048]; size_t o = 0; b[0] = 0;
            for (int i = 0; i < n && o + 40 < sizeof b; ++i) o += snprintf(b + o, sizeof b - o, " %p", bt[i]);
            note("backtrace:%s", b);
            for (int i = 0; i < nvt; ++i) if (vts[i]->st == T_BLOCK) { o = 0; b[0] = 0; for (int k = 0; k < vts[i]->nbt && o + 40 < sizeof b; ++k) o += snprintf(b + o, sizeof b - o, " %p", vts[i]->bt[k]); note("thread %d blocked at:%s", i, b); }
        }
        if (getenv("VRT_STDERR")) { fprintf(stderr, "FAIL[%s] %s\n%.*s\n", cls, sh->fail_msg, (int)sh->note_len, sh->notes); }
    }
    if (getenv("VRT_ABORT")) { signal(SIGABRT, SIG_DFL); abort(); }
    die(77);
}
void fail(const char * fmt, ...) { va_list ap; va_start(ap, fmt); vfail("", fmt, ap); __builtin_unreachable(); }
void fail_as(const char * cls, const char * fmt, ...) { va_list ap; va_start(ap, fmt); vfail(cls, fmt, ap); __builtin_unreachable(); }
void label(const char * name) {
    if (!sh) return;
    uint32_t i = 0;
    for (; i < sh->nlabels; ++i) if (!strncmp(sh->label_name[i], name, 47)) break;
    if (i == sh->nlabels) { if (i == MAXLABEL) return; snprintf(sh->label_name[i], 48, "%s", name); sh->label_count[i] = 0; sh->nlabels++; }
    sh->label_count[i]++;
}
void nontrivial() { nontriv = true; }
bool tracing() { return trace_on; }
void set_tracing(bool b) { trace_on = b; }
static bool live_trace = getenv("VRT_LIVE") != nullptr;
void note(const char * fmt, ...) {
    if (!trace_on || !sh) return;
    char b[4096];
    va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n < 0) return; if (n > (int)sizeof b - 1) n = sizeof b - 1;
    if (live_trace) ::fprintf(::stderr, "%s\n", b);
    char h[64]; int hn = snprintf(h, sizeof h, "%s%d @%lluns: ", self_ ? "T" : "", self_ ? self_->id : -1, (unsigned long long)vnow);
    if (!self_) hn = 0;
    if (sh->note_len + n + hn + 2 >= NOTE_CAP) return;
    memcpy(sh->notes + sh->note_len, h, hn); sh->note_len += hn;
    memcpy(sh->notes + sh->note_len, b, n); sh->note_len += n;
    sh->notes[sh->note_len++] = '\n';
}

// ------------------------------------------------------------------ token
static void fwait(std::atomic<uint32_t> & w) {
    for (;;) {
        uint32_t v = w.load();
        if (v) { w.store(0); return; }
        __real_syscall(SYS_futex, &w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
}
static void fwake(std::atomic<uint32_t> & w) {
    w.store(1);
    __real_syscall(SYS_futex, &w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void handoff(VThread * me, VThread * to) {
    if (me == to) return;
    nswitch++;
    running = to;
    since_switch = 0;
    fwake(to->word);
    fwait(me->word);
}
static void reload_gap() {
    if (!gap_n) { gap_left = 0; return; }
    gap_left = draw_raw(SCHED, gap_n, true);
}
static void fire_timers() {
    for (int i = 0; i < nvt; ++i) {
        VThread * t = vts[i];
        if (t->st == T_BLOCK && t->deadline <= vnow) { t->st = T_RUN; t->timed_out = true; t->baddr = nullptr; }
    }
}
static int runnables(VThread ** out) {
    int n = 0;
    for (int i = 0; i < nvt; ++i) if (vts[i]->st == T_RUN || vts[i]->st == T_NEW) out[n++] = vts[i];
    return n;
}
static std::function<void()> idle_hook;
void on_idle(std::function<void()> fn) { NoPreempt np; idle_hook = std::move(fn); }
// choose next thread; called when `me` cannot continue (blocked or done)
static VThread * pick_next_blocked(VThread * me) {
    VThread * r[64];
    int n = runnables(r);
    if (!n) {
        uint64_t best = ~0ull; bool any = false;
        for (int i = 0; i < nvt; ++i) if (vts[i]->st == T_BLOCK && vts[i]->deadline != ~0ull) { any = true; best = std::min(best, vts[i]->deadline); }
        if (!any) {
            bool alldone = true;
            for (int i = 0; i < nvt; ++i) if (vts[i]->st != T_DONE) alldone = false;
            if (alldone) return nullptr;
            char b[2048]; snprintf(b, sizeof b, "deadlock: every thread sleeps without a timer although work is pending;");
            describe_threads(b, sizeof b);
            fail_as("deadlock", "%s", b);
        }
        if (best > 400000000000000000ull) {
            char b[2048]; snprintf(b, sizeof b, "deadlock: the only pending timer lies centuries ahead;");
            describe_threads(b, sizeof b);
            fail_as("deadlock", "%s", b);
        }
        if (idle_hook && best > vnow) { NoPreempt np; idle_hook(); }
        if (best > vnow) vnow = best;
        nowcalls = 0;
        if (tmode >= 2) {
            static const uint64_t over[4] = { 0, 1000, 150000, 7000000 };
            vnow += over[draw(TIME, 4)];
        }
        fire_timers();
        n = runnables(r);
    }
    if (n == 1) return r[0];
    if (pct) { VThread * b = r[0]; for (int i = 1; i < n; ++i) if ((int32_t)r[i]->prio > (int32_t)b->prio) b = r[i]; return b; }
    return r[draw(SCHED, n)];
}
static void preempt(VThread * me, bool forced) {
    VThread * r[64]; int n = 0;
    for (int i = 0; i < nvt; ++i) if (vts[i] != me && (vts[i]->st == T_RUN || vts[i]->st == T_NEW)) r[n++] = vts[i];
    if (!n) { since_switch = 0; return; }
    VThread * to;
    if (pct) {
        me->prio = (uint32_t)--min_prio;
        to = r[0]; for (int i = 1; i < n; ++i) if ((int32_t)r[i]->prio > (int32_t)to->prio) to = r[i];
    } else if (forced) {
        // round robin: next id after me
        to = r[0]; for (int i = 0; i < n; ++i) if (r[i]->id > me->id) { to = r[i]; break; }
    } else to = r[n > 1 ? draw(SCHED, n) : 0];
    npreempt++;
    handoff(me, to);
}
static void livelock() {
    char b[2048]; snprintf(b, sizeof b, "no progress: %llu steps without any operation of the generated program completing, under a fair schedule;", (unsigned long long)since_progress);
    describe_threads(b, sizeof b);
    fail_as("livelock", "%s", b);
}
static uint64_t livelock_base() { return pol.progress_limit; }
static bool quiet_;
void quiet(bool on) { quiet_ = on; }
static inline void do_point(VThread * me, bool sync) {
    nsteps++;
    if (++since_progress > livelock_base()) livelock();
    if (nopreempt) return;
    ++since_switch;
    if (gap_left && !quiet_ && (sync || count_mem)) {
        if (--gap_left == 0) { reload_gap(); preempt(me, false); return; }
    }
    if (__builtin_expect(since_switch > 3000, 0)) preempt(me, true);
}
static inline VThread * me_in_case() {
    VThread * t = self_;
    return (t && active_case) ? t : nullptr;
}
static void sync_point() { if (VThread * t = me_in_case()) do_point(t, true); }

static bool block(VThread * me, void const * addr, uint64_t deadline) { // true: woken, false: timed out
    nblocks++;
    if (nopreempt) fail("internal: blocking inside a no-preempt section");
    if (deadline <= vnow) { sync_point(); return false; }
    if (trace_on) { NoPreempt np; me->nbt = backtrace(me->bt, 20); }
    me->st = T_BLOCK; me->baddr = addr; me->deadline = deadline; me->timed_out = false;
    VThread * to = pick_next_blocked(me);
    handoff(me, to);
    me->deadline = ~0ull;
    return !me->timed_out;
}
static int wake_addr(void const * addr, int n) {
    VThread * w[64]; int c = 0, woken = 0;
    for (int i = 0; i < nvt; ++i) if (vts[i]->st == T_BLOCK && vts[i]->baddr == addr) w[c++] = vts[i];
    while (c && woken < n) {
        int k = (c > 1 && n < c) ? (int)draw(SCHED, c) : 0;
        w[k]->st = T_RUN; w[k]->baddr = nullptr; w[k]->timed_out = false;
        w[k] = w[c - 1]; --c; ++woken;
    }
    return woken;
}

int tid() { return self_ ? self_->id : -1; }
void progress() { since_progress = 0; nowcalls = 0; }
uint64_t now() { return vnow; }
uint64_t steps() { return nsteps; }
uint64_t switches() { return npreempt; }
bool idle_only_time() { return tmode == 0; }
void set_time_mode(int m) { tmode = m; if (m == 0) tick = 0; }
void busy(uint64_t ns) { vnow += ns; fire_timers(); sync_point(); }
void point() { sync_point(); }
void yield() { if (VThread * t = me_in_case()) { if (!nopreempt) { ++nsteps; if (++since_progress > livelock_base()) livelock(); preempt(t, false); } } }
NoPreempt::NoPreempt() { ++nopreempt; }
NoPreempt::~NoPreempt() { --nopreempt; }
void block_on(void const * a) { if (VThread * t = me_in_case()) block(t, a, ~0ull); }
void wake_all(void const * a) { wake_addr(a, 1000); }
static void gate_hb(void const * a, bool acq);
void gate(int * have, int need, bool wait) {
    ++*have; since_progress = 0; gate_hb(have, false);
    if (*have >= need) wake_addr(have, 1000);
    if (wait) { while (*have < need) if (VThread * t = me_in_case()) block(t, have, ~0ull); gate_hb(have, true); }
}

#define HB_PC __builtin_return_address(0)
}
#include "hb.inc"
#include <malloc.h>
namespace vrt {
// ------------------------------------------------------------------ threads
void hb_sync(void const * a, bool acq, bool rel) { if (VThread * t = me_in_case()) { if (acq) hb_acquire(t->id, a); if (rel) hb_release(t->id, a); } }
static void gate_hb(void const * a, bool acq) { if (VThread * t = me_in_case()) { if (acq) hb_acquire(t->id, a); else hb_release(t->id, a); } }
static pthread_key_t endkey;
static bool endkey_made = false;
static void thread_end(void * p) {
    VThread * t = (VThread *)p;
    t->st = T_DONE;
    self_ = nullptr;
    VThread * to = pick_next_blocked(t);
    if (to) { running = to; since_switch = 0; fwake(to->word); }
    else { running = nullptr; fwake(coord_word); }
}
static void * thread_main(void * p) {
    VThread * t = (VThread *)p;
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = t->altstk; ss.ss_size = sizeof t->altstk; sigaltstack(&ss, nullptr);
    fwait(t->word);
    self_ = t;
    t->st = T_RUN;
    pthread_setspecific(endkey, t);
    t->fn();
    { NoPreempt np; t->fn = nullptr; }
    return nullptr;
}
static int (*real_create)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *) = nullptr;
int spawn(std::function<void()> fn) {
    NoPreempt np;
    if (!endkey_made) { pthread_key_create(&endkey, thread_end); endkey_made = true; }
    VThread * t = new (__real_malloc(sizeof(VThread))) VThread;
    t->id = nvt; t->fn = std::move(fn); vts[nvt++] = t;
    t->prio = pct ? draw(SCHED, 1u << 16) : 0;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024);
    int e = pthread_create(&t->pt, &at, thread_main, t);
    pthread_attr_destroy(&at);
    if (e) { fprintf(stderr, "pthread_create failed %d\n", e); die(78); }
    if (sh) sh->tot_vthreads++;
    return t->id;
}
void run() {
    if (!nvt) return;
    active_case = true; started = true; hb_begin(nvt);
    VThread * to = vts[0];
    if (nvt > 1) to = vts[draw(SCHED, nvt)];
    running = to; fwake(to->word);
    fwait(coord_word);
    active_case = false; hb_on = false;
    for (int i = 0; i < nvt; ++i) { pthread_join(vts[i]->pt, nullptr); vts[i]->~VThread(); __real_free(vts[i]); }
    nvt = 0; running = nullptr;
    idle_hook = nullptr;
}

// ------------------------------------------------------------------ heap
static char * const ABASE = (char *)0x600000000000ull;
static const size_t ASIZE = 1ull << 30;
static unsigned char * shadow = nullptr;
static char * bump = ABASE, * bump_max = ABASE;
struct Hdr { uint32_t size; uint32_t magic; uint32_t seq; uint32_t rsv; };
static bool arena_on = false;
static bool reuse = false;
static uint64_t hlive = 0, hbytes = 0, hallocs = 0;
static uint64_t fault_nth = 0; static size_t fault_min = 0; static bool fault_hit = false;
static std::map<uint32_t, std::vector<char *>> * freelist = nullptr;

bool in_arena(void const * p) { return (char *)p >= ABASE && (char *)p < ABASE + ASIZE; }
static void arena_init() {
    if (shadow) return;
    void * p = mmap(ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)ABASE) { fprintf(stderr, "arena mmap failed\n"); die(78); }
    shadow = (unsigned char *)mmap((void *)0x610000000000ull, ASIZE >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (shadow == MAP_FAILED) { fprintf(stderr, "shadow mmap failed\n"); die(78); }
}
static void sh_set(char * p, size_t n) {
    size_t o = (p - ABASE) >> 3;
    memset(shadow + o, 8, n >> 3);
    if (n & 7) shadow[o + (n >> 3)] = n & 7;
}
static void sh_clear(char * p, size_t n) { memset(shadow + ((p - ABASE) >> 3), 0, (n + 7) >> 3); }
static void * aalloc(size_t n) {
    if (fault_nth && n >= fault_min) { if (--fault_nth == 0) { fault_hit = true; return nullptr; } }
    if (n > (64u << 20)) return nullptr;
    size_t rn = (n + 15) & ~(size_t)15; if (!rn) rn = 16;
    char * p = nullptr;
    if (reuse) {
        auto it = freelist->find((uint32_t)rn);
        if (it != freelist->end() && !it->second.empty()) { p = it->second.back(); it->second.pop_back(); }
    }
    if (!p) {
        if (bump + rn + 48 > ABASE + ASIZE) { fprintf(stderr, "arena exhausted\n"); die(78); }
        p = bump + 32; bump = p + rn;
        if (bump > bump_max) bump_max = bump;
    }
    Hdr * h = (Hdr *)(p - 16);
    h->size = (uint32_t)n; h->magic = 0xA110CA7Eu; h->seq = (uint32_t)++hallocs;
    sh_set(p, n);
    memset(p, 0xCD, n < 512 ? n : 512);
    hlive++; hbytes += n;
    return p;
}
static void afree(void * v) {
    char * p = (char *)v;
    Hdr * h = (Hdr *)(p - 16);
    if (((uintptr_t)p & 15) || h->magic != 0xA110CA7Eu) fail_as("memory", "memory error: %s of %p", h->magic == 0xF4EEF4EEu ? "double free" : "invalid free", v);
    h->magic = 0xF4EEF4EEu;
    if (hb_on && self_) { size_t n = h->size; if (n <= 1024) hb_access(self_->id, p, n, true, false, HB_PC, true); else hb_access(self_->id, p + n - 1536, 1536, true, false, HB_PC, true); }
    size_t n = h->size, rn = (n + 15) & ~(size_t)15; if (!rn) rn = 16;
    hlive--; hbytes -= n;
    sh_clear(p, n);
    if (n <= 8192) memset(p, 0xDD, n);
    else memset(p + n - 8192, 0xDD, 8192);
    if (reuse) { NoPreempt np; (*freelist)[(uint32_t)rn].push_back(p); }
}
// keep the shadow dead under the freed block until it is reused; sizes may differ between uses, so
// sh_set always rewrites the whole range.
HeapStat heap() { return HeapStat{ hlive, hbytes, hallocs }; }
std::string leak_report() {
    std::string s; char b[64]; int c = 0;
    for (char * p = ABASE; p < bump && c < 12;) {
        char * q = p + 32; Hdr * h = (Hdr *)(q - 16);
        size_t rn = (h->size + 15) & ~(size_t)15; if (!rn) rn = 16;
        if (h->magic == 0xA110CA7Eu) { snprintf(b, sizeof b, " #%u:%uB", h->seq, h->size); s += b; ++c; }
        p = q + rn;
    }
    return s;
}
bool addr_live(void const * a, size_t n) {
    if (!in_arena(a)) return true;
    size_t off = (char *)a - ABASE;
    for (size_t i = 0; i < n;) {
        size_t g = (off + i) >> 3, in = (off + i) & 7;
        unsigned char s = shadow[g];
        size_t here = 8 - in; if (here > n - i) here = n - i;
        if (s < in + here) return false;
        i += here;
    }
    return true;
}
void set_alloc_fault(uint64_t nth, size_t m) { fault_nth = nth; fault_min = m; fault_hit = false; }
bool alloc_fault_fired() { return fault_hit; }
static inline bool use_arena() { return arena_on && !nopreempt && self_; }

static inline void check_access(void const * a, size_t n, bool w) {
    if (__builtin_expect(in_arena(a), 0)) {
        if (!addr_live(a, n)) {
            // is it inside a freed block? report kind
            fail_as("memory", "memory error: %s of %zu bytes at %p which is not inside a live allocation (use after free, or out of bounds)", w ? "write" : "read", n, a);
        }
    } else if (__builtin_expect((uintptr_t)a < 4096, 0)) {
        fail_as("memory", "memory error: null pointer %s at %p", w ? "write" : "read", a);
    }
}
static inline __attribute__((always_inline)) void mem_point(void const * a, size_t n, bool w) {
    VThread * t = me_in_case();
    if (!t) return;
    do_point(t, false);
    check_access(a, n, w);
    if (hb_on && !nopreempt) hb_access(t->id, a, n, w, false, HB_PC);
}
static inline __attribute__((always_inline)) VThread * atomic_point(void const volatile * a, size_t n, bool w = true) {
    VThread * t = me_in_case();
    if (!t) return nullptr;
    do_point(t, true);
    check_access((void const *)a, n, true);
    if (hb_on && !nopreempt) hb_access(t->id, a, n, w, true, HB_PC);
    return hb_on ? t : nullptr;
}
// ------------------------------------------------------------------ signals
static void on_sig(int s, siginfo_t * si, void *) {
    if (!active_case) { signal(s, SIG_DFL); raise(s); return; }
    const char * n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT (terminate/abort/assert)" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : "signal";
    fail_as("crash", "crash: %s at address %p", n, s == SIGABRT ? nullptr : si->si_addr);
}
static void install_signals() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL }) sigaction(s, &sa, nullptr);
}

// ------------------------------------------------------------------ case
void case_setup(uint64_t seed, bool replay, const std::vector<std::vector<uint32_t>> * choices) {
    arena_init();
    static bool sig = false; if (!sig) { install_signals(); sig = true; }
    if (!freelist) freelist = new (__real_malloc(sizeof(*freelist))) std::map<uint32_t, std::vector<char *>>;
    freelist->clear();
    if (bump_max > ABASE) memset(shadow, 0, ((bump_max - ABASE) >> 3) + 8);
    bump = bump_max = ABASE; hlive = hbytes = hallocs = 0; fault_nth = 0; fault_hit = false;
    uint64_t x = seed; rng_s[0] = splitmix(x); rng_s[1] = splitmix(x);
    replaying = replay; rep = choices;
    memset(rep_pos, 0, sizeof rep_pos);
    if (sh) { memset(sh->nrec, 0, sizeof sh->nrec); sh->note_len = 0; sh->failed = 0; }
    chash = 0xcbf29ce484222325ull; nontriv = false;
    nsteps = nswitch = npreempt = nblocks = 0; since_progress = since_switch = 0; nopreempt = 0; quiet_ = false;
    vnow = 0; nowcalls = 0; min_prio = 0; pct = false; nvt = 0;
    pol = Policy{};
    coord_word.store(0);
    // schedule policy of this case
    smode = (int)draw(SCHED, 12);
    count_mem = false; gap_n = 0;
    switch (smode) {
        case 0: break;
        case 1: gap_n = 4; break;
        case 2: gap_n = 10; break;
        case 3: gap_n = 40; break;
        case 4: gap_n = 150; break;
        case 5: gap_n = 16; count_mem = true; break;
        case 6: gap_n = 80; count_mem = true; break;
        case 7: gap_n = 400; count_mem = true; break;
        case 8: gap_n = 2500; count_mem = true; break;
        case 9: gap_n = 60; pct = true; break;
        case 10: gap_n = 500; pct = true; break;
        case 11: gap_n = 2500; count_mem = true; pct = true; break;
    }
    if (gap_n) reload_gap(); else gap_left = 0;
    reuse = draw(SCHED, 2); if (hb_want) reuse = false;
    tmode = (int)draw(TIME, 3);
    tick = tmode ? (uint64_t[]){ 0, 7, 100, 2000, 50000 }[draw(TIME, 5)] : 0;
    arena_on = true;
}
static uint64_t vns_cap = 0;
void case_finish() {
    arena_on = false;
    if (sh) {
        sh->tot_steps += nsteps; sh->tot_switches += nswitch; sh->tot_preempt += npreempt; sh->tot_blocks += nblocks;
        if (nsteps > sh->max_steps) sh->max_steps = nsteps;
        if (sh->nhash < (1u << 16)) sh->hashes[sh->nhash++] = (chash & ~1ull) | (nontriv ? 1 : 0);
    }
    (void)vns_cap;
}

} // namespace vrt

using namespace vrt;

// ------------------------------------------------------------------ allocation entry points
static void * hb_new(void * p) { if (hb_on && p && self_) hb_forget(p, malloc_usable_size(p)); return p; }
static void * do_new(size_t n) {
    if (use_arena()) { void * p = aalloc(n); if (!p) throw std::bad_alloc(); return p; }
    void * p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return hb_new(p);
}
static void do_del(void * p) { if (!p) return; if (in_arena(p)) afree(p); else __real_free(p); }
void * operator new(size_t n) { return do_new(n); }
void * operator new[](size_t n) { return do_new(n); }
void * operator new(size_t n, std::nothrow_t const &) noexcept { if (use_arena()) return aalloc(n); return __real_malloc(n ? n : 1); }
void * operator new[](size_t n, std::nothrow_t const &) noexcept { if (use_arena()) return aalloc(n); return __real_malloc(n ? n : 1); }
void operator delete(void * p) noexcept { do_del(p); }
void operator delete[](void * p) noexcept { do_del(p); }
void operator delete(void * p, size_t) noexcept { do_del(p); }
void operator delete[](void * p, size_t) noexcept { do_del(p); }
// over-aligned: real memory, header-free (not checked), freed the same way
static void * do_new_al(size_t n, std::align_val_t a) {
    void * p = nullptr;
    size_t al = (size_t)a; if (al < sizeof(void *)) al = sizeof(void *);
    if (posix_memalign(&p, al, n ? n : 1)) throw std::bad_alloc();
    return hb_new(p);
}
void * operator new(size_t n, std::align_val_t a) { return do_new_al(n, a); }
void * operator new[](size_t n, std::align_val_t a) { return do_new_al(n, a); }
void operator delete(void * p, std::align_val_t) noexcept { __real_free(p); }
void operator delete[](void * p, std::align_val_t) noexcept { __real_free(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { __real_free(p); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { __real_free(p); }

extern "C" {
void * __wrap_malloc(size_t n) { if (use_arena()) return aalloc(n); return hb_new(__real_malloc(n)); }
void __wrap_free(void * p) { do_del(p); }
void * __wrap_calloc(size_t a, size_t b) { if (use_arena()) { void * p = aalloc(a * b); if (p) memset(p, 0, a * b); return p; } return hb_new(__real_calloc(a, b)); }
void * __wrap_realloc(void * p, size_t n) {
    if (p && in_arena(p)) {
        size_t o = ((Hdr *)((char *)p - 16))->size; void * q = use_arena() ? aalloc(n) : __real_malloc(n);
        if (!q) return nullptr; memcpy(q, p, o < n ? o : n); afree(p); return q;
    }
    if (!p) return __wrap_malloc(n);
    return hb_new(__real_realloc(p, n));
}

void * __cxa_allocate_exception(size_t n) noexcept {
    static void * (*real)(size_t) = nullptr; if (!real) real = (void * (*)(size_t))dlsym(RTLD_NEXT, "__cxa_allocate_exception");
    void * p = real(n); if (hb_on) { unsigned i = __atomic_fetch_add(&exc_i, 1, __ATOMIC_RELAXED); exc_ring[i & 255].p = (char *)p; exc_ring[i & 255].n = n; } return p;
}

// ------------------------------------------------------------------ pthread / time interposition
#define REAL(name, ...) static __typeof__(&::name) r_##name = nullptr; if (!r_##name) r_##name = (__typeof__(&::name))dlsym(RTLD_NEXT, #name);

static uint64_t ts_ns(const struct timespec * t) {
    if (t->tv_sec < 0) return 0;
    if ((uint64_t)t->tv_sec > 9000000000ull) return ~0ull - 1;
    return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec;
}
static uint64_t to_v(uint64_t abs, int clk) {
    uint64_t base = clk == CLOCK_REALTIME ? SYSTEM_BASE : STEADY_BASE;
    if (abs == ~0ull - 1) return 8000000000000000000ull;
    return abs > base ? abs - base : 0;
}

int pthread_mutex_trylock(pthread_mutex_t * m) {
    REAL(pthread_mutex_trylock, int (*)(pthread_mutex_t *))
    VThread * t = me_in_case(); if (t) { do_point(t, true); check_access(m, sizeof *m, true); }
    int e = r_pthread_mutex_trylock(m); if (t && !e) hb_acquire(t->id, m); return e;
}
int pthread_mutex_lock(pthread_mutex_t * m) {
    REAL(pthread_mutex_lock, int (*)(pthread_mutex_t *))
    REAL(pthread_mutex_trylock, int (*)(pthread_mutex_t *))
    VThread * t = me_in_case();
    if (!t || nopreempt) { int e = r_pthread_mutex_lock(m); if (t) hb_acquire(t->id, m); return e; }
    do_point(t, true);
    for (;;) {
        check_access(m, sizeof *m, true);
        int e = r_pthread_mutex_trylock(m);
        if (e != EBUSY) { hb_acquire(t->id, m); return e; }
        block(t, m, ~0ull);
    }
}
int pthread_mutex_unlock(pthread_mutex_t * m) {
    REAL(pthread_mutex_unlock, int (*)(pthread_mutex_t *))
    VThread * t = me_in_case();
    if (t) { check_access(m, sizeof *m, true); hb_release(t->id, m); }
    int e = r_pthread_mutex_unlock(m);
    if (t) { wake_addr(m, 1000); do_point(t, true); }
    return e;
}
static int cond_wait_common(pthread_cond_t * c, pthread_mutex_t * m, uint64_t vdl) {
    REAL(pthread_mutex_unlock, int (*)(pthread_mutex_t *))
    REAL(pthread_mutex_trylock, int (*)(pthread_mutex_t *))
    VThread * t = me_in_case();
    do_point(t, true);
    check_access(c, sizeof *c, true);
    bool spurious = pol.spurious_cv && smode && draw(SCHED, 24) == 23;
    if (spurious) label("env:spurious-cv-wakeup");
    hb_release(t->id, m); r_pthread_mutex_unlock(m);
    wake_addr(m, 1000);
    bool ok = true;
    if (spurious) preempt(t, false);
    else ok = block(t, c, vdl);
    for (;;) {
        check_access(m, sizeof *m, true);
        int e = r_pthread_mutex_trylock(m);
        if (e != EBUSY) break;
        block(t, m, ~0ull);
    }
    hb_acquire(t->id, m);
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) {
    REAL(pthread_cond_wait, int (*)(pthread_cond_t *, pthread_mutex_t *))
    if (!me_in_case()) return r_pthread_cond_wait(c, m);
    return cond_wait_common(c, m, ~0ull);
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t clk, const struct timespec * ts) {
    REAL(pthread_cond_clockwait, int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *))
    if (!me_in_case()) return r_pthread_cond_clockwait(c, m, clk, ts);
    return cond_wait_common(c, m, to_v(ts_ns(ts), clk));
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts) {
    REAL(pthread_cond_timedwait, int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *))
    if (!me_in_case()) return r_pthread_cond_timedwait(c, m, ts);
    return cond_wait_common(c, m, to_v(ts_ns(ts), CLOCK_REALTIME));
}
int pthread_cond_signal(pthread_cond_t * c) {
    REAL(pthread_cond_signal, int (*)(pthread_cond_t *))
    VThread * t = me_in_case();
    if (!t) return r_pthread_cond_signal(c);
    do_point(t, true); check_access(c, sizeof *c, true);
    wake_addr(c, 1);
    do_point(t, true);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c) {
    REAL(pthread_cond_broadcast, int (*)(pthread_cond_t *))
    VThread * t = me_in_case();
    if (!t) return r_pthread_cond_broadcast(c);
    do_point(t, true); check_access(c, sizeof *c, true);
    wake_addr(c, 1000);
    do_point(t, true);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t * c) {
    REAL(pthread_cond_destroy, int (*)(pthread_cond_t *))
    if (me_in_case()) {
        for (int i = 0; i < nvt; ++i) if (vts[i]->st == T_BLOCK && vts[i]->baddr == c) fail("a condition variable of the operating system was destroyed while a thread sleeps on it");
        return 0;
    }
    return r_pthread_cond_destroy(c);
}
int pthread_once(pthread_once_t * o, void (*fn)(void)) {
    REAL(pthread_once, int (*)(pthread_once_t *, void (*)(void)))
    VThread * t = me_in_case();
    if (!t || nopreempt) return r_pthread_once(o, fn);
    int volatile * w = (int volatile *)o;
    do_point(t, true);
    for (;;) {
        if (*w == 2) { hb_acquire(t->id, o); return 0; }                // glibc's "done" value
        if (*w == 0) {
            *w = 1;
            try { fn(); } catch (...) { *w = 0; wake_addr(o, 1000); throw; }
            *w = 2; hb_release(t->id, o); wake_addr(o, 1000); return 0;
        }
        block(t, o, ~0ull);
    }
}
int sched_yield(void) {
    REAL(sched_yield, int (*)(void))
    if (!me_in_case()) return r_sched_yield();
    vrt::yield();
    return 0;
}
static int vsleep(uint64_t ns) {
    VThread * t = me_in_case();
    do_point(t, true);
    uint64_t dl = vnow + ns;
    if (ns == 0) { vrt::yield(); return 0; }
    char dummy;
    while (vnow < dl) block(t, &dummy, dl);
    return 0;
}
int nanosleep(const struct timespec * ts, struct timespec * rem) {
    REAL(nanosleep, int (*)(const struct timespec *, struct timespec *))
    if (!me_in_case()) return r_nanosleep(ts, rem);
    return vsleep(ts_ns(ts));
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec * ts, struct timespec * rem) {
    REAL(clock_nanosleep, int (*)(clockid_t, int, const struct timespec *, struct timespec *))
    if (!me_in_case()) return r_clock_nanosleep(clk, flags, ts, rem);
    uint64_t ns = ts_ns(ts);
    if (flags & TIMER_ABSTIME) { uint64_t v = to_v(ns, clk); ns = v > vnow ? v - vnow : 0; }
    return vsleep(ns);
}
int usleep(useconds_t us) {
    if (!me_in_case()) { struct timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return nanosleep(&ts, nullptr); }
    return vsleep((uint64_t)us * 1000);
}
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
    VThread * t = me_in_case();
    if (!t || n != SYS_futex) return __real_syscall(n, a, b, c, d, e, f);
    int op = (int)b & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT) {
        do_point(t, true); check_access((void *)a, 4, false);
        if (*(int volatile *)a != (int)c) { errno = EAGAIN; return -1; }
        uint64_t dl = d ? vnow + ts_ns((const struct timespec *)d) : ~0ull;
        if (!block(t, (void *)a, dl)) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (op == FUTEX_WAKE) {
        // waking an address that is no longer mapped/alive is harmless for the kernel: no access check
        do_point(t, true);
        return wake_addr((void *)a, (int)c);
    }
    return __real_syscall(n, a, b, c, d, e, f);
}
int __cxa_guard_acquire(uint64_t * g) {
    char volatile * b = (char volatile *)g;
    VThread * t = me_in_case();
    if (t && !nopreempt) do_point(t, true);
    for (;;) {
        if (b[0]) { if (t) hb_acquire(t->id, g); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        if (t) block(t, g, ~0ull); else __real_syscall(SYS_sched_yield);
    }
}
void __cxa_guard_release(uint64_t * g) { char volatile * b = (char volatile *)g; b[1] = 0; b[0] = 1; if (VThread * t = me_in_case()) { hb_release(t->id, g); wake_addr(g, 1000); } }
void __cxa_guard_abort(uint64_t * g) { char volatile * b = (char volatile *)g; b[1] = 0; if (me_in_case()) wake_addr(g, 1000); }

static uint64_t tick_now() {
    do_point(self_, true);
    if (!nopreempt) {
        ++nowcalls;
        uint64_t dt = tick;
        if (nowcalls > 1500) { uint64_t k = (nowcalls - 1500) / 256; if (k > 40) k = 40; dt += 1000ull << (k > 30 ? 30 : k); }
        if (dt) { vnow += dt; fire_timers(); }
    }
    return vnow;
}
}
// the clocks of libstdc++
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept {
    if (me_in_case()) return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(STEADY_BASE + tick_now()));
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return std::chrono::steady_clock::time_point(std::chrono::seconds(ts.tv_sec) + std::chrono::nanoseconds(ts.tv_nsec));
}
std::chrono::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept {
    if (me_in_case()) return std::chrono::system_clock::time_point(std::chrono::nanoseconds(SYSTEM_BASE + tick_now()));
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    return std::chrono::system_clock::time_point(std::chrono::seconds(ts.tv_sec) + std::chrono::nanoseconds(ts.tv_nsec));
}
// random_device draws from the recorded choices
extern "C" unsigned int _ZNSt13random_device9_M_getvalEv(void *) {
    if (me_in_case()) return draw(ALGO, 1u << 16) * 2654435761u + 1;
    return 12345;
}

// ------------------------------------------------------------------ __tsan_* entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void ** p, void *) { mem_point(p, 8, true); }
void __tsan_vptr_read(void ** p) { mem_point(p, 8, false); }
#define RW(n) \
void __tsan_read##n(void * p) { mem_point(p, n, false); } \
void __tsan_write##n(void * p) { mem_point(p, n, true); } \
void __tsan_unaligned_read##n(void * p) { mem_point(p, n, false); } \
void __tsan_unaligned_write##n(void * p) { mem_point(p, n, true); } \
void __tsan_volatile_read##n(void * p) { mem_point(p, n, false); } \
void __tsan_volatile_write##n(void * p) { mem_point(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, unsigned long n) { if (n) mem_point(p, n, false); }
void __tsan_write_range(void * p, unsigned long n) { if (n) mem_point(p, n, true); }
void __tsan_atomic_thread_fence(int o) { sync_point(); if (VThread * t = me_in_case()) hb_fence(t->id, o); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T * a, int o) { if (VThread * t = atomic_point(a, sizeof(T), false)) hb_load(t->id, a, o); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile T * a, T v, int o) { if (VThread * t = atomic_point(a, sizeof(T))) hb_store(t->id, a, o); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(volatile T * a, T v, int o) { if (VThread * t = atomic_point(a, sizeof(T))) hb_rmw(t->id, a, o); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(volatile T * a, T v, int o) { if (VThread * t = atomic_point(a, sizeof(T))) hb_rmw(t->id, a, o); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(volatile T * a, T v, int o) { if (VThread * t = atomic_point(a, sizeof(T))) hb_rmw(t->id, a, o); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(volatile T * a, T v, int o) { if (VThread * t = atomic_point(a, sizeof(T))) hb_rmw(t->id, a, o); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(volatile T * a, T v, int o) { if (VThread * t = atomic_point(a, sizeof(T))) hb_rmw(t->id, a, o); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(volatile T * a, T v, int o) { if (VThread * t = atomic_point(a, sizeof(T))) hb_rmw(t->id, a, o); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_nand(volatile T * a, T v, int o) { if (VThread * t = atomic_point(a, sizeof(T))) hb_rmw(t->id, a, o); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T * a, T * c, T v, int o, int f) { VThread * t = atomic_point(a, sizeof(T), false); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (t) { if (r) { hb_rmw(t->id, a, o); if (!nopreempt) hb_access(t->id, a, sizeof(T), true, true, HB_PC); } else hb_load(t->id, a, f); } return r; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T * a, T * c, T v, int o, int f) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, o, f); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T * a, T c, T v, int o, int f) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, o, f); return c; }
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64; 
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
}
