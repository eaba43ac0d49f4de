// Happens-before: vector clocks of the C++ memory model for every thread, atomic object and OS lock; a conflicting
// pair of accesses (at least one of them plain) that is not ordered is a data race.  On with --hb / VRT_HB=1.
// Accesses made by the harness under NoPreempt are not recorded, their synchronisation is.
namespace vrt {
static const int HT = 8;                                   // threads per run(); with more, the run is not checked
struct VC { uint32_t c[HT]; void join(VC const & o) { for (int i = 0; i < HT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } void clear() { memset(c, 0, sizeof c); } };
struct HSync { uintptr_t key; uint32_t gen; VC l; };
struct HWrite { uint32_t clk; uint8_t tid, mask; void * pc; };
struct HCell { uintptr_t key; uint32_t gen; HWrite w[2]; uint8_t next; uint32_t r[HT], aw[HT], ar[HT]; uint8_t rm[HT], awm[HT], arm[HT]; void * rpc; void * apc; };
static bool hb_want = getenv("VRT_HB") != nullptr, hb_on = false;
static const uint32_t NSY = 1u << 14, NCE = 1u << 16;
static HSync * hsy; static HCell * hce; static uint32_t hgen = 1, nsy = 0, nce = 0;
static VC hc[HT], hpend[HT], hfence[HT];
static uint64_t hb_checks = 0;
void set_hb(bool on) { hb_want = on; }
bool hb() { return hb_want; }
static void hb_begin(int n) {
    hb_on = hb_want && n <= HT; if (hb_want && !hb_on) label("not checked: more than 8 threads"); if (!hb_on) return;
    if (!hsy) { hsy = (HSync *)mmap(nullptr, NSY * sizeof(HSync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); hce = (HCell *)mmap(nullptr, (size_t)NCE * sizeof(HCell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    ++hgen; nsy = nce = 0; for (int i = 0; i < HT; ++i) { hc[i].clear(); hc[i].c[i] = 1; hpend[i].clear(); hfence[i].clear(); }
}
static HSync * hsync(void const volatile * a) {
    uintptr_t k = (uintptr_t)a; uint32_t h = (uint32_t)((k * 0x9E3779B97F4A7C15ull) >> 40) & (NSY - 1);
    for (;; h = (h + 1) & (NSY - 1)) { HSync & s = hsy[h]; if (s.gen != hgen) { if (nsy > NSY * 3 / 4) { hb_on = false; label("not checked further: too many atomic objects"); return nullptr; } ++nsy; s.gen = hgen; s.key = k; s.l.clear(); return &s; } if (s.key == k) return &s; }
}
static HCell * hcell(uintptr_t k, bool make) {
    uint32_t h = (uint32_t)((k * 0x9E3779B97F4A7C15ull) >> 40) & (NCE - 1);
    for (;; h = (h + 1) & (NCE - 1)) { HCell & s = hce[h]; if (s.gen != hgen) { if (!make || nce > NCE * 3 / 4) return nullptr; ++nce; memset(&s, 0, sizeof s); s.gen = hgen; s.key = k; return &s; } if (s.key == k) return &s; }
}
static inline bool o_acq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static inline bool o_rel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static void hb_acquire(int t, void const volatile * a) { if (!hb_on) return; if (HSync * s = hsync(a)) hc[t].join(s->l); }
static void hb_release(int t, void const volatile * a) { if (!hb_on) return; if (HSync * s = hsync(a)) { s->l.join(hc[t]); ++hc[t].c[t]; } }
static void hb_load(int t, void const volatile * a, int o) { if (HSync * s = hsync(a)) (o_acq(o) ? hc[t] : hpend[t]).join(s->l); }
static void hb_store(int t, void const volatile * a, int o) { if (HSync * s = hsync(a)) { if (o_rel(o)) { s->l = hc[t]; ++hc[t].c[t]; } else s->l = hfence[t]; } }
static void hb_rmw(int t, void const volatile * a, int o) { if (HSync * s = hsync(a)) { (o_acq(o) ? hc[t] : hpend[t]).join(s->l); if (o_rel(o)) { s->l.join(hc[t]); ++hc[t].c[t]; } else s->l.join(hfence[t]); } }
static void hb_fence(int t, int o) { if (!hb_on) return; if (o_acq(o)) hc[t].join(hpend[t]); if (o_rel(o)) { hfence[t] = hc[t]; ++hc[t].c[t]; } }
// exception objects live in memory of the C++ runtime, which counts their references: not checked
static struct { char const * p; size_t n; } exc_ring[256]; static unsigned exc_i;
static bool exc_memory(void const * a) { for (auto & e : exc_ring) if ((char const *)a >= e.p - 160 && (char const *)a < e.p + e.n) return true; return false; }
static void hb_race(int t, bool w, bool at, int u, bool uw, bool uat, void const volatile * a_, void * pc, void * upc) {
    void const * a = (void const *)a_; if (exc_memory(a)) return; note("race at %p: backtrace: %p  earlier access: backtrace: %p", a, pc, upc);
    fail_as("race", "data race: thread %d %s%s memory that thread %d %s%s without synchronisation in between", t, w ? "writes" : "reads", at ? " (atomically)" : "", u, uw ? "wrote" : "read", uat ? " (atomically)" : "");
}
static void hb_access(int t, void const volatile * a, size_t n, bool w, bool at, void * pc, bool forget = false) {
    VC & C = hc[t];
    for (uintptr_t p = (uintptr_t)a, e = p + n; p < e;) {
        uintptr_t g = p >> 3; size_t in = p & 7, here = 8 - in; if (here > e - p) here = e - p; uint8_t m = (uint8_t)(((1u << here) - 1) << in); p += here;
        HCell * c = hcell(g, !forget); if (!c) continue; ++hb_checks;
        for (auto & x : c->w) if ((x.mask & m) && x.tid != t && x.clk > C.c[x.tid]) hb_race(t, w, at, x.tid, true, false, a, pc, x.pc);
        for (int u = 0; u < HT; ++u) if (u != t) {
            if (w && (c->rm[u] & m) && c->r[u] > C.c[u]) hb_race(t, w, at, u, false, false, a, pc, c->rpc);
            if (!at) { if ((c->awm[u] & m) && c->aw[u] > C.c[u]) hb_race(t, w, at, u, true, true, a, pc, c->apc); if (w && (c->arm[u] & m) && c->ar[u] > C.c[u]) hb_race(t, w, at, u, false, true, a, pc, c->apc); }
        }
        uint32_t k = C.c[t];
        if (at) { if (w) { if (c->aw[t] == k) c->awm[t] |= m; else { c->aw[t] = k; c->awm[t] = m; } } else { if (c->ar[t] == k) c->arm[t] |= m; else { c->ar[t] = k; c->arm[t] = m; } } c->apc = pc; }
        else if (w) { HWrite * x = &c->w[0]; if (c->w[0].mask && c->w[0].tid == t && c->w[0].clk == k) x = &c->w[0], x->mask |= m; else if (c->w[1].mask && c->w[1].tid == t && c->w[1].clk == k) x = &c->w[1], x->mask |= m; else { if (!(c->w[0].mask & ~m)) x = &c->w[0]; else if (!(c->w[1].mask & ~m)) x = &c->w[1]; else { x = &c->w[c->next]; c->next ^= 1; } x->mask = m; } x->clk = k; x->tid = (uint8_t)t; x->pc = pc; }
        else { if (c->r[t] == k) c->rm[t] |= m; else { c->r[t] = k; c->rm[t] = m; } c->rpc = pc; }
    }
}
// memory that changes hands through the allocator: earlier accesses no longer count
static void hb_forget(void const * a, size_t n) { for (uintptr_t g = (uintptr_t)a >> 3, e = ((uintptr_t)a + n + 7) >> 3; g < e; ++g) if (HCell * c = hcell(g, false)) { memset(c->w, 0, sizeof c->w); memset(c->rm, 0, sizeof c->rm); memset(c->awm, 0, sizeof c->awm); memset(c->arm, 0, sizeof c->arm); } }
}
