// Property-based testing engine: generation campaign over worker processes,
// replay, shrinking, evidence.
#include "engine.h"
#include "shared.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sched.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <time.h>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <algorithm>
#include <fstream>
#include <sstream>

namespace vrt { void set_shared(Shared *); void set_tracing(bool); }
using namespace vrt;

namespace pbt {

static const char * prop_;
static const Scenario * sc_;
static int nsc_;
static uint64_t seed_ = 1;
static const char * part_;          // VERIF_PART: this binary decides a part of another property (VERIF_ID)
static std::string only_cls_;       // VERIF_ONLY_CLASS: failures of other classes belong to another property: the case is skipped
static uint64_t foreign_ = 0;
typedef std::vector<std::vector<uint32_t>> Choices;

static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t hash_str(const char * s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return h; }
static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t case_seed(const Scenario & s, uint32_t idx) { return mix(mix(seed_ + 1000003ull * hash_str(prop_)) ^ mix(hash_str(s.name)) ^ mix(0x5555ull + idx)); }

static Shared * new_shared() {
    void * p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared *)p;
}
static void run_case(const Scenario & s, uint64_t seed, const Choices * c) {
    case_setup(seed, c != nullptr, c);
    s.body();
    case_finish();
}
static void child_init(int cpu) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    cpu_set_t all; if (sched_getaffinity(0, sizeof all, &all) == 0) {
        int n = CPU_COUNT(&all); if (n > 0) { int k = cpu % n; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all) && k-- == 0) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); break; } }
    }
}
struct Outcome { bool failed = false; bool hang = false; std::string cls, msg, notes; Choices rec; };

static Outcome run_one(const Scenario & s, uint64_t seed, const Choices * c, bool trace, double timeout, Shared * sh) {
    memset((void *)sh, 0, offsetof(Shared, nrec));
    sh->nhash = 0; sh->nlabels = 0; sh->note_len = 0; memset(sh->nrec, 0, sizeof sh->nrec);
    pid_t p = fork();
    if (p == 0) {
        child_init(0); set_shared(sh); set_tracing(trace);
        run_case(s, seed, c);
        sh->done_cases = 1;
        _exit(0);
    }
    Outcome o; int st = 0; double t0 = wall();
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (wall() - t0 > timeout) { kill(p, SIGKILL); waitpid(p, &st, 0); o.failed = o.hang = true; o.cls = "hang"; o.msg = "the case does not terminate (real-time watchdog)"; break; }
        usleep(wall() - t0 < 0.02 ? 200 : 2000);
    }
    if (!o.hang) {
        if (sh->failed) { o.failed = true; o.cls = sh->fail_cls; o.msg = sh->fail_msg; }
        else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { o.failed = true; o.cls = "crash"; char b[128]; snprintf(b, sizeof b, "the process running the case died (status 0x%x)", st); o.msg = b; }
    }
    o.notes.assign(sh->notes, sh->note_len);
    for (int i = 0; i < 4; ++i) o.rec.emplace_back(sh->rec[i], sh->rec[i] + sh->nrec[i]);
    return o;
}

static std::string esc(const std::string & s) {
    std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o;
}

// ---- known findings -----------------------------------------------------
struct Known { std::string cls, what; uint64_t hits = 0; };
static std::vector<Known> known_;
static void load_known(const std::string & root) {
    std::ifstream f(root + "/known-findings.txt"); std::string l;
    std::string key = std::string("known: property=") + prop_ + " class=";
    while (std::getline(f, l)) if (l.compare(0, key.size(), key) == 0) {
        std::string r = l.substr(key.size()); size_t sp = r.find(' ');
        Known k; k.cls = r.substr(0, sp); k.what = sp == std::string::npos ? "" : r.substr(sp + 1); known_.push_back(k);
    }
}
static Known * find_known(const std::string & cls) { for (auto & k : known_) if (k.cls == cls) return &k; return nullptr; }

// ---- shrinking ------------------------------------------------------------
static Choices trim(Choices c) { for (auto & v : c) while (!v.empty() && v.back() == 0) v.pop_back(); return c; }
static size_t weight(const Choices & c) { size_t w = 0; for (auto & v : c) for (auto x : v) w += 1 + (x ? 8 : 0) + (x > 3 ? 2 : 0) + (x > 50 ? 1 : 0); return w; }
static Choices shrink(const Scenario & s, Choices best, const std::string & cls, double budget, Shared * sh, int & tries) {
    double t0 = wall();
    auto ok = [&](const Choices & c) { ++tries; Outcome o = run_one(s, 0, &c, false, 20, sh); return o.failed && !o.hang && !find_known(o.cls) && (o.cls == cls); };
    auto late = [&] { return wall() - t0 > budget; };
    best = trim(best);
    bool changed = true;
    while (changed && !late()) {
        changed = false;
        for (int st : { 1, 2, 3, 0 }) {
            // drop tails
            for (size_t cut = best[st].size(); cut > 0 && !late(); cut /= 2) {
                if (best[st].size() < cut) continue;
                Choices c = best; c[st].resize(best[st].size() - cut);
                if (ok(c)) { best = trim(c); changed = true; cut = best[st].size() + 1; }
            }
            // zero / delete chunks
            for (size_t len = std::max<size_t>(best[st].size() / 2, 1); len >= 1 && !late(); len /= 2) {
                for (size_t i = 0; i + 1 <= best[st].size() && !late();) {
                    size_t e = std::min(best[st].size(), i + len);
                    bool allz = true; for (size_t k = i; k < e; ++k) if (best[st][k]) allz = false;
                    if (!allz) { Choices c = best; for (size_t k = i; k < e; ++k) c[st][k] = 0; if (ok(c)) { best = trim(c); changed = true; i += len; continue; } }
                    if (len <= 64) { Choices c = best; c[st].erase(c[st].begin() + i, c[st].begin() + e); c = trim(c); if (weight(c) < weight(best) && ok(c)) { best = c; changed = true; continue; } }
                    i += len;
                }
                if (len == 1) break;
            }
            // reduce values
            if (best[st].size() <= 400) for (size_t i = 0; i < best[st].size() && !late(); ++i) {
                while (best[st].size() > i && best[st][i] > 1 && !late()) {
                    Choices c = best; c[st][i] = c[st][i] / 2;
                    if (ok(c)) { best = c; changed = true; } else break;
                }
                if (best[st].size() > i && best[st][i] > 0 && !late()) { Choices c = best; c[st][i]--; if (ok(c)) { best = trim(c); changed = true; } }
            }
        }
    }
    return trim(best);
}

static bool write_replay(const std::string & path, const Scenario & s, const Choices & c, const Outcome & o) {
    std::ofstream f(path);
    f << "property " << prop_ << "\n"; if (part_) f << "part " << part_ << "\n"; f << "scenario " << s.name << "\n";
    for (int i = 0; i < 4; ++i) { f << "stream " << i; for (auto x : c[i]) f << ' ' << x; f << "\n"; }
    f << "# class: " << o.cls << "\n# message: " << o.msg << "\n# ---- trace of the minimal case ----\n";
    std::istringstream is(o.notes); std::string l; int n = 0; while (std::getline(is, l) && n++ < 600) f << "# " << l << "\n";
    return (bool)f;
}
static int do_replay(const char * path) {
    std::ifstream f(path); std::string l; std::string scn; Choices c(4);
    if (!f) { fprintf(stderr, "cannot read %s\n", path); return 2; }
    while (std::getline(f, l)) {
        std::istringstream is(l); std::string w; is >> w;
        if (w == "scenario") is >> scn;
        else if (w == "stream") { int k; is >> k; uint32_t x; while (is >> x) if (k >= 0 && k < 4) c[k].push_back(x); }
    }
    for (int i = 0; i < nsc_; ++i) if (scn == sc_[i].name) {
        Shared * sh = new_shared();
        Outcome o = run_one(sc_[i], 0, &c, true, 60, sh);
        printf("%s", o.notes.c_str());
        if (o.failed) { printf("FAILED [%s] %s\n", o.cls.c_str(), o.msg.c_str()); printf("VIOLATION property=%s replay=%s\n", prop_, path); return 1; }
        printf("replay passes\n"); return 0;
    }
    fprintf(stderr, "unknown scenario %s\n", scn.c_str()); return 2;
}

struct Worker { pid_t pid = 0; Shared * sh = nullptr; int scn = 0; uint32_t from = 0, to = 0; uint32_t last_case = ~0u; double last_t = 0; };

int engine_main(int argc, char ** argv, const char * prop, const Scenario * s, int n) {
    prop_ = getenv("VERIF_ID") ? getenv("VERIF_ID") : prop; part_ = getenv("VERIF_PART"); if (getenv("VERIF_ONLY_CLASS")) only_cls_ = getenv("VERIF_ONLY_CLASS"); sc_ = s; nsc_ = n;
    if (!getenv("VRT_NOASLR_DONE")) {
        // a fixed address layout makes every run of a case identical (best effort)
        setenv("VRT_NOASLR_DONE", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE | personality(0xffffffff)) != -1) execv("/proc/self/exe", argv);
    }
    std::string tier = "quick", root = ".", only, replay; int jobs = 8; double scale = 1; double max_wall = 0; long one = -1; bool noshrink = false; int trace_case = -1;
    if (getenv("VERIF_TIER")) tier = getenv("VERIF_TIER");
    if (getenv("VERIF_SEED")) seed_ = strtoull(getenv("VERIF_SEED"), 0, 10);
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--tier" && i + 1 < argc) tier = argv[++i];
        else if (a == "--seed" && i + 1 < argc) seed_ = strtoull(argv[++i], 0, 10);
        else if (a == "--root" && i + 1 < argc) root = argv[++i];
        else if (a == "--only" && i + 1 < argc) only = argv[++i];
        else if (a == "--replay" && i + 1 < argc) replay = argv[++i];
        else if (a == "--jobs" && i + 1 < argc) jobs = atoi(argv[++i]);
        else if (a == "--scale" && i + 1 < argc) scale = atof(argv[++i]);
        else if (a == "--max-wall" && i + 1 < argc) max_wall = atof(argv[++i]);
        else if (a == "--case" && i + 1 < argc) one = atol(argv[++i]);
        else if (a == "--trace" && i + 1 < argc) trace_case = atoi(argv[++i]);
        else if (a == "--no-shrink") noshrink = true;
        else if (a == "--list") { for (int k = 0; k < n; ++k) printf("%s quick=%d thorough=%d\n", s[k].name, s[k].quick, s[k].thorough); return 0; }
    }
    load_known(root);
    if (!replay.empty()) return do_replay(replay.c_str());
    if (one >= 0 || trace_case >= 0) {
        Shared * sh = new_shared();
        for (int k = 0; k < n; ++k) if (only.empty() || ("," + only + ",").find(std::string(",") + s[k].name + ",") != std::string::npos) {
            Outcome o = run_one(s[k], case_seed(s[k], (uint32_t)(one >= 0 ? one : trace_case)), nullptr, true, 60, sh);
            printf("%s%s\n", o.notes.c_str(), o.failed ? ("FAILED [" + o.cls + "] " + o.msg).c_str() : "ok");
        }
        return 0;
    }
    bool thorough = tier == "thorough";
    if (max_wall <= 0) max_wall = thorough ? 3000 : 420;
    double t0 = wall();
    signal(SIGPIPE, SIG_IGN);

    // ---- campaign -------------------------------------------------------------
    struct Job { int scn; uint32_t from, to; };
    std::vector<Job> jobsq;
    std::vector<uint64_t> total(n, 0), done(n, 0);
    {
        std::vector<std::vector<Job>> per(n);
        for (int k = 0; k < n; ++k) {
            if (!only.empty() && ("," + only + ",").find(std::string(",") + s[k].name + ",") == std::string::npos) continue;
            uint64_t cases = (uint64_t)((thorough ? s[k].thorough : s[k].quick) * scale);
            total[k] = cases;
            uint32_t bs = s[k].fork_each ? 64 : (uint32_t)std::max<uint64_t>(20, std::min<uint64_t>(400, cases / 64 + 1));
            for (uint64_t f = 0; f < cases; f += bs) per[k].push_back({ k, (uint32_t)f, (uint32_t)std::min<uint64_t>(cases, f + bs) });
        }
        // interleave the scenarios so that a wall-clock cap cuts all of them evenly
        size_t mx = 0; for (auto & p : per) mx = std::max(mx, p.size());
        for (size_t i = 0; i < mx; ++i) for (int k = 0; k < n; ++k) {
            size_t a = per[k].size() * i / mx, b = per[k].size() * (i + 1) / mx;
            for (size_t q = a; q < b; ++q) jobsq.push_back(per[k][q]);
        }
    }
    std::vector<Worker> ws(jobs); for (auto & w : ws) w.sh = new_shared();
    size_t nextjob = 0;
    std::unordered_set<uint64_t> distinct; std::unordered_set<uint64_t> distinct_nt;
    std::vector<uint64_t> nt_per(n, 0);
    std::map<std::string, uint64_t> labels;
    uint64_t tot_steps = 0, tot_sw = 0, tot_pre = 0, tot_blk = 0, tot_thr = 0, max_steps = 0;
    bool failed = false; int fscn = -1; uint32_t fcase = 0; bool fhang = false; std::string fcls, fmsg; Choices frec;
    bool capped = false; uint64_t unreproducible = 0;
    auto start = [&](Worker & w, int idx) {
        Shared * sh = w.sh;
        memset((void *)sh, 0, offsetof(Shared, rec)); sh->note_len = 0; sh->nlabels = 0; sh->nhash = 0;
        sh->tot_steps = sh->tot_switches = sh->tot_preempt = sh->tot_blocks = sh->tot_vthreads = sh->max_steps = 0; sh->known_hits = 0;
        sh->cur_case = w.from;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            child_init(idx); set_shared(sh);
            const Scenario & sc = s[w.scn];
            for (uint32_t c = w.from; c < w.to; ++c) {
                sh->cur_case = c;
                if (sc.fork_each) {
                    pid_t q = fork();
                    if (q == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); run_case(sc, case_seed(sc, c), nullptr); _exit(0); }
                    int st = 0; while (waitpid(q, &st, 0) < 0 && errno == EINTR) {}
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { if (!sh->failed) { sh->failed = 1; snprintf(sh->fail_cls, sizeof sh->fail_cls, "crash"); snprintf(sh->fail_msg, sizeof sh->fail_msg, "the process running the case died (status 0x%x)", st); } _exit(77); }
                } else run_case(sc, case_seed(sc, c), nullptr);
                sh->done_cases++;
            }
            _exit(0);
        }
        w.pid = p; w.last_case = ~0u; w.last_t = wall();
    };
    auto collect = [&](Worker & w) {
        Shared * sh = w.sh;
        done[w.scn] += sh->done_cases;
        for (uint32_t i = 0; i < sh->nhash; ++i) { uint64_t h = sh->hashes[i] ^ (mix(w.scn) & ~1ull); if (h & 1) { if (distinct_nt.insert(h).second) nt_per[w.scn]++; } distinct.insert(h | 1); }
        for (uint32_t i = 0; i < sh->nlabels; ++i) labels[std::string(s[w.scn].name) + "/" + sh->label_name[i]] += sh->label_count[i];
        tot_steps += sh->tot_steps; tot_sw += sh->tot_switches; tot_pre += sh->tot_preempt; tot_blk += sh->tot_blocks; tot_thr += sh->tot_vthreads; max_steps = std::max(max_steps, (uint64_t)sh->max_steps);
    };
    bool stop = false;
    for (;;) {
        bool busy = false;
        for (int i = 0; i < jobs; ++i) {
            Worker & w = ws[i];
            if (!w.pid) {
                if (stop || nextjob >= jobsq.size() || foreign_ >= 400) continue;
                if (wall() - t0 > max_wall) { capped = true; continue; }
                Job j = jobsq[nextjob++]; w.scn = j.scn; w.from = j.from; w.to = j.to; start(w, i); busy = true; continue;
            }
            int st = 0; pid_t r = waitpid(w.pid, &st, WNOHANG);
            if (r == 0) {
                busy = true;
                uint32_t c = w.sh->cur_case;
                if (c != w.last_case) { w.last_case = c; w.last_t = wall(); }
                else if (wall() - w.last_t > 40) {
                    kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); w.pid = 0; collect(w);
                    if (!only_cls_.empty()) { foreign_ += 200; fprintf(stderr, "note: %s case %u does not terminate\n", s[w.scn].name, c); }
                    else if (!failed) { failed = true; fhang = true; fscn = w.scn; fcase = c; fcls = "hang"; fmsg = "the case does not terminate"; stop = true; }
                }
                continue;
            }
            w.pid = 0; collect(w);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            uint32_t c = w.sh->cur_case;
            std::string cls = w.sh->failed ? w.sh->fail_cls : "crash", msg = w.sh->failed ? w.sh->fail_msg : "";
            if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { fprintf(stderr, "engine error in %s case %u\n", s[w.scn].name, c); return 2; }
            if (Known * k = find_known(cls)) { k->hits++; done[w.scn]++; w.from = c + 1; if (w.from < w.to) { start(w, i); busy = true; } continue; }
            if (!only_cls_.empty() && cls != only_cls_) {
                if (++foreign_ <= 3) fprintf(stderr, "note: %s case %u ends early, by another property: [%s] %s\n", s[w.scn].name, c, cls.c_str(), msg.c_str());
                done[w.scn]++; w.from = c + 1; if (foreign_ < 400 && w.from < w.to) { start(w, i); busy = true; }
                continue;
            }
            if (!failed) {
                // confirm deterministically before believing it
                Outcome o = run_one(s[w.scn], case_seed(s[w.scn], c), nullptr, false, 60, w.sh);
                if (o.failed) { failed = true; stop = true; fscn = w.scn; fcase = c; fcls = o.cls; fmsg = o.msg; frec = o.rec; fhang = o.hang; }
                else {
                    unreproducible++; fprintf(stderr, "warning: failure of %s case %u did not reproduce: [%s] %s\n", s[w.scn].name, c, cls.c_str(), msg.c_str());
                    w.from = c + 1; if (w.from < w.to) { start(w, i); busy = true; }
                }
            }
        }
        if (stop) { for (auto & w : ws) if (w.pid) { kill(w.pid, SIGKILL); int st; waitpid(w.pid, &st, 0); w.pid = 0; collect(w); } break; }
        if (!busy && (nextjob >= jobsq.size() || capped || foreign_ >= 400)) { bool any = false; for (auto & w : ws) if (w.pid) any = true; if (!any) break; }
        usleep(500);
    }

    int rc = 0; std::string violation;
    std::string outdir = root + "/out"; mkdir(outdir.c_str(), 0777);
    Shared * sh = new_shared();
    if (failed) {
        const Scenario & sc = s[fscn];
        printf("failing case: scenario %s case %u [%s] %s\n", sc.name, fcase, fcls.c_str(), fmsg.c_str()); fflush(stdout);
        if (fhang) {
            int hangs = 0; for (int i = 0; i < 2; ++i) { Outcome o = run_one(sc, case_seed(sc, fcase), nullptr, false, 60, sh); if (o.failed) hangs++; frec = o.rec; }
            if (hangs == 2) {
                std::string path = outdir + "/" + prop_ + "-" + (part_ ? std::string(part_) + "-" : "") + sc.name + ".replay";
                Outcome o; o.cls = "hang"; o.msg = fmsg; write_replay(path, sc, trim(frec), o);
                printf("VIOLATION property=%s replay=%s\n", prop_, path.c_str()); rc = 1;
            } else { fprintf(stderr, "hang did not reproduce\n"); unreproducible++; }
        } else {
            int tries = 0;
            Choices small = noshrink ? trim(frec) : shrink(sc, frec, fcls, thorough ? 120 : 45, sh, tries);
            bool rep = true; Outcome o;
            for (int i = 0; i < 3; ++i) { o = run_one(sc, 0, &small, true, 60, sh); if (!o.failed) rep = false; }
            if (!rep) { small = trim(frec); rep = true; for (int i = 0; i < 3; ++i) { o = run_one(sc, 0, &small, true, 60, sh); if (!o.failed) rep = false; } }
            if (rep) {
                std::string path = outdir + "/" + prop_ + "-" + (part_ ? std::string(part_) + "-" : "") + sc.name + ".replay";
                write_replay(path, sc, small, o);
                size_t len = 0; for (auto & v : small) len += v.size();
                printf("shrunk to %zu choices in %d runs: [%s] %s\n", len, tries, o.cls.c_str(), o.msg.c_str());
                printf("%s", o.notes.size() > 6000 ? (o.notes.substr(0, 3000) + "...\n" + o.notes.substr(o.notes.size() - 3000)).c_str() : o.notes.c_str());
                printf("VIOLATION property=%s replay=%s\n", prop_, path.c_str()); rc = 1;
            } else { fprintf(stderr, "failure did not replay; not reported\n"); unreproducible++; }
        }
    }
    for (auto & k : known_) if (k.hits) printf("KNOWN-FINDING: property=%s %s (%s, hit %llu times)\n", prop_, k.what.c_str(), k.cls.c_str(), (unsigned long long)k.hits);
        else printf("KNOWN-FINDING: property=%s %s (%s, not hit in this run)\n", prop_, k.what.c_str(), k.cls.c_str());

    // ---- evidence --------------------------------------------------------------
    std::string samples;
    for (int k = 0; k < n; ++k) {
        if (!total[k]) continue;
        for (int q = 0; q < 2; ++q) {
            Outcome o = run_one(s[k], case_seed(s[k], (uint32_t)(q * 3 + 1)), nullptr, true, 60, sh);
            std::string t = o.notes; if (t.size() > 2500) t = t.substr(0, 2500) + " ...[cut]";
            if (!samples.empty()) samples += ",\n";
            samples += "   \"" + std::string(s[k].name) + " #" + std::to_string(q * 3 + 1) + ": " + esc(t) + "\"";
        }
    }
    uint64_t ev = 0; for (auto d : done) ev += d;
    std::string rule = "A case = a generated program (threads, fibers, operations, schedulers) plus a generated schedule and passage of time, executed against the real library; distinct = different choice sequence (program, schedule, time). ";
    for (int k = 0; k < n; ++k) if (total[k]) rule += std::string(s[k].name) + ": non-trivial when " + s[k].rule + ". ";
    mkdir((root + "/evidence").c_str(), 0777);
    std::string ep = root + "/evidence/" + prop_ + ".json";
    if (getenv("VERIF_EVIDENCE")) ep = getenv("VERIF_EVIDENCE");
    FILE * f = fopen(ep.c_str(), "w");
    if (!f) { perror(ep.c_str()); return 2; }
    fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n", prop_, thorough ? "thorough" : "quick", (unsigned long long)seed_);
    fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"distinct\": %zu,\n  \"rule\": \"%s\",\n", (unsigned long long)ev, distinct_nt.size(), distinct.size(), esc(rule).c_str());
    fprintf(f, "  \"scenarios\": {"); bool first = true;
    for (int k = 0; k < n; ++k) if (total[k]) { fprintf(f, "%s\n   \"%s\": {\"planned\": %llu, \"executed\": %llu, \"distinct_nontrivial\": %llu}", first ? "" : ",", s[k].name, (unsigned long long)total[k], (unsigned long long)done[k], (unsigned long long)nt_per[k]); first = false; }
    fprintf(f, "\n  },\n  \"classification\": {"); first = true;
    for (auto & l : labels) { fprintf(f, "%s\n   \"%s\": %llu", first ? "" : ",", esc(l.first).c_str(), (unsigned long long)l.second); first = false; }
    fprintf(f, "\n  },\n  \"schedule_points\": %llu, \"thread_switches\": %llu, \"preemptions\": %llu, \"os_blocks\": %llu, \"threads_started\": %llu, \"longest_case_points\": %llu,\n", (unsigned long long)tot_steps, (unsigned long long)tot_sw, (unsigned long long)tot_pre, (unsigned long long)tot_blk, (unsigned long long)tot_thr, (unsigned long long)max_steps);
    fprintf(f, "  \"stopped_by_wall_clock_cap\": %s, \"unreproducible_failures\": %llu, \"ended_early_by_another_property\": %llu,\n", capped ? "true" : "false", (unsigned long long)unreproducible, (unsigned long long)foreign_);
    fprintf(f, "  \"samples\": [\n%s\n  ]\n },\n", samples.c_str());
    fprintf(f, " \"assumptions\": [\"sequentially consistent interleavings at the granularity of instrumented memory accesses and atomic/pthread operations (gcc, x86-64, NDEBUG); weaker memory orders are not explored\", \"virtual time: clocks, timed waits and sleeps of the library see a generated clock\"],\n");
    fprintf(f, " \"wall_s\": %.1f,\n \"violations\": %d\n}\n", wall() - t0, rc ? 1 : 0);
    fclose(f);
    printf("%s %s: %llu cases, %zu distinct non-trivial, %.1fs%s\n", prop_, tier.c_str(), (unsigned long long)ev, distinct_nt.size(), wall() - t0, capped ? " (capped by wall clock)" : "");
    if (unreproducible && !rc) { fprintf(stderr, "unreproducible failures: %llu\n", (unsigned long long)unreproducible); }
    return rc;
}
}
