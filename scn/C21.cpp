#include "world.h"
#include "sysfs.h"
#include <boost/fiber/numa/all.hpp>
#include <ftw.h>
using namespace w;
typedef std::set<uint32_t> Ids;
static std::string list_format(Ids const & s) { // the kernel's format of a set of ids
    std::string o; for (auto i = s.begin(); i != s.end();) { uint32_t a = *i, b = a; while (++i != s.end() && *i == b + 1) b = *i; if (!o.empty()) o += ","; o += std::to_string(a); if (b != a) o += "-" + std::to_string(b); } return o; }
static std::vector<std::string> g_made; // everything created for one case, in order
static void mkd(std::string const & p) { if (mkdir(p.c_str(), 0755) == 0) g_made.push_back(p); }
static void put(std::string const & p, std::string const & c) { FILE * f = fopen(p.c_str(), "w"); if (!f) { perror(p.c_str()); exit(2); } fputs(c.c_str(), f); fclose(f); g_made.push_back(p); }
static void lnk(std::string const & to, std::string const & p) { if (symlink(to.c_str(), p.c_str())) { perror(p.c_str()); exit(2); } g_made.push_back(p); }
static std::string scratch() { static std::string base; static pid_t owner; if (owner != getpid()) { owner = getpid(); const char * e = getenv("VERIF_SCRATCH"); char b[300]; snprintf(b, sizeof b, "%s/sysfs-%d", e ? e : "/tmp", (int)getpid()); base = b; } return base; }
static Ids draw_ids(int maxn, int style, uint32_t span) { Ids s; int n = range(PROG, 1, maxn); uint32_t at = style == 0 ? 0 : draw(PROG, span); for (int i = 0; i < n; ++i) { s.insert(at); at += style <= 1 ? 1 : 1 + (draw(PROG, 3) == 2 ? draw(PROG, span) : 0); } return s; }
static void topo_case() {
    world_reset(); g_affinity_on = false; g_made.clear();
    bool numa = draw(PROG, 6) != 5, big = draw(PROG, 5) == 4; Ids cpus = draw_ids(big ? 70 : 12, (int)draw(PROG, 3), big ? 60 : 5), nodes = numa ? draw_ids(big ? 12 : 5, (int)draw(PROG, 3), 4) : Ids(), online; std::map<uint32_t, uint32_t> node_of; int style = (int)draw(PROG, 4); std::vector<uint32_t> nv(nodes.begin(), nodes.end());
    uint32_t n = 0; bool off = draw(PROG, 3) == 2;
    for (uint32_t c : cpus) { if (!off || draw(PROG, 4) != 3) online.insert(c); if (numa) { uint32_t k = style == 0 ? n * (uint32_t)nv.size() / (uint32_t)cpus.size() : style == 1 ? n % (uint32_t)nv.size() : draw(PROG, (uint32_t)nv.size()); node_of[c] = nv[k]; } ++n; }
    if (online.empty()) online.insert(*cpus.begin());
    std::map<uint32_t, std::vector<uint32_t>> dist; bool nodist = numa && draw(PROG, 8) == 7; for (uint32_t a : nodes) for (uint32_t b : nodes) dist[a].push_back(a == b ? 10 : 11 + draw(PROG, 90) + (draw(PROG, 10) == 9 ? 150 : 0));
    std::string root = scratch(); mkd(root); std::string cdir = root + "/cpu", ndir = root + "/node"; mkd(cdir);
    put(cdir + "/online", list_format(online) + "\n"); put(cdir + "/present", list_format(cpus) + "\n"); put(cdir + "/possible", "0-" + std::to_string(*cpus.rbegin() + 4) + "\n"); Ids offline; for (uint32_t c : cpus) if (!online.count(c)) offline.insert(c); put(cdir + "/offline", list_format(offline) + "\n"); put(cdir + "/kernel_max", "8191\n");
    bool noise = draw(PROG, 2);
    for (uint32_t c : cpus) { std::string d = cdir + "/cpu" + std::to_string(c); mkd(d); if (noise) { put(d + "/crash_notes", "1234\n"); put(d + "/online", online.count(c) ? "1\n" : "0\n"); mkd(d + "/topology"); mkd(d + "/cache"); mkd(d + "/power"); if (c & 1) put(d + "/node", "x\n"); else mkd(d + "/xnode7"); put(d + "/node3x", "y\n"); } if (numa) lnk("../../node/node" + std::to_string(node_of[c]), d + "/node" + std::to_string(node_of[c])); }
    if (noise) { mkd(cdir + "/cpufreq"); mkd(cdir + "/cpuidle"); }
    if (numa) { mkd(ndir); put(ndir + "/online", list_format(nodes) + "\n"); for (uint32_t k : nodes) { std::string d = ndir + "/node" + std::to_string(k); mkd(d); std::string l; for (uint32_t v : dist[k]) l += (l.empty() ? "" : " ") + std::to_string(v); if (!nodist) put(d + "/distance", l + "\n"); Ids on; for (uint32_t c : online) if (node_of[c] == k) on.insert(c); put(d + "/cpulist", list_format(on) + "\n"); if (noise) put(d + "/numastat", "numa_hit 1\n"); } }
    std::map<uint32_t, std::pair<Ids, std::vector<uint32_t>>> want; // nodes with processors that are online
    for (uint32_t c : online) want[numa ? node_of[c] : 0].first.insert(c);
    for (auto & x : want) { if (numa && !nodist) x.second.second = dist[x.first]; else x.second.second = { 10 }; }
    if (vrt::tracing()) { note("online processors: %s of %s", list_format(online).c_str(), list_format(cpus).c_str()); for (uint32_t k : nodes) { Ids on; for (uint32_t c : cpus) if (node_of[c] == k) on.insert(c); std::string l; for (uint32_t v : dist[k]) l += " " + std::to_string(v); note("node %u: processors %s, distances%s%s", k, list_format(on).c_str(), nodist ? " not reported" : "", l.c_str()); } }
    std::string err; std::vector<bf::numa::node> t; g_sys_lookups = 0; snprintf(g_sysroot, sizeof g_sysroot, "%s", root.c_str());
    try { t = bf::numa::topology(); } catch (std::exception const & e) { err = std::string("topology() failed: ") + e.what(); }
    g_sysroot[0] = 0;
    for (auto i = g_made.rbegin(); i != g_made.rend(); ++i) if (remove(i->c_str())) {} 
    CHECK(err.empty(), "%s", err.c_str()); CHECK(g_sys_lookups > 0, "topology() did not look at the system's description of its processors");
    CHECK(t.size() == want.size(), "topology() returned %zu nodes instead of %zu", t.size(), want.size());
    Ids seen; for (auto & x : t) { CHECK(seen.insert(x.id).second, "node %u was reported twice", x.id); auto i = want.find(x.id); CHECK(i != want.end(), "topology() reported node %u, which does not exist or has no processor that is online", x.id); Ids got(x.logical_cpus.begin(), x.logical_cpus.end()); CHECK(got == i->second.first, "node %u: topology() reported processors %s instead of %s", x.id, list_format(got).c_str(), list_format(i->second.first).c_str()); CHECK(x.distance == i->second.second, "node %u: wrong distances (%zu instead of %zu)", x.id, x.distance.size(), i->second.second.size()); }
    if (t.size() >= 2) { CHECK((t[0] < t[1]) == (t[0].id < t[1].id), "operator<"); }
    if (want.size() >= 2 || !offline.empty()) vrt::nontrivial(); if (!offline.empty()) vrt::label("processors that are offline"); if (!numa) vrt::label("no NUMA information"); if (nodes.size() > want.size()) vrt::label("nodes without processors");
}
static void pin_case() {
    world_reset(); g_affinity.clear(); g_affinity_error = 0; int n = range(PROG, 1, 4); std::vector<ThreadPlan> plan = draw_plan(1); static const int errs[] = { 0, 0, 0, EINVAL, EPERM, ESRCH };
    for (int k = 0; k < n; ++k) { uint32_t cpu = draw(PROG, 3) == 2 ? draw(PROG, 1024) : draw(PROG, 16); bool two = draw(PROG, 2); g_affinity_error = errs[draw(PROG, 6)]; bool fiber = draw(PROG, 2); g_affinity.clear(); bool other = two && draw(PROG, 2); note("pin to %u%s%s%s", cpu, two ? ", handle given" : "", g_affinity_error ? ", refused" : "", fiber ? ", from a fiber" : "");
        pthread_t caller{}, target{}; static pthread_t parked; static bool have = false; (void)have; parked = pthread_self(); bool thrown = false; int code = 0;
        vrt::spawn([&] { caller = pthread_self(); target = other ? parked : caller; auto go = [&] { try { if (two) bf::numa::pin_thread(cpu, target); else bf::numa::pin_thread(cpu); } catch (std::system_error const & e) { thrown = true; code = e.code().value(); CHECK(e.code().category() == std::system_category() || e.code().category() == std::generic_category(), "pin_thread() reported an error of another category"); } }; if (fiber) bf::fiber(bf::launch::dispatch, go).join(); else go(); }); vrt::run();
        CHECK(g_affinity.size() == 1, "pin_thread() requested an affinity %zu times", g_affinity.size()); Affinity & a = g_affinity[0];
        CHECK(pthread_equal(a.h, target), "pin_thread() pinned another thread"); CHECK(a.cpus.size() == 1 && a.cpus[0] == (int)cpu, "pin_thread(%u) requested %zu processors, the first %d", cpu, a.cpus.size(), a.cpus.empty() ? -1 : a.cpus[0]);
        CHECK(thrown == (g_affinity_error != 0), thrown ? "pin_thread() reported a failure although it succeeded" : "pin_thread() did not report that the system refused"); if (thrown) CHECK(code == g_affinity_error, "pin_thread() reported another error");
        if (g_affinity_error) vrt::label("refused"); vrt::nontrivial(); }
    g_affinity_error = 0;
}
PBT_MAIN("C21", { "topology", topo_case, 40000, 300000, false, "at least two nodes with processors, or processors that are offline" }, { "pin_thread", pin_case, 20000, 200000, false, "every case" })
