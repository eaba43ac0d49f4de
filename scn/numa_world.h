#pragma once
#include "sysfs.h"
#include <boost/fiber/numa/all.hpp>
// T threads on processors of up to three NUMA nodes, each with the NUMA-aware work stealing
struct NumaWorld {
    std::vector<bf::numa::node> topo; std::vector<std::pair<uint32_t, uint32_t>> at;
    void gen(int T) {
        int K = range(PROG, 1, 3); topo.clear(); at.clear(); g_affinity.clear();
        std::map<uint32_t, bf::numa::node> m; uint32_t cpu = 0; for (int t = 0; t < T; ++t) { uint32_t node = draw(PROG, K) * (1 + draw(PROG, 2)); m[node].id = node; m[node].logical_cpus.insert(cpu); at.push_back({ cpu, node }); cpu += 1 + (draw(PROG, 4) == 3); }
        for (auto & x : m) topo.push_back(x.second); if (vrt::tracing()) for (auto & x : at) note("processor %u of node %u", x.first, x.second);
    }
    void install(int t, bool susp) {
        bf::use_scheduling_algorithm<bf::numa::algo::work_stealing>(at[t].first, at[t].second, topo, susp); vrt::NoPreempt np; bool ok = false;
        for (auto & a : g_affinity) if (a.self && a.cpus.size() == 1 && a.cpus[0] == (int)at[t].first) ok = true;
        CHECK(ok, "the scheduler did not pin its thread to processor %u", at[t].first);
    }
};
