#pragma once
#include "vrt.h"
namespace pbt {
struct Scenario {
    const char * name;
    void (*body)();
    int quick;          // generated cases in the quick tier
    int thorough;       // generated cases in the thorough tier
    bool fork_each;     // code under test keeps process-wide state: one process per case
    const char * rule;  // what makes a case non-trivial
};
int engine_main(int argc, char ** argv, const char * prop, const Scenario * s, int n);
}
#define PBT_MAIN(prop, ...) \
    static const pbt::Scenario scenarios_[] = { __VA_ARGS__ }; \
    int main(int argc, char ** argv) { return pbt::engine_main(argc, argv, prop, scenarios_, (int)(sizeof scenarios_ / sizeof scenarios_[0])); }
