#include "signal_prog.h"
static void pairs() { run_signals(2, 2, 4); } static void many() { run_signals(4, 6, 12); }
#define RULE "at least two signals were received by a fiber that was waiting already, some between threads"
PBT_MAIN("C18", { "pairs", pairs, 300000, 3000000, false, RULE }, { "many", many, 150000, 1500000, false, RULE })
