#include "scen.h"
static sim::Scenario g_sc[64];
static int g_n;
Reg::Reg(const char* n, void (*b)(), unsigned o, uint64_t bu) { g_sc[g_n++] = {n, {b, o, bu}}; }
namespace sim { const Scenario* scenarios(int& n) { n = g_n; return g_sc; } }
