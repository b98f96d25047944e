// Scenarios for the matrix library (C23, C24).
#include "scen.h"
using sim::P;
void c23_d(); void c23_f(); void c23_i(); void c24_d(); void c24_f(); void c24_i();
static void s_c23() { switch (P("type", 0, 2)) { case 0: c23_d(); break; case 1: c23_f(); break; default: c23_i(); } }
static void s_c24() { switch (P("type", 0, 2)) { case 0: c24_d(); break; case 1: c24_f(); break; default: c24_i(); } }
static Reg r23("C23", s_c23, sim::OPT_MEM | sim::OPT_RACE, 100000000ull);
static Reg r24("C24", s_c24, sim::OPT_MEM, 100000000ull);
