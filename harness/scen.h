#pragma once
#include "../sim/sim.h"
struct Reg { Reg(const char* name, void (*body)(), unsigned opts, uint64_t budget); };
