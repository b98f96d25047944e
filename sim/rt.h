// internals shared between runtime.cpp and simfs.cpp
#pragma once
#include "sim.h"
namespace sim {
extern __thread int t_fid;     // simulated thread id of this OS thread, -1 if none
extern __thread int t_rt;      // >0 while inside the simulator / harness
extern volatile bool g_running;
static inline bool act() { return t_fid >= 0 && t_rt == 0 && g_running; }
struct RtGuard { RtGuard() { ++t_rt; } ~RtGuard() { --t_rt; } };
void sync_point();             // one schedulable step (call when act())
void log_event(const char* f, ...) __attribute__((format(printf, 1, 2)));
void fs_run_reset();
void fs_init();
}
