// Simulated threads: real stacks, but one runs at a time, and a seeded
// scheduler decides at which access or call of the library to switch.
#pragma once
#include "sim.h"
#include <functional>
struct SchedCfg {
  uint64_t seed = 1;
  int policy = 0; // 0 every ~2^mean events, 1 at entries of some functions,
                  // 2 around accesses to static data, 3 one stall, then the rest
  int mean = 10;
};
struct SchedResult {
  long switches = 0, events = 0, statics = 0, heap = 0, syncs = 0;
  std::string race; // first race
  bool deadlock = false;
  uint64_t hash = 0;
};
SchedResult run_threads(const std::vector<std::function<void()>> &fs,
                        const SchedCfg &cfg);
// A simulated thread's own data.
int thread_self(); // -1: none
void sched_block(void *p, size_t n); // a block was allocated
