// The simulated environment of the library: files, clock, heap, solver.
#pragma once
#include "sim.h"
struct VFile {
  std::string content;
  int open_errno = 0;     // fopen fails with this errno
  long eio_at = -1;       // read(2) at or beyond this offset fails with EIO
  int chunk = 0;          // short reads of at most this many bytes
  long vanish_after = -1; // file disappears after this many opens
  int opens = 0, closes = 0;
};
struct Env {
  bool active = false; // seams are live only around library calls
  // files
  std::map<std::string, VFile> files;
  std::vector<std::string> unknown_opens;
  long open_streams = 0;
  long fruitless = 0; // reads in a row that gave nothing
  bool stuck = false;
  void (*on_stuck)() = nullptr;
  // clock
  int clock_mode = 0; // 0 steady, 1 frozen, 2 jumps, 3 backwards, 4 fails
  uint64_t clock_us = 1000000;
  Rng clock_rng{1};
  long clock_reads = 0, clock_faults = 0;
  // heap
  int heap_mode = 0; // 0 plain, 1 constant junk, 2 random junk
  unsigned char heap_byte = 0;
  bool heap_pad = false;
  Rng heap_rng{2};
  long allocs = 0;
  bool ledger = false; // remember what the library allocates
  long fail_at = -1, fail_len = 1, fail_fired = 0;
  // solver
  int solver_mode = 0; // 0 exact, 1 alternate solution, 2 spurious failure
  int solver_pct = 0;
  long solver_at = -1;
  Rng solver_rng{3};
  long solver_calls = 0, solver_fired = 0;
  bool glpk_alt = false, glpk_noise = false;
  int glpk_fail = 0; // percentage of the calls that give up
  long glpk_calls = 0, glpk_fired = 0, glpk_failed = 0;
};
extern Env g_env;

// The ledger: blocks the library allocated and that have not been freed.
struct Block {
  void *p;
  size_t n;
  long serial;
  void *ra[6]; // call chain inside the library, innermost first
};
std::vector<Block> ledger_live();
void ledger_reset();

// Suspends the seams while the simulator itself runs.
struct SeamsOff {
  bool was;
  SeamsOff() : was(g_env.active) { g_env.active = false; }
  ~SeamsOff() { g_env.active = was; }
};
