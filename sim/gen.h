#pragma once
#include "sim.h"
struct GenCfg {
  int maxstmts = 4, maxdepth = 3, maxpar = 2;
  bool heavy = false; // allow the largest shapes
  bool accesses_only = false;
};
// Emits "domain", "sched", "read", "write", "param" lines of a random affine
// loop-nest program.
void gen_program(Rng &rng, Case &c, const GenCfg &cfg);
void gen_kernel(Rng &rng, Case &c);
void gen_uniform(Rng &rng, Case &c);
// Emits "opt" lines: a configuration of the scheduler as tool/main.cpp would
// set it up, drawn swarm-style.
enum OptProfile { OPT_ANY, OPT_NODFP, OPT_TILE, OPT_PAR, OPT_DFP, OPT_PLAIN };
void gen_options(Rng &rng, Case &c, OptProfile p);
