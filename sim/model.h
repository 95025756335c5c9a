// The program under transformation, made concrete, and the simulated machine
// that executes the transformed program.
#pragma once
#include "sim.h"
#include <isl/aff.h>
#include <isl/constraint.h>
#include <isl/ctx.h>
#include <isl/flow.h>
#include <isl/map.h>
#include <isl/point.h>
#include <isl/set.h>
#include <isl/space.h>
#include <isl/union_map.h>
#include <isl/union_set.h>
#include <isl/val.h>

typedef std::vector<long> Vec;
struct ObservedLoop {
  std::string kind;
  unsigned depth;
  std::set<int> stmts;
};
struct Inst {
  int stmt;
  Vec it, time, seq; // iterators, new time vector, original time vector
};
struct MemAcc {
  bool write;
  int cell;
};
struct World {
  std::vector<Inst> inst;
  std::map<std::pair<int, Vec>, int> index;
  std::vector<std::vector<int>> preds; // dependence sources of each instance
  std::vector<std::vector<int>> reads, writes; // cells
  long npairs = 0;
  size_t levels = 0, ncells = 0;
};
struct Fixed { // parameter values
  std::map<std::string, long> v;
};
// Enumerates the points of a set with all parameters fixed.
bool points(isl_set *set, const Fixed &f, std::vector<Vec> &out, long limit);

struct Machine {
  const World &w;
  const std::vector<ObservedLoop> &par;
  Rng rng;
  std::string err, errcls;
  uint64_t hist = 0;
  long steps = 0, regions = 0, maxwidth = 0, stalls = 0;
  long overlaps = 0;
  // memory model (optional)
  bool memory = false;
  std::vector<uint64_t> mem;
  std::vector<uint64_t> val; // value computed by each instance
  Machine(const World &w, const std::vector<ObservedLoop> &p, Rng r)
      : w(w), par(p), rng(r) {}
  static uint64_t op(const World &w, int x); // identity of an operation
  bool run(); // false: err/errcls set
};
