// What the properties share.
#pragma once
#include "gen.h"
#include "run.h"
#include <algorithm>
#include <cstring>
#include <sstream>
void violate(Outcome &o, const std::string &cls, const std::string &detail);
std::vector<ObservedLoop> parallel_loops(const CallResult &r);
bool world(const Prog &p, const CallResult &r, World &w, Outcome &o);
bool execute(const Case &c, const Prog &p, const CallResult &r, World &w,
             Outcome &o);
bool legal_at(const Case &c, const Prog &p, const CallResult &r, Outcome &o);
bool legal(const Case &c, const Prog &p, const CallResult &r, Outcome &o);
bool once_at(const Case &c, const Prog &p, const CallResult &r, Outcome &o);
bool memory_at(const Case &c, const Prog &p, const CallResult &r, Outcome &o);
void add_program(Rng &r, Case &c, const GenCfg &cfg);
void add_tile_sizes(Rng &e, Case &c);
void add_sizes(Rng &e, Case &c);
void run_C01(const Case &c, const Prog &p, Outcome &o);
void run_C02(const Case &c, const Prog &p, Outcome &o);
void run_C03(const Case &c, const Prog &p, Outcome &o);
void run_C11(const Case &c, const Prog &p, Outcome &o);
void run_C04(const Case &c, Outcome &o);
void gen_C04(Rng &e, Case &c);
void run_C07(const Case &c, Outcome &o);
void run_C12(const Case &c, Outcome &o);
void gen_C07(Rng &e, Case &c);
void gen_C12(Rng &e, Case &c);
// For the parameter values of the case: first the main ones, then the
// alternatives ("alt N 3 M 4").
template <class F> bool each_size(const Case &c, const Prog &p, F f) {
  if (!f(p))
    return false;
  for (auto &s : c.all("alt")) {
    Prog q = p;
    std::istringstream is(s);
    std::string n;
    long v;
    while (is >> n >> v)
      q.fix.v[n] = v;
    stat("alt_sizes");
    if (!f(q))
      return false;
  }
  return true;
}
