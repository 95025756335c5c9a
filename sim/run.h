#pragma once
#include "env.h"
#include "model.h"
#include "sim.h"
#include <functional>
extern "C" {
#include "pluto/pluto.h"
}
// What one call into the library returned and what was observed during it.
struct CallResult {
  bool returned_null = false;
  isl_union_map *sched = nullptr; // owned
  std::vector<ObservedLoop> loops;
  std::string sched_text; // canonical text
  uint64_t out_hash = 0;
  std::string out_text; // captured stdout (when kept)
  bool have_remap = false;
  std::vector<std::vector<std::vector<long>>> remap; // per stmt matrix
  std::vector<std::vector<int>> divs;
  std::string ploops;
};
struct Prog {
  isl_ctx *ctx = nullptr;
  std::vector<isl_set *> domains;
  isl_union_set *domain = nullptr;
  isl_union_map *deps = nullptr, *sched = nullptr, *reads = nullptr,
                *writes = nullptr;
  Fixed fix;
};
Prog load_prog(const Case &c, isl_ctx *ctx);
void free_prog(Prog &p);
isl_union_map *deps_from_accesses(const Prog &p);
PlutoContext *make_context(const Case &c);
void set_option(PlutoOptions *o, const std::string &name, long v);
void configure_env(const Case &c);
// Calls the library as the case says, with a fresh context or the given one.
CallResult call_library(const Case &c, const Prog &p,
                        PlutoContext *given = nullptr);
std::string fmt(const Vec &v);
std::string unesc(const std::string &s);
std::string build_world(const Prog &p, isl_union_map *sched, World &w,
                        std::string &detail);
bool build_deps(const Prog &p, isl_union_map *deps, World &w);
std::string loops_text(const CallResult &r);
// Runs a complete case; fills in the verdict.
void run_case(const Case &c, Outcome &o);
// Generates case number idx of property prop.
Case gen_case(const std::string &prop, uint64_t seed, uint64_t idx);
// Ends the run at once with this outcome.
extern std::function<void(Outcome &)> g_finish;
extern volatile int *g_phase;
