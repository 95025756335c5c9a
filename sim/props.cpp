// The properties: what each simulated run does and how its history is judged.
#include "gen.h"
#include "props.h"
#include <algorithm>
#include <cstring>
#include <sstream>
#include <unistd.h>
using std::string;
using std::to_string;
using std::vector;

void violate(Outcome &o, const string &cls, const string &detail) {
  if (o.verdict == "violation")
    return;
  o.verdict = "violation";
  o.cls = cls;
  o.detail = detail;
}
string loops_text(const CallResult &r) {
  string ls;
  for (auto &l : r.loops) {
    ls += l.kind + " t" + to_string(l.depth + 1) + " {";
    for (int s : l.stmts)
      ls += " S_" + to_string(s);
    ls += " }\n";
  }
  return ls;
}
vector<ObservedLoop> parallel_loops(const CallResult &r) {
  vector<ObservedLoop> par;
  for (auto &l : r.loops)
    if ((l.kind == "parallel" && !getenv("SIM_DOM")) || l.kind == "dom" ||
        l.kind == "vector")
      par.push_back(l);
  return par;
}
// Concrete instances and their times.  False: verdict set.
bool world(const Prog &p, const CallResult &r, World &w, Outcome &o) {
  if (r.returned_null) {
    o.verdict = "null";
    return false;
  }
  string det, cls = build_world(p, r.sched, w, det);
  if (cls == "skip") {
    o.verdict = "skip";
    return false;
  }
  if (!cls.empty()) {
    violate(o, cls, det + "\n" + r.sched_text);
    return false;
  }
  stat("instances", (long)w.inst.size());
  return true;
}
// Executes the world on the simulated machine several times.
bool execute(const Case &c, const Prog &p, const CallResult &r, World &w,
                    Outcome &o) {
  vector<ObservedLoop> par = parallel_loops(r);
  stat("parloops", (long)par.size());
  int reps = (int)c.num("reps", 4);
  Rng mr((uint64_t)c.num("mseed", 5));
  for (int k = 0; k < reps; k++) {
    Machine m(w, par, mr.fork((uint64_t)k + 1));
    bool ok = m.run();
    stat("machine_runs");
    stat("machine_steps", m.steps);
    stat("regions", m.regions);
    stat("overlaps", m.overlaps);
    stat("stalls", m.stalls);
    o.hash = hmix(o.hash, m.hist);
    if (!ok) {
      violate(o, m.errcls,
              m.err + "\nschedule:\n" + r.sched_text + loops_text(r));
      return false;
    }
  }
  return true;
}
// Legality of one call's result under the given dependences.
bool legal_at(const Case &c, const Prog &p, const CallResult &r,
                     Outcome &o) {
  World w;
  if (!world(p, r, w, o))
    return false;
  if (!build_deps(p, p.deps, w)) {
    o.verdict = "skip";
    return false;
  }
  stat("deppairs", w.npairs);
  return execute(c, p, r, w, o);
}
bool legal(const Case &c, const Prog &p, const CallResult &r,
                  Outcome &o) {
  return each_size(c, p, [&](const Prog &q) { return legal_at(c, q, r, o); });
}

// ---------------------------------------------------------------- C01
void run_C01(const Case &c, const Prog &p, Outcome &o) {
  configure_env(c);
  CallResult r = call_library(c, p);
  o.hash = hmix(hstr(r.sched_text), hstr(loops_text(r)));
  if (legal(c, p, r, o))
    o.verdict = "ok";
}

// ---------------------------------------------------------------- C02
// Every instance executes exactly once, at a time of its own, and the
// remapping leads back from the time to the instance.
static void check_remap(const Prog &p, const World &w, const CallResult &r,
                        Outcome &o) {
  if (r.remap.size() != p.domains.size()) {
    violate(o, "remap-shape", "remapping has " + to_string(r.remap.size()) +
                                  " statements");
    return;
  }
  vector<long> par;
  int np = (int)isl_set_dim(p.domains[0], isl_dim_param);
  for (int i = 0; i < np; i++)
    par.push_back(
        p.fix.v.at(isl_set_get_dim_name(p.domains[0], isl_dim_param, i)));
  for (auto &in : w.inst) {
    auto &m = r.remap[(size_t)in.stmt];
    auto &dv = r.divs[(size_t)in.stmt];
    size_t dim = in.it.size();
    if (m.size() < dim + (size_t)np + 1) {
      violate(o, "remap-shape", "too few rows for S_" + to_string(in.stmt));
      return;
    }
    size_t sn = m.size() - (size_t)np - 1 - dim; // tile iterators come first
    // the iterators, the parameters and 1
    for (size_t k = 0; k < dim + (size_t)np + 1; k++) {
      long want = k < dim ? in.it[k] : k < dim + (size_t)np ? par[k - dim] : 1;
      auto &row = m[sn + k];
      if (row.size() < (size_t)np + 1 ||
          row.size() - (size_t)np - 1 > in.time.size()) {
        violate(o, "remap-shape", "row of S_" + to_string(in.stmt));
        return;
      }
      size_t nt = row.size() - (size_t)np - 1;
      long v = 0;
      for (size_t j = 0; j < nt; j++)
        v += row[j] * in.time[j];
      for (int j = 0; j < np; j++)
        v += row[nt + (size_t)j] * par[(size_t)j];
      v += row[nt + (size_t)np];
      long d = dv[sn + k];
      stat("remapped");
      if (d == 0 || v % d != 0 || v / d != want) {
        violate(o, "remap",
                "S_" + to_string(in.stmt) + fmt(in.it) + " at " + fmt(in.time) +
                    ": component " + to_string(k) + " remaps to " + to_string(v) +
                    "/" + to_string(d) + "\n" + r.sched_text);
        return;
      }
    }
  }
}
bool once_at(const Case &c, const Prog &p, const CallResult &r,
                    Outcome &o) {
  World w;
  if (!world(p, r, w, o))
    return false;
  w.preds.assign(w.inst.size(), {});
  std::map<std::pair<int, Vec>, int> at;
  for (size_t i = 0; i < w.inst.size(); i++) {
    auto k = std::make_pair(w.inst[i].stmt, w.inst[i].time);
    auto f = at.find(k);
    if (f != at.end()) {
      violate(o, "time-collision",
              "S_" + to_string(w.inst[i].stmt) + fmt(w.inst[i].it) + " and " +
                  fmt(w.inst[(size_t)f->second].it) + " are both at " +
                  fmt(w.inst[i].time) + "\n" + r.sched_text);
      return false;
    }
    at[k] = (int)i;
  }
  if (c.get("api") == "str") {
    if (!r.have_remap) {
      violate(o, "remap-missing", "a schedule but no remapping");
      return false;
    }
    check_remap(p, w, r, o);
    if (o.verdict == "violation")
      return false;
  }
  return execute(c, p, r, w, o);
}
void run_C02(const Case &c, const Prog &p, Outcome &o) {
  configure_env(c);
  CallResult r = call_library(c, p);
  o.hash = hmix(hstr(r.sched_text), hstr(loops_text(r)));
  if (!each_size(c, p, [&](const Prog &q) { return once_at(c, q, r, o); }))
    return;
  if (c.get("api") == "str" && c.num("remap2")) {
    // The call that returns nothing but the remapping.
    Case d;
    for (auto &x : c.kv)
      d.kv.push_back(x.first == "api" ? std::make_pair(string("api"), string("remap")) : x);
    configure_env(d);
    CallResult s = call_library(d, p);
    stat("remap_alone");
    if (s.have_remap != r.have_remap || s.remap != r.remap || s.divs != r.divs) {
      violate(o, "remap-differs", "pluto_get_remapping_str returns another remapping than pluto_schedule_str\n" + r.sched_text);
      return;
    }
  }
  o.verdict = "ok";
}

// ---------------------------------------------------------------- C03
// Memory effects: the transformed program computes what the original does.
static bool build_accesses(const Prog &p, World &w) {
  std::map<std::pair<string, Vec>, int> cells;
  auto load = [&](isl_union_map *a, vector<vector<int>> &out) {
    out.assign(w.inst.size(), {});
    struct U {
      const Prog *p;
      World *w;
      std::map<std::pair<string, Vec>, int> *cells;
      vector<vector<int>> *out;
      bool ok;
    } u{&p, &w, &cells, &out, true};
    isl_union_map_foreach_map(
        a,
        [](isl_map *m, void *user) -> isl_stat {
          U *u = (U *)user;
          int k = atoi(isl_map_get_tuple_name(m, isl_dim_in) + 2);
          string arr = isl_map_get_tuple_name(m, isl_dim_out);
          size_t ni = (size_t)isl_map_dim(m, isl_dim_in);
          vector<Vec> pts;
          isl_set *ws = isl_set_flatten(isl_map_wrap(m));
          if (!points(ws, u->p->fix, pts, 60000))
            u->ok = false;
          isl_set_free(ws);
          for (auto &x : pts) {
            auto f = u->w->index.find({k, Vec(x.begin(), x.begin() + (long)ni)});
            if (f == u->w->index.end())
              continue;
            auto key = std::make_pair(arr, Vec(x.begin() + (long)ni, x.end()));
            auto g = u->cells->find(key);
            if (g == u->cells->end())
              g = u->cells->insert({key, (int)u->cells->size()}).first;
            (*u->out)[(size_t)f->second].push_back(g->second);
          }
          return isl_stat_ok;
        },
        &u);
    return u.ok;
  };
  if (!load(p.reads, w.reads) || !load(p.writes, w.writes))
    return false;
  w.ncells = cells.size();
  return true;
}
static bool original_times(const Prog &p, World &w) {
  struct U {
    const Prog *p;
    World *w;
    bool ok;
  } u{&p, &w, true};
  isl_union_map_foreach_map(
      p.sched,
      [](isl_map *m, void *user) -> isl_stat {
        U *u = (U *)user;
        int k = atoi(isl_map_get_tuple_name(m, isl_dim_in) + 2);
        size_t ni = (size_t)isl_map_dim(m, isl_dim_in);
        vector<Vec> pts;
        isl_set *ws = isl_set_flatten(isl_map_wrap(m));
        if (!points(ws, u->p->fix, pts, 60000))
          u->ok = false;
        isl_set_free(ws);
        for (auto &x : pts) {
          auto f = u->w->index.find({k, Vec(x.begin(), x.begin() + (long)ni)});
          if (f != u->w->index.end())
            u->w->inst[(size_t)f->second].seq = Vec(x.begin() + (long)ni, x.end());
        }
        return isl_stat_ok;
      },
      &u);
  return u.ok;
}
bool memory_at(const Case &c, const Prog &p, const CallResult &r,
                      Outcome &o) {
  World w;
  if (!world(p, r, w, o))
    return false;
  if (!build_accesses(p, w) || !original_times(p, w)) {
    o.verdict = "skip";
    return false;
  }
  w.preds.assign(w.inst.size(), {});
  // Reference: the original program, sequentially.
  vector<int> ord(w.inst.size());
  for (size_t i = 0; i < ord.size(); i++)
    ord[i] = (int)i;
  std::sort(ord.begin(), ord.end(), [&](int a, int b) {
    return w.inst[(size_t)a].seq < w.inst[(size_t)b].seq;
  });
  vector<uint64_t> mem0(w.ncells), val(w.inst.size());
  for (size_t i = 0; i < w.ncells; i++)
    mem0[i] = hmix(77, i);
  vector<uint64_t> mem = mem0;
  long flows = 0;
  for (int x : ord) {
    uint64_t h = Machine::op(w, x);
    for (int cell : w.reads[(size_t)x])
      h = hmix(h, mem[(size_t)cell]), flows++;
    val[(size_t)x] = h;
    for (int cell : w.writes[(size_t)x])
      mem[(size_t)cell] = hmix(h, (uint64_t)cell);
  }
  stat("reads", flows);
  stat("deppairs", flows);
  vector<ObservedLoop> par = parallel_loops(r);
  stat("parloops", (long)par.size());
  int reps = (int)c.num("reps", 4);
  Rng mr((uint64_t)c.num("mseed", 5));
  for (int k = 0; k < reps; k++) {
    Machine m(w, par, mr.fork((uint64_t)k + 1));
    m.memory = true;
    m.mem = mem0;
    bool ok = m.run();
    stat("machine_runs");
    stat("machine_steps", m.steps);
    stat("regions", m.regions);
    stat("overlaps", m.overlaps);
    stat("stalls", m.stalls);
    o.hash = hmix(o.hash, m.hist);
    string tail = "\nschedule:\n" + r.sched_text + loops_text(r);
    if (!ok) {
      violate(o, m.errcls, m.err + tail);
      return false;
    }
    for (size_t i = 0; i < val.size(); i++)
      if (m.val[i] != val[i]) {
        violate(o, "memory",
                "S_" + to_string(w.inst[i].stmt) + fmt(w.inst[i].it) + " at " +
                    fmt(w.inst[i].time) +
                    " read values it does not read in the original program" +
                    tail);
        return false;
      }
    if (m.mem != mem) {
      violate(o, "memory", "final memory differs" + tail);
      return false;
    }
  }
  return true;
}
void run_C03(const Case &c, const Prog &p, Outcome &o) {
  configure_env(c);
  CallResult r = call_library(c, p);
  o.hash = hmix(hstr(r.sched_text), hstr(loops_text(r)));
  if (each_size(c, p, [&](const Prog &q) { return memory_at(c, q, r, o); }))
    o.verdict = "ok";
}

// ---------------------------------------------------------------- C11
// Unroll-and-jam: the iterations of a loop announced as unroll-jammable are
// taken in blocks; within a block the loops inside go first and the loop's own
// iteration last (before the ordering of the statements in the body). A block
// consists of the loop's statements only: where other statements run in
// between, generated code has separate loops or leaves the loop alone.
static bool jam(World &w, const vector<ObservedLoop> &loops, long uf, Rng g) {
  // For every statement the announced loops around it, outermost first.
  vector<unsigned> depths;
  vector<Vec> times;
  std::map<int, vector<const ObservedLoop *>> of;
  for (auto &l : loops)
    if (l.kind == "unrolljam")
      for (int s : l.stmts) {
        of[s].push_back(&l);
        if (std::find(depths.begin(), depths.end(), l.depth) == depths.end())
          depths.push_back(l.depth);
      }
  std::sort(depths.begin(), depths.end());
  for (auto &x : of) {
    std::sort(x.second.begin(), x.second.end(),
              [](const ObservedLoop *a, const ObservedLoop *b) { return a->depth < b->depth; });
    x.second.erase(std::unique(x.second.begin(), x.second.end(),
                               [](const ObservedLoop *a, const ObservedLoop *b) { return a->depth == b->depth; }),
                   x.second.end());
  }
  if (depths.empty())
    return false;
  // A level is scalar for a statement if all its instances agree there.
  std::map<int, vector<std::pair<long, bool>>> lev;
  for (auto &in : w.inst) {
    auto &v = lev[in.stmt];
    if (v.empty())
      for (long t : in.time)
        v.push_back({t, true});
    else
      for (size_t i = 0; i < v.size(); i++)
        if (v[i].first != in.time[i])
          v[i].second = false;
  }
  std::map<const ObservedLoop *, long> offset;
  for (auto &l : loops)
    offset[&l] = g.range(0, (int)uf - 1);
  // Where other statements run: loop, prefix (without the announced loops
  // around it) -> iterations.
  auto prefix = [&](const Inst &in, const ObservedLoop *l) {
    Vec v(in.time.begin(), in.time.begin() + l->depth);
    for (auto &k : loops)
      if (k.kind == "unrolljam" && k.depth < l->depth)
        v[(size_t)k.depth] = 0;
    return v;
  };
  std::map<const ObservedLoop *, std::map<Vec, std::set<long>>> other;
  for (auto &l : loops)
    if (l.kind == "unrolljam")
      for (auto &in : w.inst)
        if (std::find(l.stmts.begin(), l.stmts.end(), in.stmt) == l.stmts.end())
          other[&l][prefix(in, &l)].insert(in.time[(size_t)l.depth]);
  // The loops inside end at the last level that is a loop of any statement of
  // the innermost announced loop.
  auto last_of = [&](int stmt) {
    size_t last = 0;
    for (int s : of[stmt].back()->stmts) {
      auto &v = lev[s];
      for (size_t i = 0; i < v.size(); i++)
        if (!v[i].second)
          last = std::max(last, i + 1);
    }
    for (auto *l : of[stmt])
      last = std::max<size_t>(last, l->depth + 1);
    return last;
  };
  // Iterations shared with other statements are not jammed.
  std::map<const ObservedLoop *, std::map<Vec, std::map<long, std::set<size_t>>>> shared;
  for (auto &in : w.inst) {
    auto f = of.find(in.stmt);
    if (f != of.end())
      for (auto *l : f->second) {
        long x = in.time[l->depth];
        if (other[l][prefix(in, l)].count(x))
          shared[l][prefix(in, l)][x].insert(last_of(in.stmt));
      }
  }
  bool any = false;
  for (auto &in : w.inst) {
    auto f = of.find(in.stmt);
    Vec t = in.time;
    std::set<size_t> at;
    Vec own(depths.size(), 0);
    for (auto &q : shared)
      if (!q.first->stmts.count(in.stmt)) {
        auto &m = q.second[prefix(in, q.first)];
        auto it = m.find(in.time[q.first->depth]);
        if (it != m.end())
          at.insert(it->second.begin(), it->second.end());
      }
    if (f != of.end()) {
      at.insert(last_of(in.stmt));
      for (auto *l : f->second) {
        long x = in.time[l->depth];
        long b = x + offset[l];
        long start = (b >= 0 ? b / uf : -((-b + uf - 1) / uf)) * uf - offset[l];
        auto &os = other[l][prefix(in, l)];
        auto it = os.upper_bound(x); // the last other iteration up to x
        if (it != os.begin() && *--it >= start)
          start = *it < x ? *it + 1 : x;
        t[l->depth] = start;
        if (!os.count(x))
          own[(size_t)(std::find(depths.begin(), depths.end(), l->depth) - depths.begin())] = x;
      }
      any = true;
    }
    if (at.size() > 1)
      return false;
    t.insert(at.empty() ? t.end() : t.begin() + (long)*at.begin(), own.begin(), own.end());
    times.push_back(t);
  }
  for (size_t i = 0; i < times.size(); i++)
    w.inst[i].time = times[i];
  w.levels += depths.size();
  return any;
}
bool jammed_at(const Case &c, const Prog &p, const CallResult &r, Outcome &o) {
  World w;
  if (!world(p, r, w, o))
    return false;
  if (!build_deps(p, p.deps, w)) {
    o.verdict = "skip";
    return false;
  }
  Rng mr((uint64_t)c.num("mseed", 5));
  for (int k = 0; k < (int)c.num("reps", 3); k++) {
    World v = w;
    long uf = k == 0 ? std::max(2l, c.num("ufactor", 4)) : mr.range(2, 8);
    if (!jam(v, r.loops, uf, mr.fork((uint64_t)k + 91)))
      break;
    stat("jammed");
    stat("deppairs", w.npairs);
    vector<ObservedLoop> none;
    Machine m(v, none, mr.fork((uint64_t)k + 1));
    bool ok = m.run();
    stat("machine_runs");
    stat("machine_steps", m.steps);
    o.hash = hmix(o.hash, m.hist);
    if (!ok) {
      violate(o, m.errcls,
              "jammed by " + to_string(uf) + ": " + m.err + "\nschedule:\n" + r.sched_text +
                  loops_text(r));
      return false;
    }
  }
  return true;
}
void run_C11(const Case &c, const Prog &p, Outcome &o) {
  configure_env(c);
  CallResult r = call_library(c, p);
  o.hash = hmix(hstr(r.sched_text), hstr(loops_text(r)));
  if (each_size(c, p, [&](const Prog &q) { return jammed_at(c, q, r, o); }))
    o.verdict = "ok";
}

// ---------------------------------------------------------------- generation
static bool has_empty_domain(const Case &c) {
  isl_ctx *ctx = isl_ctx_alloc();
  bool e = false;
  for (auto &s : c.all("domain")) {
    isl_set *d = isl_set_read_from_str(ctx, s.c_str());
    e = e || isl_set_is_empty(d) != isl_bool_false;
    isl_set_free(d);
  }
  isl_ctx_free(ctx);
  return e;
}
// Accesses that are not affine functions of the instance: some become ranges of
// elements or are divided, others are made by a part of the instances only.
static void rewrite_accesses(Rng r, Case &c) {
  for (auto &x : c.kv) {
    if ((x.first != "read" && x.first != "write") || !r.chance(x.first == "read" ? 35 : 15))
      continue;
    string &s = x.second;
    size_t arrow = s.rfind("-> A"), end = s.rfind(']'), open = s.find('[', arrow);
    if (arrow == string::npos || end < open || s.find(':') != string::npos)
      continue;
    size_t cut = s.find(',', open);
    string e = s.substr(open + 1, std::min(cut, end) - open - 1);
    size_t io = s.find("S_"), ib = s.find('[', io), ie = s.find(']', ib);
    string it = s.substr(ib + 1, s.find_first_of(",]", ib) - ib - 1);
    if (e.empty())
      continue;
    if (r.chance(25)) {
      s.replace(open + 1, e.size(), "floor((" + e + ")/" + to_string(r.range(2, 3)) + ")");
    } else if (r.chance(60) || ie == ib + 1) {
      s.replace(open + 1, e.size(), "r0");
      end = s.rfind(']');
      s.insert(end + 1, " : " + e + " <= r0 <= " + e + " + " + to_string(r.range(1, 3)));
    } else {
      const char *cmp[] = {" >= ", " <= ", " > "};
      s.insert(end + 1, " : " + it + cmp[r.below(3)] + to_string(r.range(0, 4)));
    }
  }
}
// Original orders other than that of loops counting up by one, outer to inner:
// loops are reversed, shifted, skewed and interchanged, the same way for all
// statements or each in its own.
static void rewrite_schedules(Rng r, Case &c) {
  bool same = r.chance(50);
  uint64_t tag = 1;
  for (auto &x : c.kv) {
    if (x.first != "sched")
      continue;
    Rng q = r.fork(same ? 0 : tag++);
    string &s = x.second;
    size_t b = s.rfind("-> [") + 4, e = s.rfind(']');
    vector<string> d;
    std::istringstream in(s.substr(b, e - b));
    for (string w; std::getline(in, w, ',');)
      d.push_back(w.substr(w.find_first_not_of(' ')));
    auto loop = [&](size_t k) { return k < d.size() && std::any_of(d[k].begin(), d[k].end(), ::islower); };
    for (size_t k = 1; k < d.size(); k += 2) {
      if (!loop(k))
        continue;
      if (q.chance(12))
        d[k] = "-(" + d[k] + ")";
      if (q.chance(15))
        d[k] += " + " + to_string(q.range(1, 3));
      if (k > 1 && loop(k - 2) && q.chance(20))
        d[k] += (q.chance(50) ? " + " : " - ") + ("(" + d[k - 2] + ")");
      if (k > 1 && loop(k - 2) && q.chance(25))
        std::swap(d[k], d[k - 2]);
    }
    string n;
    for (auto &w : d)
      n += (n.empty() ? "" : ", ") + w;
    s.replace(b, e - b, n);
  }
}
static void add_plain_program(Rng &r, Case &c, const GenCfg &cfg);
void add_program(Rng &r, Case &c, const GenCfg &cfg) {
  add_plain_program(r, c, cfg);
  if (r.fork(83).chance(5) || getenv("RANGES"))
    rewrite_accesses(r.fork(84), c);
  if (r.fork(85).chance(7) || getenv("RANGES"))
    rewrite_schedules(r.fork(86), c);
}
static void add_plain_program(Rng &r, Case &c, const GenCfg &cfg) {
  if (r.fork(77).chance(15)) {
    Rng g = r.fork(78);
    gen_kernel(g, c);
    return;
  }
  if (r.fork(79).chance(12)) {
    Rng g = r.fork(80);
    gen_uniform(g, c);
    return;
  }
  // Every statement must have instances for some parameter values: redraw
  // the program otherwise.
  for (uint64_t att = 0;; att++) {
    Case d;
    Rng g = r.fork(1 + (att << 8));
    gen_program(g, d, cfg);
    if (has_empty_domain(d) && att < 50)
      continue;
    for (auto &x : d.kv)
      c.kv.push_back(x);
    break;
  }
}
void add_tile_sizes(Rng &e, Case &c) {
  if (e.chance(85)) {
    string s;
    int hi = e.chance(80) ? 4 : 9;
    for (int i = 0; i < 8; i++)
      s += to_string(e.range(1, hi)) + "\\n";
    c.add("file", "tile.sizes " + s);
  }
}
void add_sizes(Rng &e, Case &c) {
  int n = (int)e.below(3);
  auto ps = c.all("param");
  int depth = 0;
  for (auto &d : c.all("domain"))
    depth = std::max(depth, (int)std::count(d.begin(), d.end(), ',') + 1);
  for (int k = 0; k < n && !ps.empty(); k++) {
    string s;
    for (auto &p : ps)
      s += (s.empty() ? "" : " ") + p.substr(0, p.find(' ')) + " " +
           to_string(e.range(1, depth > 3 ? 5 : 8));
    c.add("alt", s);
  }
}
