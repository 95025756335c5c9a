// Simulated shared-memory machine.  It executes the transformed program the
// way an OpenMP runtime would: loops that Pluto reports parallel become
// fork-join regions whose iterations are distributed over workers by a seeded
// policy, and a seeded scheduler decides every interleaving and stall.
#include "model.h"
#include <algorithm>
#include <functional>
using std::vector;

bool points(isl_set *set, const Fixed &f, vector<Vec> &out, long limit) {
  set = isl_set_copy(set);
  int np = (int)isl_set_dim(set, isl_dim_param);
  for (int i = 0; i < np; i++) {
    const char *n = isl_set_get_dim_name(set, isl_dim_param, i);
    auto it = f.v.find(n ? n : "");
    set = isl_set_fix_si(set, isl_dim_param, i,
                         (int)(it == f.v.end() ? 0 : it->second));
  }
  set = isl_set_project_out(set, isl_dim_param, 0, np);
  struct U {
    vector<Vec> *o;
    long lim;
    int n;
  } u{&out, limit, (int)isl_set_dim(set, isl_dim_set)};
  isl_stat st = isl_set_foreach_point(
      set,
      [](isl_point *p, void *user) -> isl_stat {
        U *u = (U *)user;
        Vec v(u->n);
        for (int i = 0; i < u->n; i++) {
          isl_val *x = isl_point_get_coordinate_val(p, isl_dim_set, i);
          v[i] = isl_val_get_num_si(x);
          isl_val_free(x);
        }
        isl_point_free(p);
        u->o->push_back(v);
        return (long)u->o->size() > u->lim ? isl_stat_error : isl_stat_ok;
      },
      &u);
  isl_set_free(set);
  return st == isl_stat_ok;
}

namespace {
enum { SEQ, PAR, LEAF };
struct Node {
  int kind;
  int inst = -1;
  vector<int> ch;
  int parent = -1;
  size_t pos = 0;   // SEQ: next child
  size_t left = 0;  // PAR: unfinished children
};
} // namespace

uint64_t Machine::op(const World &w, int x) {
  uint64_t h = 0x1234 + (uint64_t)w.inst[(size_t)x].stmt;
  for (long q : w.inst[(size_t)x].it)
    h = hmix(h, (uint64_t)q);
  return h;
}
bool Machine::run() {
  vector<Node> nodes;
  auto mk = [&](int k) {
    nodes.push_back(Node());
    nodes.back().kind = k;
    return (int)nodes.size() - 1;
  };
  // Build the fork-join tree of one execution.
  std::function<int(vector<int> &, size_t)> build =
      [&](vector<int> &v, size_t lev) -> int {
    if (v.size() == 1) {
      int n = mk(LEAF);
      nodes[n].inst = v[0];
      return n;
    }
    if (lev == w.levels) {
      // Same time vector: the order is unspecified.
      int n = mk(PAR);
      vector<int> ch;
      for (int x : v) {
        int l = mk(LEAF);
        nodes[l].inst = x;
        ch.push_back(l);
      }
      nodes[n].ch = ch;
      return n;
    }
    std::map<long, vector<int>> grp;
    for (int x : v)
      grp[w.inst[x].time[lev]].push_back(x);
    if (grp.size() == 1)
      return build(v, lev + 1);
    vector<int> items;
    // Maximal runs of consecutive iterations whose statements all belong to
    // one parallel loop at this depth form one fork-join region.
    vector<std::pair<const ObservedLoop *, vector<int>>> runs;
    for (auto &g : grp) {
      const ObservedLoop *pl = nullptr;
      for (auto &o : par) {
        if (o.depth != lev)
          continue;
        bool all = true;
        for (int x : g.second)
          if (!o.stmts.count(w.inst[x].stmt)) {
            all = false;
            break;
          }
        if (all) {
          pl = &o;
          break;
        }
      }
      int n = build(g.second, lev + 1);
      if (pl && !runs.empty() && runs.back().first == pl)
        runs.back().second.push_back(n);
      else
        runs.push_back({pl, {n}});
    }
    for (auto &r : runs) {
      if (r.first && r.second.size() > 1) {
        regions++;
        // Distribute iterations: static blocks, cyclic, dynamic or fully
        // concurrent.
        vector<vector<int>> chunks;
        size_t nit = r.second.size();
        switch (rng.below(4)) {
        case 0: { // static blocks
          size_t W = 2 + rng.below(4), b = (nit + W - 1) / W;
          for (size_t i = 0; i < nit; i += b)
            chunks.push_back(vector<int>(
                r.second.begin() + i,
                r.second.begin() + std::min(nit, i + b)));
          break;
        }
        case 1: { // cyclic
          size_t W = std::min<size_t>(nit, 2 + rng.below(4));
          chunks.resize(W);
          for (size_t i = 0; i < nit; i++)
            chunks[i % W].push_back(r.second[i]);
          break;
        }
        default:
          for (int x : r.second)
            chunks.push_back({x});
        }
        maxwidth = std::max(maxwidth, (long)chunks.size());
        int p = mk(PAR);
        vector<int> ch;
        for (auto &c : chunks) {
          if (c.size() == 1)
            ch.push_back(c[0]);
          else {
            int s = mk(SEQ);
            nodes[s].ch = c;
            ch.push_back(s);
          }
        }
        nodes[p].ch = ch;
        items.push_back(p);
      } else
        for (int x : r.second)
          items.push_back(x);
    }
    if (items.size() == 1)
      return items[0];
    int s = mk(SEQ);
    nodes[s].ch = items;
    return s;
  };
  vector<int> allv(w.inst.size());
  for (size_t i = 0; i < allv.size(); i++)
    allv[i] = (int)i;
  if (allv.empty())
    return true;
  int root = build(allv, 0);
  for (size_t i = 0; i < nodes.size(); i++)
    for (int c : nodes[i].ch)
      nodes[c].parent = (int)i;

  // Execute.  Each leaf takes two steps (start: reads; finish: writes), so
  // concurrent leaves overlap.
  vector<int> ready, running;
  vector<char> started(w.inst.size(), 0), done(w.inst.size(), 0);
  if (memory)
    val.assign(w.inst.size(), 0);
  std::function<void(int)> spawn = [&](int n) {
    Node &nd = nodes[n];
    if (nd.kind == LEAF)
      ready.push_back(n);
    else if (nd.kind == PAR) {
      nd.left = nd.ch.size();
      for (int c : nodes[n].ch)
        spawn(c);
    } else
      spawn(nd.ch[0]);
  };
  std::function<void(int)> finish = [&](int n) {
    int p = nodes[n].parent;
    if (p < 0)
      return;
    Node &pn = nodes[p];
    if (pn.kind == SEQ) {
      if (++pn.pos < pn.ch.size())
        spawn(pn.ch[pn.pos]);
      else
        finish(p);
    } else if (--pn.left == 0)
      finish(p);
  };
  // Scheduling policy of this execution.
  int policy = (int)rng.below(5);
  // 0 random, 1 last-ready-first (reverse), 2 random with stalls,
  // 3 burst, 4 first-ready-first with rare preemption
  size_t maxrun = policy == 1 ? 1 : 1 + rng.below(6);
  spawn(root);
  long ndone = 0;
  int stalled = -1;
  long stall_until = 0;
  while (!ready.empty() || !running.empty()) {
    steps++;
    bool start;
    if (ready.empty() || running.size() >= maxrun)
      start = false;
    else if (running.empty())
      start = true;
    else
      start = rng.below(2);
    if (start) {
      size_t k;
      switch (policy) {
      case 1:
        k = ready.size() - 1;
        break;
      case 4:
        k = rng.below(8) ? 0 : rng.below(ready.size());
        break;
      case 3:
        k = rng.below(4) ? ready.size() - 1 : 0;
        break;
      default:
        k = rng.below(ready.size());
      }
      int n = ready[k];
      ready.erase(ready.begin() + (long)k);
      int x = nodes[n].inst;
      if (started[x]) {
        errcls = "executed-twice";
        err = "instance started twice";
        return false;
      }
      started[x] = 1;
      hist = hmix(hist, (uint64_t)x * 2);
      if (!memory) {
        for (int p : w.preds[x])
          if (!done[p]) {
            errcls = "dep-order";
            auto d = [&](int i) {
              std::string s = "S_" + std::to_string(w.inst[i].stmt) + "(";
              for (size_t q = 0; q < w.inst[i].it.size(); q++)
                s += (q ? "," : "") + std::to_string(w.inst[i].it[q]);
              s += ")@[";
              for (size_t q = 0; q < w.inst[i].time.size(); q++)
                s += (q ? "," : "") + std::to_string(w.inst[i].time[q]);
              return s + "]";
            };
            err = d(x) + " started at step " + std::to_string(steps) +
                  " before its dependence source " + d(p) +
                  (started[p] ? " had finished" : " had started");
            return false;
          }
      } else {
        uint64_t h = op(w, x);
        for (int cell : w.reads[x])
          h = hmix(h, mem[(size_t)cell]);
        val[x] = h;
      }
      if (!running.empty())
        overlaps++;
      running.push_back(n);
    } else {
      size_t k = rng.below(running.size());
      if (policy == 2) {
        if (stalled < 0 && rng.chance(10)) {
          stalled = running[k];
          stall_until = steps + 5 + (long)rng.below(30);
          stalls++;
        }
        if (steps >= stall_until)
          stalled = -1;
        if (running[k] == stalled && (running.size() > 1 || !ready.empty())) {
          if (running.size() >= maxrun)
            maxrun = running.size() + 1;
          if (running.size() > 1)
            k = (k + 1) % running.size();
          else
            continue;
        }
      }
      int n = running[k];
      running.erase(running.begin() + (long)k);
      int x = nodes[n].inst;
      done[x] = 1;
      ndone++;
      hist = hmix(hist, (uint64_t)x * 2 + 1);
      if (memory)
        for (int cell : w.writes[x])
          mem[(size_t)cell] = hmix(val[x], (uint64_t)cell);
      finish(n);
    }
    if (steps > 50 * (long)w.inst.size() + 10000) {
      errcls = "no-progress";
      err = "machine did not finish";
      return false;
    }
  }
  if (ndone != (long)w.inst.size()) {
    errcls = "not-executed";
    err = "some instance never executed";
    return false;
  }
  return true;
}
