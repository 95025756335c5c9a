// Properties about what the control files ask for: tile sizes, forced fusion
// structures, partial transformations.
#include "props.h"
#include <isl/aff.h>
#include <unistd.h>
using std::string;
using std::to_string;
using std::vector;

static Case with(const Case &c, const vector<std::pair<string, string>> &more,
                 const string &without_file = "") {
  Case d;
  for (auto &x : c.kv)
    if (without_file.empty() || x.first != "file" ||
        x.second.compare(0, without_file.size() + 1, without_file + " ") != 0)
      d.kv.push_back(x);
  for (auto &x : more)
    d.kv.push_back(x);
  return d;
}
static string file_of(const Case &c, const string &name) {
  for (auto &s : c.all("file"))
    if (s.compare(0, name.size() + 1, name + " ") == 0)
      return unesc(s.substr(name.size() + 1));
  return "";
}
static bool has_file(const Case &c, const string &name) {
  for (auto &s : c.all("file"))
    if (s.compare(0, name.size() + 1, name + " ") == 0)
      return true;
  return false;
}
static long fl(long a, long b) {
  long q = a / b;
  return q * b > a ? q - 1 : q;
}
// ---------------------------------------------------------------- C07
struct TileSpec {
  vector<long> file; // numbers in tile.sizes
  bool have = false;
  bool second = false;
};
enum Fit { NO, YES, FREE };
typedef vector<std::pair<const Vec *, const Vec *>> Pairs; // untiled, tiled
// Do the tiled times of a statement consist of the untiled ones with dimensions
// d..d+w-1 tiled as asked for?
static Fit fits(const Pairs &ps, const vector<bool> &scalar, size_t m, size_t d,
                size_t w, const TileSpec &t, bool permuted, long &size_seen) {
  size_t L = t.second ? 2 : 1;
  size_t nv = ps[0].second->size();
  if (d + L * w + (m - d) > nv)
    return NO;
  for (auto &p : ps) {
    const Vec &u = *p.first, &v = *p.second;
    for (size_t i = 0; i < d; i++)
      if (u[i] != v[i])
        return NO;
    if (!permuted)
      for (size_t i = d; i < m; i++)
        if (u[i] != v[L * w + i])
          return NO;
    for (size_t i = L * w + m; i < nv; i++)
      if (v[i] != ps[0].second->at(i))
        return NO;
  }
  if (permuted) { // some order of the point loops, the same for all instances
    vector<size_t> at(m - d), pick;
    for (size_t i = d; i < m; i++) {
      bool found = false;
      for (size_t j = d; j < m && !found; j++) {
        if (std::find(pick.begin(), pick.end(), j) != pick.end())
          continue;
        bool eq = true;
        for (auto &p : ps)
          eq = eq && (*p.first)[i] == (*p.second)[L * w + j];
        if (eq)
          pick.push_back(j), found = true;
      }
      if (!found)
        return NO;
    }
  }
  // Assign sizes to the dimensions of the band.
  bool any_free = false;
  for (size_t mask = 0; mask < (1u << w); mask++) {
    // bit k: dimension k takes a size from the file
    bool ok = true;
    for (size_t k = 0; k < w; k++)
      if (!(mask >> k & 1) && !scalar[d + k])
        ok = false;
    if (!ok)
      continue;
    size_t nl = (size_t)__builtin_popcountl(mask);
    bool enough = t.have && t.file.size() >= nl;
    bool ratios = t.have && t.file.size() >= nl + w;
    if (t.have && !enough) {
      any_free = true;
      continue;
    }
    for (int alt = 0; alt < 2 && ok; alt++) {
      bool good = true;
      size_t fp = 0;
      for (size_t k = 0; k < w && good; k++) {
        size_t p1 = d + (L - 1) * w + k, p2 = d + k;
        bool tiled = mask >> k & 1;
        long T = !tiled ? 1 : t.have ? t.file[fp] : 32;
        long R = !tiled ? 1 : ratios ? t.file[nl + (alt ? fp : k)] : 8;
        if (tiled)
          fp++;
        for (auto &p : ps) {
          long x = (*p.first)[d + k];
          long y = tiled ? fl(x, T) : x;
          if ((*p.second)[p1] != y)
            good = false;
          if (L == 2 && (*p.second)[p2] != (tiled ? fl(y, R) : x))
            good = false;
        }
        if (good && tiled)
          size_seen = T;
      }
      if (good)
        return YES;
    }
  }
  return any_free ? FREE : NO;
}
void run_C07(const Case &c, Outcome &o) {
  isl_ctx *ctx = isl_ctx_alloc();
  Prog p = load_prog(c, ctx);
  bool permuted = false;
  for (auto &x : c.all("opt"))
    if (x.compare(0, 13, "intratileopt ") == 0)
      permuted = x[13] == '1';
  Case un = with(c, {{"opt", "tile 0"}, {"opt", "intratileopt 0"}});
  configure_env(un);
  CallResult a = call_library(un, p);
  configure_env(c);
  *g_phase = 3;
  CallResult b = call_library(c, p);
  *g_phase = 0;
  stat("fault.open", g_env.files.count("tile.sizes") &&
                         g_env.files["tile.sizes"].open_errno);
  o.hash = hstr(b.sched_text);
  TileSpec t;
  for (auto &x : c.all("opt"))
    if (x.compare(0, 18, "second_level_tile ") == 0)
      t.second = x[18] == '1';
  t.have = has_file(c, "tile.sizes") && c.all("ffault").empty();
  std::istringstream is(file_of(c, "tile.sizes"));
  long x;
  while (is >> x)
    t.file.push_back(x);
  if (!each_size(c, p, [&](const Prog &q) {
        World wu, wv;
        if (!world(q, a, wu, o) || !world(q, b, wv, o))
          return false;
        for (size_t k = 0; k < q.domains.size(); k++) {
          Pairs ps;
          for (size_t i = 0; i < wu.inst.size(); i++)
            if ((size_t)wu.inst[i].stmt == k)
              ps.push_back({&wu.inst[i].time, &wv.inst[i].time});
          if (ps.empty())
            continue;
          size_t m = wu.levels, nv = wv.levels;
          bool plain = nv >= m;
          for (auto &pr : ps)
            for (size_t i = 0; i < nv && plain; i++)
              plain = (*pr.second)[i] ==
                      (i < m ? (*pr.first)[i] : ps[0].second->at(i));
          if (plain) {
            stat("untiled_stmts");
            continue;
          }
          // What is the same for all instances may be no loop at all.
          vector<bool> sc(m, true);
          for (auto &pr : ps)
            for (size_t i = 0; i < m; i++)
              sc[i] = sc[i] && (*pr.first)[i] == (*ps[0].first)[i];
          bool fit = false;
          for (size_t d = 0; d < m && !fit; d++)
            for (size_t w = 1; d + w <= m && !fit; w++) {
              long seen = 0;
              Fit f = fits(ps, sc, m, d, w, t, permuted, seen);
              fit = f != NO;
              if (f == YES)
                stat("tiled_stmts");
              if (f == FREE)
                stat("too_few_sizes");
            }
          if (!fit) {
            violate(o, "tile-sizes",
                    "S_" + to_string(k) +
                        " is not tiled as asked for; without tiling:\n" +
                        a.sched_text + "with tiling:\n" + b.sched_text);
            return false;
          }
        }
        return true;
      }))
    return;
  // Tiles are executed as announced: one tile after the other.
  if (legal(c, p, b, o))
    o.verdict = "ok";
}

// ---------------------------------------------------------------- C12
static string result_of(const CallResult &r) {
  return (r.returned_null ? string("NULL\n") : r.sched_text) + loops_text(r);
}
// Some dependence goes from an instance of S_a to one of S_b.
static bool dep_between(const Prog &p, int a, int b) {
  struct U {
    int a, b;
    bool r;
  } u{a, b, false};
  isl_union_map_foreach_map(
      p.deps,
      [](isl_map *m, void *user) -> isl_stat {
        U *u = (U *)user;
        if (atoi(isl_map_get_tuple_name(m, isl_dim_in) + 2) == u->a &&
            atoi(isl_map_get_tuple_name(m, isl_dim_out) + 2) == u->b &&
            isl_map_is_empty(m) != isl_bool_true)
          u->r = true;
        isl_map_free(m);
        return isl_stat_ok;
      },
      &u);
  return u.r;
}
// Components of an .fst; false if it is not a partition that respects the
// dependences.
static bool fst_components(const Prog &p, const string &text, vector<int> &comp,
                           vector<int> &tile) {
  int ns = (int)p.domains.size(), n, k, id, t;
  std::istringstream is(text);
  if (!(is >> n) || n < 1 || n > ns)
    return false;
  comp.assign((size_t)ns, -1);
  tile.assign((size_t)ns, 1);
  for (int i = 0; i < n; i++) {
    if (!(is >> k) || k < 0 || k > ns)
      return false;
    vector<int> ids;
    for (int j = 0; j < k; j++) {
      if (!(is >> id) || id < 0 || id >= ns || comp[(size_t)id] != -1)
        return false;
      comp[(size_t)id] = i;
      ids.push_back(id);
    }
    if (!(is >> t))
      return false;
    for (int x : ids)
      tile[(size_t)x] = t;
  }
  for (int a = 0; a < ns; a++) {
    if (comp[(size_t)a] < 0)
      return false;
    for (int b = 0; b < ns; b++)
      if (comp[(size_t)a] > comp[(size_t)b] && dep_between(p, a, b))
        return false;
  }
  return true;
}
static int opt_value(const Case &c, const string &n, int d) {
  for (auto &x : c.all("opt"))
    if (x.compare(0, n.size() + 1, n + " ") == 0)
      d = atoi(x.c_str() + n.size() + 1);
  return d;
}
static void run_fst(const Case &c, const Prog &p, Outcome &o) {
  vector<int> comp, tile;
  bool valid = fst_components(p, file_of(c, ".fst"), comp, tile);
  configure_env(c);
  *g_phase = 3;
  CallResult b = call_library(c, p);
  *g_phase = 0;
  o.hash = hstr(result_of(b));
  stat(valid ? "valid_fst" : "invalid_fst");
  if (!valid) {
    Case n = with(with(c, {}, ".fst"), {}, ".precut");
    configure_env(n);
    CallResult a = call_library(n, p);
    if (result_of(a) != result_of(b)) {
      violate(o, "invalid-fst-used",
              "an .fst that is not a valid distribution changes the result:\n" +
                  result_of(a) + "becomes\n" + result_of(b));
      return;
    }
    stat("ignored");
  }
  if (has_file(c, ".precut") && valid) {
    Case n = with(c, {}, ".precut");
    configure_env(n);
    CallResult a = call_library(n, p);
    stat("precedence");
    if (result_of(a) != result_of(b)) {
      violate(o, "precedence", ".precut changes the result of an .fst:\n" +
                                   result_of(a) + "becomes\n" + result_of(b));
      return;
    }
  }
  if (b.returned_null) {
    o.verdict = "null";
    return;
  }
  configure_env(c);
  if (valid) {
    bool exact = opt_value(c, "tile", 0) && !opt_value(c, "parallel", 1) &&
                 !opt_value(c, "diamondtile", 1);
    CallResult u;
    if (exact) {
      Case n = with(c, {{"opt", "tile 0"}});
      configure_env(n);
      u = call_library(n, p);
      configure_env(c);
    }
    for (auto &l : parallel_loops(b)) {
      std::set<int> cs;
      for (int s : l.stmts)
        cs.insert(comp[(size_t)s]);
      if (cs.size() > 1) {
        violate(o, "not-distributed",
                "a loop contains statements of several components:\n" +
                    result_of(b));
        return;
      }
    }
    if (!each_size(c, p, [&](const Prog &q) {
          World w, wu;
          if (!world(q, b, w, o))
            return false;
          std::map<int, std::pair<Vec, Vec>> span;
          for (auto &in : w.inst) {
            int k = comp[(size_t)in.stmt];
            auto f = span.find(k);
            if (f == span.end())
              span[k] = {in.time, in.time};
            else {
              f->second.first = std::min(f->second.first, in.time);
              f->second.second = std::max(f->second.second, in.time);
            }
          }
          const Vec *last = nullptr;
          for (auto &s : span) {
            if (last && !(*last < s.second.first)) {
              violate(o, "not-distributed",
                      "component " + to_string(s.first) + " starts at " +
                          fmt(s.second.first) + " but the one before ends at " +
                          fmt(*last) + "\n" + result_of(b));
              return false;
            }
            last = &s.second.second;
            stat("components");
          }
          if (exact && !u.returned_null && world(q, u, wu, o)) {
            for (size_t i = 0; i < w.inst.size(); i++) {
              if (tile[(size_t)w.inst[i].stmt])
                continue;
              stat("untiled_instances");
              // Loops may be permuted, and other statements have more levels.
              auto values = [](const Vec &t) {
                Vec v;
                for (auto x : t)
                  if (x)
                    v.push_back(x);
                std::sort(v.begin(), v.end());
                return v;
              };
              if (values(wu.inst[i].time) != values(w.inst[i].time)) {
                violate(o, "tiled", "S_" + to_string(w.inst[i].stmt) +
                                        " was not to be tiled, untiled it is\n" +
                                        result_of(u) + "and with tiling\n" +
                                        result_of(b));
                return false;
              }
            }
          }
          return true;
        }))
      return;
  }
  if (!each_size(c, p, [&](const Prog &q) { return once_at(c, q, b, o); }))
    return;
  if (legal(c, p, b, o))
    o.verdict = "ok";
}
struct Precut {
  size_t rows = 0;
  vector<vector<Vec>> r; // per statement: rows over iterators, parameters, 1
};
static bool parse_precut(const Prog &p, const string &text, Precut &pc) {
  std::istringstream is(text);
  long ns, depth, rows, cols, x;
  if (!(is >> ns >> depth) || ns != (long)p.domains.size() || depth < 0)
    return false;
  for (long s = 0; s < ns; s++) {
    long dim = (long)isl_set_dim(p.domains[(size_t)s], isl_dim_set),
         np = (long)isl_set_dim(p.domains[(size_t)s], isl_dim_param);
    if (!(is >> rows >> cols) || rows < 0 || (s && rows != (long)pc.rows) ||
        (rows && cols != dim + np + 2))
      return false;
    pc.rows = (size_t)rows;
    vector<Vec> m;
    for (long i = 0; i < rows; i++) {
      Vec v;
      for (long j = 0; j < cols; j++) {
        if (!(is >> x) || (j == 0 && x != 0))
          return false;
        if (j)
          v.push_back(x);
      }
      m.push_back(v);
    }
    pc.r.push_back(m);
    for (long i = 0; i < depth + 1; i++)
      if (!(is >> x))
        return false;
  }
  return true;
}
static bool precut_legal(const Prog &p, const Precut &pc) {
  if (pc.rows == 0)
    return true;
  isl_union_map *M = nullptr;
  for (size_t s = 0; s < p.domains.size(); s++) {
    isl_space *sp = isl_set_get_space(p.domains[s]);
    size_t dim = (size_t)isl_space_dim(sp, isl_dim_set),
           np = (size_t)isl_space_dim(sp, isl_dim_param);
    isl_local_space *ls = isl_local_space_from_space(isl_space_copy(sp));
    isl_map *m = nullptr;
    for (auto &row : pc.r[s]) {
      isl_aff *a = isl_aff_zero_on_domain(isl_local_space_copy(ls));
      for (size_t j = 0; j < dim; j++)
        a = isl_aff_set_coefficient_si(a, isl_dim_in, (int)j, (int)row[j]);
      for (size_t j = 0; j < np; j++)
        a = isl_aff_set_coefficient_si(a, isl_dim_param, (int)j,
                                       (int)row[dim + j]);
      a = isl_aff_set_constant_si(a, (int)row[dim + np]);
      isl_map *x = isl_map_from_aff(a);
      m = m ? isl_map_flat_range_product(m, x) : x;
    }
    isl_space_free(sp);
    isl_local_space_free(ls);
    m = isl_map_intersect_domain(m, isl_set_copy(p.domains[s]));
    isl_union_map *um = isl_union_map_from_map(m);
    M = M ? isl_union_map_union(M, um) : um;
  }
  isl_union_map *gt =
      isl_union_map_lex_gt_union_map(isl_union_map_copy(M), M);
  gt = isl_union_map_intersect(gt, isl_union_map_copy(p.deps));
  bool ok = isl_union_map_is_empty(gt) == isl_bool_true;
  isl_union_map_free(gt);
  return ok;
}
static bool has_divs(isl_union_map *u) {
  bool r = false;
  isl_union_map_foreach_map(
      u,
      [](isl_map *m, void *user) -> isl_stat {
        isl_map_foreach_basic_map(
            m,
            [](isl_basic_map *b, void *user) -> isl_stat {
              if (isl_basic_map_dim(b, isl_dim_div) > 0)
                *(bool *)user = true;
              isl_basic_map_free(b);
              return isl_stat_ok;
            },
            user);
        isl_map_free(m);
        return isl_stat_ok;
      },
      &r);
  return r;
}
static void run_precut(const Case &c, const Prog &p, Outcome &o) {
  Precut pc;
  bool parsed = parse_precut(p, file_of(c, ".precut"), pc);
  bool ok = parsed && precut_legal(p, pc);
  configure_env(c);
  *g_phase = 3;
  CallResult b = call_library(c, p);
  *g_phase = 0;
  o.hash = hstr(result_of(b));
  stat(ok ? "valid_precut" : parsed ? "illegal_precut" : "damaged_precut");
  if (!ok) {
    Case n = with(c, {}, ".precut");
    configure_env(n);
    CallResult a = call_library(n, p);
    if (result_of(a) != result_of(b)) {
      violate(o, "invalid-precut-used",
              "a .precut that is not a valid transformation changes the "
              "result:\n" +
                  result_of(a) + "becomes\n" + result_of(b));
      return;
    }
    stat("ignored");
  }
  if (b.returned_null) {
    o.verdict = "null";
    return;
  }
  configure_env(c);
  bool exact = ok && !opt_value(c, "tile", 0) && !opt_value(c, "parallel", 1) &&
               !opt_value(c, "diamondtile", 1) && !has_divs(p.deps);
  if (exact &&
      !each_size(c, p, [&](const Prog &q) {
        World w;
        if (!world(q, b, w, o))
          return false;
        vector<long> par;
        int np = (int)isl_set_dim(q.domains[0], isl_dim_param);
        for (int i = 0; i < np; i++)
          par.push_back(
              q.fix.v.at(isl_set_get_dim_name(q.domains[0], isl_dim_param, i)));
        for (auto &in : w.inst)
          for (size_t k = 0; k < pc.rows; k++) {
            const Vec &row = pc.r[(size_t)in.stmt][k];
            long v = row.back();
            for (size_t j = 0; j < in.it.size(); j++)
              v += row[j] * in.it[j];
            for (size_t j = 0; j < par.size(); j++)
              v += row[in.it.size() + j] * par[j];
            stat("rows_compared");
            if (k >= w.levels || in.time[k] != v) {
              violate(o, "precut-not-used",
                      "S_" + to_string(in.stmt) + fmt(in.it) + " at " +
                          fmt(in.time) + ": dimension " + to_string(k) +
                          " should be " + to_string(v) + "\n" + result_of(b));
              return false;
            }
          }
        return true;
      }))
    return;
  if (!each_size(c, p, [&](const Prog &q) { return once_at(c, q, b, o); }))
    return;
  if (legal(c, p, b, o))
    o.verdict = "ok";
}
void run_C12(const Case &c, Outcome &o) {
  isl_ctx *ctx = isl_ctx_alloc();
  Prog p = load_prog(c, ctx);
  if (has_file(c, ".fst"))
    run_fst(c, p, o);
  else
    run_precut(c, p, o);
}

// ---------------------------------------------------------------- generation
static int depth_of(const string &dom) {
  size_t a = dom.find('['), b;
  a = dom.find("S_");
  a = dom.find('[', a);
  b = dom.find(']', a);
  string s = dom.substr(a + 1, b - a - 1);
  if (s.find_first_not_of(" ") == string::npos)
    return 0;
  return (int)std::count(s.begin(), s.end(), ',') + 1;
}
void gen_C07(Rng &e, Case &c) {
  for (const char *o :
       {"tile 1", "parallel 0", "diamondtile 0", "fulldiamondtile 0",
        "find_tile_sizes 0", "prevector 0", "unrolljam 0", "multipar 0"})
    c.add("opt", o);
  c.add("opt", e.chance(30) ? "intratileopt 1" : "intratileopt 0");
  c.add("opt", e.chance(40) ? "second_level_tile 1" : "second_level_tile 0");
  int depth = 0;
  for (auto &d : c.all("domain"))
    depth = std::max(depth, depth_of(d));
  if (e.chance(70) || depth > 2) {
    string s;
    int n = e.range(2, 12), hi = e.chance(60) ? 5 : 9;
    for (int i = 0; i < n; i++)
      s += to_string(e.range(1, hi)) + (e.chance(80) ? "\\n" : " ");
    c.add("file", "tile.sizes " + s);
    if (e.chance(8))
      c.add("ffault", "tile.sizes open_errno 13");
    return;
  }
  // Defaults: needs larger loops.
  if (e.chance(30)) {
    c.add("file", "tile.sizes 3\\n4\\n5\\n6\\n");
    c.add("ffault", "tile.sizes open_errno " + to_string(e.chance(50) ? 13 : 24));
  }
  for (auto &x : c.kv)
    if (x.first == "param")
      x.second = x.second.substr(0, x.second.find(' ') + 1) +
                 to_string(depth <= 1 ? e.range(40, 700) : e.range(33, 50));
}
void gen_C12(Rng &e, Case &c) {
  auto doms = c.all("domain");
  size_t ns = doms.size();
  if (e.chance(55)) { // reference configuration, to compare exactly
    for (const char *o : {"parallel 0", "diamondtile 0", "fulldiamondtile 0",
                          "intratileopt 0", "prevector 0", "unrolljam 0",
                          "multipar 0", "find_tile_sizes 0"})
      c.add("opt", o);
    c.add("opt", e.chance(50) ? "tile 0" : "tile 1");
  }
  auto precut = [&](bool plain) {
    int maxd = 0;
    for (auto &d : doms)
      maxd = std::max(maxd, depth_of(d));
    int rows = e.range(1, std::max(1, std::min(3, maxd + 1)));
    size_t np = c.all("param").size();
    int kind = (int)e.below(100);
    int lv = (int)e.below(3);
    string s = to_string(ns) + "\\n" + to_string(lv) + "\\n";
    // The same shape for all statements most of the time.
    vector<vector<int>> base;
    for (int k = 0; k < rows; k++) {
      vector<int> row(8, 0);
      if (kind < 40 || plain)
        row[(size_t)(k % 8)] = 1;
      else if (kind < 60) // skewed
        for (int j = 0; j <= k; j++)
          row[(size_t)j] = j == k ? 1 : e.range(0, 2);
      else if (kind < 75) // any permutation
        row[e.below((uint64_t)std::max(1, maxd))] = 1;
      else if (kind < 85)
        row[e.below((uint64_t)std::max(1, maxd))] = e.chance(50) ? -1 : 2;
      else
        for (int j = 0; j < maxd; j++)
          row[(size_t)j] = e.range(-1, 2);
      base.push_back(row);
    }
    int sc = e.chance(35) ? (int)e.below((uint64_t)rows) : -1; // a scalar row
    bool odd = e.chance(15);
    for (size_t i = 0; i < ns; i++) {
      int dim = depth_of(doms[i]);
      s += to_string(rows) + " " + to_string(dim + (int)np + 2) + "\\n";
      for (int k = 0; k < rows; k++) {
        s += "0";
        for (int j = 0; j < dim; j++) {
          int v = k == sc ? 0 : base[(size_t)k][(size_t)j];
          if (odd && e.chance(15))
            v = e.range(-1, 2);
          s += " " + to_string(v);
        }
        for (size_t j = 0; j < np; j++)
          s += e.chance(3) ? " 1" : " 0";
        int cst = k == sc ? (int)i : e.chance(20) ? e.range(0, 2) : 0;
        s += " " + to_string(cst) + "\\n";
      }
      s += "0\\n";
      for (int j = 0; j < lv; j++)
        s += to_string(e.below(2)) + "\\n";
    }
    if (!plain && e.chance(8))
      s = s.substr(0, e.below(s.size()));
    while (!s.empty() && s.back() == '\\')
      s.pop_back();
    return s;
  };
  if (e.chance(50)) {
    // Components in some order.
    vector<int> ord;
    for (size_t i = 0; i < ns; i++)
      ord.push_back((int)i);
    if (e.chance(35))
      for (size_t i = ns; i > 1; i--)
        std::swap(ord[i - 1], ord[e.below(i)]);
    vector<vector<int>> comps;
    for (int x : ord) {
      if (comps.empty() || e.chance(50))
        comps.push_back({});
      comps.back().push_back(x);
    }
    if (e.chance(15)) { // damage
      int k = (int)e.below(4);
      auto &v = comps[e.below(comps.size())];
      if (k == 0)
        v.push_back((int)e.below(ns));
      else if (k == 1)
        v.pop_back();
      else if (k == 2)
        v.push_back((int)ns + (int)e.below(3));
      else
        v[0] = -1;
    }
    string s = to_string(comps.size()) + "\\n";
    for (auto &v : comps) {
      s += to_string(v.size()) + "\\n";
      for (int x : v)
        s += to_string(x) + " ";
      s += "\\n" + to_string(e.chance(60) ? 1 : 0) + "\\n";
    }
    c.add("file", ".fst " + s);
    if (e.chance(15))
      c.add("file", ".precut " + precut(true));
  } else
    c.add("file", ".precut " + precut(false));
}
