// Drives the library through its public interface and judges the outcome.
#include "run.h"
extern "C" {
#include "pluto/matrix.h"
}
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <isl/printer.h>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
using std::string;
using std::to_string;
using std::vector;

std::map<string, long> g_stats;
uint64_t hstr(const string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return h;
}
vector<string> Case::all(const string &k) const {
  vector<string> r;
  for (auto &p : kv)
    if (p.first == k)
      r.push_back(p.second);
  return r;
}
string Case::get(const string &k, const string &d) const {
  for (auto &p : kv)
    if (p.first == k)
      return p.second;
  return d;
}
long Case::num(const string &k, long d) const {
  string s = get(k);
  return s.empty() ? d : atol(s.c_str());
}
bool Case::has(const string &k) const {
  for (auto &p : kv)
    if (p.first == k)
      return true;
  return false;
}
string Case::text() const {
  string t;
  for (auto &p : kv)
    t += p.first + " " + p.second + "\n";
  return t;
}
Case Case::parse(const string &t) {
  Case c;
  std::istringstream is(t);
  string l;
  while (std::getline(is, l)) {
    if (l.empty() || l[0] == '#')
      continue;
    size_t p = l.find(' ');
    c.add(l.substr(0, p), p == string::npos ? "" : l.substr(p + 1));
  }
  return c;
}

// ------------------------------------------------------------- programs
static isl_union_map *umap_union(isl_ctx *ctx, const vector<string> &v,
                                 const string &params) {
  isl_union_map *u = isl_union_map_read_from_str(ctx, (params + " -> { }").c_str());
  for (auto &s : v)
    u = isl_union_map_union(u, isl_union_map_read_from_str(ctx, s.c_str()));
  return u;
}
static string param_tuple(const Case &c) {
  string s = "[";
  bool first = true;
  for (auto &p : c.all("param")) {
    s += (first ? "" : ", ") + p.substr(0, p.find(' '));
    first = false;
  }
  return s + "]";
}
Prog load_prog(const Case &c, isl_ctx *ctx) {
  Prog p;
  p.ctx = ctx;
  string P = param_tuple(c);
  p.domain = isl_union_set_read_from_str(ctx, (P + " -> { }").c_str());
  for (auto &s : c.all("domain")) {
    isl_set *d = isl_set_read_from_str(ctx, s.c_str());
    p.domains.push_back(isl_set_copy(d));
    p.domain = isl_union_set_union(p.domain, isl_union_set_from_set(d));
  }
  p.sched = umap_union(ctx, c.all("sched"), P);
  p.reads = umap_union(ctx, c.all("read"), P);
  p.writes = umap_union(ctx, c.all("write"), P);
  p.reads = isl_union_map_intersect_domain(p.reads, isl_union_set_copy(p.domain));
  p.writes =
      isl_union_map_intersect_domain(p.writes, isl_union_set_copy(p.domain));
  p.sched =
      isl_union_map_intersect_domain(p.sched, isl_union_set_copy(p.domain));
  for (auto &s : c.all("param")) {
    size_t q = s.find(' ');
    p.fix.v[s.substr(0, q)] = atol(s.c_str() + q + 1);
  }
  if (c.num("explicit_deps"))
    p.deps = umap_union(ctx, c.all("dep"), P);
  else
    p.deps = deps_from_accesses(p);
  return p;
}
void free_prog(Prog &p) {
  for (auto *d : p.domains)
    isl_set_free(d);
  isl_union_set_free(p.domain);
  isl_union_map_free(p.sched);
  isl_union_map_free(p.reads);
  isl_union_map_free(p.writes);
  isl_union_map_free(p.deps);
}
// All memory-based dependences (RAW, WAR, WAW) of the original program.
isl_union_map *deps_from_accesses(const Prog &p) {
  isl_union_map *before = isl_union_map_lex_lt_union_map(
      isl_union_map_copy(p.sched), isl_union_map_copy(p.sched));
  auto dep = [&](isl_union_map *a, isl_union_map *b) {
    isl_union_map *m = isl_union_map_apply_range(
        isl_union_map_copy(a), isl_union_map_reverse(isl_union_map_copy(b)));
    return isl_union_map_intersect(m, isl_union_map_copy(before));
  };
  isl_union_map *r = dep(p.writes, p.reads);
  r = isl_union_map_union(r, dep(p.reads, p.writes));
  r = isl_union_map_union(r, dep(p.writes, p.writes));
  isl_union_map_free(before);
  return isl_union_map_coalesce(isl_union_map_detect_equalities(r));
}

// ------------------------------------------------------------- options
void set_option(PlutoOptions *o, const string &n, long v) {
#define O(x)                                                                   \
  if (n == #x) {                                                               \
    o->x = (decltype(o->x))v;                                                  \
    return;                                                                    \
  }
  O(tile) O(intratileopt) O(diamondtile) O(fulldiamondtile) O(per_cc_obj)
  O(parallel) O(innerpar) O(unrolljam) O(ufactor) O(prevector) O(rar) O(fuse)
  O(delayed_cut) O(hybridcut) O(forceparallel) O(multipar)
  O(second_level_tile) O(find_tile_sizes) O(cache_size) O(data_element_size)
  O(ft) O(lt) O(debug) O(moredebug) O(identity) O(isldep) O(isldepaccesswise)
  O(isldepcoalesce) O(lastwriter) O(nodepbound) O(coeff_bound) O(silent)
  O(pipsolve) O(islsolve) O(glpk) O(lp) O(dfp) O(ilp) O(lpcolour)
  O(scc_cluster) O(time) O(flic) O(codegen_context)
#undef O
  fprintf(stderr, "sim: unknown option %s\n", n.c_str());
  _exit(99);
}
PlutoContext *make_context(const Case &c) {
  PlutoContext *ctx = pluto_context_alloc();
  for (auto &s : c.all("opt")) {
    size_t q = s.find(' ');
    set_option(ctx->options, s.substr(0, q), atol(s.c_str() + q + 1));
  }
  return ctx;
}
string unesc(const string &s) {
  string r;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '\\' && i + 1 < s.size()) {
      char c = s[++i];
      if (c == 'n')
        r += '\n';
      else if (c == 'x' && i + 2 < s.size()) {
        r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
        i += 2;
      } else
        r += c;
    } else
      r += s[i];
  return r;
}
extern "C" {
unsigned pluto_sim_simplify_threshold = 10000; // a hook in /repo
}
void configure_env(const Case &c) {
  g_env = Env();
  pluto_sim_simplify_threshold = (unsigned)c.num("simplify", 10000);
  if (pluto_sim_simplify_threshold != 10000)
    stat("knob.simplify");
  Env &e = g_env;
  for (auto &s : c.all("file")) {
    size_t q = s.find(' ');
    e.files[s.substr(0, q)].content = q == string::npos ? "" : unesc(s.substr(q + 1));
  }
  for (auto &s : c.all("ffault")) { // name kind value
    std::istringstream is(s);
    string n, k;
    long v = 0;
    is >> n >> k >> v;
    VFile &f = e.files[n];
    if (k == "open_errno")
      f.open_errno = (int)v;
    else if (k == "eio_at")
      f.eio_at = v;
    else if (k == "chunk")
      f.chunk = (int)v;
    else if (k == "vanish_after")
      f.vanish_after = v;
  }
  e.clock_mode = (int)c.num("clock");
  e.clock_rng = Rng((uint64_t)c.num("clockseed", 7));
  e.heap_mode = (int)c.num("heap");
  e.heap_byte = (unsigned char)c.num("heapbyte");
  e.heap_pad = c.num("heappad");
  e.heap_rng = Rng((uint64_t)c.num("heapseed", 9));
  e.fail_at = c.num("allocfail", -1);
  e.fail_len = c.num("allocfaillen", 1);
  e.solver_mode = (int)c.num("solver");
  e.solver_pct = (int)c.num("solverpct");
  e.glpk_alt = c.num("glpkalt") != 0;
  e.glpk_noise = c.num("glpknoise") != 0;
  e.glpk_fail = (int)c.num("glpkfail");
  e.solver_at = c.num("solverat", -1);
  e.solver_rng = Rng((uint64_t)c.num("solverseed", 11));
}

// ------------------------------------------------------------- calling
extern "C" void (*pluto_sim_loop_observer)(const char *, unsigned, unsigned,
                                           const int *);
static thread_local vector<ObservedLoop> *g_loops;
bool g_concurrent; // several simulated threads: standard output is not captured
static void observer(const char *kind, unsigned depth, unsigned n,
                     const int *ids) {
  SeamsOff off;
  ObservedLoop l;
  l.kind = kind;
  l.depth = depth;
  for (unsigned i = 0; i < n; i++)
    l.stmts.insert(ids[i]);
  if (g_loops)
    g_loops->push_back(l);
}
static string canon(isl_union_map *m) {
  if (!m)
    return "NULL";
  // Order the maps by their text: the order inside a union map is a property
  // of isl's hash table.
  vector<string> v;
  isl_union_map_foreach_map(
      m,
      [](isl_map *x, void *u) -> isl_stat {
        char *s = isl_map_to_str(x);
        ((vector<string> *)u)->push_back(s ? s : "?");
        free(s);
        isl_map_free(x);
        return isl_stat_ok;
      },
      &v);
  std::sort(v.begin(), v.end());
  string r;
  for (auto &s : v)
    r += s + "\n";
  return r;
}
static void read_remapping(const Remapping &rm, CallResult &r) {
  for (unsigned k = 0; k < rm.nstmts; k++) {
    PlutoMatrix *m = rm.stmt_inv_matrices[k];
    vector<vector<long>> v;
    for (unsigned i = 0; i < m->nrows; i++)
      v.push_back(vector<long>(m->val[i], m->val[i] + m->ncols));
    r.remap.push_back(v);
    r.divs.push_back(vector<int>(rm.stmt_divs[k], rm.stmt_divs[k] + m->nrows));
  }
}
CallResult call_library(const Case &c, const Prog &p, PlutoContext *given) {
  CallResult r;
  g_env.active = g_env.ledger;
  PlutoContext *pc = given ? given : make_context(c);
  g_env.active = false;
  g_loops = &r.loops;
  pluto_sim_loop_observer = observer;
  string api = c.get("api", "transform");
  // Everything the library prints goes to memory.
  if (!g_concurrent) {
    fflush(stdout);
    ftruncate(1, 0);
    lseek(1, 0, SEEK_SET);
  }
  if (api == "transform" || api == "transform_acc") {
    bool acc = api == "transform_acc";
    isl_union_set *d = isl_union_set_copy(p.domain);
    isl_union_map *dep = isl_union_map_copy(p.deps);
    isl_union_map *rd = acc ? isl_union_map_copy(p.reads) : nullptr;
    isl_union_map *wr = acc ? isl_union_map_copy(p.writes) : nullptr;
    g_env.active = true;
    r.sched = pluto_transform(d, dep, rd, wr, pc);
    g_env.active = false;
  } else if (api == "schedule") {
    isl_union_map *s = isl_union_map_copy(p.sched);
    isl_union_map *rd = isl_union_map_copy(p.reads);
    isl_union_map *wr = isl_union_map_copy(p.writes);
    g_env.active = true;
    r.sched = pluto_schedule(s, rd, wr, pc);
    g_env.active = false;
  } else if (api == "str") {
    char *ds = isl_union_set_to_str(p.domain), *ms = isl_union_map_to_str(p.deps);
    char *out = nullptr, *pl = nullptr;
    Remapping *rm = nullptr;
    g_env.active = true;
    pluto_schedule_str(ds, ms, &out, &pl, &rm, pc);
    g_env.active = false;
    if (out)
      r.sched = isl_union_map_read_from_str(p.ctx, out);
    if (pl) {
      // Depths of loops that are parallel for every statement.
      r.ploops = pl;
      std::istringstream is(r.ploops);
      string tok;
      bool first = true;
      while (std::getline(is, tok, ',')) {
        if (!first && atoi(tok.c_str()) > 0) {
          ObservedLoop l;
          l.kind = "parallel";
          l.depth = atoi(tok.c_str()) - 1;
          for (size_t k = 0; k < p.domains.size(); k++)
            l.stmts.insert((int)k);
          r.loops.push_back(l);
        }
        first = false;
      }
    }
    if (rm) {
      r.have_remap = true;
      read_remapping(*rm, r);
      pluto_remapping_free(*rm);
      free(rm);
    }
    if (out)
      pluto_schedules_strbuf_free(out);
    free(pl);
    free(ds), free(ms);
  } else if (api == "remap") {
    char *ds = isl_union_set_to_str(p.domain), *ms = isl_union_map_to_str(p.deps);
    Remapping rm;
    memset(&rm, 0, sizeof rm);
    g_env.active = true;
    pluto_get_remapping_str(ds, ms, pc, &rm);
    g_env.active = false;
    if (rm.nstmts) {
      r.have_remap = true;
      read_remapping(rm, r);
      pluto_remapping_free(rm);
    }
    free(ds), free(ms);
  }
  g_loops = nullptr;
  if (!g_concurrent) {
    fflush(stdout);
    pluto_sim_loop_observer = nullptr;
  }
  r.returned_null = r.sched == nullptr;
  r.sched_text = canon(r.sched);
  {
    char buf[4096];
    ssize_t n;
    off_t at = 0;
    while ((n = pread(1, buf, sizeof buf, at)) > 0) {
      r.out_text.append(buf, (size_t)n);
      at += n;
    }
    r.out_hash = hstr(r.out_text);
  }
  if (!given)
    pluto_context_free(pc);
  return r;
}

// ------------------------------------------------------------- judging
string fmt(const Vec &v) {
  string s = "(";
  for (size_t i = 0; i < v.size(); i++)
    s += (i ? "," : "") + to_string(v[i]);
  return s + ")";
}
const long LIMIT = 6000;
// Builds the concrete world: instances, their new times, dependences.
// Returns "" or a violation class; "skip" when too large.
string build_world(const Prog &p, isl_union_map *sched, World &w,
                          string &detail) {
  size_t ns = p.domains.size();
  for (size_t k = 0; k < ns; k++) {
    vector<Vec> pts;
    if (!points(p.domains[k], p.fix, pts, LIMIT))
      return "skip";
    for (auto &x : pts) {
      w.index[{(int)k, x}] = (int)w.inst.size();
      w.inst.push_back({(int)k, x, {}, {}});
    }
  }
  if ((long)w.inst.size() > LIMIT)
    return "skip";
  // New times.
  struct U {
    const Prog *p;
    World *w;
    string cls, detail;
    std::set<size_t> lens;
  } u{&p, &w, "", "", {}};
  isl_union_map *s = isl_union_map_intersect_domain(
      isl_union_map_copy(sched), isl_union_set_copy(p.domain));
  isl_union_map_foreach_map(
      s,
      [](isl_map *m, void *user) -> isl_stat {
        U *u = (U *)user;
        const char *nm = isl_map_get_tuple_name(m, isl_dim_in);
        int k = nm && nm[0] == 'S' ? atoi(nm + 2) : -1;
        if (k < 0 || (size_t)k >= u->p->domains.size()) {
          u->cls = "unknown-stmt";
          isl_map_free(m);
          return isl_stat_ok;
        }
        size_t ni = (size_t)isl_map_dim(m, isl_dim_in);
        u->lens.insert((size_t)isl_map_dim(m, isl_dim_out));
        vector<Vec> pts;
        isl_set *ws = isl_map_wrap(m);
        ws = isl_set_flatten(ws);
        if (!points(ws, u->p->fix, pts, 4 * LIMIT))
          u->cls = u->cls.empty() ? "unbounded-or-multi" : u->cls;
        isl_set_free(ws);
        for (auto &x : pts) {
          Vec it(x.begin(), x.begin() + (long)ni), t(x.begin() + (long)ni, x.end());
          auto f = u->w->index.find({k, it});
          if (f == u->w->index.end())
            continue;
          Inst &in = u->w->inst[(size_t)f->second];
          if (!in.time.empty() && u->cls.empty()) {
            u->cls = "executed-twice";
            u->detail = "S_" + to_string(k) + fmt(it) + " is scheduled at " +
                        fmt(in.time) + " and at " + fmt(t);
          }
          in.time = t;
        }
        return isl_stat_ok;
      },
      &u);
  isl_union_map_free(s);
  if (!u.cls.empty()) {
    detail = u.detail;
    return u.cls;
  }
  for (size_t l : u.lens)
    w.levels = std::max(w.levels, l);
  for (auto &in : w.inst) {
    if (in.time.empty() && w.levels > 0) {
      detail = "S_" + to_string(in.stmt) + fmt(in.it) + " has no time";
      return "not-executed";
    }
    in.time.resize(w.levels, 0);
  }
  return "";
}
bool build_deps(const Prog &p, isl_union_map *deps, World &w) {
  w.preds.assign(w.inst.size(), {});
  struct U {
    const Prog *p;
    World *w;
    bool ok;
  } u{&p, &w, true};
  isl_union_map_foreach_map(
      deps,
      [](isl_map *m, void *user) -> isl_stat {
        U *u = (U *)user;
        int a = atoi(isl_map_get_tuple_name(m, isl_dim_in) + 2);
        int b = atoi(isl_map_get_tuple_name(m, isl_dim_out) + 2);
        size_t ni = (size_t)isl_map_dim(m, isl_dim_in);
        vector<Vec> pts;
        isl_set *ws = isl_set_flatten(isl_map_wrap(m));
        if (!points(ws, u->p->fix, pts, 200000))
          u->ok = false;
        isl_set_free(ws);
        for (auto &x : pts) {
          auto f = u->w->index.find({a, Vec(x.begin(), x.begin() + (long)ni)});
          auto g = u->w->index.find({b, Vec(x.begin() + (long)ni, x.end())});
          if (f == u->w->index.end() || g == u->w->index.end())
            continue;
          u->w->preds[(size_t)g->second].push_back(f->second);
          u->w->npairs++;
        }
        return isl_stat_ok;
      },
      &u);
  return u.ok;
}

