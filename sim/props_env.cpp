// Properties about the library's surroundings: other calls, files, clock,
// heap, solver.
#include "props.h"
#include <glpk.h>
#include <isl/options.h>
#include <sys/wait.h>
#include <unistd.h>
using std::string;
using std::to_string;
using std::vector;

string result_text(const CallResult &r, bool out) {
  string s = r.returned_null ? "NULL\n" : r.sched_text;
  s += loops_text(r) + "ploops " + r.ploops + "\n";
  for (size_t k = 0; k < r.remap.size(); k++) {
    s += "remap " + to_string(k) + ":";
    for (size_t i = 0; i < r.remap[k].size(); i++) {
      s += " /" + to_string(r.divs[k][i]) + " (";
      for (long v : r.remap[k][i])
        s += " " + to_string(v);
      s += ")";
    }
    s += "\n";
  }
  if (out)
    s += "stdout:\n" + r.out_text;
  return s;
}
string diff(const string &a, const string &b) {
  std::istringstream x(a), y(b);
  string l, m;
  for (int n = 1;; n++) {
    bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, m);
    if (!p && !q)
      return "";
    if (!p || !q || l != m)
      return "line " + to_string(n) + ":\n  " + (p ? l : "(nothing)") + "\n  " +
             (q ? m : "(nothing)");
  }
}

// ---------------------------------------------------------------- C05
// Whatever the control files other than tile.sizes may hold.
static void add_control_files(Rng &e, Case &c) {
  size_t ns = c.all("domain").size();
  if (e.chance(30)) {
    string s;
    for (int i = e.range(1, 3); i > 0; i--)
      s += to_string(e.range(1, 6)) + "\\n";
    c.add("file", "skipdeps.txt " + s);
  }
  if (e.chance(20)) {
    bool one = e.chance(50);
    string s = one ? "1\\n" + to_string(ns) + "\\n" : to_string(ns) + "\\n";
    for (size_t i = 0; i < ns; i++)
      s += one ? to_string(i) + " "
               : "1\\n" + to_string(i) + "\\n" + to_string(e.below(2)) + "\\n";
    c.add("file", ".fst " + s + (one ? "\\n1\\n" : ""));
  }
  if (e.chance(10))
    c.add("file", ".precut 1 0\\n");
}
// The call in a process that has called nothing before.
static bool in_fresh_process(const Case &c, const Prog &p, string &res) {
  int fd[2];
  if (pipe(fd))
    _exit(95);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    string s = result_text(call_library(c, p), true);
    g_env.active = false;
    size_t at = 0;
    while (at < s.size()) {
      ssize_t n = write(fd[1], s.data() + at, s.size() - at);
      if (n <= 0)
        break;
      at += (size_t)n;
    }
    _exit(0);
  }
  close(fd[1]);
  char b[65536];
  ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0)
    res.append(b, (size_t)n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
// The result is a function of the program, the options and the control files.
void run_C05(const Case &c, Outcome &o) {
  // Reference: alone, in a quiet environment.
  Case quiet;
  for (auto &p : c.kv)
    if (p.first != "heap" && p.first != "heapbyte" && p.first != "heappad" &&
        p.first != "clock")
      quiet.kv.push_back(p);
  configure_env(quiet);
  isl_ctx *ctx = isl_ctx_alloc();
  Prog p = load_prog(c, ctx);
  string ta;
  if (!in_fresh_process(c, p, ta)) {
    o.verdict = "crash";
    return;
  }
  o.hash = hstr(ta);
  // The same call in another environment and with a past.
  Rng r((uint64_t)c.num("pastseed", 1));
  PlutoContext *shared = c.num("shared") ? make_context(c) : nullptr;
  for (long k = 0; k < c.num("past"); k++) {
    Rng g = r.fork((uint64_t)k + 1);
    Case d;
    GenCfg cfg;
    cfg.maxstmts = 3;
    add_program(g, d, cfg);
    Rng q = g.fork(2);
    gen_options(q, d, OPT_ANY);
    add_tile_sizes(q, d);
    add_control_files(q, d);
    d.add("api", q.chance(50) ? "transform" : q.chance(50) ? "schedule" : "str");
    configure_env(d);
    isl_ctx *x = q.chance(50) ? isl_ctx_alloc() : ctx;
    Prog pp = load_prog(d, x);
    if (c.num("pastalloc") && q.chance(30))
      g_env.heap_mode = 1, g_env.heap_byte = (unsigned char)q.below(256);
    bool sh = shared && q.chance(60);
    CallResult pr = call_library(d, pp, sh ? shared : nullptr);
    stat("past_calls");
    if (pr.returned_null)
      stat("past_failures");
    isl_union_map_free(pr.sched);
    free_prog(pp);
    if (x != ctx)
      isl_ctx_free(x);
  }
  configure_env(c);
  isl_ctx *ctx2 = c.num("ctx2") ? isl_ctx_alloc() : ctx;
  Prog p2 = load_prog(c, ctx2);
  *g_phase = 2;
  CallResult b = call_library(c, p2, shared);
  *g_phase = 0;
  string tb = result_text(b, true);
  stat("compared");
  stat("fault.clock", g_env.clock_faults);
  stat("fault.heap_junk", g_env.heap_mode ? 1 : 0);
  stat("fault.heap_padding", g_env.heap_pad ? 1 : 0);
  if (shared)
    stat("shared_context");
  if (ta != tb) {
    violate(o, "differs", "the same call gave another result: " + diff(ta, tb));
    return;
  }
  // Once more as at first.
  configure_env(quiet);
  Prog p3 = load_prog(c, ctx);
  *g_phase = 2;
  CallResult d3 = call_library(c, p3);
  *g_phase = 0;
  string tc = result_text(d3, true);
  if (ta != tc) {
    violate(o, "differs-later",
            "repeated call gave another result: " + diff(ta, tc));
    return;
  }
  o.verdict = "ok";
}

// ---------------------------------------------------------------- C06
// Control files that are missing, unreadable, damaged or read in pieces.
static Outcome *g_outcome;
static CallResult call_with(const Case &c, const Prog &p, const string &keep) {
  // keep: "all" files with faults, "clean" files without, "none" of them
  Case d;
  string subject = c.get("subject");
  for (auto &x : c.kv) {
    bool mine = (x.first == "file" || x.first == "ffault") &&
                x.second.compare(0, subject.size() + 1, subject + " ") == 0;
    if (mine && (keep == "none" || (keep == "clean" && x.first == "ffault")))
      continue;
    if (mine && x.first == "file" && keep == "clean" && c.has("whole")) {
      d.add("file", subject + " " + c.get("whole"));
      continue;
    }
    d.kv.push_back(x);
  }
  configure_env(d);
  g_env.on_stuck = [] {
    SeamsOff off;
    violate(*g_outcome, "no-progress",
            "the library goes on reading a file without getting anything");
    g_finish(*g_outcome);
  };
  if (keep != "none")
    *g_phase = 3;
  CallResult r = call_library(d, p);
  *g_phase = 0;
  return r;
}
void run_C06(const Case &c, Outcome &o) {
  g_outcome = &o;
  isl_ctx *ctx = isl_ctx_alloc();
  Prog p = load_prog(c, ctx);
  string mode = c.get("mode"), subject = c.get("subject");
  CallResult none = call_with(c, p, "none");
  CallResult b = call_with(c, p, "all");
  string tn = result_text(none, false), tb = result_text(b, false);
  o.hash = hmix(hstr(tb), hstr(tn));
  stat("mode." + mode);
  stat("fault." + mode + "." + subject);
  stat("opened", g_env.files[subject].opens);
  if (g_env.open_streams != 0) {
    violate(o, "stream-leak", to_string(g_env.open_streams) +
                                  " streams of " + subject + " were not closed");
    return;
  }
  if (mode == "unreadable" || mode == "useless") {
    if (tn != tb) {
      violate(o, "not-ignored", "differs from the result without " + subject +
                                    ": " + diff(tn, tb));
      return;
    }
  } else if (mode == "pieces") {
    CallResult w = call_with(c, p, "clean");
    string tw = result_text(w, false);
    if (tw != tb) {
      violate(o, "short-read", "differs from the result of reading " + subject +
                                   " at once: " + diff(tw, tb));
      return;
    }
  } else if (mode == "cut") {
    CallResult w = call_with(c, p, "clean");
    string tw = result_text(w, false);
    if (tw != tb && tn != tb) {
      violate(o, "cut", "neither as with the whole " + subject +
                            " nor as without: " + diff(tn, tb));
      return;
    }
  }
  // Whatever was in the file: the result is a legal transformation.
  if (subject != "tile.sizes" && mode == "pieces") {
    o.verdict = "ok";
    return;
  }
  configure_env(c);
  if (!each_size(c, p, [&](const Prog &q) { return once_at(c, q, b, o); }))
    return;
  if (legal(c, p, b, o))
    o.verdict = "ok";
}

// ------------------------------------------------------- faulted call
// Runs the call in a process of its own, because it may end that process.
// Returns "returned", "null", or how it ended.
static string faulted_call(const Case &c, const Prog &p, CallResult &r,
                           int cpu) {
  int fd[2];
  if (pipe(fd))
    _exit(95);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    alarm((unsigned)cpu);
    CallResult x = call_library(c, p);
    g_env.active = false;
    string s = to_string(g_env.fail_fired) + " " + to_string(g_env.solver_fired) +
               " " + to_string(g_env.allocs) + " " + to_string(g_env.glpk_fired) +
               " " + to_string(g_env.glpk_failed) + "\n";
    for (auto &l : x.loops) {
      s += l.kind + " " + to_string(l.depth);
      for (int k : l.stmts)
        s += " " + to_string(k);
      s += "\n";
    }
    s += "=\n" + (x.returned_null ? string("NULL\n") : x.sched_text);
    size_t at = 0;
    while (at < s.size()) {
      ssize_t n = write(fd[1], s.data() + at, s.size() - at);
      if (n <= 0)
        break;
      at += (size_t)n;
    }
    _exit(0);
  }
  close(fd[1]);
  string buf;
  char b[65536];
  ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0)
    buf.append(b, (size_t)n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st))
    return WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU ? "slow" : "killed";
  if (WEXITSTATUS(st) != 0)
    return "exited";
  std::istringstream is(buf);
  string l;
  std::getline(is, l);
  sscanf(l.c_str(), "%ld %ld %ld %ld %ld", &g_env.fail_fired,
         &g_env.solver_fired, &g_env.allocs, &g_env.glpk_fired, &g_env.glpk_failed);
  while (std::getline(is, l) && l != "=") {
    std::istringstream ls(l);
    ObservedLoop ol;
    int k;
    ls >> ol.kind >> ol.depth;
    while (ls >> k)
      ol.stmts.insert(k);
    r.loops.push_back(ol);
  }
  isl_union_map *u = nullptr;
  while (std::getline(is, l)) {
    r.sched_text += l + "\n";
    if (l == "NULL")
      continue;
    isl_union_map *m = isl_union_map_read_from_str(p.ctx, l.c_str());
    u = u ? isl_union_map_union(u, m) : m;
  }
  r.sched = u;
  r.returned_null = u == nullptr;
  return u ? "returned" : "null";
}
// Legal under the given dependences, or (dependences computed by the library)
// preserving what the program computes.
static bool preserves(const Case &c, const Prog &p, const CallResult &r,
                      Outcome &o) {
  if (c.get("api") == "schedule")
    return each_size(c, p, [&](const Prog &q) { return memory_at(c, q, r, o); });
  return legal(c, p, r, o);
}
static void judge_faulted(const Case &c, const Prog &p, Outcome &o,
                          const string &what, CallResult &r) {
  stat("outcome." + what);
  o.hash = hmix(hstr(what), hstr(r.sched_text + loops_text(r)));
  if (what != "returned") {
    o.verdict = what == "slow" ? "timeout" : "ok";
    return;
  }
  if (!each_size(c, p, [&](const Prog &q) { return once_at(c, q, r, o); }))
    return;
  if (preserves(c, p, r, o))
    o.verdict = "ok";
}
// ---------------------------------------------------------------- C08
void run_C08(const Case &c, Outcome &o) {
  isl_ctx *ctx = isl_ctx_alloc();
  Prog p = load_prog(c, ctx);
  configure_env(c);
  CallResult base;
  g_env.fail_at = -1;
  string w0 = faulted_call(c, p, base, 3);
  long n = g_env.allocs;
  if (w0 != "returned") {
    o.verdict = w0 == "slow" ? "timeout" : "skip";
    return;
  }
  configure_env(c);
  long k = c.has("failpm") ? (long)((double)n * (double)c.num("failpm") / 1e6)
                           : c.num("allocfail");
  g_env.fail_at = k;
  g_env.fail_len = c.num("faillen", 1);
  CallResult r;
  string w = faulted_call(c, p, r, 3);
  stat("fault.alloc", w == "returned" || w == "null" ? g_env.fail_fired : 1);
  judge_faulted(c, p, o, w, r);
  if (o.verdict == "violation")
    o.detail = "allocation " + to_string(k) + " of " + to_string(n) +
               " failed; " + o.detail;
}
// ---------------------------------------------------------------- C09
void run_C09(const Case &c, Outcome &o) {
  isl_ctx *ctx = isl_ctx_alloc();
  Prog p = load_prog(c, ctx);
  configure_env(c);
  CallResult r;
  string w = faulted_call(c, p, r, 3);
  if (w == "returned" || w == "null")
    stat("fault.solver", g_env.solver_fired);
  if (w == "returned" || w == "null") {
    stat("fault.glpk_objective", g_env.glpk_fired);
    stat("fault.glpk_gives_up", g_env.glpk_failed);
  }
  if (w == "killed" && !c.num("solver") && !c.num("glpkalt")) {
    violate(o, "crash", "the library crashed when the solver gave up");
    return;
  }
  judge_faulted(c, p, o, w, r);
}

// ---------------------------------------------------------------- C10
// Memory: what the library allocates is freed once the caller has freed what
// it owns; streams are closed.
void run_C10(const Case &c, Outcome &o) {
  configure_env(c);
  printf("\n");
  isl_ctx *ctx = isl_ctx_alloc();
  Prog p = load_prog(c, ctx);
  ledger_reset();
  g_env.ledger = true;
  string t;
  for (long k = 0; k < c.num("calls", 1); k++) {
    *g_phase = 2;
    CallResult r = call_library(c, p);
    *g_phase = 0;
    t += result_text(r, false);
    isl_union_map_free(r.sched);
    stat(r.returned_null ? "failed_calls" : "calls");
  }
  g_env.ledger = false;
  o.hash = hstr(t);
  free_prog(p);
  isl_ctx_free(ctx);
  glp_free_env();
  vector<Block> live = ledger_live();
  stat("blocks", g_env.allocs);
  if (g_env.open_streams) {
    violate(o, "stream-leak", "streams were not closed");
    return;
  }
  if (!live.empty()) {
    string d = to_string(live.size()) + " blocks are never freed, allocated at";
    for (auto &b : live) {
      d += "\nL";
      for (void *a : b.ra) {
        char x[32];
        snprintf(x, sizeof x, " %p", a);
        if (a)
          d += x;
      }
      if (d.size() > 20000)
        break;
    }
    violate(o, "leak", d);
    return;
  }
  o.verdict = "ok";
}

// ---------------------------------------------------------------- generation
static void gen_C06(Rng &e, Case &c, size_t ns) {
  int s = (int)e.below(100);
  string subject = s < 55 ? "tile.sizes" : s < 75 ? ".fst" : s < 88 ? "skipdeps.txt" : ".precut";
  string content;
  string mode;
  int m = (int)e.below(100);
  if (subject == "tile.sizes") {
    int n = e.range(1, 10);
    for (int i = 0; i < n; i++)
      content += to_string(e.range(1, 5)) + "\\n";
    mode = m < 20 ? "unreadable" : m < 40 ? "pieces" : m < 55 ? "eio" : m < 65 ? "vanish" : "damaged";
    if (mode == "damaged") {
      const char *bad[] = {"0", "-3", "x", "", "1e9", "99999999999999999999", "2.5", "#", "-1", "00", "2147483647", "\\x00", "\\xff"};
      content = "";
      for (int i = 0; i < n; i++)
        content += (e.chance(50) ? string(bad[e.below(13)]) : to_string(e.range(1, 5))) + (e.chance(85) ? "\\n" : " ");
    }
    c.add("opt", "tile 1");
  } else if (subject == ".fst") {
    // In order, one component per statement or all in one.
    bool one = e.chance(40);
    if (one) {
      content = "1\\n" + to_string(ns) + "\\n";
      for (size_t i = 0; i < ns; i++)
        content += to_string(i) + " ";
      content += "\\n1\\n";
    } else {
      content = to_string(ns) + "\\n";
      for (size_t i = 0; i < ns; i++)
        content += "1\\n" + to_string(i) + "\\n" + to_string(e.below(2)) + "\\n";
    }
    mode = m < 25 ? "unreadable" : m < 50 ? "pieces" : "cut";
    if (mode == "cut") {
      c.add("whole", content);
      string raw = unesc(content);
      if (e.chance(60)) {
        raw = raw.substr(0, e.below(raw.size()));
      } else
        c.add("ffault", ".fst eio_at " + to_string(e.below(raw.size())));
      content = "";
      for (char ch : raw)
        content += ch == '\n' ? "\\n" : string(1, ch);
    }
  } else if (subject == "skipdeps.txt") {
    mode = m < 40 ? "unreadable" : "useless";
    const char *bad[] = {"", "x", "0", "-1", "100000", "\\n", "-2147483648", "1000 x", "99999 \\n"};
    content = mode == "useless" ? bad[e.below(9)] : "1\\n";
    if (mode == "useless" && e.chance(25)) {
      content = "1\\n";
      c.add("ffault", "skipdeps.txt eio_at 0");
    }
  } else {
    mode = "unreadable";
    content = "1 0\\n";
  }
  c.add("subject", subject);
  c.add("mode", mode);
  c.add("file", subject + " " + content);
  if (mode == "unreadable") {
    const int errs[] = {13, 2, 24, 23, 5, 12, 4, 40, 116};
    c.add("ffault", subject + " open_errno " + to_string(errs[e.below(9)]));
  } else if (mode == "pieces" || e.chance(20))
    c.add("ffault", subject + " chunk " + to_string(e.range(1, 3)));
  if (mode == "eio")
    c.add("ffault", subject + " eio_at " + to_string(e.below(8)));
  if (mode == "vanish")
    c.add("ffault", subject + " vanish_after " + to_string(e.below(3)));
}
Case gen_case(const string &prop, uint64_t seed, uint64_t idx) {
  Rng r(seed * 0x9e3779b97f4a7c15ull + 12345);
  r = r.fork(hstr(prop)).fork(idx + 1);
  Case c;
  c.add("prop", prop);
  GenCfg cfg;
  add_program(r, c, cfg);
  Rng q = r.fork(2);
  Rng e = r.fork(3);
  gen_options(q, c,
              (prop == "C04" || prop == "C09") && r.fork(9).chance(20) ? OPT_DFP
              // .fst and .precut are not made for it
              : prop == "C06" || prop == "C12" ? OPT_NODFP
                                               : OPT_ANY);
  Rng k = r.fork(11);
  if (k.chance(15)) // "large" begins here
    c.add("simplify", k.chance(50) ? k.range(1, 10) : k.range(10, 100));
  if (prop == "C06")
    gen_C06(e, c, c.all("domain").size());
  if (prop == "C07")
    gen_C07(e, c);
  else if (c.get("subject") != "tile.sizes")
    add_tile_sizes(e, c);
  if (prop == "C12")
    gen_C12(e, c);
  if (prop == "C01")
    c.add("api", e.chance(30) ? "transform_acc" : e.chance(8) ? "str" : "transform");
  else if (prop == "C02" && e.fork(5).chance(15)) {
    c.add("api", "str");
    c.add("remap2", 1);
  } else if (prop == "C02")
    c.add("api", e.chance(45) ? "str" : e.chance(30) ? "transform_acc" : e.chance(30) ? "schedule" : "transform");
  else if (prop == "C03" || prop == "C11")
    c.add("api", prop == "C11" && e.chance(40) ? "transform_acc" : "schedule");
  else if (prop == "C08")
    c.add("api", e.chance(50) ? "transform" : e.chance(50) ? "schedule" : "transform_acc");
  else if (prop == "C09")
    c.add("api", e.chance(50) ? "transform" : e.chance(50) ? "schedule" : "transform_acc");
  else if (prop == "C06" || prop == "C07" || prop == "C12")
    c.add("api", e.chance(30) ? "transform_acc" : "transform");
  else
    c.add("api", e.chance(25) ? (prop == "C10" && e.fork(5).chance(30) ? "remap" : "str") : e.chance(33) ? "transform_acc" : e.chance(50) ? "schedule" : "transform");
  if (prop == "C04") {
    gen_C04(e, c);
    Rng f = e.fork(8);
    if (f.chance(25))
      add_control_files(f, c);
    return c;
  }
  if (prop == "C05") {
    add_control_files(e, c);
    c.add("past", e.chance(20) ? 0 : e.range(1, 4));
    c.add("pastseed", (long)e.below(1000000));
    c.add("pastalloc", e.below(2));
    c.add("shared", e.chance(35));
    c.add("ctx2", e.chance(50));
    c.add("heap", e.below(3));
    c.add("heapbyte", e.chance(40) ? 255 : e.below(256));
    c.add("heapseed", (long)e.below(1000000));
    c.add("heappad", e.chance(40));
    c.add("clock", e.below(4));
    return c;
  }
  if (prop == "C08") {
    c.add("failpm", (long)e.below(1000000));
    c.add("faillen", e.chance(60) ? 1 : e.chance(50) ? e.range(2, 20) : -1);
  }
  if (prop == "C09") {
    Rng g = e.fork(9);
    bool dfp = false;
    for (auto &l : c.kv)
      dfp = dfp || (l.first == "opt" && l.second == "glpk 1");
    bool exact = dfp && g.chance(30); // the solver only gives up
    c.add("solver", !exact);
    c.add("solverpct", e.chance(50) ? 100 : e.range(10, 60));
    c.add("solverseed", (long)e.below(1000000));
    c.add("glpkalt", !exact && g.chance(60));
    c.add("glpknoise", !exact && g.chance(30));
    if (exact || g.chance(50))
      c.add("glpkfail", g.chance(50) ? g.range(1, 10) : g.range(10, 100));
  }
  if (prop == "C10") {
    if (e.fork(6).chance(25)) {
      Rng f = e.fork(7);
      add_control_files(f, c);
    }
    c.add("calls", e.range(1, 2));
    return c;
  }
  add_sizes(e, c);
  c.add("mseed", (long)e.below(1000000));
  c.add("reps", prop == "C08" || prop == "C09" || prop == "C06" || prop == "C07" || prop == "C12" ? 2 : 3);
  return c;
}
void run_case(const Case &c, Outcome &o) {
  string prop = c.get("prop");
  if (prop == "C04")
    run_C04(c, o);
  else if (prop == "C05")
    run_C05(c, o);
  else if (prop == "C06")
    run_C06(c, o);
  else if (prop == "C08")
    run_C08(c, o);
  else if (prop == "C09")
    run_C09(c, o);
  else if (prop == "C10")
    run_C10(c, o);
  else if (prop == "C07")
    run_C07(c, o);
  else if (prop == "C12")
    run_C12(c, o);
  else {
    isl_ctx *ctx = isl_ctx_alloc();
    Prog p = load_prog(c, ctx);
    if (prop == "C01")
      run_C01(c, p, o);
    else if (prop == "C02")
      run_C02(c, p, o);
    else if (prop == "C03")
      run_C03(c, p, o);
    else if (prop == "C11")
      run_C11(c, p, o);
    else
      _exit(96);
  }
}
