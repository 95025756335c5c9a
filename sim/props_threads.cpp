// C04: calls made at the same time by several threads.
#include "props.h"
#ifdef SIM_THREADS
#include "simthreads.h"
#include <sys/wait.h>
#include <unistd.h>
using std::string;
using std::to_string;
using std::vector;
extern bool g_concurrent;
string result_text(const CallResult &r, bool out);
string diff(const string &a, const string &b);

void gen_C04(Rng &e, Case &c) {
  c.add("threads", e.chance(70) ? 2 : 3);
  c.add("same", e.chance(40));
  c.add("otherseed", (long)e.below(1000000));
  c.add("policy", (long)e.below(4));
  c.add("mean", e.range(3, 16));
  c.add("tseed", (long)e.below(1000000));
}
// What each thread does.
static vector<Case> parts(const Case &c) {
  vector<Case> v = {c};
  Rng r((uint64_t)c.num("otherseed", 1));
  for (int k = 1; k < c.num("threads", 2); k++) {
    if (c.num("same")) {
      v.push_back(c);
      continue;
    }
    Rng g = r.fork((uint64_t)k);
    Case d;
    GenCfg cfg;
    cfg.maxstmts = 3;
    add_program(g, d, cfg);
    Rng q = g.fork(2);
    gen_options(q, d, OPT_ANY);
    d.add("api", q.chance(50) ? "transform" : q.chance(50) ? "schedule" : "str");
    v.push_back(d);
  }
  return v;
}
static string one(const Case &c) {
  isl_ctx *ctx = isl_ctx_alloc();
  Prog p = load_prog(c, ctx);
  CallResult r = call_library(c, p);
  string t = result_text(r, false);
  isl_union_map_free(r.sched);
  free_prog(p);
  isl_ctx_free(ctx);
  return t;
}
void run_C04(const Case &c, Outcome &o) {
  vector<Case> cs = parts(c);
  // Alone, each in a process of its own: nothing is left behind by others.
  vector<string> ref;
  for (size_t k = 0; k < cs.size(); k++) {
    if (k && c.num("same")) {
      ref.push_back(ref[0]);
      continue;
    }
    int fd[2];
    if (pipe(fd))
      _exit(98);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      configure_env(c); // the control files are everyone's
      string t = "R" + one(cs[k]) + "E";
      for (size_t at = 0; at < t.size();) {
        ssize_t n = write(fd[1], t.data() + at, t.size() - at);
        if (n <= 0)
          _exit(97);
        at += (size_t)n;
      }
      _exit(0);
    }
    close(fd[1]);
    string t;
    char b[4096];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0)
      t.append(b, (size_t)n);
    close(fd[0]);
    int st;
    waitpid(pid, &st, 0);
    if (st || t.size() < 2 || t.back() != 'E') {
      o.verdict = "null"; // nothing to compare with
      return;
    }
    ref.push_back(t.substr(1, t.size() - 2));
  }
  // At the same time.
  configure_env(c);
  g_concurrent = true;
  vector<string> got(cs.size());
  vector<std::function<void()>> fs;
  for (size_t k = 0; k < cs.size(); k++)
    fs.push_back([&, k]() { got[k] = one(cs[k]); });
  SchedCfg sc;
  sc.seed = (uint64_t)c.num("tseed", 1);
  sc.policy = (int)c.num("policy");
  sc.mean = (int)c.num("mean", 10);
  *g_phase = 3;
  SchedResult s = run_threads(fs, sc);
  *g_phase = 0;
  stat("threads", (long)cs.size());
  stat("switches", s.switches);
  stat("events", s.events);
  stat("static_accesses", s.statics);
  stat("heap_accesses", s.heap);
  stat("sync_operations", s.syncs);
  stat("interleaved", s.switches > (long)cs.size());
  o.hash = s.hash;
  for (auto &t : ref)
    o.hash = hmix(o.hash, hstr(t));
  string head = to_string(cs.size()) + " threads, " + to_string(s.switches) + " switches: ";
  if (s.deadlock) {
    violate(o, "deadlock", head + "all threads wait for each other");
    return;
  }
  for (size_t k = 0; k < cs.size(); k++)
    if (got[k] != ref[k]) {
      violate(o, "differs", head + "thread " + to_string(k) + " got another result than alone: " + diff(ref[k], got[k]) +
                                (s.race.empty() ? "" : "\nrace: " + s.race));
      return;
    }
  if (!s.race.empty()) {
    violate(o, "race", head + s.race);
    return;
  }
  o.verdict = "ok";
}
#else
#include <unistd.h>
void gen_C04(Rng &, Case &) {}
void run_C04(const Case &, Outcome &) { _exit(96); }
#endif
