#include <sys/personality.h>
// simrun: runs simulated executions, each in a forked child.
#include "run.h"
#include <cstring>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <chrono>
using std::string;
std::function<void(Outcome &)> g_finish;

static string esc(const string &s) {
  string r;
  for (char ch : s) {
    unsigned char c = (unsigned char)ch;
    if (c == '"' || c == '\\')
      r += '\\', r += ch;
    else if (c == '\n')
      r += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += ch;
  }
  return r;
}
static string json(const Outcome &o, const string &casetext, long idx) {
  char h[32];
  snprintf(h, sizeof h, "%016lx", (unsigned long)o.hash);
  string s = "{\"idx\":" + std::to_string(idx) + ",\"verdict\":\"" + o.verdict +
             "\",\"cls\":\"" + esc(o.cls) + "\",\"hash\":\"" + h + "\",\"stats\":{";
  bool f = true;
  for (auto &p : o.stats) {
    s += string(f ? "" : ",") + "\"" + esc(p.first) + "\":" + std::to_string(p.second);
    f = false;
  }
  s += "}";
  if (!o.detail.empty())
    s += ",\"detail\":\"" + esc(o.detail) + "\"";
  if (!casetext.empty())
    s += ",\"case\":\"" + esc(casetext) + "\"";
  return s + "}";
}

#ifdef SIM_ASAN
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0";
}
extern "C" const char *__ubsan_default_options() {
  return "halt_on_error=1:abort_on_error=1:print_stacktrace=1";
}
#endif
// Shared with the run's process: 2 while the library must not crash.
volatile int *g_phase;
static string run_child(const string &prop, uint64_t seed, long idx,
                        const Case *given, bool dump, int cpu) {
  int fd[2];
  if (pipe(fd))
    _exit(98);
  fflush(stdout);
  fflush(stderr);
  // A run that is suspected of never ending gets more time to end.
  bool hang = given && given->has("hang");
  if (hang)
    cpu = std::max(cpu, 40);
  int err = memfd_create("err", MFD_CLOEXEC);
  *g_phase = 0;
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    int out = memfd_create("out", 0);
    dup2(out, 1);
    if (!getenv("SIM_BT"))
      dup2(err, 2);
    struct rlimit rl = {(rlim_t)cpu, (rlim_t)cpu + 2};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc = {0, 0};
    setrlimit(RLIMIT_CORE, &rc);
    struct rlimit rm = {3ul << 30, 3ul << 30};
#ifndef SIM_ASAN
    setrlimit(RLIMIT_AS, &rm);
#endif
    Case c = given ? *given : gen_case(prop, seed, (uint64_t)idx);
    string ct = c.text();
    // First line: the case, so that a crash can be attributed.
    string pre = "C" + esc(ct) + "\n";
    if (write(fd[1], pre.data(), pre.size()) < 0)
      _exit(97);
    g_finish = [&](Outcome &o) {
      g_env.active = false;
      o.stats = g_stats;
      string j = "R" + json(o, (dump || o.verdict == "violation") ? ct : "", idx) + "\n";
      size_t at = 0;
      while (at < j.size()) {
        ssize_t n = write(fd[1], j.data() + at, j.size() - at);
        if (n <= 0)
          break;
        at += (size_t)n;
      }
      _exit(0);
    };
    Outcome o;
    run_case(c, o);
    g_finish(o);
  }
  close(fd[1]);
  string buf;
  char b[65536];
  ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0)
    buf.append(b, (size_t)n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  string msg; // the end of what was printed to stderr
  {
    off_t len = lseek(err, 0, SEEK_END);
    static char eb[60000];
    ssize_t k = pread(err, eb, sizeof eb, len > 60000 ? len - 60000 : 0);
    if (k > 0)
      msg.assign(eb, (size_t)k);
    close(err);
  }
  size_t nl = buf.find('\n');
  string ct = nl == string::npos ? "" : buf.substr(1, nl - 1);
  if (nl != string::npos && nl + 1 < buf.size() && buf[nl + 1] == 'R' && buf.back() == '\n')
    return buf.substr(nl + 2, buf.size() - nl - 3);
  string v = "crash", cls;
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    cls = "signal " + std::to_string(sg);
    if (sg == SIGXCPU || sg == SIGKILL ||
        msg.find("GNU MP: Cannot allocate memory") != string::npos)
      v = "timeout"; // more time or memory than a run may take
  } else
    cls = "exit " + std::to_string(WEXITSTATUS(st));
  if (v == "timeout" && cls != "signal 6" && hang && *g_phase >= 2)
    v = "violation", cls = "hang", msg = "the call does not return";
  if (v == "crash" && *g_phase == 2 && WIFSIGNALED(st))
    v = "violation", cls = msg.find("AddressSanitizer") != string::npos ||
                                   msg.find("runtime error:") != string::npos
                               ? "memory-error"
                               : "crash";
  // Whatever ended a run whose calls all return on their own; a refusal for
  // want of memory is in order.
  if (v == "crash" && *g_phase == 3 &&
      msg.find("Not enough memory to allocate constraints") == string::npos)
    v = "violation", cls = "crash";
  return "{\"idx\":" + std::to_string(idx) + ",\"verdict\":\"" + v +
         "\",\"cls\":\"" + cls + "\",\"hash\":\"0\",\"phase\":" + std::to_string(*g_phase) +
         ",\"stats\":{},\"detail\":\"" + esc(msg) +
         "\",\"case\":\"" + ct + "\"}";
}

int main(int argc, char **argv) {
  // Addresses that depend on nothing but the case, where that is allowed.
  if (!getenv("SIM_FIXED")) {
    int was = personality(0xffffffff);
    if (was != -1 && !(was & ADDR_NO_RANDOMIZE) &&
        personality((unsigned long)was | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_FIXED", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  g_phase = (int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  string prop = "C01", replay;
  uint64_t seed = 1;
  long start = 0, count = 100, stride = 1;
  int cpu = 4;
  double secs = 1e9;
  bool dump = false;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto nx = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop")
      prop = nx();
    else if (a == "--seed")
      seed = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--start")
      start = atol(nx().c_str());
    else if (a == "--count")
      count = atol(nx().c_str());
    else if (a == "--stride")
      stride = atol(nx().c_str());
    else if (a == "--secs")
      secs = atof(nx().c_str());
    else if (a == "--cpu")
      cpu = atoi(nx().c_str());
    else if (a == "--dump")
      dump = true;
    else if (a == "--replay")
      replay = nx();
  }
  if (!replay.empty()) {
    FILE *f = fopen(replay.c_str(), "r");
    if (!f)
      return 2;
    string t;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0)
      t.append(b, n);
    fclose(f);
    Case c = Case::parse(t);
    puts(run_child(prop, 0, 0, &c, true, cpu).c_str());
    return 0;
  }
  auto t0 = std::chrono::steady_clock::now();
  for (long k = 0; k < count; k++) {
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs)
      break;
    puts(run_child(prop, seed, start + k * stride, nullptr, dump, cpu).c_str());
    fflush(stdout);
  }
}
