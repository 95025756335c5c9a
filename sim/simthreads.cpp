// The library's objects are compiled with -fsanitize=thread, but linked with
// the functions below instead of the sanitizer's run-time: every access, entry
// and atomic operation of the library becomes a step of the simulation.
#include "simthreads.h"
#include "env.h"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <execinfo.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
using std::string;
namespace {
const int MAXT = 4;
typedef uint32_t Clock;
struct Cell { // eight bytes
  Clock w;
  uint8_t wt, wm;
  uint8_t rm[MAXT];
  Clock r[MAXT];
};
struct Thread {
  sem_t go;
  pthread_t id;
  std::function<void()> f;
  bool done = false, env_active = false;
  char *lo = nullptr, *hi = nullptr;
  Clock vc[MAXT];
  void *waiting = nullptr;
};
struct Lock {
  int owner = -1;
  int count = 0;
  Clock vc[MAXT] = {0};
};
Thread T[MAXT];
int NT;
bool on;
sem_t all_done;
SchedCfg cfg;
SchedResult res;
Rng rng;
long countdown;
bool seams; // avoids recursion while the scheduler itself allocates
__thread int self = -1;
std::map<void *, Lock> locks;
std::map<uintptr_t, Cell *> pages;
uintptr_t last_page;
Cell *last_cells;

long draw() {
  if (cfg.policy == 1 || cfg.policy == 3)
    return 1l << 60;
  long m = 1l << cfg.mean;
  return 1 + (long)rng.below((uint64_t)(2 * m));
}
int pick(bool other) {
  int c[MAXT], n = 0;
  for (int i = 0; i < NT; i++)
    if (!T[i].done && !(other && i == self) &&
        !(T[i].waiting && locks[T[i].waiting].owner >= 0 && locks[T[i].waiting].owner != i))
      c[n++] = i;
  return n ? c[rng.below((uint64_t)n)] : -1;
}
void to(int k) {
  if (k == self)
    return;
  res.switches++;
  res.hash = hmix(res.hash, (uint64_t)res.events * 4 + (uint64_t)k);
  int me = self;
  T[me].env_active = g_env.active;
  g_env.active = T[k].env_active;
  sem_post(&T[k].go);
  while (sem_wait(&T[me].go))
    ;
}
void yield(bool other) {
  SeamsOff off;
  int k = pick(other);
  countdown = draw();
  if (k >= 0 && k != self) {
    g_env.active = off.was; // what the thread goes on with
    to(k);
    g_env.active = false;
  }
}
void *body(void *p) {
  int k = (int)(intptr_t)p;
  self = k;
  while (sem_wait(&T[k].go))
    ;
  T[k].f();
  T[k].done = true;
  bool was = g_env.active;
  g_env.active = false;
  int n = pick(true);
  if (n >= 0) {
    res.switches++;
    g_env.active = T[n].env_active;
    sem_post(&T[n].go);
  } else {
    bool left = false;
    for (int i = 0; i < NT; i++)
      left = left || !T[i].done;
    res.deadlock = left;
    on = false;
    sem_post(&all_done);
  }
  (void)was;
  return nullptr;
}
bool own_stack(const char *p) { return p >= T[self].lo && p < T[self].hi; }
extern "C" char __data_start, _end;
Cell *cell(uintptr_t a) {
  uintptr_t pg = a >> 12;
  if (pg != last_page || !last_cells) {
    SeamsOff off;
    Cell *&c = pages[pg];
    if (!c)
      c = (Cell *)mmap(nullptr, 512 * sizeof(Cell), PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    last_page = pg;
    last_cells = c;
  }
  return last_cells + ((a >> 3) & 511);
}
string where(void *pc) {
  void *b[1] = {(char *)pc - 1};
  char **s = backtrace_symbols(b, 1);
  string r = s ? s[0] : "?";
  size_t i = r.find('(');
  size_t j = r.find('+', i == string::npos ? 0 : i);
  if (i != string::npos && j != string::npos && j > i + 1)
    r = r.substr(i + 1, j - i - 1);
  free(s);
  return r;
}
void report(const char *kind, uintptr_t a, void *pc, int other) {
  if (!res.race.empty())
    return;
  SeamsOff off;
  bool st = (char *)a >= &__data_start && (char *)a < &_end;
  char b[64];
  snprintf(b, sizeof b, "%s", st ? "static data" : "a heap block");
  res.race = string(kind) + " of " + b + " by thread " + std::to_string(self) + " in " + where(pc) +
             " races with thread " + std::to_string(other);
}
void touch(uintptr_t a, unsigned m, bool write, void *pc) {
  Cell *c = cell(a);
  Thread &t = T[self];
  if (c->wm & m && c->wt != self && c->w > t.vc[c->wt])
    report(write ? "write" : "read", a, pc, c->wt);
  if (write) {
    for (int u = 0; u < NT; u++)
      if (u != self && c->rm[u] & m && c->r[u] > t.vc[u])
        report("write", a, pc, u);
    c->wt = (uint8_t)self;
    c->w = t.vc[self];
    c->wm = (uint8_t)m;
  } else {
    c->rm[self] = c->r[self] == t.vc[self] ? (uint8_t)(c->rm[self] | m) : (uint8_t)m;
    c->r[self] = t.vc[self];
  }
}
inline void access(const void *p, size_t n, bool write, void *pc) {
  if (!on || self < 0)
    return;
  res.events++;
  const char *q = (const char *)p;
  if (own_stack(q)) {
    if (--countdown <= 0)
      yield(false);
    return;
  }
  bool st = q >= &__data_start && q < &_end;
  if (st) {
    res.statics++;
    // before the access: what was read earlier may be outdated by then
    if (cfg.policy == 2 && rng.below(2))
      yield(true);
  } else
    res.heap++;
  uintptr_t a = (uintptr_t)q;
  if (n > 4096)
    n = 4096;
  while (n) {
    unsigned off = a & 7, k = (unsigned)(n < 8 - off ? n : 8 - off);
    touch(a, ((1u << k) - 1) << off, write, pc);
    a += k;
    n -= k;
  }
  if (--countdown <= 0)
    yield(false);
}
void acquire(Lock &l) {
  for (int i = 0; i < NT; i++)
    T[self].vc[i] = std::max(T[self].vc[i], l.vc[i]);
}
void release(Lock &l) {
  for (int i = 0; i < NT; i++)
    l.vc[i] = std::max(T[self].vc[i], l.vc[i]);
  T[self].vc[self]++;
}
Lock &lock_of(void *p) {
  SeamsOff off;
  return locks[p];
}
bool lock(void *p, bool wait) {
  res.syncs++;
  for (;;) {
    Lock &l = lock_of(p);
    if (l.owner < 0 || l.owner == self) {
      l.owner = self;
      l.count++;
      acquire(l);
      return true;
    }
    if (!wait)
      return false;
    T[self].waiting = p;
    SeamsOff off;
    int k = pick(true);
    if (k < 0) {
      res.deadlock = true;
      on = false;
      sem_post(&all_done);
      for (;;)
        pause();
    }
    g_env.active = off.was;
    to(k);
    T[self].waiting = nullptr;
  }
}
void unlock(void *p) {
  Lock &l = lock_of(p);
  if (l.owner == self && --l.count == 0) {
    release(l);
    l.owner = -1;
  }
}
} // namespace
int thread_self() { return self; }
void sched_block(void *p, size_t n) {
  if (!on || self < 0 || !p)
    return;
  uintptr_t a = (uintptr_t)p & ~7ul, e = (uintptr_t)p + n;
  for (; a < e; a += 8) {
    if ((a >> 12) != last_page || !last_cells) {
      auto f = pages.find(a >> 12);
      if (f == pages.end()) {
        a |= 4088;
        continue;
      }
      last_page = a >> 12;
      last_cells = f->second;
    }
    memset(last_cells + ((a >> 3) & 511), 0, sizeof(Cell));
  }
}
SchedResult run_threads(const std::vector<std::function<void()>> &fs, const SchedCfg &c) {
  mallopt(M_ARENA_MAX, 1);
  cfg = c;
  rng = Rng(c.seed);
  res = SchedResult();
  NT = (int)fs.size();
  sem_init(&all_done, 0, 0);
  for (int i = 0; i < NT; i++) {
    T[i].f = fs[i];
    sem_init(&T[i].go, 0, 0);
    for (int j = 0; j < MAXT; j++)
      T[i].vc[j] = j == i ? 1 : 0;
    size_t sz = 64ul << 20;
    T[i].lo = (char *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    T[i].hi = T[i].lo + sz;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, T[i].lo, sz);
    pthread_create(&T[i].id, &at, body, (void *)(intptr_t)i);
  }
  on = true;
  countdown = c.policy == 3 ? 1 + (long)rng.below(1ul << (8 + rng.below(14))) : draw();
  int first = (int)rng.below((uint64_t)NT);
  g_env.active = false;
  sem_post(&T[first].go);
  while (sem_wait(&all_done))
    ;
  return res;
}
extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *pc) {
  if (!on || self < 0)
    return;
  res.events++;
  if (cfg.policy == 1) {
    uint64_t h = hmix(cfg.seed, (uint64_t)PC);
    if (h % 64 == 0 && rng.below(4) == 0)
      yield(true);
  } else if (--countdown <= 0)
    yield(false);
}
void __tsan_func_exit() {}
#define RW(n)                                                                  \
  void __tsan_read##n(void *p) { access(p, n, false, PC); }                    \
  void __tsan_write##n(void *p) { access(p, n, true, PC); }                    \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); }          \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); }          \
  void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); }           \
  void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, PC); }
// Atomic operations synchronise.
static void atomic_op(const volatile void *p) {
  if (!on || self < 0)
    return;
  res.syncs++;
  Lock &l = lock_of((void *)p);
  acquire(l);
  release(l);
  if (cfg.policy == 2)
    yield(false);
}
#define AT(b, t)                                                               \
  t __tsan_atomic##b##_load(const volatile t *a, int) { atomic_op(a); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##b##_store(volatile t *a, t v, int) { atomic_op(a); __atomic_store_n(a, v, 5); } \
  t __tsan_atomic##b##_exchange(volatile t *a, t v, int) { atomic_op(a); return __atomic_exchange_n(a, v, 5); } \
  t __tsan_atomic##b##_fetch_add(volatile t *a, t v, int) { atomic_op(a); return __atomic_fetch_add(a, v, 5); } \
  t __tsan_atomic##b##_fetch_sub(volatile t *a, t v, int) { atomic_op(a); return __atomic_fetch_sub(a, v, 5); } \
  t __tsan_atomic##b##_fetch_and(volatile t *a, t v, int) { atomic_op(a); return __atomic_fetch_and(a, v, 5); } \
  t __tsan_atomic##b##_fetch_or(volatile t *a, t v, int) { atomic_op(a); return __atomic_fetch_or(a, v, 5); } \
  t __tsan_atomic##b##_fetch_xor(volatile t *a, t v, int) { atomic_op(a); return __atomic_fetch_xor(a, v, 5); } \
  t __tsan_atomic##b##_fetch_nand(volatile t *a, t v, int) { atomic_op(a); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile t *a, t *c, t v, int, int) { atomic_op(a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile t *a, t *c, t v, int, int) { atomic_op(a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  t __tsan_atomic##b##_compare_exchange_val(volatile t *a, t c, t v, int, int) { atomic_op(a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!on || self < 0)
    return __real_pthread_mutex_lock(m);
  lock(m, true);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!on || self < 0)
    return __real_pthread_mutex_trylock(m);
  return lock(m, false) ? 0 : 16;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!on || self < 0)
    return __real_pthread_mutex_unlock(m);
  unlock(m);
  return 0;
}
int __real_pthread_once(pthread_once_t *, void (*)());
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) {
  if (!on || self < 0)
    return __real_pthread_once(o, f);
  lock(o, true);
  if (*o != 2) {
    f();
    *o = 2; // as glibc has it
  }
  unlock(o);
  return 0;
}
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t *g) {
  if (!on || self < 0)
    return __real___cxa_guard_acquire(g);
  lock(g, true);
  if (*(char *)g) {
    unlock(g);
    return 0;
  }
  return 1;
}
void __wrap___cxa_guard_release(uint64_t *g) {
  if (!on || self < 0)
    return __real___cxa_guard_release(g);
  *(char *)g = 1;
  unlock(g);
}
void __wrap___cxa_guard_abort(uint64_t *g) {
  if (!on || self < 0)
    return __real___cxa_guard_abort(g);
  unlock(g);
}
// What the library has libc do to memory; and functions of libc with a state
// of their own.
#define LIVE (on && self >= 0 && g_env.active)
void *__real_memcpy(void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (LIVE)
    access(s, n, false, PC), access(d, n, true, PC);
  return __real_memcpy(d, s, n);
}
void *__real_memmove(void *, const void *, size_t);
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (LIVE)
    access(s, n, false, PC), access(d, n, true, PC);
  return __real_memmove(d, s, n);
}
void *__real_memset(void *, int, size_t);
void *__wrap_memset(void *d, int v, size_t n) {
  if (LIVE)
    access(d, n, true, PC);
  return __real_memset(d, v, n);
}
size_t __real_strlen(const char *);
#define RD(p, n) (LIVE ? (void)access(p, n, false, PC) : (void)0)
#define WR(p, n) (LIVE ? (void)access(p, n, true, PC) : (void)0)
char *__real_strcpy(char *, const char *);
char *__wrap_strcpy(char *d, const char *s) {
  size_t n = __real_strlen(s) + 1;
  RD(s, n), WR(d, n);
  return __real_strcpy(d, s);
}
char *__real_stpcpy(char *, const char *);
char *__wrap_stpcpy(char *d, const char *s) {
  size_t n = __real_strlen(s) + 1;
  RD(s, n), WR(d, n);
  return __real_stpcpy(d, s);
}
char *__real_strncpy(char *, const char *, size_t);
char *__wrap_strncpy(char *d, const char *s, size_t n) {
  RD(s, strnlen(s, n)), WR(d, n);
  return __real_strncpy(d, s, n);
}
char *__real_strcat(char *, const char *);
char *__wrap_strcat(char *d, const char *s) {
  size_t m = __real_strlen(d), n = __real_strlen(s) + 1;
  RD(s, n), RD(d, m + 1), WR(d + m, n);
  return __real_strcat(d, s);
}
char *__real_strncat(char *, const char *, size_t);
char *__wrap_strncat(char *d, const char *s, size_t k) {
  size_t m = __real_strlen(d), n = strnlen(s, k);
  RD(s, n), RD(d, m + 1), WR(d + m, n + 1);
  return __real_strncat(d, s, k);
}
size_t __real_strlen(const char *);
size_t __wrap_strlen(const char *s) {
  size_t n = __real_strlen(s);
  RD(s, n + 1);
  return __real_strlen(s);
}
int __real_strcmp(const char *, const char *);
int __wrap_strcmp(const char *a, const char *b) {
  RD(a, __real_strlen(a) + 1), RD(b, __real_strlen(b) + 1);
  return __real_strcmp(a, b);
}
int __real_strncmp(const char *, const char *, size_t);
int __wrap_strncmp(const char *a, const char *b, size_t n) {
  RD(a, strnlen(a, n)), RD(b, strnlen(b, n));
  return __real_strncmp(a, b, n);
}
int __real_memcmp(const void *, const void *, size_t);
int __wrap_memcmp(const void *a, const void *b, size_t n) {
  RD(a, n), RD(b, n);
  return __real_memcmp(a, b, n);
}
char *__real_strdup(const char *);
char *__wrap_strdup(const char *s) {
  RD(s, __real_strlen(s) + 1);
  return __real_strdup(s);
}
int __wrap_sprintf(char *d, const char *f, ...) {
  va_list a, b;
  va_start(a, f);
  va_copy(b, a);
  int n = vsnprintf(nullptr, 0, f, a);
  va_end(a);
  if (n >= 0)
    WR(d, (size_t)n + 1);
  n = vsprintf(d, f, b);
  va_end(b);
  return n;
}
int __wrap_snprintf(char *d, size_t k, const char *f, ...) {
  va_list a, b;
  va_start(a, f);
  va_copy(b, a);
  int n = vsnprintf(nullptr, 0, f, a);
  va_end(a);
  if (n >= 0 && k)
    WR(d, (size_t)n + 1 < k ? (size_t)n + 1 : k);
  n = vsnprintf(d, k, f, b);
  va_end(b);
  return n;
}
void __real_qsort(void *, size_t, size_t, int (*)(const void *, const void *));
void __wrap_qsort(void *p, size_t n, size_t k, int (*f)(const void *, const void *)) {
  WR(p, n * k);
  __real_qsort(p, n, k, f);
}
extern void (*g_touch)(void *, size_t, bool);
static void touch(void *p, size_t n, bool w) {
  if (LIVE)
    access(p, n, w, PC);
}
static int touch_set = (g_touch = touch, 0);
static char libc_state[8];
int __real_rand();
int __wrap_rand() {
  WR(libc_state, 8);
  return __real_rand();
}
void __real_srand(unsigned);
void __wrap_srand(unsigned s) {
  WR(libc_state, 8);
  __real_srand(s);
}
char *__real_strerror(int);
char *__wrap_strerror(int e) {
  WR(libc_state, 8);
  return __real_strerror(e);
}
struct tm *__real_localtime(const time_t *);
struct tm *__wrap_localtime(const time_t *t) {
  WR(libc_state, 8);
  return __real_localtime(t);
}
char *__real_ctime(const time_t *);
char *__wrap_ctime(const time_t *t) {
  WR(libc_state, 8);
  return __real_ctime(t);
}
char *__real_strtok(char *, const char *);
char *__wrap_strtok(char *s, const char *d) {
  if (LIVE)
    access(libc_state, 8, true, PC);
  return __real_strtok(s, d);
}
}
