// Seams: link-time wrappers (ld --wrap) around what the library asks of the
// outside world.  With no fault configured they pass through.
#include "env.h"
#include <execinfo.h>
#include <unistd.h>
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <glpk.h>
#include <isl/ctx.h>
#include <isl/point.h>
#include <isl/set.h>
#include <isl/space.h>
#include <isl/val.h>
#include <malloc.h>
#include <stdio.h>
#include <sys/time.h>

Env g_env;

// ------------------------------------------------------------------ files
struct Cookie {
  VFile *f;
  size_t pos;
};
static ssize_t ck_read(void *c, char *buf, size_t n) {
  SeamsOff off;
  Cookie *k = (Cookie *)c;
  VFile *f = k->f;
  size_t len = f->content.size();
  if (f->eio_at >= 0 && (long)k->pos >= f->eio_at) {
    stat("fault.file.eio");
    errno = EIO;
    return -1;
  }
  size_t lim = len;
  if (f->eio_at >= 0)
    lim = std::min<size_t>(lim, (size_t)f->eio_at);
  size_t avail = k->pos < lim ? lim - k->pos : 0;
  n = std::min(n, avail);
  if (f->chunk > 0 && n > (size_t)f->chunk) {
    n = (size_t)f->chunk;
    stat("fault.file.short_read");
  }
  memcpy(buf, f->content.data() + k->pos, n);
  k->pos += n;
  return (ssize_t)n;
}
static int ck_close(void *c) {
  SeamsOff off;
  Cookie *k = (Cookie *)c;
  k->f->closes++;
  g_env.open_streams--;
  delete k;
  return 0;
}
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *path, const char *mode) {
  if (!g_env.active)
    return __real_fopen(path, mode);
  SeamsOff off;
  auto it = g_env.files.find(path);
  stat("fopen");
  if (it == g_env.files.end() || strchr(mode, 'w') || strchr(mode, 'a')) {
    if (it == g_env.files.end())
      g_env.unknown_opens.push_back(path);
    errno = ENOENT;
    return nullptr;
  }
  VFile &f = it->second;
  if (f.vanish_after >= 0 && f.opens >= f.vanish_after) {
    stat("fault.file.vanish");
    errno = ENOENT;
    return nullptr;
  }
  f.opens++;
  if (f.open_errno) {
    stat("fault.file.open_error");
    errno = f.open_errno;
    f.closes++;
    return nullptr;
  }
  g_env.open_streams++;
  cookie_io_functions_t io = {ck_read, nullptr, nullptr, ck_close};
  return fopencookie(new Cookie{&f, 0}, "r", io);
}

// Reading: a caller that goes on although nothing comes is stuck.
void (*g_touch)(void *, size_t, bool) = nullptr;
static void came(bool something) {
  if (!g_env.active)
    return;
  g_env.fruitless = something ? 0 : g_env.fruitless + 1;
  if (g_env.fruitless > 2000) {
    g_env.stuck = true;
    if (g_env.on_stuck)
      g_env.on_stuck();
  }
}
extern "C" int __isoc99_vfscanf(FILE *, const char *, va_list);
static int scan(FILE *f, const char *fmt, va_list ap) {
  va_list to;
  va_copy(to, ap);
  int r = __isoc99_vfscanf(f, fmt, ap);
  int left = g_touch ? r : 0; // where the numbers went
  for (const char *p = fmt; left > 0 && (p = strchr(p, '%'));) {
    p++;
    if (*p == '%' || *p == '*') {
      p++;
      continue;
    }
    while (isdigit((unsigned char)*p))
      p++;
    int l = 0;
    for (; *p == 'l' || *p == 'h' || *p == 'j' || *p == 'z'; p++)
      l += *p == 'h' ? -1 : 1;
    if (!strchr("diuxofeg", *p))
      break;
    g_touch(va_arg(to, void *), strchr("feg", *p) && !l ? 4 : l > 0 ? 8 : l < -1 ? 1 : l ? 2 : 4, true);
    left--;
  }
  va_end(to);
  came(r > 0);
  return r;
}
#define SCAN(name)                                                             \
  extern "C" int __wrap_##name(FILE *f, const char *fmt, ...) {                \
    va_list ap;                                                                \
    va_start(ap, fmt);                                                         \
    int r = scan(f, fmt, ap);                                                  \
    va_end(ap);                                                                \
    return r;                                                                  \
  }
SCAN(__isoc99_fscanf)
SCAN(__isoc23_fscanf)
SCAN(fscanf)
extern "C" char *__real_fgets(char *, int, FILE *);
extern "C" char *__wrap_fgets(char *b, int n, FILE *f) {
  char *r = __real_fgets(b, n, f);
  came(r);
  return r;
}
extern "C" int __real_fgetc(FILE *);
extern "C" int __wrap_fgetc(FILE *f) {
  int r = __real_fgetc(f);
  came(r != EOF);
  return r;
}
extern "C" int __real_getc(FILE *);
extern "C" int __wrap_getc(FILE *f) {
  int r = __real_getc(f);
  came(r != EOF);
  return r;
}
extern "C" ssize_t __real_getline(char **, size_t *, FILE *);
extern "C" ssize_t __wrap_getline(char **b, size_t *n, FILE *f) {
  ssize_t r = __real_getline(b, n, f);
  came(r >= 0);
  return r;
}
extern "C" size_t __real_fread(void *, size_t, size_t, FILE *);
extern "C" size_t __wrap_fread(void *b, size_t k, size_t n, FILE *f) {
  size_t r = __real_fread(b, k, n, f);
  came(r);
  return r;
}

// ------------------------------------------------------------------ clock
extern "C" int __real_gettimeofday(struct timeval *, void *);
extern "C" int __wrap_gettimeofday(struct timeval *tv, void *tz) {
  Env &e = g_env;
  if (!e.active)
    return __real_gettimeofday(tv, tz);
  e.clock_reads++;
  switch (e.clock_mode) {
  case 0:
    e.clock_us += 1 + e.clock_rng.below(50);
    break;
  case 1:
    break;
  case 2: // jumps of up to ten years, NTP-style
    if (e.clock_rng.chance(50)) {
      e.clock_us += e.clock_rng.below(315360000000000ull);
      e.clock_faults++;
    }
    break;
  case 3:
    e.clock_us -= std::min<uint64_t>(e.clock_us, e.clock_rng.below(5000000));
    e.clock_faults++;
    break;
  case 4:
    if (e.clock_rng.chance(50)) {
      e.clock_faults++;
      errno = EFAULT;
      return -1;
    }
    e.clock_us += 1;
    break;
  }
  tv->tv_sec = (time_t)(e.clock_us / 1000000);
  tv->tv_usec = (suseconds_t)(e.clock_us % 1000000);
  return 0;
}

// ------------------------------------------------------------------ solver
// Another integer point of the set instead of the least one.
extern "C" isl_set *__real_isl_set_lexmin(isl_set *);
extern "C" isl_set *__wrap_isl_set_lexmin(isl_set *s) {
  Env &e = g_env;
  if (!e.active || e.solver_mode == 0)
    return __real_isl_set_lexmin(s);
  SeamsOff off;
  e.solver_calls++;
  if (!s || !e.solver_rng.chance(e.solver_pct))
    return __real_isl_set_lexmin(s);
  int n = (int)isl_set_dim(s, isl_dim_set);
  isl_set *m = __real_isl_set_lexmin(isl_set_copy(s));
  if (n == 0 || isl_set_is_empty(m) != isl_bool_false) {
    isl_set_free(s);
    return m;
  }
  isl_point *p = isl_set_sample_point(isl_set_copy(m));
  // Ask for a larger value of some coordinates.
  int tries = 1 + (int)e.solver_rng.below(2);
  isl_set *t = isl_set_copy(s);
  for (int i = 0; i < tries; i++) {
    int k = (int)e.solver_rng.below((uint64_t)n);
    isl_val *v = isl_point_get_coordinate_val(p, isl_dim_set, k);
    v = isl_val_add_ui(v, (unsigned)(1 + e.solver_rng.below(2)));
    isl_set *u = isl_set_lower_bound_val(isl_set_copy(t), isl_dim_set, (unsigned)k, v);
    if (isl_set_is_empty(u) == isl_bool_false) {
      isl_set_free(t);
      t = u;
    } else
      isl_set_free(u);
  }
  isl_point_free(p);
  isl_set_free(s);
  t = __real_isl_set_lexmin(t);
  if (isl_set_is_equal(t, m) == isl_bool_false)
    e.solver_fired++;
  isl_set_free(m);
  return t;
}

// GLPK: another objective (so another feasible vertex is the best one), noise
// within the solver's own tolerance, and giving up.
extern "C" void __real_glp_set_obj_coef(glp_prob *, int, double);
extern "C" void __wrap_glp_set_obj_coef(glp_prob *p, int j, double v) {
  Env &e = g_env;
  if (e.active && e.glpk_alt && v > 0 && e.solver_rng.chance(40)) {
    v *= 1 + (double)e.solver_rng.below(4);
    e.glpk_fired++;
  }
  __real_glp_set_obj_coef(p, j, v);
}
extern "C" double __real_glp_mip_col_val(glp_prob *, int);
extern "C" double __wrap_glp_mip_col_val(glp_prob *p, int j) {
  Env &e = g_env;
  double v = __real_glp_mip_col_val(p, j);
  if (e.active && e.glpk_noise)
    v += ((double)e.solver_rng.below(2001) - 1000) * 1e-12;
  return v;
}
static bool glpk_gives_up() {
  Env &e = g_env;
  if (!e.active || !e.glpk_fail)
    return false;
  e.glpk_calls++;
  if (!e.solver_rng.chance(e.glpk_fail))
    return false;
  e.glpk_failed++;
  return true;
}
extern "C" int __real_glp_simplex(glp_prob *, const glp_smcp *);
extern "C" int __wrap_glp_simplex(glp_prob *p, const glp_smcp *a) {
  return glpk_gives_up() ? GLP_EITLIM : __real_glp_simplex(p, a);
}
extern "C" int __real_glp_intopt(glp_prob *, const glp_iocp *);
extern "C" int __wrap_glp_intopt(glp_prob *p, const glp_iocp *a) {
  return glpk_gives_up() ? GLP_EFAIL : __real_glp_intopt(p, a);
}

// ------------------------------------------------------------------ heap
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);
}
static bool alloc_fails() {
  Env &e = g_env;
  if (!e.active)
    return false;
  long n = e.allocs++;
  if (e.fail_at >= 0 && n >= e.fail_at &&
      (e.fail_len < 0 || n < e.fail_at + e.fail_len)) {
    e.fail_fired++;
    if (getenv("SIM_BT")) { // debugging aid
      SeamsOff off;
      void *b[24];
      backtrace_symbols_fd(b, backtrace(b, 24), 2);
      write(2, "--\n", 3);
    }
    errno = ENOMEM;
    return true;
  }
  return false;
}
static void junk(void *p, size_t from, size_t n) {
  Env &e = g_env;
  unsigned char *b = (unsigned char *)p;
  if (e.heap_mode == 1)
    memset(b + from, e.heap_byte, n - from);
  else if (e.heap_mode == 2) {
    uint64_t v = 0;
    for (size_t i = from; i < n; i++) {
      if ((i & 7) == 0 || i == from)
        v = e.heap_rng.next();
      b[i] = (unsigned char)(v >> ((i & 7) * 8));
    }
  }
}
#ifndef SIM_ASAN
// ---- ledger: open addressing with tombstones, fixed size
static const size_t LCAP = 1u << 20;
static Block *g_led;
static size_t g_led_n;
static long g_serial;
static char *const TOMB = (char *)1;
static size_t lhash(void *p) {
  return (size_t)(((uint64_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 44);
}
static void led_add(void *p, size_t n, void **fp) {
  if (!p || !g_env.ledger)
    return;
  if (!g_led)
    g_led = (Block *)__libc_calloc(LCAP, sizeof(Block));
  if (g_led_n > LCAP / 2)
    return;
  size_t h = lhash(p);
  while (g_led[h].p && g_led[h].p != TOMB)
    h = (h + 1) & (LCAP - 1);
  if (!g_led[h].p)
    g_led_n++;
  Block &b = g_led[h];
  b.p = p, b.n = n, b.serial = g_serial++;
  for (auto &x : b.ra)
    x = nullptr;
  // Frame pointers (the library is built with them; others end the chain).
  char *lo = (char *)fp;
  for (int i = 0; i < 6; i++) {
    if ((char *)fp < lo || (char *)fp > lo + (1 << 20) || ((uint64_t)fp & 7))
      break;
    b.ra[i] = fp[1];
    lo = (char *)fp + 8;
    fp = (void **)fp[0];
  }
}
static bool led_del(void *p) {
  if (!p || !g_led)
    return false;
  size_t h = lhash(p);
  while (g_led[h].p) {
    if (g_led[h].p == p) {
      g_led[h].p = TOMB;
      return true;
    }
    h = (h + 1) & (LCAP - 1);
  }
  return false;
}
std::vector<Block> ledger_live() {
  SeamsOff off;
  std::vector<Block> v;
  for (size_t i = 0; g_led && i < LCAP; i++)
    if (g_led[i].p && g_led[i].p != TOMB)
      v.push_back(g_led[i]);
  std::sort(v.begin(), v.end(), [](const Block &a, const Block &b) { return a.serial < b.serial; });
  return v;
}
void ledger_reset() {
  if (g_led)
    memset(g_led, 0, LCAP * sizeof(Block));
  g_led_n = 0;
  g_serial = 0;
}
#define FP ((void **)__builtin_frame_address(0))
#ifdef SIM_THREADS
void sched_block(void *p, size_t n);
#else
static inline void sched_block(void *, size_t) {}
#endif
extern "C" void *malloc(size_t n) {
  if (!g_env.active) {
    void *p = __libc_malloc(n);
    sched_block(p, n);
    return p;
  }
  if (alloc_fails())
    return nullptr;
  size_t m = n;
  if (g_env.heap_pad)
    m += g_env.heap_rng.below(4) * 16;
  void *p = __libc_malloc(m);
  if (g_env.heap_pad && g_env.heap_rng.below(2)) {
    // Addresses in another order: this block from further up, the next one
    // from here.
    void *q = __libc_malloc(m);
    __libc_free(p);
    p = q;
  }
  if (p && g_env.heap_mode)
    junk(p, 0, n);
  led_add(p, n, FP);
  sched_block(p, n);
  return p;
}
extern "C" void *calloc(size_t a, size_t b) {
  if (!g_env.active) {
    void *p = __libc_calloc(a, b);
    sched_block(p, a * b);
    return p;
  }
  if (alloc_fails())
    return nullptr;
  void *p = __libc_calloc(a, b);
  led_add(p, a * b, FP);
  sched_block(p, a * b);
  return p;
}
extern "C" void *realloc(void *q, size_t n) {
  if (!g_env.active) {
    bool was = led_del(q);
    void *p = __libc_realloc(q, n);
    if (was)
      led_add(p, n, FP);
    sched_block(p, n);
    return p;
  }
  if (alloc_fails())
    return nullptr;
  size_t old = q ? malloc_usable_size(q) : 0;
  led_del(q);
  void *p = __libc_realloc(q, n);
  // Only what is certainly new may be scribbled on.
  if (p && n > old && g_env.heap_mode)
    junk(p, old, n);
  led_add(p, n, FP);
  sched_block(p, n);
  return p;
}
extern "C" void free(void *p) {
  led_del(p);
  if (p && g_env.active && g_env.heap_mode)
    junk(p, 0, malloc_usable_size(p));
  __libc_free(p);
}
#else
std::vector<Block> ledger_live() { return {}; }
void ledger_reset() {}
#endif
