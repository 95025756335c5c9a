/* Stands in for every command the scripts run: notes the step, injects the
 * planned fault, and otherwise runs the real command.  Called "pluto", it is a
 * stand-in for the tool itself. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <libgen.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static char key[8192];
static int occurrence(const char *dir) {
  unsigned long h = 1469598103934665603ul;
  for (char *p = key; *p; p++)
    h = (h ^ (unsigned char)*p) * 1099511628211ul;
  char f[4096];
  snprintf(f, sizeof f, "%s/n.%016lx", dir, h);
  int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (fd < 0 || write(fd, "x", 1) != 1)
    _exit(120);
  struct stat st;
  fstat(fd, &st);
  close(fd);
  return (int)st.st_size;
}
static void note(const char *dir, const char *file, const char *what) {
  char f[4096], b[9000];
  snprintf(f, sizeof f, "%s/%s", dir, file);
  int n = snprintf(b, sizeof b, "%s\n", what);
  int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (fd < 0 || write(fd, b, (size_t)n) != n)
    _exit(121);
  close(fd);
}
static int is_scop(const char *l, const char *w) {
  while (*l == ' ' || *l == '\t')
    l++;
  if (strncmp(l, "#pragma", 7))
    return 0;
  l += 7;
  if (*l != ' ' && *l != '\t')
    return 0;
  while (*l == ' ' || *l == '\t')
    l++;
  size_t n = strlen(w);
  return !strncmp(l, w, n) && (l[n] == '\n' || l[n] == 0 || l[n] == ' ' || l[n] == '\r');
}
/* The tool: transforms the first scop of the source (K_n becomes T_n). */
static int tool(int argc, char **argv, const char *fault) {
  char *src = NULL, *out = NULL, name[4096];
  int par = 0;
  for (int i = 1; i < argc; i++)
    if (!strcmp(argv[i], "-o") && i + 1 < argc)
      out = argv[++i];
    else if (argv[i][0] == '-')
      par |= !strcmp(argv[i], "--parallel");
    else if (!src)
      src = argv[i];
  if (!src)
    return 5;
  FILE *f = fopen(src, "r");
  if (!f)
    return 6;
  char line[4096];
  int in = 0;
  static char body[200000];
  size_t n = 0;
  while (fgets(line, sizeof line, f)) {
    if (!in && is_scop(line, "scop"))
      in = 1;
    else if (in == 1 && is_scop(line, "endscop"))
      in = 2;
    else if (in == 1)
      for (char *p = line; (p = strstr(p, "K_")); p += 2)
        n += (size_t)sprintf(body + n, "  T_%d(t1, t2);\n", atoi(p + 2));
  }
  fclose(f);
  if (in != 2)
    return 12;
  if (!out) {
    char *d = strdup(src);
    strcpy(name, basename(d));
    size_t l = strlen(name);
    if (l > 2 && !strcmp(name + l - 2, ".c"))
      name[l - 2] = 0;
    strcat(name, ".pluto.c");
    out = name;
  }
  if (!strcmp(fault, "fail"))
    return 12;
  FILE *o = fopen(".srcfilename", "w");
  if (o)
    fprintf(o, "%s\n", src), fclose(o);
  o = fopen(out, "w");
  if (!o)
    return 10;
  if (par)
    fprintf(o, "#include <omp.h>\n\n");
  fprintf(o, "  int t1, t2;\n int lb, ub;\n/* Start of CLooG code */\n");
  if (!strncmp(fault, "half", 4)) {
    fprintf(o, "%.*s", (int)(n / 2), body);
    fclose(o);
    if (!strcmp(fault, "halfsegv"))
      raise(SIGSEGV);
    return 1;
  }
  fprintf(o, "%s/* End of CLooG code */\n", body);
  if (fclose(o))
    return 1;
  o = fopen(".outfilename", "w");
  if (o)
    fprintf(o, "%s\n", out), fclose(o);
  return 0;
}
int main(int argc, char **argv) {
  const char *dir = getenv("SIM_DIR"), *wrap = getenv("SIM_WRAP");
  char *me = basename(strdup(argv[0]));
  size_t n = (size_t)snprintf(key, sizeof key, "%s", me);
  for (int i = 1; i < argc && n < sizeof key - 2; i++)
    n += (size_t)snprintf(key + n, sizeof key - n, " %s", argv[i]);
  if (n >= sizeof key)
    n = sizeof key - 1;
  for (char *p = key; *p; p++)
    if (*p == '\n' || *p == '\t')
      *p = '~';
  int occ = occurrence(dir);
  char st[9000];
  snprintf(st, sizeof st, "%d\t%s", occ, key);
  note(dir, "trace", st);
  /* plan: lines "occ\tkey\tkind\tvalue" */
  char f[4096], l[9000], kind[64] = "";
  long val = 0;
  snprintf(f, sizeof f, "%s/plan", dir);
  FILE *p = fopen(f, "r");
  while (p && fgets(l, sizeof l, p)) {
    char *t1 = strchr(l, '\t'), *t3 = strrchr(l, '\t');
    if (!t1 || t3 == t1)
      continue;
    *t3 = 0;
    char *t2 = strrchr(l, '\t');
    if (t2 == t1)
      continue;
    *t2 = 0;
    int o = atoi(l); /* 0: every time */
    if ((o == 0 || o == occ) && !strcmp(t1 + 1, key)) {
      snprintf(kind, sizeof kind, "%s", t2 + 1);
      val = atol(t3 + 1);
    }
  }
  if (p)
    fclose(p);
  if (kind[0]) {
    snprintf(st, sizeof st, "%s\t%d\t%s", kind, occ, key);
    note(dir, "fired", st);
  }
  int sig = strstr(kind, "int") ? SIGINT : strstr(kind, "term") ? SIGTERM : SIGHUP;
  int after = strstr(kind, "after") != NULL;
  int leader = strstr(kind, "leader") != NULL, group = strstr(kind, "group") != NULL;
  if (!strcmp(kind, "crash"))
    kill(0, SIGKILL), pause();
  if (!strcmp(kind, "kill9"))
    raise(SIGKILL);
  if ((leader || group) && !after)
    kill(leader ? getpgrp() : 0, sig);
  int rc = 0;
  if (!strcmp(me, "pluto")) {
    rc = tool(argc, argv, kind);
  } else {
    if (!strcmp(kind, "fail"))
      return !strcmp(me, "grep") ? 2 : 1;
    /* the real command, found beyond the directory of stand-ins */
    char path[4096];
    const char *dirs[] = {"/usr/bin", "/bin", "/usr/local/bin", NULL};
    int ok = 0;
    for (int i = 0; dirs[i] && !ok; i++) {
      snprintf(path, sizeof path, "%s/%s", dirs[i], me);
      ok = !access(path, X_OK) && strcmp(dirs[i], wrap ? wrap : "");
    }
    if (!ok)
      return 127;
    argv[0] = path; /* gcc finds its parts by it */
    if (!strcmp(kind, "full")) {
      struct rlimit r = {(rlim_t)val, (rlim_t)val};
      signal(SIGXFSZ, SIG_IGN);
      setrlimit(RLIMIT_FSIZE, &r);
    }
    if (!after && strcmp(kind, "crash_after")) {
      execv(path, argv);
      return 126;
    }
    pid_t c = fork();
    if (c == 0) {
      execv(path, argv);
      _exit(126);
    }
    int s;
    waitpid(c, &s, 0);
    rc = WIFEXITED(s) ? WEXITSTATUS(s) : 1;
  }
  if (!strcmp(kind, "crash_after"))
    kill(0, SIGKILL), pause();
  if (after)
    kill(leader ? getpgrp() : 0, sig);
  return rc;
}
