/* Driver for the log (G01). */
// WRAP: time times
#include "common.h"
#include "wizard/log.h"
#include "wizard/client.h"
#include "wizard/thread_.h"
#include "wizard/thread-private.h"
#include "scratch.h"
#include <sys/stat.h>
#include <sys/times.h>
#include <pthread.h>
#include <time.h>

extern const char *SetLogName(const char *);

static long now, ticks, user;
time_t __wrap_time(time_t *t) { if (t != NULL) *t = (time_t) now; return (time_t) now; }
clock_t __wrap_times(struct tms *t) { memset(t, 0, sizeof(*t)); t->tms_utime = (clock_t) user; return (clock_t) ticks; }

static struct { char name[300]; long size; } seen[200];
static int nseen;
static long out_at, err_at;
static ExceptionInfo *ex;

static char *str(Op *op, int i)
{
  size_t n;
  unsigned char *b = arg_bytes(op, i, &n);
  char *s = (char *) malloc(n + 1);
  memcpy(s, b, n);
  s[n] = 0;
  free(b);
  return s;
}
static void drv_begin(void)
{
  char p[1200];
  int f;
  workdir_make();
  setenv("HOME", workdir, 1);
  setenv("TZ", "UTC0", 1);
  setenv("WIZARD_CONFIGURE_PATH", workdir, 1);
  snprintf(p, sizeof(p), "%s/stdout", workdir);
  f = open(p, O_CREAT | O_RDWR | O_TRUNC | O_APPEND, 0600); dup2(f, 1); close(f);
  snprintf(p, sizeof(p), "%s/stderr", workdir);
  f = open(p, O_CREAT | O_RDWR | O_TRUNC | O_APPEND, 0600); dup2(f, 2); close(f);
  snprintf(p, sizeof(p), "%s/logs", workdir);
  if (mkdir(p, 0700) < 0 || chdir(p) < 0) _exit(99);
}
static char *slurp(const char *path, long from, long *n)
{
  FILE *f = fopen(path, "rb");
  char *b;
  long end;
  *n = 0;
  if (f == NULL) return (char *) calloc(1, 1);
  fseek(f, 0, SEEK_END);
  end = ftell(f);
  if (end < from) from = end;
  b = (char *) malloc((size_t) (end - from) + 1);
  fseek(f, from, SEEK_SET);
  *n = (long) fread(b, 1, (size_t) (end - from), f);
  b[*n] = 0;
  fclose(f);
  return b;
}
static void fresh(const char *path, long *at)
{
  long n;
  char *b = slurp(path, *at, &n);
  out_bytes(b, (size_t) n);
  *at += n;
  free(b);
}
/* what was added to the files of the log */
static int first;
static void scan(const char *dir)
{
  DIR *d = opendir(dir);
  struct dirent *e;
  if (d == NULL) return;
  while ((e = readdir(d)) != NULL)
  {
    struct stat s;
    char p[600];
    int i;
    snprintf(p, sizeof(p), "%s%s%s", *dir == '.' ? "" : dir, *dir == '.' ? "" : "/", e->d_name);
    if (e->d_name[0] == '.' || stat(p, &s) < 0 || !S_ISREG(s.st_mode)) continue;
    for (i = 0; i < nseen; i++) if (strcmp(seen[i].name, p) == 0) break;
    if (i == nseen) { if (nseen == 200) _exit(99); snprintf(seen[nseen].name, sizeof(seen[0].name), "%s", p); seen[nseen++].size = -1; }
    if (seen[i].size == (long) s.st_size) continue;
    if (!first) outf(",");
    first = 0;
    outf("[");
    out_bytes(p, strlen(p));
    outf(",");
    if (seen[i].size > (long) s.st_size) outf("[-1]");
    else { long at = seen[i].size < 0 ? 0 : seen[i].size; fresh(p, &at); }
    outf("]");
    seen[i].size = (long) s.st_size;
  }
  closedir(d);
}
static void files(void)
{
  first = 1;
  outf("[");
  scan(".");
  scan("no");
  outf("]");
}
static const char *kinds[] = { "All", "Blob", "Deprecate", "Configure", "Exception", "Locale", "None", "Resource", "Trace", "User", "Warning", "Bogus" };
static const char *outs[] = { "console", "stdout", "stderr", "file", "none" };

/* the tokens of a mask: triples of bytes */
static char *mask(Op *op, int i)
{
  static char s[2000];
  size_t n, k;
  unsigned char *b = arg_bytes(op, i, &n);
  s[0] = 0;
  for (k = 0; k + 2 < n; k += 3)
  {
    char name[40], *c;
    snprintf(name, sizeof(name), "%s", kinds[b[k + 1] - 1]);
    if (b[k + 2] == 1) for (c = name; *c; c++) if (*c >= 'A' && *c <= 'Z') *c |= 32;
    if (k > 0) strcat(s, b[k + 2] == 2 ? ", " : ",");
    if (b[k + 2] == 2 && !b[k]) strcat(s, "-");
    if (b[k]) strcat(s, "!");
    strcat(s, name);
  }
  free(b);
  return s;
}

struct job { int id, what, n; pthread_t t; };
static void *work(void *p)
{
  struct job *j = (struct job *) p;
  int i;
  for (i = 0; i < j->n; i++)
    switch (j->what)
    {
      case 0: (void) LogWizardEvent(UserEvent, "m.c", "f", 1, "event %d %d end", j->id, i); break;
      case 1: SetLogFormat(i % 2 ? "%e" : "a longer format: %e"); break;
      case 2: CloseWizardLog(); break;
      case 3: (void) SetLogEventMask(i % 2 ? "User,Blob" : "User"); break;
    }
  return NULL;
}
static int count(const char *hay, const char *needle)
{
  int n = 0;
  while ((hay = strstr(hay, needle)) != NULL) { n++; hay += strlen(needle); }
  return n;
}
/* threads log at once while the settings change; in a process of its own */
static int race(int how)
{
  pid_t pid;
  int status = 0;
  fflush(NULL);
  pid = fork();
  if (pid == 0)
    {
      struct job j[5];
      char p[1200], *all[3] = { NULL, NULL, NULL }, *o;
      long n;
      int i, k, f, per = 60, want[3] = { 0, 0, 0 };
      DIR *d;
      struct dirent *e;
      static char whole[4000000];
      snprintf(p, sizeof(p), "%s/race", workdir);
      workdir_empty(p);
      if (mkdir(p, 0700) < 0 || chdir(p) < 0) _exit(98);
      f = open("../race.out", O_CREAT | O_RDWR | O_TRUNC | O_APPEND, 0600); dup2(f, 1); close(f);
      f = open("../race.err", O_CREAT | O_RDWR | O_TRUNC | O_APPEND, 0600); dup2(f, 2); close(f);
      (void) SetLogEventMask("User");
      (void) SetLogFormat("%e");
      for (i = 0; i < 5; i++)
      {
        j[i].id = i; j[i].n = per;
        j[i].what = i < 3 ? 0 : i == 3 ? (how & 1 ? 1 : 3) : (how & 2 ? 2 : 1);
        pthread_create(&j[i].t, NULL, work, &j[i]);
      }
      for (i = 0; i < 5; i++) pthread_join(j[i].t, NULL);
      fflush(NULL);
      all[0] = slurp("../race.out", 0, &n);
      all[1] = slurp("../race.err", 0, &n);
      whole[0] = 0;
      d = opendir(".");
      while ((e = readdir(d)) != NULL)
        if (e->d_name[0] != '.') { o = slurp(e->d_name, 0, &n); strncat(whole, o, sizeof(whole) - strlen(whole) - 1); free(o); }
      closedir(d);
      all[2] = whole;
      /* every event as often in a destination as any other */
      for (k = 0; k < 3; k++) want[k] = -1;
      for (i = 0; i < 3; i++)
        for (f = 0; f < per; f++)
          for (k = 0; k < 3; k++)
          {
            char t[64];
            int c;
            snprintf(t, sizeof(t), "event %d %d end", i, f);
            c = count(all[k], t);
            if (want[k] < 0) want[k] = c;
            if (c != want[k]) _exit(10 + k);
          }
      /* and in the destinations that are set */
      if (want[0] > 1 || want[1] > 2 || want[2] > 1) _exit(20);
      _exit(0);
    }
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) ;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 98) _exit(99);
  return WIFEXITED(status) && WEXITSTATUS(status) == 0 ? 1 : WIFEXITED(status) ? -WEXITSTATUS(status) : -1000 - WTERMSIG(status);
}
static long number(const char *s)
{
  double v = atof(s);
  return v > 1e18 ? -1 : (long) v;
}
static void listing(void)
{
  char p[1200], *b, *line, *save, word[5][2000];
  FILE *f;
  long n;
  int k, found = 0, bits[4] = { 0, 0, 0, 0 };
  snprintf(p, sizeof(p), "%s/list", workdir);
  f = fopen(p, "w");
  (void) ListLogInfo(f, ex);
  fclose(f);
  b = slurp(p, 0, &n);
  for (line = strtok_r(b, "\n", &save); line != NULL; line = strtok_r(NULL, "\n", &save))
    if (found == 0 && strncmp(line, "Path: ", 6) == 0 && strncmp(line + 6, workdir, strlen(workdir)) == 0) found = 1;
    else if (found == 1)
      {
        char *w, *s2;
        for (w = strtok_r(line, " ", &s2); w != NULL && strcmp(w, "Generations") != 0; w = strtok_r(NULL, " ", &s2))
          for (k = 0; k < 4; k++) if (strcmp(w, outs[k]) == 0) bits[k] = 1;
        found = 2;
      }
    else if (found == 2 && line[0] == '-') found = 3;
    else if (found == 3)
      {
        int at = 0;
        word[0][0] = 0;
        if (sscanf(line, "%1999s %1999s %1999s %n", word[0], word[1], word[2], &at) < 3) break;
        /* the format begins three blanks after the limit */
        { char *q = strstr(line, word[0]) + strlen(word[0]); q = strstr(q, word[1]) + strlen(word[1]); q = strstr(q, word[2]) + strlen(word[2]); snprintf(word[3], sizeof(word[3]), "%s", strlen(q) >= 3 ? q + 3 : ""); }
        outf("[true,[%d,%d,%d,%d],", bits[0], bits[1], bits[2], bits[3]);
        out_cstr(word[0]);
        outf(",%ld,%ld,", number(word[1]), number(word[2]));
        out_cstr(word[3]);
        outf("]");
        found = 4;
      }
  if (found != 4) outf("[false,[0,0,0,0],[],0,0,[]]");
  free(b);
}

static void drv_op(const char *name, Op *op)
{
  char p[1200];
  if (strcmp(name, "clock") == 0)
    {
      now += arg_int(op, 0); ticks += arg_int(op, 1); user += arg_int(op, 2);
      outf("1");
    }
  else if (strcmp(name, "conf") == 0)
    {
      FILE *f;
      size_t n, i;
      unsigned char *o = arg_bytes(op, 1, &n);
      snprintf(p, sizeof(p), "%s/log.xml", workdir);
      f = fopen(p, "w");
      fprintf(f, "<?xml version=\"1.0\"?>\n<logmap>\n  <log events=\"%s\" />\n", mask(op, 0));
      fprintf(f, "  <log output=\"");
      for (i = 0; i < n; i++) fprintf(f, i ? ",%s" : "%s", outs[o[i] - 1]);
      fprintf(f, "\" />\n  <log filename=\"%s\" />\n", str(op, 2));
      if (arg_int(op, 3) < 0) fprintf(f, "  <log generations=\"unlimited\" />\n"); else fprintf(f, "  <log generations=\"%ld\" />\n", arg_int(op, 3));
      if (arg_int(op, 4) < 0) fprintf(f, "  <log limit=\"unlimited\" />\n"); else fprintf(f, "  <log limit=\"%ld\" />\n", arg_int(op, 4));
      fprintf(f, "  <log format=\"%s\" />\n</logmap>\n", str(op, 5));
      fclose(f);
      outf("1");
    }
  else if (strcmp(name, "up") == 0)
    {
      char t[64];
      WizardsToolkitGenesis("driver");
      (void) SetClientName(str(op, 0));
      ex = AcquireExceptionInfo();
      outf("[");
      out_cstr(WizardLibVersionText);
      snprintf(t, sizeof(t), "%ld", (long) getpid());
      outf(",");
      out_cstr(t);
      snprintf(t, sizeof(t), "%.20g", (double) GetWizardThreadSignature());
      outf(",");
      out_cstr(t);
      outf("]");
    }
  else if (strcmp(name, "mask") == 0)
    {
      long m = (long) SetLogEventMask(mask(op, 0));
      outf("[%ld,%d]", m, IsEventLogging() != WizardFalse);
    }
  else if (strcmp(name, "format") == 0) { SetLogFormat(str(op, 0)); outf("1"); }
  else if (strcmp(name, "client") == 0) { (void) SetClientName(str(op, 0)); outf("1"); }
  else if (strcmp(name, "name") == 0) out_cstr(SetLogName(str(op, 0)));
  else if (strcmp(name, "close") == 0) { CloseWizardLog(); files(); }
  else if (strcmp(name, "list") == 0) listing();
  else if (strcmp(name, "race") == 0) outf("%d", race((int) arg_int(op, 0)));
  else if (strcmp(name, "grow") == 0)
    {
      /* the file that was added to last */
      int i, best = -1;
      struct stat s;
      long at = -1;
      DIR *d;
      struct dirent *e;
      char fd[64], path[1200];
      /* the one that is open */
      d = opendir("/proc/self/fd");
      snprintf(p, sizeof(p), "%s/logs/", workdir);
      while ((e = readdir(d)) != NULL)
      {
        ssize_t k;
        snprintf(fd, sizeof(fd), "/proc/self/fd/%s", e->d_name);
        k = readlink(fd, path, sizeof(path) - 1);
        if (k <= 0) continue;
        path[k] = 0;
        if (strncmp(path, p, strlen(p)) == 0)
          for (i = 0; i < nseen; i++) if (strcmp(seen[i].name, path + strlen(p)) == 0) best = i;
      }
      closedir(d);
      (void) at;
      if (best < 0) outf("0");
      else
        {
          /* a hole does as well as text */
          if (stat(seen[best].name, &s) < 0 || truncate(seen[best].name, s.st_size + (arg_int(op, 0) << 20)) < 0) _exit(99);
          seen[best].size = (long) s.st_size + (arg_int(op, 0) << 20);
          outf("1");
        }
    }
  else if (strcmp(name, "mkdir") == 0) { (void) mkdir("no", 0700); outf("1"); }
  else if (strcmp(name, "event") == 0 || strcmp(name, "throw") == 0)
    {
      long k, times = arg_int(op, 5);
      char *w = str(op, 4), *t = (char *) calloc(1, strlen(w) * (size_t) times + 1);
      int r;
      for (k = 0; k < times; k++) strcat(t, w);
      if (strcmp(name, "throw") == 0)
        {
          r = ThrowWizardException(ex, str(op, 1), str(op, 2), (size_t) arg_int(op, 3), (ExceptionType) arg_int(op, 0), "%s", t) != WizardFalse;
          if (arg_int(op, 0) == 399) ClearWizardException(ex);
        }
      else
        r = LogWizardEvent((LogEventType) arg_int(op, 0), str(op, 1), str(op, 2), (size_t) arg_int(op, 3), "%s", t) != WizardFalse;
      outf("[%d,", r);
      snprintf(p, sizeof(p), "%s/stdout", workdir);
      fresh(p, &out_at);
      outf(",");
      snprintf(p, sizeof(p), "%s/stderr", workdir);
      fresh(p, &err_at);
      outf(",");
      files();
      outf("]");
      free(t);
    }
}
static void drv_end(void) { if (chdir("/") == 0) workdir_remove(); }
