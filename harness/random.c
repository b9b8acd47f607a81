/* Driver for random generators and their stored reservoir (R01, R02). */
// WRAP: open
#include "common.h"
#include "wizard/random_.h"
#include "scratch.h"
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <pthread.h>

static const HashType hashes[] = { UndefinedHash, MD5Hash, SHA1Hash, SHA2224Hash, SHA2256Hash, SHA2384Hash, SHA2512Hash, SHA3Hash };
static RandomInfo *gen[4];
static int script, script_at;     /* scripted entropy, 0 for the system's */
static int no_entropy, no_device;

int getentropy(void *buffer, size_t length)
{
  unsigned char *b = (unsigned char *) buffer;
  size_t i;
  if (no_entropy) { errno = ENOSYS; return -1; }
  if (script == 0) return syscall(SYS_getrandom, buffer, length, 0) == (long) length ? 0 : -1;
  for (i = 0; i < length; i++, script_at++) b[i] = (unsigned char) (script * 91 + script_at * 13 + (script_at >> 8) * 7 + 5);
  return 0;
}
extern int __real_open(const char *path, int flags, ...);
int __wrap_open(const char *path, int flags, ...)
{
  mode_t mode = 0;
  va_list ap;
  va_start(ap, flags);
  if (flags & O_CREAT) mode = (mode_t) va_arg(ap, int);
  va_end(ap);
  if (strncmp(path, "/dev/", 5) == 0 && strstr(path, "random") != NULL)
    {
      if (no_device == 1) { errno = ENOENT; return -1; }
      if (no_device == 2) return __real_open("/dev/null", O_RDONLY);
      if (no_device == 3) return __real_open(workdir, O_RDONLY);
    }
  return __real_open(path, flags, mode);
}

static void drv_begin(void)
{
  workdir_make();
  setenv("HOME", workdir, 1);
  unsetenv("WIZARD_HOME");
  WizardsToolkitGenesis("driver");
}
static void bytes(const unsigned char *b, size_t n)
{
  size_t i;
  outf("[");
  for (i = 0; i < n; i++) outf(i ? ",%d" : "%d", b[i]);
  outf("]");
}
static int in_range(double v) { return v >= 0.0 && v < 1.0; }
static RandomInfo *begin(int hash, int entropy)
{
  RandomInfo *r;
  script = entropy;
  script_at = 0;
  r = AcquireRandomInfo(hashes[hash]);
  script = 0;
  return r;
}

static int by_word(const void *p, const void *q)
{
  unsigned long a = *(const unsigned long *) p, b = *(const unsigned long *) q;
  return a < b ? -1 : a > b;
}
struct job { RandomInfo *r; int m, n; unsigned char *out; pthread_t t; };
static void *work(void *p)
{
  struct job *j = (struct job *) p;
  int i;
  for (i = 0; i < j->m; i++)
  {
    StringInfo *k = GetRandomKey(j->r, (size_t) j->n);
    memcpy(j->out + 8 * i, GetStringInfoDatum(k) + (i % 2 ? j->n - 8 : 0), 8);
    k = DestroyStringInfo(k);
  }
  return NULL;
}
/* a child answers with n bytes */
static int child(int what, int arg, unsigned char *out, size_t n)
{
  int p[2], ok;
  pid_t pid;
  size_t at = 0;
  ssize_t k;
  if (pipe(p) != 0) _exit(99);
  fflush(drv_out);
  pid = fork();
  if (pid == 0)
    {
      unsigned char b[64];
      RandomInfo *r;
      int i;
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      alarm(20);
      if (what == 1) SetRandomSecretKey((unsigned long) arg);
      else SetRandomSecretKey(~0UL);
      r = AcquireRandomInfo(SHA2256Hash);
      if (r == NULL) _exit(1);
      if (what == 1)
        for (i = 0; i < 5; i++) { double v = GetPseudoRandomValue(r); memcpy(b + 8 * i, &v, 8); }
      else
        {
          double v = GetPseudoRandomValue(r);
          SetRandomKey(r, 8, b);
          memcpy(b + 8, &v, 8);
        }
      if (write(p[1], b, n) != (ssize_t) n) _exit(1);
      _exit(0);
    }
  close(p[1]);
  while (at < n && (k = read(p[0], out + at, n - at)) > 0) at += (size_t) k;
  close(p[0]);
  waitpid(pid, &ok, 0);
  return at == n && ok == 0;
}

#include "reservoir.h"

static void drv_op(const char *name, Op *op)
{
  int x, i;
  if (reservoir_op(name, op)) return;
  x = (int) arg_int(op, 0);
  if (strcmp(name, "new") == 0) { gen[x] = begin((int) arg_int(op, 1), (int) arg_int(op, 2)); outf("%d", gen[x] != NULL); }
  else if (strcmp(name, "destroy") == 0) { gen[x] = DestroyRandomInfo(gen[x]); outf("%d", gen[x] == NULL); }
  else if (strcmp(name, "secret") == 0) { SetRandomSecretKey(x < 0 ? ~0UL : (unsigned long) x); outf("1"); }
  else if (strcmp(name, "getsecret") == 0) outf("%ld", (long) GetRandomSecretKey(gen[x]));
  else if (strcmp(name, "key") == 0)
    {
      size_t n = (size_t) arg_int(op, 1);
      if (n % 3 == 2)
        {
          unsigned char *b = malloc(n);
          SetRandomKey(gen[x], n, b);
          bytes(b, n);
          free(b);
        }
      else
        {
          StringInfo *k = GetRandomKey(gen[x], n);
          bytes(GetStringInfoDatum(k), GetStringInfoLength(k));
          k = DestroyStringInfo(k);
        }
    }
  else if (strcmp(name, "value") == 0) outf("%d", in_range(GetRandomValue(gen[x])));
  else if (strcmp(name, "vary") == 0)
    {
      int n = (int) arg_int(op, 1), ok = 1, j;
      unsigned char first[256], same[256];
      memset(same, 1, sizeof(same));
      for (i = 0; i < 24; i++)
      {
        StringInfo *k = GetRandomKey(gen[x], (size_t) n);
        if (i == 0) memcpy(first, GetStringInfoDatum(k), (size_t) n);
        for (j = 0; j < n; j++) if (GetStringInfoDatum(k)[j] != first[j]) same[j] = 0;
        k = DestroyStringInfo(k);
      }
      for (j = 0; j < n; j++) ok &= !same[j];
      outf("%d", ok);
    }
  else if (strcmp(name, "pseudo") == 0)
    {
      double v = GetPseudoRandomValue(gen[x]);
      unsigned char b[8];
      memcpy(b, &v, 8);
      outf("[%d,", in_range(v));
      bytes(b, 8);
      outf("]");
    }
  else if (strcmp(name, "threads") == 0)
    {
      int t = (int) arg_int(op, 1), m = (int) arg_int(op, 2), n = (int) arg_int(op, 3), j;
      struct job w[8];
      for (i = 0; i < t; i++) { w[i].r = gen[x]; w[i].m = m; w[i].n = n; w[i].out = malloc((size_t) m * 8); pthread_create(&w[i].t, NULL, work, &w[i]); }
      for (i = 0; i < t; i++) pthread_join(w[i].t, NULL);
      outf("[");
      for (i = 0; i < t; i++)
      {
        for (j = 0; j < m; j++) { if (i + j) outf(","); bytes(w[i].out + 8 * j, 8); }
        free(w[i].out);
      }
      outf("]");
    }
  else if (strcmp(name, "far") == 0)
    {
      size_t n = (size_t) arg_int(op, 2), piece = (size_t) arg_int(op, 3), at = 0, k;
      unsigned char *b = malloc(n + 8), d[8];
      unsigned long f = 14695981039346656037UL, *w = (unsigned long *) b;
      RandomInfo *r = begin(x, (int) arg_int(op, 1));
      while (at < n)
      {
        k = n - at < piece ? n - at : piece;
        SetRandomKey(r, k, b + at);
        at += k;
      }
      r = DestroyRandomInfo(r);
      for (k = 0; k < n; k++) f = (f ^ b[k]) * 1099511628211UL;
      memcpy(d, &f, 8);
      qsort(b, n / 8, 8, by_word);
      for (k = 1; k < n / 8 && w[k] != w[k - 1]; k++) ;
      outf("[%d,", k >= n / 8);
      bytes(d, 8);
      outf("]");
      free(b);
    }
  else if (strcmp(name, "procs") == 0)
    {
      unsigned char b[16];
      outf("[");
      for (i = 0; i < x; i++)
      {
        if (!child(0, 0, b, 16)) continue;
        if (i) outf(",");
        bytes(b, 8);
        outf(",");
        bytes(b + 8, 8);
      }
      outf("]");
    }
  else if (strcmp(name, "pchild") == 0)
    {
      unsigned char b[40];
      outf("[");
      if (child(1, x, b, 40)) for (i = 0; i < 5; i++) { if (i) outf(","); bytes(b + 8 * i, 8); }
      outf("]");
    }
}
static void drv_end(void) { workdir_remove(); }
