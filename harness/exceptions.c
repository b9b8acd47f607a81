/* Driver for error reports (E01). */
#include "common.h"
#include <pthread.h>
#include <sys/prctl.h>

static const char *texts[] = { NULL, "alpha", "beta", "", "with %s and %d", "gamma\n two" };
static ExceptionInfo *rep[4];
static char note[1 << 16];
static int told;

static int code(const char *t)
{
  size_t i, n;
  if (t == NULL) return 0;
  for (i = 1; i < sizeof(texts) / sizeof(*texts); i++) if (strcmp(t, texts[i]) == 0) return (int) i;
  n = strspn(t, "x");
  if (strcmp(t + n, " @ unit/place/7") == 0) return 1000 + (int) n;
  return -1;
}
static void tell(int kind, int slot, ExceptionType sev, const char *reason, const char *description)
{
  char one[128];
  snprintf(one, sizeof(one), "%s[%d,%d,%d,%d,%d]", told++ ? "," : "", kind, slot, (int) sev, code(reason), code(description));
  if (strlen(note) + strlen(one) + 1 < sizeof(note)) strcat(note, one);
}
#define HANDLER(k, s) static void handler_##k##_##s(const ExceptionType v, const char *r, const char *d) { tell(k, s, v, r, d); }
HANDLER(1, 1) HANDLER(1, 2) HANDLER(2, 1) HANDLER(2, 2) HANDLER(3, 1) HANDLER(3, 2)
static ErrorHandler table[4][3] = { { 0 }, { 0, handler_1_1, handler_1_2 }, { 0, handler_2_1, handler_2_2 }, { 0, handler_3_1, handler_3_2 } };
static ErrorHandler first[4];

static ErrorHandler set(int kind, ErrorHandler to)
{
  return kind == 1 ? (ErrorHandler) SetWarningHandler((WarningHandler) to) : kind == 2 ? SetErrorHandler(to) : (ErrorHandler) SetFatalErrorHandler((FatalErrorHandler) to);
}
static int count[8], order_ok, total;
static void counting(const ExceptionType v, const char *r, const char *d)
{
  int w = -1, k = -1;
  (void) v;
  if (sscanf(r, "w%d k%d", &w, &k) != 2 || w < 0 || w > 7 || d != NULL || count[w] != k) order_ok = 0;
  else count[w]++;
  total++;
}
struct job { ExceptionInfo *e; int w, n; pthread_t t; };
static void *work(void *p)
{
  struct job *j = (struct job *) p;
  int i;
  for (i = 0; i < j->n; i++)
  {
    char r[64];
    snprintf(r, sizeof(r), "w%d k%d", j->w, i);
    (void) ThrowException(j->e, OptionError, r, NULL);
  }
  return NULL;
}

static void drv_begin(void)
{
  int i;
  WizardsToolkitGenesis("driver");
  (void) SetClientName("cli");
  for (i = 1; i <= 3; i++) { rep[i] = AcquireExceptionInfo(); first[i] = set(i, table[i][1]); }
}

static void drv_op(const char *name, Op *op)
{
  int x = (int) arg_int(op, 0), i;
  if (strcmp(name, "throw") == 0)
    outf("%d", ThrowException(rep[x], (ExceptionType) arg_int(op, 1), texts[arg_int(op, 2)], texts[arg_int(op, 3)]) != WizardFalse);
  else if (strcmp(name, "throwf") == 0)
    {
      int n = (int) arg_int(op, 2);
      char *b = malloc((size_t) n + 1);
      memset(b, 'x', (size_t) n);
      b[n] = 0;
      (void) ThrowWizardException(rep[x], "unit", "place", 7, (ExceptionType) arg_int(op, 1), "%s", b);
      free(b);
      outf("1");
    }
  else if (strcmp(name, "catch") == 0)
    {
      *note = 0;
      told = 0;
      CatchException(rep[x]);
      outf("[%s]", note);
    }
  else if (strcmp(name, "clear") == 0) { ClearWizardException(rep[x]); outf("1"); }
  else if (strcmp(name, "renew") == 0) { rep[x] = DestroyExceptionInfo(rep[x]); rep[x] = AcquireExceptionInfo(); outf("1"); }
  else if (strcmp(name, "inherit") == 0) { InheritException(rep[x], rep[arg_int(op, 1)]); outf("1"); }
  else if (strcmp(name, "severity") == 0) outf("%d", (int) GetExceptionSeverity(rep[x]));
  else if (strcmp(name, "handler") == 0)
    {
      ErrorHandler was = set(x, table[x][arg_int(op, 1)]);
      for (i = 0; i < 3 && table[x][i] != was; i++) ;
      outf("%d", i);
    }
  else if (strcmp(name, "default") == 0)
    {
      int p[2], st = -1, n = 0;
      static char b[1 << 18];
      ssize_t k;
      pid_t pid;
      char *q;
      if (pipe(p) != 0) _exit(99);
      fflush(drv_out);
      pid = fork();
      if (pid == 0)
        {
          prctl(PR_SET_PDEATHSIG, SIGKILL);
          alarm(20);
          dup2(p[1], 2);
          for (i = 1; i <= 3; i++) (void) set(i, first[i]);
          CatchException(rep[x]);
          _exit(0);
        }
      close(p[1]);
      while (n < (int) sizeof(b) - 1 && (k = read(p[0], b + n, sizeof(b) - 1 - (size_t) n)) > 0) n += (int) k;
      b[n] = 0;
      close(p[0]);
      waitpid(pid, &st, 0);
      outf("[[");
      /* each line is "cli: REASON (DESCRIPTION).\n"; a text may hold a newline */
      for (q = b, i = 0; *q != 0; i++)
      {
        char *end = strstr(q, ".\ncli: "), *d, *mid;
        if (end == NULL) end = b + n - 2;
        if (strncmp(q, "cli: ", 5) != 0 || end < q + 5 || strncmp(end, ".\n", 2) != 0) { outf("%s[-1,-1]", i ? "," : ""); break; }
        *end = 0;
        d = NULL;
        mid = strstr(q + 5, " (");
        if (mid != NULL && end[-1] == ')') { *mid = 0; end[-1] = 0; d = mid + 2; }
        outf("%s[%d,%d]", i ? "," : "", code(q + 5), code(d));
        q = end + 2;
      }
      outf("],%d]", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    }
  else if (strcmp(name, "threads") == 0)
    {
      int w = (int) arg_int(op, 1), n = (int) arg_int(op, 2);
      struct job j[8];
      ErrorHandler was;
      for (i = 0; i < w; i++) { j[i].e = rep[x]; j[i].w = i; j[i].n = n; count[i] = 0; pthread_create(&j[i].t, NULL, work, &j[i]); }
      for (i = 0; i < w; i++) pthread_join(j[i].t, NULL);
      order_ok = 1;
      total = 0;
      was = set(2, counting);
      CatchException(rep[x]);
      (void) set(2, was);
      outf("[%d,%d]", total, order_ok && (int) GetExceptionSeverity(rep[x]) == 0);
    }
}
static void drv_end(void) { int i; for (i = 1; i <= 3; i++) rep[i] = DestroyExceptionInfo(rep[i]); }
