/*
  Driver skeleton: reads behaviours from stdin, one operation per line, a line
  with a single '.' ending each.  Every behaviour runs in a child process of
  its own; each operation answers with one line ">JSON".
*/
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include "wizard/studio.h"
#include "wizard/WizardsToolkit.h"

#ifndef MAXARGS
#define MAXARGS 64
#endif

typedef struct
{
  int argc;
  char *raw[MAXARGS];
} Op;

/* provided by each driver */
static void drv_begin(void);
static void drv_op(const char *name, Op *op);
static void drv_end(void);

static FILE *drv_out;

static long arg_int(Op *op, int i)
{
  if (i >= op->argc) { fprintf(stderr, "missing argument %d\n", i); _exit(99); }
  return strtol(op->raw[i], NULL, 10);
}

static int hexval(int c)
{
  if (c >= '0' && c <= '9') return c - '0';
  return (c | 32) - 'a' + 10;
}

/* bytes of argument i, NUL terminated, malloc'ed */
static unsigned char *arg_bytes(Op *op, int i, size_t *n)
{
  const char *p;
  size_t len, k;
  unsigned char *b;

  if (i >= op->argc) { fprintf(stderr, "missing argument %d\n", i); _exit(99); }
  p = op->raw[i] + 1;
  len = strlen(p) / 2;
  b = (unsigned char *) malloc(len + 1);
  for (k = 0; k < len; k++)
    b[k] = (unsigned char) (hexval(p[2 * k]) * 16 + hexval(p[2 * k + 1]));
  b[len] = 0;
  if (n) *n = len;
  return b;
}

static char *arg_str(Op *op, int i)
{
  return (char *) arg_bytes(op, i, NULL);
}

static StringInfo *arg_si(Op *op, int i)
{
  size_t n;
  unsigned char *b = arg_bytes(op, i, &n);
  StringInfo *s = AcquireStringInfo(n);
  SetStringInfoDatum(s, b);
  free(b);
  return s;
}

static void outf(const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vfprintf(drv_out, fmt, ap);
  va_end(ap);
}

static void out_bytes(const void *p, size_t n)
{
  const unsigned char *b = (const unsigned char *) p;
  size_t k;
  fputc('[', drv_out);
  for (k = 0; k < n; k++)
    fprintf(drv_out, k ? ",%d" : "%d", b[k]);
  fputc(']', drv_out);
}

static void out_cstr(const char *s)
{
  if (s == NULL) { outf("[-1]"); return; }
  out_bytes(s, strlen(s));
}

static void out_si(const StringInfo *s)
{
  if (s == NULL) { outf("[-1]"); return; }
  out_bytes(GetStringInfoDatum(s), GetStringInfoLength(s));
}

static void drv_run(char **lines, int n)
{
  int i, a;
  unsigned int secs = 20;

  if (getenv("DRV_ALARM")) secs = (unsigned int) atoi(getenv("DRV_ALARM"));
  signal(SIGALRM, SIG_DFL);
  alarm(secs);
  drv_begin();
  for (i = 0; i < n; i++)
  {
    Op op;
    char *save, *t, *name;
    name = strtok_r(lines[i], " ", &save);
    if (name == NULL) continue;
    op.argc = 0;
    while ((t = strtok_r(NULL, " ", &save)) != NULL && op.argc < MAXARGS)
      op.raw[op.argc++] = t;
    outf(">");
    drv_op(name, &op);
    outf("\n");
    fflush(drv_out);
  }
  drv_end();
  (void) a;
}

int main(int argc, char **argv)
{
  char *line = NULL, **lines = NULL;
  size_t cap = 0, nl = 0, al = 0;
  ssize_t len;
  int fd, hung = 0, dead = 0;

  (void) argc; (void) argv;
  /* whoever started this may have had signals ignored or blocked */
  {
    sigset_t none;
    int sig;
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, NULL);
    for (sig = 1; sig < 32; sig++)
      if (sig != SIGKILL && sig != SIGSTOP) signal(sig, SIG_DFL);
  }
  fd = dup(1);
  drv_out = fdopen(fd, "w");
  fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  dup2(fd, 2);
  close(fd);
  setvbuf(drv_out, NULL, _IOFBF, 1 << 16);
  while ((len = getline(&line, &cap, stdin)) >= 0)
  {
    while (len > 0 && (line[len - 1] == '\n' || line[len - 1] == '\r')) line[--len] = 0;
    if (strcmp(line, ".") == 0)
    {
      pid_t pid;
      int status = 0;
      size_t k;
      fflush(drv_out);
      if (hung >= 3 || dead >= 100)
      {
        /* enough has gone wrong for a verdict: do not spend hours on it */
        fprintf(drv_out, "\n#END skip\n");
        for (k = 0; k < nl; k++) free(lines[k]);
        nl = 0;
        continue;
      }
      pid = fork();
      if (pid == 0)
      {
        fd = open("/dev/null", O_RDONLY);
        dup2(fd, 0);
        close(fd);
        drv_run(lines, (int) nl);
        fflush(drv_out);
        _exit(0);
      }
      if (pid < 0) return 3;
      while (waitpid(pid, &status, 0) < 0 && errno == EINTR) ;
      if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM) hung++;
      if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) dead++;
      if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
        fprintf(drv_out, "\n#END ok\n");
      else if (WIFEXITED(status) && WEXITSTATUS(status) == 99)
        return 4;
      else if (WIFEXITED(status))
        fprintf(drv_out, "\n#END exit %d\n", WEXITSTATUS(status));
      else
        fprintf(drv_out, "\n#END signal %d\n", WTERMSIG(status));
      fflush(drv_out);
      for (k = 0; k < nl; k++) free(lines[k]);
      nl = 0;
      continue;
    }
    if (nl == al) { al = al ? al * 2 : 64; lines = (char **) realloc(lines, al * sizeof(*lines)); }
    lines[nl++] = strdup(line);
  }
  return 0;
}
#endif
