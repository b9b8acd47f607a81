/* Driver for exclusive files (L01, L02). */
#include "control.h"
#include "wizard/file.h"

static char path[1200];
static FileInfo *held[MAXW][2];
static int depth[MAXW];          /* in the worker's process */
static int hold[MAXW], doing[MAXW];   /* in the scheduler: depth, command under way (0: none) */
static ExceptionInfo *ex[MAXW];

static void sched_init(void) { }
static void sched_work(int w, int cmd)
{
  FileInfo *f;
  if (ex[w] == NULL) ex[w] = AcquireExceptionInfo();
  if (cmd == 1)
    {
      f = AcquireFileInfo(path, "x", WriteFileMode, ex[w]);
      sh->w[w].res[0] = f != NULL;
      if (f != NULL) held[w][depth[w]++] = f;
    }
  else
    {
      held[w][depth[w] - 1] = DestroyFileInfo(held[w][depth[w] - 1], ex[w]);
      depth[w]--;
      sh->w[w].res[0] = 1;
    }
}
static void drv_begin(void)
{
  WizardsToolkitGenesis("driver");
  workdir_make();
  snprintf(path, sizeof(path), "%s/data", workdir);
}
static void drv_end(void) { sched_end(); workdir_remove(); }

static void drv_op(const char *name, Op *op)
{
  int i, w, n, first = 1;
  if (strcmp(name, "layout") == 0)
    {
      int g[MAXW];
      for (i = 0; i < op->argc; i++) g[i] = (int) arg_int(op, i);
      sched_start(g, op->argc);
      outf("0");
      return;
    }
  if (strcmp(name, "kill") == 0)
    {
      sched_kill((int) arg_int(op, 0));
      outf("0");
      return;
    }
  if (strcmp(name, "stale") == 0)       /* what a dead process may have left: the first n bytes of its lock */
    {
      char p[160];
      pid_t pid = fork();
      long v[2];
      FILE *f;
      int st;
      if (pid == 0) _exit(0);
      while (waitpid(pid, &st, 0) < 0) ;
      v[0] = pid; v[1] = 12345;
      snprintf(p, sizeof(p), "%s.lck", path);
      f = fopen(p, "w");
      fwrite(v, 1, arg_int(op, 0), f);
      fclose(f);
      outf("0");
      return;
    }
  /* adv w n nest: worker w goes on for n stops (0: to the end of its call) */
  w = (int) arg_int(op, 0) - 1;
  n = (int) arg_int(op, 1);
  outf("[");
  if (gdead[wgroup[w]]) { outf("]"); return; }
  {
    int r;
    if (doing[w] == 0)
      {
        doing[w] = hold[w] == 0 || (hold[w] == 1 && arg_int(op, 2)) ? 1 : 2;
        outf("\"%s\"", doing[w] == 1 ? "acq?" : "rel?");
        first = 0;
        r = sched_command(w, doing[w], n);
      }
    else
      r = sched_advance(w, n);
    if (r < -1) _exit(1);
    if (r == -1) outf("%s\"died\"", first ? "" : ",");
    if (r == 1)
      {
        int ok = sh->w[w].res[0];
        if (doing[w] == 1) hold[w] += ok; else hold[w]--;
        outf("%s\"%s\"", first ? "" : ",", doing[w] == 2 ? "rel!" : ok ? "acq!" : "no!");
        doing[w] = 0;
      }
  }
  outf("]");
}
