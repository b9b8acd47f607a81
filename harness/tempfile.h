/* Temporary files.  Everything happens in the scratch directory, under d0
   (the default) and d1, d2 (named by the caller). */
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>

static char tname[64][WizardPathExtent];
static char all[4096][96];
static int n_all;

static void dir_of(int d, char *at) { snprintf(at, WizardPathExtent, "%s/d%d", workdir, d); }
static void tempfile_ready(void)
{
  static int ready;
  char at[WizardPathExtent];
  int d;
  if (ready) return;
  ready = 1;
  for (d = 0; d < 3; d++) { dir_of(d, at); (void) mkdir(at, 0700); }
  dir_of(0, at);
  setenv("WIZARD_TMPDIR", at, 1);
}
static int count_in(const char *at, int *dirs)
{
  DIR *d = opendir(at);
  struct dirent *e;
  int n = 0;
  if (d == NULL) return -1000;
  while ((e = readdir(d)) != NULL)
  {
    char p[2048];
    struct stat s;
    if (e->d_name[0] == '.') continue;
    snprintf(p, sizeof(p), "%s/%s", at, e->d_name);
    if (lstat(p, &s) == 0 && S_ISDIR(s.st_mode)) { (*dirs)++; n += count_in(p, dirs); }
    else n++;
  }
  closedir(d);
  return n;
}
static void look(int up)
{
  int dirs = 0, n = count_in(workdir, &dirs);
  outf(",%d,%d", n, dirs - 1);
  if (up) outf(",%ld", (long) GetWizardResource(FileResource));
  outf("]");
}
/* 1 when no file was ever given this name before */
static int fresh(const char *name)
{
  const char *base = strrchr(name, '/');
  int i;
  base = base == NULL ? name : base + 1;
  for (i = 0; i < n_all; i++) if (strcmp(all[i], base) == 0) return 0;
  if (n_all < 4096) snprintf(all[n_all++], sizeof(all[0]), "%s", base);
  return 1;
}
static int inside(const char *name, int d)
{
  char at[WizardPathExtent];
  size_t n;
  dir_of(d, at);
  n = strlen(at);
  return strncmp(name, at, n) == 0 && name[n] == '/' && strchr(name + n + 1, '/') == NULL;
}
static int make(const char *path, char *name)
{
  return AcquireUniqueFileResource(path, name, ex);
}

struct worker { int n; char (*names)[WizardPathExtent]; pthread_t t; int got; };
static void *work(void *p)
{
  struct worker *w = (struct worker *) p;
  ExceptionInfo *e = AcquireExceptionInfo();
  int i;
  for (i = 0; i < w->n; i++)
  {
    int fd = AcquireUniqueFileResource("", w->names[i], e);
    if (fd >= 0) { w->got++; close(fd); }
  }
  e = DestroyExceptionInfo(e);
  return NULL;
}
static int exists(const char *p) { struct stat s; return lstat(p, &s) == 0; }

static int tempfile_op(const char *name, Op *op)
{
  static const char *ours[] = { "file", "name", "give", "unlink", "flimit", "other", "env", "stop", "look", "threads", "forks", "child", NULL };
  static int up = 1;
  int i, x = op->argc > 0 ? (int) arg_int(op, 0) : 0;
  for (i = 0; ours[i] != NULL && strcmp(ours[i], name) != 0; i++) ;
  if (ours[i] == NULL) return 0;
  tempfile_ready();
  outf("[");
  if (strcmp(name, "flimit") == 0)
    {
      (void) SetWizardResourceLimit(FileResource, x < 0 ? ~(WizardSizeType) 0 : (WizardSizeType) x);
      outf("[1]");
    }
  else if (strcmp(name, "file") == 0 || strcmp(name, "name") == 0)
    {
      int d = (int) arg_int(op, 1), fd = -1, ok, rw = 1;
      char at[WizardPathExtent] = "";
      struct stat s;
      if (d > 0) dir_of(d, at);
      if (strcmp(name, "file") == 0) { fd = make(at, tname[x]); ok = fd >= 0; }
      else ok = AcquireUniqueFilename(tname[x], ex) != WizardFalse;
      if (!ok) outf("[0]");
      else
        {
          memset(&s, 0, sizeof(s));
          ok = lstat(tname[x], &s) == 0 && S_ISREG(s.st_mode) && s.st_size == 0;
          if (fd >= 0)
            {
              struct stat t;
              char b[8] = "";
              rw = fstat(fd, &t) == 0 && t.st_ino == s.st_ino && write(fd, "mine", 4) == 4 && lseek(fd, 0, SEEK_SET) == 0 && read(fd, b, 8) == 4 && strcmp(b, "mine") == 0;
              close(fd);
            }
          outf("[1,%d,%d,%d,%d,%d]", fresh(tname[x]), inside(tname[x], d), ok, (int) (s.st_mode & 07777), rw);
        }
    }
  else if (strcmp(name, "give") == 0)
    {
      int trash = (int) arg_int(op, 1), there = exists(tname[x]);
      int r = RelinquishUniqueFileResource(tname[x], trash ? WizardTrue : WizardFalse) != WizardFalse;
      outf("[%d,%d]", r, exists(tname[x]) == (there && !trash));
    }
  else if (strcmp(name, "unlink") == 0) outf("[%d]", unlink(tname[x]) == 0);
  else if (strcmp(name, "other") == 0)
    {
      static int k;
      char at[WizardPathExtent], p[WizardPathExtent + 64];
      int fd;
      dir_of(x, at);
      snprintf(p, sizeof(p), "%s/wizard-%d-%dABCDEFGHIJ", at, (int) getpid(), k++);
      fd = open(p, O_CREAT | O_EXCL | O_WRONLY, 0600);
      outf("[%d]", fd >= 0);
      close(fd);
    }
  else if (strcmp(name, "env") == 0)
    {
      char at[WizardPathExtent];
      dir_of(0, at);
      if (x) { setenv("WIZARD_TMPDIR", at, 1); dir_of(1, at); setenv("TMPDIR", at, 1); }
      else { unsetenv("WIZARD_TMPDIR"); setenv("TMPDIR", at, 1); }
      outf("[1]");
    }
  else if (strcmp(name, "look") == 0) outf("[1]");
  else if (strcmp(name, "stop") == 0) { up = 0; WizardsToolkitTerminus(); outf("[1]"); }
  else if (strcmp(name, "threads") == 0)
    {
      int n = (int) arg_int(op, 1), j, ok = 1, gone = 1;
      struct worker w[8];
      for (i = 0; i < x; i++)
      {
        w[i].n = n; w[i].got = 0;
        w[i].names = calloc((size_t) n, WizardPathExtent);
        pthread_create(&w[i].t, NULL, work, &w[i]);
      }
      for (i = 0; i < x; i++) pthread_join(w[i].t, NULL);
      for (i = 0; i < x; i++)
      {
        ok &= w[i].got == n;
        for (j = 0; j < n; j++) ok &= fresh(w[i].names[j]) && inside(w[i].names[j], 0) && exists(w[i].names[j]);
      }
      for (i = 0; i < x; i++)
      {
        for (j = 0; j < n; j++) gone &= RelinquishUniqueFileResource(w[i].names[j], WizardTrue) != WizardFalse && !exists(w[i].names[j]);
        free(w[i].names);
      }
      outf("[%d,%d]", ok, gone);
    }
  else if (strcmp(name, "forks") == 0)
    {
      /* each child makes files, says their names, waits for all, removes them */
      int n = (int) arg_int(op, 1), up_[2], go[2], j, ok = 1, gone = 1;
      pid_t pid[8];
      if (pipe(up_) != 0 || pipe(go) != 0) _exit(99);
      fflush(drv_out);
      for (i = 0; i < x; i++)
      {
        pid[i] = fork();
        if (pid[i] == 0)
          {
            char nm[16][WizardPathExtent], c;
            int bad = 0;
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            alarm(30);
            close(go[1]);
            for (j = 0; j < n; j++)
            {
              char line[128] = "";
              int fd = make("", nm[j]);
              const char *b = strrchr(nm[j], '/');
              snprintf(line, sizeof(line), "%s", fd < 0 || b == NULL ? "?" : b + 1);
              bad |= fd < 0;
              close(fd);
              if (write(up_[1], line, sizeof(line)) != (ssize_t) sizeof(line)) _exit(99);
            }
            if (read(go[0], &c, 1) != 0) _exit(99);
            for (j = 0; j < n; j++) bad |= RelinquishUniqueFileResource(nm[j], WizardTrue) == WizardFalse;
            _exit(bad);
          }
      }
      close(go[0]);
      close(up_[1]);
      for (i = 0; i < x * n; i++)
      {
        char line[128] = "?", p[WizardPathExtent];
        if (read(up_[0], line, sizeof(line)) != (ssize_t) sizeof(line)) ok = 0;
        dir_of(0, p);
        strcat(p, "/");
        strcat(p, line);
        ok &= fresh(line) && exists(p);
      }
      close(go[1]);
      close(up_[0]);
      for (i = 0; i < x; i++)
      {
        int st = 1;
        waitpid(pid[i], &st, 0);
        gone &= st == 0;
      }
      outf("[%d,%d]", ok, gone);
    }
  else if (strcmp(name, "child") == 0)
    {
      /* a child holding files shuts down in order (0) or on a signal */
      int sig = (int) arg_int(op, 1), keep = (int) arg_int(op, 2), st = 0, p[2];
      unsigned char got = 0;
      pid_t pid;
      if (pipe(p) != 0) _exit(99);
      fflush(drv_out);
      pid = fork();
      if (pid == 0)
        {
          char nm[8][WizardPathExtent];
          prctl(PR_SET_PDEATHSIG, SIGKILL);
          alarm(30);
          for (i = 0; i < x; i++)
          {
            int fd = make(i == 1 ? (dir_of(1, nm[7]), nm[7]) : "", nm[(int) got]);
            if (fd >= 0) { got++; close(fd); }
          }
          if (keep && got > 0) (void) RelinquishUniqueFileResource(nm[0], WizardFalse);
          if (write(p[1], &got, 1) != 1) _exit(99);
          if (sig == 0) { WizardsToolkitTerminus(); _exit(0); }
          raise(sig);
          _exit(98);
        }
      close(p[1]);
      if (read(p[0], &got, 1) != 1) got = 99;
      waitpid(pid, &st, 0);
      close(p[0]);
      outf("[%d]", got);
    }
  look(up);
  return 1;
}
