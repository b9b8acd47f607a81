/*
  Workers (threads of one or several processes) that run one at a time under a
  scheduler: a worker stops before each system call it makes and goes on only
  when the behaviour says so.  Processes can be killed while they are stopped.
*/
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include "common.h"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/file.h>
#include <time.h>
#include <dirent.h>

#define MAXW 6
typedef struct
{
  sem_t go, back;
  volatile int cmd, arg, done, quit, budget;
  volatile int res[64];
  unsigned char data[4096];
  size_t ndata;
} Worker;
typedef struct
{
  Worker w[MAXW];
  volatile int fault_w, fault_n, fault_kind;   /* fail the n-th faultable call of worker w */
} Shared;

static Shared *sh;
static int nworkers, wgroup[MAXW];
static pid_t gpid[MAXW];
static int gdead[MAXW];
static __thread int sched_id = -1;

/* the body of a worker: performs command cmd */
static void sched_work(int w, int cmd);
static void sched_init(void) ;

static void sched_yield_here(void)
{
  Worker *k;
  if (sched_id < 0) return;
  k = &sh->w[sched_id];
  if (k->budget > 0 && --k->budget > 0) return;
  sem_post(&k->back);
  while (sem_wait(&k->go) < 0) ;
}

static void *sched_loop(void *p)
{
  int w = (int) (long) p;
  Worker *k = &sh->w[w];
  while (sem_wait(&k->go) < 0) ;
  for (;;)
  {
    if (k->quit) break;
    sched_id = w;
    sched_work(w, k->cmd);
    sched_id = -1;
    k->done = 1;
    sem_post(&k->back);
    while (sem_wait(&k->go) < 0) ;
  }
  return NULL;
}

static void sched_start(const int *group, int n)
{
  int w, g, i;
  sh = (Shared *) mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  nworkers = n;
  for (w = 0; w < n; w++)
  {
    wgroup[w] = group[w];
    sem_init(&sh->w[w].go, 1, 0);
    sem_init(&sh->w[w].back, 1, 0);
    sh->w[w].done = 1;
  }
  sh->fault_w = -1;
  for (g = 0; g < MAXW; g++)
  {
    int first = -1;
    for (w = 0; w < n; w++) if (wgroup[w] == g && first < 0) first = w;
    if (first < 0) { gdead[g] = 1; continue; }
    fflush(drv_out);
    gpid[g] = fork();
    if (gpid[g] == 0)
    {
      pthread_t t;
      alarm(60);
      sched_init();
      for (i = first + 1; i < n; i++)
        if (wgroup[i] == g) pthread_create(&t, NULL, sched_loop, (void *) (long) i);
      sched_loop((void *) (long) first);
      _exit(0);
    }
  }
}

/* let worker w go on for at most n stops (n = 0: until its command is done);
   returns 1 when the command is done, 0 when it has stopped, -1 when its
   process is gone */
static int sched_advance(int w, int n)
{
  Worker *k = &sh->w[w];
  struct timespec t;
  int spent = 0, tries;
  if (gdead[wgroup[w]]) return -1;
  k->budget = n > 0 ? n : 5000;
  sem_post(&k->go);
  for (tries = 0; ; tries++)
  {
    int st;
    clock_gettime(CLOCK_REALTIME, &t);
    t.tv_nsec += 20000000;
    if (t.tv_nsec >= 1000000000) { t.tv_nsec -= 1000000000; t.tv_sec++; }
    if (sem_timedwait(&k->back, &t) == 0) break;
    if (waitpid(gpid[wgroup[w]], &st, WNOHANG) == gpid[wgroup[w]])
    {
      gdead[wgroup[w]] = 1;
      /* it may have stopped before it died */
      return -1;
    }
    if (++spent > 1000) return -2;
  }
  return k->done ? 1 : 0;
}

static int sched_command(int w, int cmd, int n)
{
  Worker *k = &sh->w[w];
  if (gdead[wgroup[w]]) return -1;
  k->cmd = cmd;
  k->done = 0;
  return sched_advance(w, n);
}

static void sched_kill(int g)
{
  int st;
  if (gdead[g]) return;
  kill(gpid[g], SIGKILL);
  while (waitpid(gpid[g], &st, 0) < 0 && errno == EINTR) ;
  gdead[g] = 1;
}

static void sched_end(void)
{
  int g;
  for (g = 0; g < MAXW; g++) sched_kill(g);
}

/* the system calls a worker stops at */
extern int __real_open(const char *, int, ...), __real_open64(const char *, int, ...), __real_close(int);
extern ssize_t __real_read(int, void *, size_t), __real_write(int, const void *, size_t);
extern int __real_unlink(const char *), __real_remove(const char *), __real_rename(const char *, const char *);
extern int __real_link(const char *, const char *), __real_kill(pid_t, int), __real_flock(int, int);
extern int __real_ftruncate(int, off_t), __real_fsync(int), __real_nanosleep(const struct timespec *, struct timespec *);
extern off_t __real_lseek(int, off_t, int);

/* 0: go ahead; otherwise the call is to fail */
static int sched_fault(void)
{
  if (sched_id < 0 || sh->fault_w != sched_id || sh->fault_n <= 0) return 0;
  if (--sh->fault_n > 0) return 0;
  return sh->fault_kind;
}

int __wrap_open(const char *p, int f, ...)
{
  va_list ap; int m;
  va_start(ap, f); m = va_arg(ap, int); va_end(ap);
  sched_yield_here();
  return __real_open(p, f, m);
}
int __wrap_open64(const char *p, int f, ...)
{
  va_list ap; int m;
  va_start(ap, f); m = va_arg(ap, int); va_end(ap);
  sched_yield_here();
  return __real_open64(p, f, m);
}
int __wrap_close(int fd) { sched_yield_here(); return __real_close(fd); }
ssize_t __wrap_read(int fd, void *b, size_t n) { sched_yield_here(); return __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
  int k;
  sched_yield_here();
  k = sched_fault();
  if (k == 1) { errno = ENOSPC; return -1; }
  if (k == 2 && n > 1)
  {
    /* part of it, and nothing more from then on */
    sh->fault_n = 1; sh->fault_kind = 1;
    return __real_write(fd, b, n / 2);
  }
  if (k == 3 && n > 1) { sched_yield_here(); n = n / 2; }       /* a short write, which is no failure */
  if (k == 4) { errno = EINTR; return -1; }
  return __real_write(fd, b, n);
}
int __wrap_unlink(const char *p) { sched_yield_here(); return __real_unlink(p); }
int __wrap_remove(const char *p) { sched_yield_here(); return __real_remove(p); }
int __wrap_rename(const char *p, const char *q) { sched_yield_here(); return __real_rename(p, q); }
int __wrap_link(const char *p, const char *q) { sched_yield_here(); return __real_link(p, q); }
int __wrap_kill(pid_t p, int s)
{
  if (sched_id < 0) return __real_kill(p, s);
  sched_yield_here();
  return __real_kill(p, 0);
}
int __wrap_flock(int fd, int op)
{
  if (sched_id < 0 || (op & LOCK_NB) || (op & LOCK_UN)) { sched_yield_here(); return __real_flock(fd, op); }
  for (;;)
  {
    int r;
    sched_yield_here();
    r = __real_flock(fd, op | LOCK_NB);
    if (r == 0 || errno != EWOULDBLOCK) return r;
  }
}
int __wrap_ftruncate(int fd, off_t n) { sched_yield_here(); return __real_ftruncate(fd, n); }
int __wrap_fsync(int fd) { sched_yield_here(); return __real_fsync(fd); }
off_t __wrap_lseek(int fd, off_t o, int w) { sched_yield_here(); return __real_lseek(fd, o, w); }
int __wrap_nanosleep(const struct timespec *t, struct timespec *u)
{
  if (sched_id < 0) return __real_nanosleep(t, u);
  sched_yield_here();
  return 0;
}
int __wrap_usleep(useconds_t n)
{
  extern int __real_usleep(useconds_t);
  if (sched_id < 0) return __real_usleep(n);
  sched_yield_here();
  return 0;
}
unsigned int __wrap_sleep(unsigned int n)
{
  extern unsigned int __real_sleep(unsigned int);
  if (sched_id < 0) return __real_sleep(n);
  sched_yield_here();
  return 0;
}

/* a directory of its own for each behaviour */
#include "scratch.h"
#endif
