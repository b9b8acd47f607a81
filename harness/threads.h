/*
  Threads under a scheduler of the check's own: one runs at a time, and another
  takes over where the schedule says so, at any basic block of the library
  (compiled to call back at each), or at any access to memory, or where a lock is
  taken.  Odds below 100: any
  of the others takes over with one chance in that many at each point.  100 + d:
  the threads have an order of priority, and at d points of the run the one
  running falls to the last place; 110 + d: at points that soon follow the taking
  or leaving of a lock.
*/
#ifndef VERIF_THREADS_H
#define VERIF_THREADS_H
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>

#define MAXTHREADS 4
static __thread int th_me = -1;
static int th_n, th_live[MAXTHREADS], th_odds = 8, th_stuck;
static sem_t th_go[MAXTHREADS], th_end;
static unsigned long th_rng;
static long th_points, th_change[3], th_events, th_event[3];
static unsigned char th_seen[MAXTHREADS][0x4000];
static int th_rank[MAXTHREADS], th_low;
static void (*th_body)(int);

int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);

static unsigned int th_random(void)
{
  unsigned long x = (th_rng += 0x9e3779b97f4a7c15UL);
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9UL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebUL;
  return (unsigned int) ((x ^ (x >> 31)) >> 33);
}
static void th_wait(sem_t *s) { while (sem_wait(s) != 0) ; }
static int th_best(void)
{
  int k, next = -1;
  for (k = 0; k < th_n; k++)
    if (th_live[k] && (next < 0 || th_rank[k] > th_rank[next])) next = k;
  return next;
}
/* lets another thread run; returns when this one is to go on */
static void th_yield(void)
{
  int k, next = -1, count = 0;
  for (k = 0; k < th_n; k++)
    if (k != th_me && th_live[k]) { count++; if (th_random() % (unsigned int) count == 0) next = k; }
  if (th_odds >= 100 && next >= 0)
    {
      th_rank[th_me] = --th_low;
      next = th_best();
    }
  if (next < 0) return;
  sem_post(&th_go[next]);
  th_wait(&th_go[th_me]);
}
static void th_point(unsigned long pc)
{
  int k;
  if (th_me < 0) return;
  /* a long loop does not count for more than the code around it */
  if (th_seen[th_me][(pc ^ (pc >> 14)) & 0x3fff]++ >= 4) { th_seen[th_me][(pc ^ (pc >> 14)) & 0x3fff] = 4; return; }
  th_points++;
  if (th_odds >= 100)
    {
      for (k = 0; k < 3; k++) if (th_points == th_change[k] && (th_odds < 110 || th_events == th_event[k])) { th_yield(); break; }
      return;
    }
  if (th_random() % (unsigned int) th_odds == 0) th_yield();
}
void __sanitizer_cov_trace_pc(void) { th_point((unsigned long) __builtin_return_address(0)); }
/* compiled to call back at each access to memory (variant 'access') */
#define TH_SIZE(n) \
  void __tsan_read##n(void *p) { (void) p; th_point((unsigned long) __builtin_return_address(0)); } \
  void __tsan_write##n(void *p) { (void) p; th_point((unsigned long) __builtin_return_address(0)); } \
  void __tsan_unaligned_read##n(void *p) { (void) p; th_point((unsigned long) __builtin_return_address(0)); } \
  void __tsan_unaligned_write##n(void *p) { (void) p; th_point((unsigned long) __builtin_return_address(0)); }
TH_SIZE(1) TH_SIZE(2) TH_SIZE(4) TH_SIZE(8) TH_SIZE(16)
void __tsan_read_range(void *p, unsigned long n) { (void) p; (void) n; th_point((unsigned long) __builtin_return_address(0)); }
void __tsan_write_range(void *p, unsigned long n) { (void) p; (void) n; th_point((unsigned long) __builtin_return_address(0)); }
void __tsan_init(void) { }
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) { }
/* locks made by a thread are taken for its own: what matters is around the rest */
static pthread_mutex_t *th_own[256];
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
  int k;
  for (k = 0; k < 256; k++) if (th_own[k] == m) th_own[k] = NULL;
  for (k = 0; th_me >= 0 && k < 256; k++) if (th_own[k] == NULL) { th_own[k] = m; break; }
  return __real_pthread_mutex_init(m, a);
}
static void th_mark(pthread_mutex_t *m)
{
  int k;
  if (th_me < 0) return;
  for (k = 0; k < 256; k++) if (th_own[k] == m) return;
  th_events++;
  if (th_odds >= 110) th_points = 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
  int r;
  if (th_me < 0) return __real_pthread_mutex_lock(m);
  if (th_odds < 100 && th_random() % (unsigned int) th_odds < 2) th_yield();
  while ((r = pthread_mutex_trylock(m)) == EBUSY)
  {
    if (++th_stuck > 100000) _exit(70);           /* nobody can go on */
    th_yield();
  }
  th_stuck = 0;
  th_mark(m);
  return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
  int r = __real_pthread_mutex_unlock(m);
  th_mark(m);
  if (th_me >= 0 && th_odds < 100 && th_random() % (unsigned int) th_odds < 2) th_yield();
  return r;
}
static void *th_start(void *p)
{
  int me = (int) (long) p, k, count = 0, next = -1;
  th_wait(&th_go[me]);
  th_me = me;
  th_body(me);
  th_me = -1;
  th_live[me] = 0;
  for (k = 0; k < th_n; k++)
    if (th_live[k]) { count++; if (th_random() % (unsigned int) count == 0) next = k; }
  if (th_odds >= 100) next = th_best();
  sem_post(next < 0 ? &th_end : &th_go[next]);
  return NULL;
}
/* runs body(0..n-1) in threads under the schedule of a seed */
static void th_run(int n, unsigned long seed, int odds, void (*body)(int))
{
  pthread_t t[MAXTHREADS];
  cpu_set_t cpus;
  int k;
  /* as only one runs at a time, they pass the turn fastest on one processor */
  CPU_ZERO(&cpus);
  CPU_SET(sched_getcpu() < 0 ? 0 : sched_getcpu(), &cpus);
  (void) sched_setaffinity(0, sizeof(cpus), &cpus);
  th_n = n; th_odds = odds; th_rng = seed * 7919 + 12345; th_body = body; th_stuck = 0;
  for (k = 0; k < 4; k++) (void) th_random();
  sem_init(&th_end, 0, 0);
  th_points = 0;
  memset(th_seen, 0, sizeof(th_seen));
  th_low = 0;
  for (k = 0; k < n; k++) th_rank[k] = 1 + (int) (th_random() % 1000);
  {
    unsigned int span = 16u << (th_random() % 6);
    for (k = 0; k < 3; k++)
    {
      th_change[k] = k < odds % 10 ? (long) (th_random() % (odds >= 110 ? 12 : span)) : -1;
      th_event[k] = (long) (th_random() % (span / 4));
    }
    th_events = 0;
  }
  for (k = 0; k < n; k++) { th_live[k] = 1; sem_init(&th_go[k], 0, 0); }
  for (k = 0; k < n; k++) if (pthread_create(&t[k], NULL, th_start, (void *) (long) k) != 0) _exit(99);
  sem_post(&th_go[odds >= 100 ? th_best() : (int) (th_random() % (unsigned int) n)]);
  th_wait(&th_end);
  for (k = 0; k < n; k++) pthread_join(t[k], NULL);
}
#endif
