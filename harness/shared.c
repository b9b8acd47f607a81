/* Driver for containers shared between threads (D04). */
#define _GNU_SOURCE
#include "common.h"
#include "threads.h"

static int kind;
#define LISTY (kind < 3 || kind == 5)
static LinkedListInfo *list;
static HashmapInfo *map;
static SplayTreeInfo *tree;
static unsigned char *prog[3];
static size_t len[3];
static struct { int ret, w, i, n; long v[64]; } hist[200];
static int nhist;
static long released[400];
static int nreleased;
static __thread int own;                         /* at work on a copy of this thread's own */

static void *release_value(void *p) { if (!own && nreleased < 400) released[nreleased++] = (long) p; return NULL; }
static void *release_key(void *p) { free(p); return NULL; }
static void *clone_key(void *p) { return strdup((char *) p); }
static void *clone_value(void *p) { return p; }
static char *key(long k) { char s[16]; snprintf(s, sizeof(s), "k%ld", k); return strdup(s); }
static long key_of(const char *s) { return s == NULL ? 0 : atol(s + 1); }

static size_t hash_key(const void *k) { return (size_t) key_of((const char *) k) / 2; }

static int by_digit(const void *a, const void *b) { return (int) ((long) a % 10) - (int) ((long) b % 10); }

/* one call; the answer in v */
static int call(int c, long x, long y, long *v)
{
  char probe[16], *k;
  int n = 1;
  v[0] = 1;
  snprintf(probe, sizeof(probe), "k%ld", x);
  if (LISTY)
    switch (c)
    {
      case 1: v[0] = AppendValueToLinkedList(list, (void *) y) != WizardFalse; break;
      case 2: v[0] = InsertValueInLinkedList(list, (size_t) x, (void *) y) != WizardFalse; break;
      case 3: v[0] = (long) GetValueFromLinkedList(list, (size_t) x); break;
      case 4: v[0] = (long) GetLastValueInLinkedList(list); break;
      case 5: v[0] = (long) RemoveElementFromLinkedList(list, (size_t) x); break;
      case 6: v[0] = (long) RemoveElementByValueFromLinkedList(list, (void *) y); break;
      case 7: v[0] = (long) RemoveLastElementFromLinkedList(list); break;
      case 8: v[0] = (long) GetNextValueInLinkedList(list); break;
      case 9: ResetLinkedListIterator(list); break;
      case 10: v[0] = (long) GetNumberOfElementsInLinkedList(list); break;
      case 11:
        {
          void *a[64];
          int i;
          memset(a, 0, sizeof(a));
          (void) LinkedListToArray(list, a);
          for (n = 0; n < 40 && a[n] != NULL; n++) ;
          for (i = 0; i < n; i++) v[i] = (long) a[i];
          break;
        }
      case 12: ClearLinkedList(list, release_value); break;
      case 14:
        {
          void *old = NULL;
          v[0] = InsertValueInSortedLinkedList(list, by_digit, &old, (void *) y) != WizardFalse;
          v[1] = (long) old;
          n = 2;
          break;
        }
      case 13: v[0] = IsLinkedListEmpty(list) != WizardFalse; break;
      default: _exit(99);
    }
  else if (kind == 3)
    switch (c)
    {
      case 1: v[0] = PutEntryInHashmap(map, key(x), (void *) y) != WizardFalse; break;
      case 2: v[0] = (long) GetValueFromHashmap(map, probe); break;
      case 3: v[0] = (long) RemoveEntryFromHashmap(map, probe); break;
      case 5: v[0] = (long) GetNumberOfEntriesInHashmap(map); break;
      case 6: v[0] = key_of((const char *) GetNextKeyInHashmap(map)); break;
      case 10: ResetHashmapIterator(map); break;
      case 11: v[0] = IsHashmapEmpty(map) != WizardFalse; break;
      default: _exit(99);
    }
  else
    switch (c)
    {
      case 1: v[0] = AddValueToSplayTree(tree, key(x), (void *) y) != WizardFalse; break;
      case 2: v[0] = (long) GetValueFromSplayTree(tree, probe); break;
      case 3: v[0] = (long) RemoveNodeFromSplayTree(tree, probe); break;
      case 4: v[0] = DeleteNodeFromSplayTree(tree, probe) != WizardFalse; break;
      case 5: v[0] = (long) GetNumberOfNodesInSplayTree(tree); break;
      case 6: v[0] = key_of((const char *) GetNextKeyInSplayTree(tree)); break;
      case 7:
        {
          SplayTreeInfo *t = CloneSplayTree(tree, clone_key, clone_value);
          int i;
          own = 1;
          n = 0;
          for (i = 1; i < 10; i++)
          {
            long w;
            snprintf(probe, sizeof(probe), "k%d", i);
            w = (long) GetValueFromSplayTree(t, probe);
            if (w != 0) { v[n++] = i; v[n++] = w; }
          }
          t = DestroySplayTree(t);
          own = 0;
          break;
        }
      case 8: k = (char *) RemoveNodeByValueFromSplayTree(tree, (void *) y); v[0] = key_of(k); free(k); break;
      case 9: v[0] = DeleteNodeByValueFromSplayTree(tree, (void *) y) != WizardFalse; break;
      case 10: ResetSplayTreeIterator(tree); break;
      case 11: v[0] = GetNumberOfNodesInSplayTree(tree) == 0; break;
      case 12: ResetSplayTree(tree); break;
      default: _exit(99);
    }
  return n;
}
static void body(int me)
{
  size_t i;
  for (i = 0; 3 * i < len[me]; i++)
  {
    int h = nhist++, n;
    long v[64];
    hist[h].ret = 0; hist[h].w = me + 1; hist[h].i = (int) i + 1;
    n = call(prog[me][3 * i], prog[me][3 * i + 1], prog[me][3 * i + 2], v);
    h = nhist++;
    hist[h].ret = 1; hist[h].w = me + 1; hist[h].n = n;
    memcpy(hist[h].v, v, (size_t) n * sizeof(long));
    if (th_odds < 100 && th_random() % 3 == 0) th_yield();
  }
}
static void drv_begin(void) { }
static void drv_op(const char *name, Op *op)
{
  size_t n, i;
  unsigned char *before = arg_bytes(op, 3, &n);
  long v[64];
  int k, c, first = 1;
  (void) name;
  WizardsToolkitGenesis("driver");
  kind = (int) arg_int(op, 0);
  if (LISTY) list = NewLinkedList(kind == 2 ? 3 : 0);
  else if (kind == 3) map = NewHashmap(3, hash_key, CompareHashmapString, release_key, release_value);
  else tree = NewSplayTree(CompareSplayTreeString, release_key, release_value);
  for (i = 0; 3 * i < n; i++) (void) call(before[3 * i], before[3 * i + 1], before[3 * i + 2], v);
  for (k = 0; k < 3; k++) prog[k] = arg_bytes(op, 4 + k, &len[k]);
  th_run(3, (unsigned long) arg_int(op, 1), (int) arg_int(op, 2), body);
  outf("[[");
  for (k = 0; k < nhist; k++)
  {
    if (k > 0) outf(",");
    if (!hist[k].ret) outf("[0,%d,%d]", hist[k].w, hist[k].i);
    else
      {
        outf("[1,%d,[", hist[k].w);
        for (c = 0; c < hist[k].n; c++) outf(c ? ",%ld" : "%ld", hist[k].v[c]);
        outf("]]");
      }
  }
  outf("],[");
  if (LISTY)
    {
      c = call(11, 0, 0, v);
      for (k = 0; k < c; k++) outf(k ? ",%ld" : "%ld", v[k]);
      outf("],%ld", (long) GetNumberOfElementsInLinkedList(list));
    }
  else
    {
      for (k = 1; k < 10; k++)
      {
        (void) call(2, k, 0, v);
        if (v[0] != 0) { outf(first ? "%d,%ld" : ",%d,%ld", k, v[0]); first = 0; }
      }
      (void) call(5, 0, 0, v);
      outf("],%ld", v[0]);
    }
  outf(",[");
  for (k = 0; k < nreleased; k++) outf(k ? ",%ld" : "%ld", released[k]);
  outf("]]");
}
static void drv_end(void)
{
  if (LISTY) list = DestroyLinkedList(list, NULL);
  else if (kind == 3) map = DestroyHashmap(map);
  else tree = DestroySplayTree(tree);
}
