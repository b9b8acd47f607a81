/* Driver for the linked list (D01). */
#include "common.h"

static LinkedListInfo *list;
static long freed[4096];
static int nfreed;

static void *note(void *v)
{
  if (nfreed < 4096) freed[nfreed++] = (long) v;
  return NULL;
}

static int cmp(const void *x, const void *y)
{
  return (int) (((long) x) % 10 - ((long) y) % 10);
}

static void drv_begin(void) { WizardsToolkitGenesis("driver"); }
static void drv_end(void) { }

static void state(long res)
{
  void *a[4096];
  size_t n, k;

  /* the observable state: number of elements, all elements in order */
  memset(a, 0, sizeof(a));
  n = GetNumberOfElementsInLinkedList(list);
  if (n > 4000) { outf("[%ld,-1]", res); return; }
  LinkedListToArray(list, a);
  outf("[%ld,%ld,%d,[", res, (long) n, IsLinkedListEmpty(list) != WizardFalse ? 1 : 0);
  for (k = 0; a[k] != NULL; k++) outf(k ? ",%ld" : "%ld", (long) a[k]);
  outf("]]");
}

static void drv_op(const char *name, Op *op)
{
  if (strcmp(name, "new") == 0)
    { list = NewLinkedList((size_t) arg_int(op, 0)); state(0); return; }
  if (strcmp(name, "append") == 0)
    { state(AppendValueToLinkedList(list, (void *) arg_int(op, 0)) != WizardFalse); return; }
  if (strcmp(name, "insert") == 0)
    { state(InsertValueInLinkedList(list, (size_t) arg_int(op, 0), (void *) arg_int(op, 1)) != WizardFalse); return; }
  if (strcmp(name, "sorted") == 0)
    { state(InsertValueInSortedLinkedList(list, cmp, NULL, (void *) arg_int(op, 0)) != WizardFalse); return; }
  if (strcmp(name, "replace") == 0)
    {
      void *old = NULL;
      long ok = InsertValueInSortedLinkedList(list, cmp, &old, (void *) arg_int(op, 0)) != WizardFalse;
      state(ok * 1000 + (long) old);
      return;
    }
  if (strcmp(name, "get") == 0)
    { state((long) GetValueFromLinkedList(list, (size_t) arg_int(op, 0))); return; }
  if (strcmp(name, "last") == 0)
    { state((long) GetLastValueInLinkedList(list)); return; }
  if (strcmp(name, "remove") == 0)
    { state((long) RemoveElementFromLinkedList(list, (size_t) arg_int(op, 0))); return; }
  if (strcmp(name, "removeval") == 0)
    { state((long) RemoveElementByValueFromLinkedList(list, (void *) arg_int(op, 0))); return; }
  if (strcmp(name, "pop") == 0)
    { state((long) RemoveLastElementFromLinkedList(list)); return; }
  if (strcmp(name, "next") == 0)
    { state((long) GetNextValueInLinkedList(list)); return; }
  if (strcmp(name, "reset") == 0)
    { ResetLinkedListIterator(list); state(0); return; }
  if (strcmp(name, "clear") == 0 || strcmp(name, "destroy") == 0)
    {
      int k, d = name[0] == 'd';
      nfreed = 0;
      if (d) list = DestroyLinkedList(list, note);
      else ClearLinkedList(list, note);
      outf("[%ld,%d,%d,[", d ? (long) list : 0L, d ? 0 : (int) GetNumberOfElementsInLinkedList(list), d ? 1 : IsLinkedListEmpty(list) != WizardFalse);
      for (k = 0; k < nfreed; k++) outf(k ? ",%ld" : "%ld", freed[k]);
      outf("]]");
      return;
    }
  _exit(99);
}
