/* Driver for the splay tree (D03).  Comparison kinds: 0 own comparison,
   1 the library's string comparison, 2 its byte-string comparison, 3 none
   (keys are plain numbers). */
#include "common.h"

typedef struct { char text[32]; long key, obj; StringInfo *si; } Key;
typedef struct { long id; int tree; } Val;

#define MAXV 65536
static SplayTreeInfo *tree[2];
static int cur, kind;
static long rel[2 * MAXV];
static int nrel;
static Val *live[2][MAXV];

static void *relkey(void *v)
{
  Key *k = (Key *) v;
  if (kind == 3) { if (nrel < MAXV) rel[nrel++] = (long) v * 10 + 1; return NULL; }
  if (nrel < MAXV) rel[nrel++] = k->key * 10 + k->obj;
  if (k->si) k->si = DestroyStringInfo(k->si);
  free(k);
  return NULL;
}

static void *relval(void *v)
{
  Val *x = (Val *) v;
  if (nrel < MAXV) rel[nrel++] = 1000000 + x->id;
  if (live[x->tree][x->id] == x) live[x->tree][x->id] = NULL;
  free(x);
  return NULL;
}

static int cmp(const void *a, const void *b)
{
  const Key *x = (const Key *) a, *y = (const Key *) b;
  if (kind == 1) return CompareSplayTreeString(x->text, y->text);
  if (kind == 2) return CompareSplayTreeStringInfo(x->si, y->si);
  return x->key < y->key ? -7 : x->key > y->key ? 9 : 0;
}

static void *mkkey(long key, long obj)
{
  Key *k;
  if (kind == 3) return (void *) key;
  k = (Key *) calloc(1, sizeof(*k));
  k->key = key;
  k->obj = obj;
  if (kind == 1) sprintf(k->text, obj % 2 ? "k%06ld" : "K%06ld", key);
  if (kind == 2)
    {
      unsigned char b[4] = { 0, (unsigned char) (key >> 16), (unsigned char) (key >> 8), (unsigned char) key };
      k->si = AcquireStringInfo(4);
      SetStringInfoDatum(k->si, b);
    }
  return k;
}

static void rmkey(void *k)
{
  if (kind == 3) return;
  if (((Key *) k)->si) ((Key *) k)->si = DestroyStringInfo(((Key *) k)->si);
  free(k);
}

static void *mkval(long id, int t)
{
  Val *v = (Val *) malloc(sizeof(*v));
  v->id = id;
  v->tree = t;
  live[t][id] = v;
  return v;
}

static void *clonekey(void *v)
{
  if (kind == 3) return v;
  return mkkey(((Key *) v)->key, ((Key *) v)->obj);
}

static void *cloneval(void *v) { return mkval(((Val *) v)->id, 1 - cur); }

static long keyid(const void *k)
{
  if (k == NULL) return 0;
  if (kind != 3) return ((const Key *) k)->key * 10 + ((const Key *) k)->obj;
  return (long) k * 10 + 1;
}

static long valid(const void *v) { return v ? 1000000 + ((const Val *) v)->id : 0; }

static void drv_begin(void) { WizardsToolkitGenesis("driver"); }
static void drv_end(void) { }

static void frame(void)
{
  int k;
  outf(",%ld,[", (long) (tree[cur] ? GetNumberOfNodesInSplayTree(tree[cur]) : 0));
  for (k = 0; k < nrel; k++) outf(k ? ",%ld" : "%ld", rel[k]);
  outf("]]");
}

static SplayTreeInfo *create(void)
{
  if (kind == 3) return NewSplayTree(NULL, relkey, relval);
  return NewSplayTree(cmp, relkey, relval);
}

static void drv_op(const char *name, Op *op)
{
  nrel = 0;
  if (strcmp(name, "new") == 0)
    { kind = (int) arg_int(op, 0); cur = 0; tree[1] = NULL; tree[0] = create(); outf("[0"); frame(); return; }
  if (strcmp(name, "add") == 0)
    {
      long k = arg_int(op, 0);
      outf("[%d", AddValueToSplayTree(tree[cur], mkkey(k, arg_int(op, 1)), mkval(k * 10 + arg_int(op, 2), cur)) != WizardFalse);
      frame();
      return;
    }
  if (strcmp(name, "get") == 0)
    { void *k = mkkey(arg_int(op, 0), 8); outf("[%ld", valid(GetValueFromSplayTree(tree[cur], k))); rmkey(k); frame(); return; }
  if (strcmp(name, "remove") == 0)
    {
      void *k = mkkey(arg_int(op, 0), 8);
      Val *v = (Val *) RemoveNodeFromSplayTree(tree[cur], k);
      outf("[%ld", valid(v)); frame(); rmkey(k);
      if (v) { live[v->tree][v->id] = NULL; free(v); }
      return;
    }
  if (strcmp(name, "delete") == 0)
    { void *k = mkkey(arg_int(op, 0), 8); outf("[%d", DeleteNodeFromSplayTree(tree[cur], k) != WizardFalse); rmkey(k); frame(); return; }
  if (strcmp(name, "removeval") == 0 || strcmp(name, "deleteval") == 0)
    {
      static long nobody;
      void *v = live[cur][arg_int(op, 0) * 10 + arg_int(op, 1)];
      if (v == NULL) v = &nobody;
      if (name[0] == 'd') outf("[%d", DeleteNodeByValueFromSplayTree(tree[cur], v) != WizardFalse);
      else
        {
          void *k = RemoveNodeByValueFromSplayTree(tree[cur], v);
          outf("[%ld", keyid(k));
          if (k) rmkey(k);
        }
      frame();
      return;
    }
  if (strcmp(name, "reset") == 0)
    { ResetSplayTreeIterator(tree[cur]); outf("[0"); frame(); return; }
  if (strcmp(name, "nextkey") == 0)
    { outf("[%ld", keyid(GetNextKeyInSplayTree(tree[cur]))); frame(); return; }
  if (strcmp(name, "nextval") == 0)
    { outf("[%ld", valid(GetNextValueInSplayTree(tree[cur]))); frame(); return; }
  if (strcmp(name, "walk") == 0)
    {
      static long ks[MAXV], vs[MAXV];
      long nk = 0, nv = 0, j;
      const void *p;
      ResetSplayTreeIterator(tree[cur]);
      while (nk < MAXV && (p = GetNextKeyInSplayTree(tree[cur])) != NULL) ks[nk++] = keyid(p);
      ResetSplayTreeIterator(tree[cur]);
      while (nv < MAXV && (p = GetNextValueInSplayTree(tree[cur])) != NULL) vs[nv++] = valid(p);
      outf("[[");
      for (j = 0; j < nk || j < nv; j++)
        outf(j ? ",[%ld,%ld]" : "[%ld,%ld]", j < nk ? ks[j] : -1, j < nv ? vs[j] : -1);
      outf("]"); frame();
      return;
    }
  if (strcmp(name, "clone") == 0)
    {
      if (tree[1 - cur]) tree[1 - cur] = DestroySplayTree(tree[1 - cur]);
      tree[1 - cur] = CloneSplayTree(tree[cur], clonekey, cloneval);
      outf("[0"); frame();
      return;
    }
  if (strcmp(name, "swap") == 0) { cur = 1 - cur; outf("[0"); frame(); return; }
  if (strcmp(name, "empty") == 0) { ResetSplayTree(tree[cur]); outf("[0"); frame(); return; }
  if (strcmp(name, "destroy") == 0)
    {
      if (tree[0]) tree[0] = DestroySplayTree(tree[0]);
      if (tree[1]) tree[1] = DestroySplayTree(tree[1]);
      outf("[0"); frame();
      return;
    }
  _exit(99);
}
