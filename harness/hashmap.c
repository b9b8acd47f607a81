/* Driver for the hash map (D02). */
#include "common.h"

/* the text comes first, so that the library's string hash applies to it */
typedef struct { char text[32]; long key, obj; StringInfo *si; } Key;

static HashmapInfo *map;
static long rel[65536];
static int nrel, hashkind;

static void *relkey(void *v)
{
  Key *k = (Key *) v;
  if (nrel < 65536) rel[nrel++] = k->key * 10 + k->obj;
  if (k->si) k->si = DestroyStringInfo(k->si);
  free(k);
  return NULL;
}

static void *relval(void *v)
{
  if (nrel < 65536) rel[nrel++] = 1000000 + *(long *) v;
  free(v);
  return NULL;
}

static size_t hash(const void *v)
{
  size_t k = (size_t) ((const Key *) v)->key;
  switch (hashkind)
  {
    case 0: return 5;                       /* everything collides */
    case 1: return k % 3;
    case 2: case 7: return k;               /* 7: keys are equal when their hashes are */
    case 5: return HashStringType(((const Key *) v)->text);
    case 6: return HashStringInfoType(((const Key *) v)->si);
    case 3: return k * 0x9E3779B97F4A7C15UL; /* wide */
    default: return k * 510510;              /* equal modulo many table sizes */
  }
}

static WizardBooleanType eq(const void *a, const void *b)
{
  if (hashkind == 5)
    return CompareHashmapString(((const Key *) a)->text, ((const Key *) b)->text);
  if (hashkind == 6)
    return CompareHashmapStringInfo(((const Key *) a)->si, ((const Key *) b)->si);
  return ((const Key *) a)->key == ((const Key *) b)->key ? WizardTrue : WizardFalse;
}

static void fill(Key *k, long key, long obj)
{
  memset(k, 0, sizeof(*k));
  k->key = key;
  k->obj = obj;
  if (hashkind == 5) sprintf(k->text, "%ld-key", key);
  if (hashkind == 6)
    {
      unsigned char b[3] = { 0, (unsigned char) key, (unsigned char) (key >> 8) };
      k->si = AcquireStringInfo(3);
      SetStringInfoDatum(k->si, b);
    }
}

static void drv_begin(void) { WizardsToolkitGenesis("driver"); }
static void drv_end(void) { }

static void frame(void)
{
  int k;
  outf(",%ld,%d,[", (long) GetNumberOfEntriesInHashmap(map), IsHashmapEmpty(map) != WizardFalse);
  for (k = 0; k < nrel; k++) outf(k ? ",%ld" : "%ld", rel[k]);
  outf("]]");
}

static void drv_op(const char *name, Op *op)
{
  nrel = 0;
  if (strcmp(name, "new") == 0)
    {
      hashkind = (int) arg_int(op, 1);
      map = NewHashmap((size_t) arg_int(op, 0), hash, hashkind == 7 ? NULL : eq, relkey, relval);
      outf("[0"); frame();
      return;
    }
  if (strcmp(name, "put") == 0)
    {
      Key *k = (Key *) malloc(sizeof(*k));
      long *v = (long *) malloc(sizeof(*v));
      fill(k, arg_int(op, 0), arg_int(op, 1)); *v = k->key * 10 + arg_int(op, 2);
      outf("[%d", PutEntryInHashmap(map, k, v) != WizardFalse); frame();
      return;
    }
  if (strcmp(name, "putnokey") == 0)
    { static long v; outf("[%d", PutEntryInHashmap(map, NULL, &v) != WizardFalse); frame(); return; }
  if (strcmp(name, "putnoval") == 0)
    { static Key k; outf("[%d", PutEntryInHashmap(map, &k, NULL) != WizardFalse); frame(); return; }
  if (strcmp(name, "get") == 0)
    {
      Key k; long *v;
      fill(&k, arg_int(op, 0), 9);
      v = (long *) GetValueFromHashmap(map, &k);
      outf("[%ld", v ? 1000000 + *v : 0); frame();
      return;
    }
  if (strcmp(name, "dump") == 0)
    {
      long n = arg_int(op, 0), j;
      outf("[[");
      for (j = 1; j <= n; j++)
      {
        Key k; long *v;
        fill(&k, j, 9);
        v = (long *) GetValueFromHashmap(map, &k);
        outf(j > 1 ? ",%ld" : "%ld", v ? 1000000 + *v : 0);
      }
      outf("]"); frame();
      return;
    }
  if (strcmp(name, "remove") == 0)
    {
      Key k; long *v;
      fill(&k, arg_int(op, 0), 9);
      v = (long *) RemoveEntryFromHashmap(map, &k);
      outf("[%ld", v ? 1000000 + *v : 0); frame();
      free(v);
      return;
    }
  if (strcmp(name, "reset") == 0)
    { ResetHashmapIterator(map); outf("[0"); frame(); return; }
  if (strcmp(name, "nextkey") == 0)
    { Key *k = (Key *) GetNextKeyInHashmap(map); outf("[%ld", k ? k->key * 10 + k->obj : 0); frame(); return; }
  if (strcmp(name, "nextval") == 0)
    { long *v = (long *) GetNextValueInHashmap(map); outf("[%ld", v ? 1000000 + *v : 0); frame(); return; }
  if (strcmp(name, "destroy") == 0)
    {
      int k;
      map = DestroyHashmap(map);
      outf("[%d,0,1,[", map != NULL);
      for (k = 0; k < nrel; k++) outf(k ? ",%ld" : "%ld", rel[k]);
      outf("]]");
      return;
    }
  _exit(99);
}
