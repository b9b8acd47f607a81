/* Driver for the entropy coders (C06). */
#include "common.h"

typedef struct { EntropyInfo *e; StringInfo *enc; size_t n; } Obj;
static Obj ob[8];

static void drv_begin(void) { WizardsToolkitGenesis("driver"); }
static void drop(int i)
{
  if (ob[i].e) ob[i].e = DestroyEntropyInfo(ob[i].e);
  if (ob[i].enc) ob[i].enc = DestroyStringInfo(ob[i].enc);
}
static void drv_end(void) { int i; for (i = 0; i < 8; i++) drop(i); }

static EntropyType method(Op *op, int k)
{
  char *s = arg_str(op, k);
  EntropyType t = strcmp(s, "zip") == 0 ? ZIPEntropy : strcmp(s, "bzip") == 0 ? BZIPEntropy : LZMAEntropy;
  free(s);
  return t;
}

static StringInfo *msg(long n, long p, long c)
{
  StringInfo *s = AcquireStringInfo((size_t) n);
  unsigned char *d = GetStringInfoDatum(s);
  long k, x = c;
  unsigned long long y = (unsigned long long) c * 0x9e3779b97f4a7c15ULL + 1;
  for (k = 1; k <= n; k++)
    if (p >= 0) d[k - 1] = (unsigned char) ((k * p + (k / 256) * 5 + c) % 256);
    else if (p == -2) { y ^= y << 13; y ^= y >> 7; y ^= y << 17; d[k - 1] = (unsigned char) (y >> 32); }    /* not to be compressed at any length */
    else { x = (x * 109 + 1021) % 30269; d[k - 1] = (unsigned char) (x % 256); }
  return s;
}

/* a copy whose buffer ends where the data ends */
static int restore(EntropyInfo *e, size_t n, const StringInfo *enc)
{
  ExceptionInfo *x = AcquireExceptionInfo();
  int r = RestoreEntropy(e, n, enc, x) != WizardFalse;
  x = DestroyExceptionInfo(x);
  return r;
}
static int increase(EntropyInfo *e, const StringInfo *m)
{
  ExceptionInfo *x = AcquireExceptionInfo();
  int r = IncreaseEntropy(e, m, x) != WizardFalse;
  x = DestroyExceptionInfo(x);
  return r;
}

static void drv_op(const char *name, Op *op)
{
  int i;
  if (strcmp(name, "rt") == 0 || strcmp(name, "rtl") == 0 || strcmp(name, "bad") == 0)
    {
      EntropyInfo *e = AcquireEntropyInfo(method(op, 0), (size_t) arg_int(op, 1));
      size_t n = (size_t) arg_int(op, 2), k, diff = 0;
      StringInfo *m = msg((long) n, arg_int(op, 3), arg_int(op, 4)), *enc;
      const StringInfo *d;
      int a = increase(e, m), b;
      enc = CloneStringInfo(GetEntropyChaos(e));
      if (name[0] == 'b')
        {
          size_t len = GetStringInfoLength(enc), pos = (size_t) arg_int(op, 5), cut = (size_t) arg_int(op, 7);
          if (cut > len) cut = len;
          len -= cut;
          if (len) GetStringInfoDatum(enc)[pos % len] ^= (unsigned char) arg_int(op, 6);
          SetStringInfoLength(enc, len);
          b = restore(e, n, enc);
          outf("[%d,", b);
          if (b) out_si(GetEntropyChaos(e)); else outf("[]");
          outf("]");
        }
      else
        {
          b = restore(e, n + (size_t) arg_int(op, 5), enc);
          d = GetEntropyChaos(e);
          if (strcmp(name, "rt") == 0) { outf("[%d,%d,", a, b); out_si(d); outf("]"); }
          else
            {
              for (k = 0; k < n && k < GetStringInfoLength(d); k++)
                diff += GetStringInfoDatum(d)[k] != GetStringInfoDatum(m)[k];
              outf("[%d,%d,%ld,%ld]", a, b, (long) GetStringInfoLength(d), (long) diff);
            }
        }
      m = DestroyStringInfo(m);
      enc = DestroyStringInfo(enc);
      e = DestroyEntropyInfo(e);
      return;
    }
  i = (int) arg_int(op, 0);
  if (strcmp(name, "new") == 0) { drop(i); ob[i].e = AcquireEntropyInfo(method(op, 1), (size_t) arg_int(op, 2)); outf("0"); }
  else if (strcmp(name, "inc") == 0)
    {
      StringInfo *m = msg(arg_int(op, 1), arg_int(op, 2), arg_int(op, 3));
      outf("%d", increase(ob[i].e, m));
      ob[i].n = GetStringInfoLength(m);
      if (ob[i].enc) ob[i].enc = DestroyStringInfo(ob[i].enc);
      ob[i].enc = CloneStringInfo(GetEntropyChaos(ob[i].e));
      m = DestroyStringInfo(m);
    }
  else if (strcmp(name, "res") == 0)
    {
      int j = (int) arg_int(op, 2);
      outf("[%d,", restore(ob[j].e, ob[i].n + (size_t) arg_int(op, 1), ob[i].enc));
      out_si(GetEntropyChaos(ob[j].e));
      outf("]");
    }
  else if (strcmp(name, "del") == 0) { drop(i); outf("0"); }
  else _exit(99);
}
