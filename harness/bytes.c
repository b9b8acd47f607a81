/* Driver for length-counted byte strings (S01). */
#include "common.h"

static StringInfo *reg[4];

static void drv_begin(void) { WizardsToolkitGenesis("driver"); }
static void drv_end(void) { }

static void state(void)
{
  int k;
  outf(",[");
  for (k = 1; k <= 3; k++)
  {
    if (k > 1) outf(",");
    if (reg[k] == NULL) outf("[]");
    else { outf("["); out_si(reg[k]); outf("]"); }
  }
  outf("]]");
}

static void drv_op(const char *name, Op *op)
{
  long r = arg_int(op, 0);
  size_t n;

  if (strcmp(name, "new") == 0)
    { reg[r] = AcquireStringInfo((size_t) arg_int(op, 1)); outf("[[]"); state(); return; }
  if (strcmp(name, "blob") == 0)
    { unsigned char *b = arg_bytes(op, 3, &n); reg[r] = BlobToStringInfo(b, n); free(b); outf("[[]"); state(); return; }
  if (strcmp(name, "text") == 0)
    { char *b = arg_str(op, 3); reg[r] = StringToStringInfo(b); free(b); outf("[[]"); state(); return; }
  if (strcmp(name, "clone") == 0)
    { reg[r] = CloneStringInfo(reg[arg_int(op, 1)]); outf("[[]"); state(); return; }
  if (strcmp(name, "concat") == 0)
    { ConcatenateStringInfo(reg[r], reg[arg_int(op, 1)]); outf("[[]"); state(); return; }
  if (strcmp(name, "split") == 0)
    {
      StringInfo *x = SplitStringInfo(reg[r], (size_t) arg_int(op, 2));
      reg[arg_int(op, 1)] = x;
      outf("[[%d]", x != NULL); state();
      return;
    }
  if (strcmp(name, "set") == 0)
    { SetStringInfo(reg[r], reg[arg_int(op, 1)]); outf("[[]"); state(); return; }
  if (strcmp(name, "setdatum") == 0)
    { unsigned char *b = arg_bytes(op, 3, &n); SetStringInfoDatum(reg[r], b); free(b); outf("[[]"); state(); return; }
  if (strcmp(name, "setlen") == 0)
    { SetStringInfoLength(reg[r], (size_t) arg_int(op, 1)); outf("[[]"); state(); return; }
  if (strcmp(name, "reset") == 0)
    { ResetStringInfo(reg[r]); outf("[[]"); state(); return; }
  if (strcmp(name, "compare") == 0)
    { int c = CompareStringInfo(reg[r], reg[arg_int(op, 1)]); outf("[[%d]", c < 0 ? -1 : c > 0); state(); return; }
  if (strcmp(name, "tostring") == 0)
    {
      char *t = StringInfoToString(reg[r]);
      n = GetStringInfoLength(reg[r]);
      outf("["); out_bytes(t, n + (t[n] != 0)); t = DestroyString(t); state();
      return;
    }
  if (strcmp(name, "tohex") == 0)
    { char *t = StringInfoToHexString(reg[r]); outf("["); out_cstr(t); t = DestroyString(t); state(); return; }
  if (strcmp(name, "destroy") == 0)
    { reg[r] = DestroyStringInfo(reg[r]); outf("[[]"); state(); return; }
  _exit(99);
}
