/* Driver for Base64 and hexadecimal texts (S02). */
#include "common.h"

static void drv_begin(void) { WizardsToolkitGenesis("driver"); }
static void drv_end(void) { }

static void decode(const char *t)
{
  size_t n = 77;
  unsigned char *d = Base64Decode(t, &n);
  if (d == NULL) { outf("[]"); return; }
  outf("["); out_bytes(d, n); outf("]");
  d = (unsigned char *) RelinquishWizardMemory(d);
}

static void drv_op(const char *name, Op *op)
{
  size_t n, m = 0;
  unsigned char *a = arg_bytes(op, 0, &n);

  if (strcmp(name, "enc") == 0)
    {
      unsigned char *x = (unsigned char *) malloc(n);
      char *t;
      memcpy(x, a, n);
      t = Base64Encode(x, n, &m);
      outf("["); out_bytes(t, m == strlen(t) ? m : 0); outf(","); decode(t); outf("]");
      t = DestroyString(t);
      free(x);
    }
  else if (strcmp(name, "dec") == 0) decode((char *) a);
  else if (strcmp(name, "hex") == 0)
    {
      StringInfo *s = arg_si(op, 0), *u;
      char *t = StringInfoToHexString(s);
      outf("["); out_cstr(t); outf(",");
      u = HexStringToStringInfo(t); out_si(u); outf("]");
      t = DestroyString(t); s = DestroyStringInfo(s); u = DestroyStringInfo(u);
    }
  else if (strcmp(name, "unhex") == 0)
    { StringInfo *u = HexStringToStringInfo((char *) a); out_si(u); u = DestroyStringInfo(u); }
  else _exit(99);
  free(a);
}
