/* Driver for operations on texts (S03). */
#include "common.h"

static void drv_begin(void) { WizardsToolkitGenesis("driver"); }
static void drv_end(void) { }
static int sign(int c) { return c < 0 ? -1 : c > 0; }

static void drv_op(const char *name, Op *op)
{
  char *a = arg_str(op, 0), *b;

  if (strcmp(name, "copy") == 0)
    {
      size_t n = (size_t) arg_int(op, 1), r;
      b = (char *) malloc(n);
      memset(b, 'Z', n);
      r = CopyWizardString(b, a, n);
      outf("["); out_bytes(b, strnlen(b, n)); outf(",%ld]", (long) r);
      return;
    }
  if (strcmp(name, "cat") == 0)
    {
      size_t n = (size_t) arg_int(op, 2), r;
      char *s = arg_str(op, 1);
      b = (char *) malloc(n);
      memset(b, 'Z', n);
      strcpy(b, a);
      r = ConcatenateWizardString(b, s, n);
      outf("["); out_bytes(b, strnlen(b, n)); outf(",%ld]", (long) r);
      return;
    }
  if (strcmp(name, "append") == 0)
    { b = AcquireString(a); ConcatenateString(&b, arg_str(op, 1)); out_cstr(b); return; }
  if (strcmp(name, "dup") == 0)
    {
      char *c = NULL;
      outf("[");
      b = AcquireString(a); out_cstr(b); outf(",");
      b = ConstantString(a); out_cstr(b); outf(",");
      c = AcquireString("previous text"); CloneString(&c, a); out_cstr(c);
      outf("]");
      return;
    }
  if (strcmp(name, "subst") == 0)
    {
      int r;
      b = AcquireString(a);
      r = SubstituteString(&b, arg_str(op, 1), arg_str(op, 2)) != WizardFalse;
      outf("["); out_cstr(b); outf(",%d]", r);
      b = DestroyString(b);
      return;
    }
  if (strcmp(name, "strip") == 0) { StripString(a); out_cstr(a); return; }
  if (strcmp(name, "args") == 0)
    {
      int argc = 0, k;
      char **v = StringToArgv(a, &argc);
      outf("[");
      for (k = 0; k < argc; k++) { if (k) outf(","); out_cstr(v[k]); }
      if (v[argc] != NULL) outf(",0");
      outf("]");
      return;
    }
  if (strcmp(name, "cmp") == 0) { outf("%d", sign(LocaleCompare(a, arg_str(op, 1)))); return; }
  if (strcmp(name, "ncmp") == 0) { outf("%d", sign(LocaleNCompare(a, arg_str(op, 1), (size_t) arg_int(op, 2)))); return; }
  if (strcmp(name, "lower") == 0) { LocaleLower(a); out_cstr(a); return; }
  if (strcmp(name, "truth") == 0) { outf("%d", IsWizardTrue(a) != WizardFalse); return; }
  _exit(99);
}
