/* Driver for resource accounting and temporary files (M01, M02). */
#include "common.h"
#include "wizard/resource_.h"
#include "wizard/memory_.h"
#include "scratch.h"
#include <sys/stat.h>
#include <pthread.h>

extern WizardSizeType GetWizardResourceLimit(const ResourceType);

static const ResourceType kinds[] = { UndefinedResource, MemoryResource, MapResource, DiskResource, FileResource, AreaResource };
static MemoryInfo *vm[8];
static size_t vlen[8];
static struct { int kind; WizardSizeType amount; } held[256];
static int n_held;
static ExceptionInfo *ex;

static void drv_begin(void)
{
  int k;
  workdir_make();
  setenv("WIZARD_TMPDIR", workdir, 1);
  WizardsToolkitGenesis("driver");
  ex = AcquireExceptionInfo();
  for (k = 1; k <= 5; k++) (void) SetWizardResourceLimit(kinds[k], ~(WizardSizeType) 0);
}

static WizardSizeType amount(Op *op, int i)
{
  if (arg_int(op, i) < 0) return ~(WizardSizeType) 0;
  return ((WizardSizeType) arg_int(op, i) << 40) + (WizardSizeType) arg_int(op, i + 1);
}
static void pair(WizardSizeType v) { outf("[%ld,%ld]", (long) (v >> 40), (long) (v & (((WizardSizeType) 1 << 40) - 1))); }
static void usage(void)
{
  int k;
  outf(",[");
  for (k = 1; k <= 4; k++) { if (k > 1) outf(","); pair(GetWizardResource(kinds[k])); }
  outf("]]");
}
static int use(int x)
{
  unsigned char *b = (unsigned char *) GetVirtualMemoryBlob(vm[x]);
  size_t i;
  if (b == NULL) return 0;
  for (i = 0; i < vlen[x]; i++) b[i] = (unsigned char) (i * 7 + (size_t) x);
  return 1;
}
static int check(int x)
{
  unsigned char *b = (unsigned char *) GetVirtualMemoryBlob(vm[x]);
  size_t i;
  for (i = 0; i < vlen[x]; i++) if (b[i] != (unsigned char) (i * 7 + (size_t) x)) return 0;
  return 1;
}

#include "tempfile.h"

static void drv_op(const char *name, Op *op)
{
  int x;
  if (tempfile_op(name, op)) return;
  x = (int) arg_int(op, 0);
  outf("[");
  if (strcmp(name, "limit") == 0)
    {
      WizardSizeType v;
      (void) SetWizardResourceLimit(kinds[x], amount(op, 1));
      v = GetWizardResourceLimit(kinds[x]);
      if (v == ~(WizardSizeType) 0) outf("[-1,0]"); else pair(v);
    }
  else if (strcmp(name, "acquire") == 0) 
    {
      int ok = AcquireWizardResource(kinds[x], amount(op, 1)) != WizardFalse;
      if (ok && x < 5 && n_held < 256) { held[n_held].kind = x; held[n_held++].amount = amount(op, 1); }
      outf("%d", ok);
    }
  else if (strcmp(name, "release") == 0) 
    {
      int i;
      for (i = 0; i < n_held && !(held[i].kind == x && held[i].amount == amount(op, 1)); i++) ;
      if (i == n_held) outf("2");
      else { held[i] = held[--n_held]; RelinquishWizardResource(kinds[x], amount(op, 1)); outf("1"); }
    }
  else if (strcmp(name, "vmem") == 0)
    {
      size_t c = (size_t) arg_int(op, 1), q = (size_t) arg_int(op, 2);
      vm[x] = AcquireVirtualMemory(c, q, ex);
      vlen[x] = c * q;
      outf("%d", vm[x] != NULL && use(x));
    }
  else if (strcmp(name, "vhuge") == 0)
    {
      size_t how = (size_t) arg_int(op, 1);
      MemoryInfo *m = how == 1 ? AcquireVirtualMemory((size_t) 1 << 40, (size_t) 1 << 30, ex) :
                      how == 2 ? AcquireVirtualMemory(3, ~(size_t) 0 / 2, ex) : AcquireVirtualMemory(1, (size_t) 1 << 61, ex);
      outf("%d", m != NULL);
    }
  else if (strcmp(name, "vfree") == 0)
    {
      int ok = check(x);
      vm[x] = RelinquishVirtualMemory(vm[x]);
      outf("%d", ok && vm[x] == NULL);
    }
  usage();
}
static void drv_end(void) { workdir_remove(); }
