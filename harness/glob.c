/* Driver for glob patterns (S05). */
#define MAXARGS 128
#include "common.h"

static void drv_begin(void) { WizardsToolkitGenesis("driver"); }
static void drv_end(void) { }

static void drv_op(const char *name, Op *op)
{
  char *p = arg_str(op, 0), *t;
  int k;

  outf("[");
  for (k = 2; k < op->argc; k++)
  {
    t = arg_str(op, k);
    if (k > 2) outf(",");
    outf("%d", GlobExpression(t, p, arg_int(op, 1) ? WizardTrue : WizardFalse) != WizardFalse);
    free(t);
  }
  outf("]");
  free(p);
}
