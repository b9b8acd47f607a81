/* Driver for timestamps (S07). */
#include "common.h"
#include <time.h>

static void zone(char *z) { setenv("TZ", z, 1); tzset(); free(z); }
static void drv_begin(void) { WizardsToolkitGenesis("driver"); setenv("TZ", "UTC0", 1); tzset(); }
static void drv_end(void) { }

static void out_instant(time_t t, const char *rest)
{
  long d = (long) t / 86400, s = (long) t % 86400;
  if (s < 0) { s += 86400; d--; }
  outf("[%ld,%ld,%d]", d, s, *rest != 0);
}
static void drv_op(const char *name, Op *op)
{
  char text[WizardPathExtent];
  time_t t = 12345;
  if (strcmp(name, "zone") == 0) { zone(arg_str(op, 0)); outf("1"); return; }
  if (strcmp(name, "write") == 0)
  {
    ssize_t n;
    memset(text, 'x', sizeof(text));
    n = FormatWizardTime((time_t) arg_int(op, 0) * 86400 + arg_int(op, 1), WizardPathExtent, text);
    outf("[");
    out_cstr(text);
    outf(",%ld]", (long) n);
    return;
  }
  if (strcmp(name, "back") == 0)
  {
    const char *was = getenv("TZ");
    char *old = strdup(was), *rest;
    (void) FormatWizardTime((time_t) arg_int(op, 0) * 86400 + arg_int(op, 1), WizardPathExtent, text);
    zone(arg_str(op, 2));
    rest = (char *) ParseWizardTime(text, &t);
    out_instant(t, rest);
    zone(old);
    return;
  }
  {
    char *s = arg_str(op, 0);
    const char *rest = ParseWizardTime(s, &t);
    if (strcmp(name, "read") == 0) out_instant(t, rest);
    else outf("%d", *rest != 0);
    free(s);
  }
}
