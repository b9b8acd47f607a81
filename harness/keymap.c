/* Driver for key maps (C05). */
#include "common.h"

static KeyInfo *ko[8];
static StringInfo *id[8][64];
static int ng[8];

static void drv_begin(void) { WizardsToolkitGenesis("driver"); }
static void drop(int i)
{
  while (ng[i]) { ng[i]--; id[i][ng[i]] = DestroyStringInfo(id[i][ng[i]]); }
  if (ko[i]) ko[i] = DestroyKeyInfo(ko[i]);
}
static void drv_end(void) { int i; for (i = 0; i < 8; i++) drop(i); }

static void drv_op(const char *name, Op *op)
{
  int i = (int) arg_int(op, 0);
  StringInfo *a = NULL, *b = NULL;
  if (ko[i] == NULL) ko[i] = AcquireKeyInfo();
  if (strcmp(name, "set") == 0) { a = arg_si(op, 1); b = arg_si(op, 2); outf("%d", SetKeyInfo(ko[i], a, b) != WizardFalse); }
  else if (strcmp(name, "get") == 0) { a = arg_si(op, 1); b = GetKeyInfo(ko[i], a); out_si(b); }
  else if (strcmp(name, "gen") == 0) { id[i][ng[i]] = GenerateSessionKey(ko[i]); out_si(id[i][ng[i]++]); }
  else if (strcmp(name, "getg") == 0) { b = GetKeyInfo(ko[i], id[i][arg_int(op, 1)]); out_si(b); }
  else if (strcmp(name, "setg") == 0) { b = arg_si(op, 2); outf("%d", SetKeyInfo(ko[i], id[i][arg_int(op, 1)], b) != WizardFalse); }
  else if (strcmp(name, "del") == 0) { drop(i); outf("0"); }
  else _exit(99);
  if (a) a = DestroyStringInfo(a);
  if (b) b = DestroyStringInfo(b);
}
