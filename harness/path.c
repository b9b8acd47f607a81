/* Driver for path names (S04). */
#include "common.h"

static void drv_begin(void) { WizardsToolkitGenesis("driver"); }
static void drv_end(void) { }

static void drv_op(const char *name, Op *op)
{
  char *a = arg_str(op, 0), *x;
  int k;

  if (strcmp(name, "parts") == 0)
    {
      static const PathType types[] = { FilesystemPath, RootPath, HeadPath, TailPath, BasePath, ExtensionPath, SubnodePath };
      char *exact = strdup(a);
      outf("[");
      for (k = 0; k < 7; k++)
      {
        x = (char *) malloc(WizardPathExtent);
        memset(x, '.', WizardPathExtent);
        GetPathComponent(exact, types[k], x);
        if (k) outf(",");
        out_bytes(x, strnlen(x, WizardPathExtent));
        free(x);
      }
      outf("]");
      free(exact);
    }
  else if (strcmp(name, "list") == 0)
    {
      size_t n = 0, j;
      char **v = GetPathComponents(a, &n);
      outf("[");
      for (j = 0; j < n; j++) { if (j) outf(","); out_cstr(v[j]); }
      if (v[n] != NULL) outf(",0");
      outf("]");
    }
  else if (strcmp(name, "chop") == 0)
    {
      outf("[");
      for (k = 0; k < 4; k++)
      {
        x = (char *) malloc(WizardPathExtent);
        memset(x, '.', WizardPathExtent);
        strcpy(x, a);
        ChopPathComponents(x, (size_t) k);
        if (k) outf(",");
        out_cstr(x);
        free(x);
      }
      outf("]");
    }
  else if (strcmp(name, "append") == 0)
    {
      x = (char *) malloc(WizardPathExtent);
      strcpy(x, a);
      AppendFileExtension(arg_str(op, 1), x);
      out_cstr(x);
      free(x);
    }
  else _exit(99);
  free(a);
}
