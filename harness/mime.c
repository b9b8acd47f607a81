/* Driver for look-up of types (T01). */
#include "common.h"
#include "wizard/mime.h"
#include "wizard/mime-private.h"
#include "scratch.h"
#include <sys/stat.h>
#include <pthread.h>

static ExceptionInfo *ex;
static FILE *table;
static int entries;

static void drv_begin(void)
{
  char p[1200];
  workdir_make();
  setenv("HOME", workdir, 1);
  setenv("WIZARD_CONFIGURE_PATH", workdir, 1);
  snprintf(p, sizeof(p), "%s/mime.xml", workdir);
  table = fopen(p, "w");
  fprintf(table, "<?xml version=\"1.0\"?>\n<mimemap>\n");
}
static void text(const unsigned char *b, size_t n)
{
  size_t i;
  for (i = 0; i < n; i++)
    if ((b[i] >= 'A' && b[i] <= 'Z') || (b[i] >= 'a' && b[i] <= 'z')) fputc(b[i], table);
    else fprintf(table, (i + 1 < n && b[i + 1] >= '0' && b[i + 1] <= '9') || i % 2 ? "\\%03o" : "\\%o", b[i]);
}
static void plain(const unsigned char *b, size_t n) { fwrite(b, 1, n, table); }
static const char *kinds[] = { "", "string", "byte", "short", "long" };
static const char *ends[] = { "", "LSB", "MSB" };

static void entry(Op *op)
{
  size_t n, m, v, i;
  unsigned char *pat = arg_bytes(op, 1, &n), *val = arg_bytes(op, 3, &v), *mask = arg_bytes(op, 4, &m);
  int kind = (int) arg_int(op, 2);
  entries++;
  fprintf(table, "  <mime type=\"t/%02d\" description=\"entry %d\"", (int) arg_int(op, 0), entries);
  if (n > 0) { fprintf(table, " pattern=\""); plain(pat, n); fprintf(table, "\""); }
  if (kind > 0)
    {
      if (kind > 1 || entries % 2) fprintf(table, " data-type=\"%s\"", kinds[kind]);
      fprintf(table, " magic=\"");
      if (kind == 1) text(val, v);
      else { fprintf(table, "0x"); for (i = 0; i < v; i++) fprintf(table, "%02x", val[i]); }
      fprintf(table, "\"");
      if (m > 0) { fprintf(table, " mask=\"0x"); for (i = 0; i < m; i++) fprintf(table, "%02x", mask[i]); fprintf(table, "\""); }
      if (arg_int(op, 5) > 0) fprintf(table, " endian=\"%s\"", ends[arg_int(op, 5)]);
      if (arg_int(op, 7) > 0) fprintf(table, " offset=\"%d:%d\"", (int) arg_int(op, 6), (int) arg_int(op, 7));
      else if (arg_int(op, 6) > 0) fprintf(table, " offset=\"%d\"", (int) arg_int(op, 6));
    }
  if (arg_int(op, 8) > 0) fprintf(table, " priority=\"%d\"", (int) arg_int(op, 8));
  if (arg_int(op, 9) > 0) fprintf(table, " stealth=\"True\"");
  fprintf(table, " />\n");
}
static int find(const char *name, const unsigned char *c, size_t n)
{
  const MimeInfo *m = GetMimeInfo(name, c, n, ex);
  int k = -1;
  if (m == NULL) return 0;
  if (GetMimeDescription(m) == NULL || sscanf(GetMimeDescription(m), "entry %d", &k) != 1) return -1;
  return k;
}
static int type_of(const char *t)
{
  int k = -1;
  if (t == NULL || sscanf(t, "t/%d", &k) != 1) return -1;
  return k;
}
struct job { const char *name; const unsigned char *c; size_t n; int want, ok, lister; pthread_t t; };
static void *work(void *p)
{
  struct job *j = (struct job *) p;
  int i;
  for (i = 0; i < 40; i++)
  {
    if (j->lister)
      {
        size_t n = 0;
        const MimeInfo **l = GetMimeInfoList("*", &n, ex);
        if (l != NULL) l = (const MimeInfo **) RelinquishWizardMemory((void *) l);
      }
    else if (find(j->name, j->c, j->n) != j->want) j->ok = 0;
  }
  return NULL;
}

static void drv_op(const char *name, Op *op)
{
  if (strcmp(name, "entry") == 0) { entry(op); outf("1"); }
  else if (strcmp(name, "load") == 0)
    {
      fprintf(table, "</mimemap>\n");
      fclose(table);
      WizardsToolkitGenesis("driver");
      ex = AcquireExceptionInfo();
      outf("1");
    }
  else if (strcmp(name, "look") == 0 || strcmp(name, "race") == 0)
    {
      size_t k, n;
      unsigned char *nm = arg_bytes(op, 1, &k), *c = arg_bytes(op, 2, &n), *exact = malloc(n);
      char file[256];
      int r;
      memcpy(exact, c, n);
      memcpy(file, nm, k);
      file[k] = 0;
      r = find(arg_int(op, 0) ? file : NULL, exact, n);
      if (strcmp(name, "look") == 0) outf("%d", r);
      else
        {
          struct job j[4];
          int i, ok = 1;
          for (i = 0; i < 4; i++)
          {
            j[i].name = arg_int(op, 0) ? file : NULL; j[i].c = exact; j[i].n = n; j[i].want = r; j[i].ok = 1; j[i].lister = i == 3;
            pthread_create(&j[i].t, NULL, work, &j[i]);
          }
          for (i = 0; i < 4; i++) { pthread_join(j[i].t, NULL); ok &= j[i].ok; }
          outf("[%d,%d]", r, ok);
        }
      free(exact);
    }
  else if (strcmp(name, "list") == 0)
    {
      size_t k, n = 0, i;
      unsigned char *b = arg_bytes(op, 0, &k);
      char pattern[256], **l;
      const MimeInfo **m;
      memcpy(pattern, b, k);
      pattern[k] = 0;
      l = GetMimeList(pattern, &n, ex);
      outf("[[");
      for (i = 0; l != NULL && i < n; i++) { outf(i ? ",%d" : "%d", type_of(l[i])); l[i] = DestroyString(l[i]); }
      if (l != NULL) l = (char **) RelinquishWizardMemory(l);
      outf("],[");
      m = GetMimeInfoList(pattern, &n, ex);
      for (i = 0; m != NULL && i < n; i++) outf(i ? ",%d" : "%d", type_of(GetMimeType(m[i])));
      if (m != NULL) m = (const MimeInfo **) RelinquishWizardMemory((void *) m);
      outf("]]");
    }
  else if (strcmp(name, "tomime") == 0)
    {
      size_t k;
      unsigned char *b = arg_bytes(op, 0, &k);
      char e[64], fall[64], *t;
      memcpy(e, b, k);
      e[k] = 0;
      snprintf(fall, sizeof(fall), "image/x-%s", e);
      if (k % 2 == 0) e[0] = (char) (e[0] - 32);   /* case does not matter */
      t = WizardToMime(e);
      outf("%d", strcmp(t, fall) == 0 ? 0 : type_of(t));
      t = DestroyString(t);
    }
}
static void drv_end(void) { workdir_remove(); }
