/* Driver for key rings (K01, K02, K03). */
#include "control.h"
#include "wizard/keyring.h"
#include "wizard/blob.h"
#include "wizard/blob-private.h"

static char path[1200], listing[1200];
static int doing[MAXW];
static ExceptionInfo *ex;

static void sched_init(void) { ex = AcquireExceptionInfo(); }

/* the arguments of a call travel through shared memory: lengths, then bytes */
typedef struct { int n[3]; unsigned char b[3][1024]; } Args;

static StringInfo *si(Args *a, int k)
{
  StringInfo *s = AcquireStringInfo(a->n[k]);
  SetStringInfoDatum(s, a->b[k]);
  return s;
}
static void put(Args *a, int k, const StringInfo *s)
{
  a->n[k] = s == NULL ? -1 : (int) GetStringInfoLength(s);
  if (s != NULL) memcpy(a->b[k], GetStringInfoDatum(s), a->n[k]);
}
static void sched_work(int w, int cmd)
{
  Args *a = (Args *) sh->w[w].data;
  KeyringInfo *k = AcquireKeyringInfo(path);
  StringInfo *id = si(a, 0), *key, *nonce;
  ExceptionInfo *e = AcquireExceptionInfo();
  SetKeyringId(k, id);
  errno = EINTR;        /* as some earlier call may have left it */
  if (cmd == 1)
    {
      key = si(a, 1); nonce = si(a, 2);
      SetKeyringKey(k, key); SetKeyringNonce(k, nonce);
      sh->w[w].res[0] = ImportKeyringKey(k, e) != WizardFalse;
      key = DestroyStringInfo(key); nonce = DestroyStringInfo(nonce);
    }
  else if (cmd == 2)
    {
      sh->w[w].res[0] = ExportKeyringKey(k, e) != WizardFalse;
      if (sh->w[w].res[0]) { put(a, 1, GetKeyringKey(k)); put(a, 2, GetKeyringNonce(k)); }
    }
  else
    {
      BlobInfo *b = OpenBlob(listing, WriteBinaryBlobMode, WizardFalse, e);
      sh->w[w].res[0] = PrintKeyringProperties(path, b, e) != WizardFalse;
      CloseBlob(b);
      b = DestroyBlob(b);
    }
  id = DestroyStringInfo(id);
  k = DestroyKeyringInfo(k);
  e = DestroyExceptionInfo(e);
}
static void listed(void)
{
  char line[8192];
  FILE *f = fopen(listing, "r");
  int n = 0, k;
  unsigned v;
  outf(",[");
  while (f != NULL && fgets(line, sizeof(line), f) != NULL)
    {
      const char *p = strstr(line, "<keyring:Key rdf:about=\""), *q = strstr(line, "<keyring:nonce>");
      if (p != NULL) { p = strchr(p, '"') + 1; outf("%s[", n++ ? "," : ""); }
      else if (q != NULL) { p = q + 15; outf(","); }
      else continue;
      outf("[");
      for (k = 0; sscanf(p, "%2x", &v) == 1 && p[1] != '"' && p[1] != '<'; p += 2, k++) outf("%s%u", k ? "," : "", v);
      outf(q ? "]]" : "]");
    }
  if (f != NULL) fclose(f);
  outf("]");
}
static void drv_begin(void)
{
  WizardsToolkitGenesis("driver");
  workdir_make();
  snprintf(path, sizeof(path), "%s/ring.xdm", workdir);
  snprintf(listing, sizeof(listing), "%s/listing", workdir);
}
static void drv_end(void) { sched_end(); workdir_remove(); }

static void answer(int w, int r)
{
  Args *a = (Args *) sh->w[w].data;
  if (r < -1) _exit(1);
  if (r == -1) outf("[\"died\"]");
  else if (r == 0) outf("[]");
  else
    {
      outf("[\"ret\",%d", sh->w[w].res[0]);
      if (doing[w] == 2 && sh->w[w].res[0])
        {
          outf(","); out_bytes(a->b[1], a->n[1]); outf(","); out_bytes(a->b[2], a->n[2]);
        }
      if (doing[w] == 3) listed();
      outf("]");
      doing[w] = 0;
      sh->fault_w = -1;
    }
}
static void dump(void)
{
  unsigned char b[4096];
  size_t n = 0;
  FILE *f = fopen(path, "r");
  if (f != NULL) { n = fread(b, 1, sizeof(b), f); fclose(f); }
  out_bytes(b, n);
}

static void drv_op(const char *name, Op *op)
{
  int i, w;
  if (strcmp(name, "layout") == 0)
    {
      int g[MAXW];
      for (i = 0; i < op->argc; i++) g[i] = (int) arg_int(op, i);
      sched_start(g, op->argc);
      outf("0");
      return;
    }
  if (strcmp(name, "kill") == 0) { sched_kill((int) arg_int(op, 0)); outf("0"); return; }
  if (strcmp(name, "dump") == 0) { dump(); return; }
  if (strcmp(name, "cut") == 0) { truncate(path, arg_int(op, 0)); dump(); return; }
  if (strcmp(name, "poke") == 0)        /* offset, value */
    {
      FILE *f = fopen(path, "r+");
      fseek(f, arg_int(op, 0), SEEK_SET);
      fputc((int) arg_int(op, 1), f);
      fclose(f);
      dump();
      return;
    }
  if (strcmp(name, "glue") == 0)        /* bytes at the end */
    {
      size_t n;
      unsigned char *b = arg_bytes(op, 0, &n);
      FILE *f = fopen(path, "a");
      fwrite(b, 1, n, f);
      fclose(f);
      free(b);
      dump();
      return;
    }
  w = (int) arg_int(op, 0) - 1;
  if (gdead[wgroup[w]]) { outf("[]"); return; }
  if (strcmp(name, "fault") == 0)
    {
      sh->fault_w = w; sh->fault_n = (int) arg_int(op, 1); sh->fault_kind = (int) arg_int(op, 2);
      outf("0");
    }
  else if (strcmp(name, "adv") == 0)
    {
      if (doing[w] == 0) outf("[]");
      else answer(w, sched_advance(w, (int) arg_int(op, 1)));
    }
  else if (doing[w] != 0) outf("[\"busy\"]");
  else
    {
      Args *a = (Args *) sh->w[w].data;
      int n = (int) arg_int(op, 1), k;
      for (k = 0; k + 2 < op->argc; k++)
        {
          size_t len;
          unsigned char *b = arg_bytes(op, k + 2, &len);
          a->n[k] = (int) len;
          memcpy(a->b[k], b, len);
          free(b);
        }
      doing[w] = strcmp(name, "imp") == 0 ? 1 : strcmp(name, "exp") == 0 ? 2 : 3;
      answer(w, sched_command(w, doing[w], n));
    }
}
