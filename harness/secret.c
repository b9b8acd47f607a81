/* Driver for keys kept under a passphrase (K04). */
#include "common.h"
#include "scratch.h"
#include "wizard/authenticate.h"

static AuthenticateInfo *h[4];
static StringInfo *ids[128];
static int nid;
static ExceptionInfo *ex;
static const char *HN[] = { "MD5", "SHA1", "SHA2-224", "SHA2-256", "SHA2-384", "SHA2-512", "SHA3-224", "SHA3-256", "SHA3-384", "SHA3-512" };
static const HashType HT[] = { MD5Hash, SHA1Hash, SHA2224Hash, SHA2256Hash, SHA2384Hash, SHA2512Hash, SHA3224Hash, SHA3256Hash, SHA3384Hash, SHA3512Hash };

static void drv_begin(void) { WizardsToolkitGenesis("driver"); workdir_make(); ex = AcquireExceptionInfo(); }
static void drv_end(void)
{
  int i;
  for (i = 1; i < 4; i++) if (h[i]) h[i] = DestroyAuthenticateInfo(h[i]);
  workdir_remove();
}
static const char *ring(int g)
{
  static char p[2][1200];
  static int k;
  k ^= 1;
  snprintf(p[k], sizeof(p[k]), g == 4 ? "%s/none/ring%d" : "%s/ring%d.xdm", workdir, g);
  return p[k];
}
/* n bytes of a pattern, byte at changed by d, as a file */
static void phrase(AuthenticateInfo *a, Op *op, int i)
{
  static int serial;
  char p[1200];
  long n = arg_int(op, i), b = arg_int(op, i + 1), at = arg_int(op, i + 2), d = arg_int(op, i + 3), k;
  FILE *f;
  snprintf(p, sizeof(p), "%s/phrase%d", workdir, serial++);
  f = fopen(p, "w");
  for (k = 1; k <= n; k++) fputc((int) (1 + (b * 37 + k * k * 7 + k) % 200 + (k == at ? d : 0)), f);
  fclose(f);
  SetAuthenticatePassphrase(a, p);
}
static void answer(AuthenticateInfo *a, int ok, int id)
{
  outf("[%d,", ok);
  if (id) { out_si(GetAuthenticateId(a)); outf(","); }
  out_si(GetAuthenticateKey(a));
  outf("]");
}
static void drv_op(const char *name, Op *op)
{
  int i = (int) arg_int(op, 0), k;
  AuthenticateInfo *a = h[i];

  errno = EINTR;        /* as some earlier call may have left it */
  if (strcmp(name, "new") == 0)
    {
      char *s = arg_str(op, 2);
      for (k = 0; strcmp(HN[k], s) != 0; k++) ;
      if (a) (void) DestroyAuthenticateInfo(a);
      h[i] = AcquireAuthenticateInfo(SecretAuthenticateMethod, ring((int) arg_int(op, 1)), HT[k]);
      SetAuthenticateKeyLength(h[i], (size_t) arg_int(op, 3));
      outf("0");
    }
  else if (strcmp(name, "bits") == 0)
    {
      SetAuthenticateKeyLength(a, (size_t) arg_int(op, 1));
      outf("%d", (int) GetAuthenticateKeyLength(a));
    }
  else if (strcmp(name, "gen") == 0)
    {
      phrase(a, op, 1);
      k = GenerateAuthenticateKey(a, ex) != WizardFalse;
      ids[nid++] = k ? CloneStringInfo(GetAuthenticateId(a)) : StringToStringInfo("none of these");
      answer(a, k, 1);
    }
  else if (strcmp(name, "auth") == 0 || strcmp(name, "nophrase") == 0)
    {
      int who = (int) arg_int(op, 1), m = name[0] == 'a' ? (int) arg_int(op, 2) : 0;
      StringInfo *id = who == 0 ? StringToStringInfo("an identifier of nobody") : CloneStringInfo(ids[who - 1]);
      if (m == 1) GetStringInfoDatum(id)[GetStringInfoLength(id) - 1] ^= 1;
      if (m == 2) SetStringInfoLength(id, GetStringInfoLength(id) - 1);
      if (m == 3) { StringInfo *x = StringToStringInfo("x"); ConcatenateStringInfo(id, x); x = DestroyStringInfo(x); }
      SetAuthenticateId(a, id);
      id = DestroyStringInfo(id);
      if (name[0] == 'a') phrase(a, op, 3);
      else { char p[1200]; snprintf(p, sizeof(p), "%s/no such file", workdir); SetAuthenticatePassphrase(a, p); }
      k = AuthenticateKey(a, ex) != WizardFalse;
      answer(a, k, 0);
    }
  else if (strcmp(name, "drop") == 0) { h[i] = DestroyAuthenticateInfo(a); outf("0"); }
  else if (strcmp(name, "lose") == 0) { (void) unlinkat(AT_FDCWD, ring(i), 0); outf("0"); }
  else if (strcmp(name, "swap") == 0)
    {
      char t[1200];
      int j = (int) arg_int(op, 1);
      snprintf(t, sizeof(t), "%s/aside", workdir);
      (void) rename(ring(i), t); (void) rename(ring(j), ring(i)); (void) rename(t, ring(j));
      outf("0");
    }
  else if (strcmp(name, "flip") == 0)
    {
      int f = open(ring(i), O_RDWR);
      struct stat st;
      char c;
      if (f >= 0 && fstat(f, &st) == 0 && st.st_size > 0)
        {
          off_t o = (off_t) arg_int(op, 1) % st.st_size;
          (void) pread(f, &c, 1, o);
          c ^= (char) arg_int(op, 2);
          (void) pwrite(f, &c, 1, o);
        }
      if (f >= 0) close(f);
      outf("0");
    }
  else _exit(99);
}
