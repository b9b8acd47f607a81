/* Driver for hash and HMAC objects (C01, C02). */
#include "common.h"

static HashInfo *ho[16];
static HMACInfo *mo[16];

static void drv_begin(void) { WizardsToolkitGenesis("driver"); }
static void drv_end(void)
{
  int i;
  for (i = 0; i < 16; i++)
  {
    if (ho[i]) ho[i] = DestroyHashInfo(ho[i]);
    if (mo[i]) mo[i] = DestroyHMACInfo(mo[i]);
  }
}

static HashType alg(const char *n)
{
  static const struct { const char *n; HashType t; } T[] = {
    { "md5", MD5Hash }, { "sha1", SHA1Hash }, { "sha224", SHA2224Hash }, { "sha256", SHA2256Hash }, { "sha2", SHA2Hash },
    { "sha384", SHA2384Hash }, { "sha512", SHA2512Hash }, { "sha3", SHA3Hash }, { "sha3224", SHA3224Hash },
    { "sha3256", SHA3256Hash }, { "sha3384", SHA3384Hash }, { "sha3512", SHA3512Hash }, { "crc64", CRC64Hash } };
  size_t k;
  for (k = 0; k < sizeof(T) / sizeof(*T); k++)
    if (strcmp(T[k].n, n) == 0) return T[k].t;
  _exit(99);
}

static unsigned char *gen(long n, long p, long c)
{
  unsigned char *m = (unsigned char *) malloc((size_t) n + 1);
  long k;
  for (k = 1; k <= n; k++) m[k - 1] = (unsigned char) ((k * p + (k / 256) * 5 + c) % 256);
  return m;
}

static void feed(HashInfo *h, HMACInfo *m, const unsigned char *msg, size_t n, const unsigned char *pat, size_t np)
{
  size_t at = 0, k = 0, zeros = 0;
  while (at < n || k < np)
  {
    size_t v = pat[k % np], len;
    StringInfo *s;
    len = v == 254 ? n - at : v == 253 ? 4096 : v == 252 ? 1000 : v == 251 ? 65536 : v;
    if (k > 100000 || zeros > 1000) _exit(99);
    zeros = len == 0 ? zeros + 1 : 0;
    if (len > n - at) len = n - at;
    s = AcquireStringInfo(len);
    SetStringInfoDatum(s, msg + at);
    if (h) UpdateHash(h, s); else UpdateHMAC(m, s);
    s = DestroyStringInfo(s);
    at += len;
    k++;
  }
}

static void drv_op(const char *name, Op *op)
{
  int i = 0;
  StringInfo *s = NULL, *k = NULL;

  if (strcmp(name, "gen") == 0 || strcmp(name, "hgen") == 0)
    {
      int hm = name[0] == 'h';
      char *g = arg_str(op, 0), *hex;
      size_t np, n, lo, hi;
      unsigned char *pat = arg_bytes(op, 4, &np), *msg;
      HashInfo *h = NULL;
      HMACInfo *m = NULL;
      if (hm)
        {
          long nk = arg_int(op, 1);
          unsigned char *kb = gen(nk, 3, 1);
          n = (size_t) arg_int(op, 2);
          msg = gen((long) n, 7, arg_int(op, 3));
          k = AcquireStringInfo((size_t) nk);
          SetStringInfoDatum(k, kb);
          free(kb);
          m = AcquireHMACInfo(alg(g));
        }
      else
        {
          n = (size_t) arg_int(op, 1);
          msg = gen((long) n, arg_int(op, 2), arg_int(op, 3));
          h = AcquireHashInfo(alg(g));
        }
      outf("[[");
      for (lo = 0; lo <= np; lo = hi + 1)
      {
        for (hi = lo; hi < np && pat[hi] != 255; hi++) ;
        if (hm) InitializeHMAC(m, k); else InitializeHash(h);
        feed(h, m, msg, n, pat + lo, hi - lo);
        if (hm) FinalizeHMAC(m); else FinalizeHash(h);
        if (lo) outf(",");
        out_si(hm ? GetHMACDigest(m) : GetHashDigest(h));
      }
      outf("],");
      if (hm)
        {
          s = AcquireStringInfo(n);
          SetStringInfoDatum(s, msg);
          ResetHMAC(m); UpdateHMAC(m, s); FinalizeHMAC(m);
          out_si(GetHMACDigest(m)); outf(",");
          ConstructHMAC(m, k, s);
          out_si(GetHMACDigest(m));
          outf(",%ld]", (long) GetHMACDigestsize(m));
          m = DestroyHMACInfo(m);
        }
      else
        {
          hex = GetHashHexDigest(h);
          out_cstr(hex);
          hex = DestroyString(hex);
          outf(",%ld,%ld]", (long) GetHashDigestsize(h), (long) GetHashBlocksize(h));
          h = DestroyHashInfo(h);
        }
      free(msg); free(pat); free(g);
      if (s) s = DestroyStringInfo(s);
      if (k) k = DestroyStringInfo(k);
      return;
    }
  if (strcmp(name, "huge") == 0)
    {
      char *g = arg_str(op, 0);
      size_t n = (size_t) arg_int(op, 1), piece = (size_t) arg_int(op, 2);
      HashInfo *h = AcquireHashInfo(alg(g));
      s = AcquireStringInfo(piece);
      memset(GetStringInfoDatum(s), 'a', piece);
      InitializeHash(h);
      for ( ; n >= piece; n -= piece) UpdateHash(h, s);
      if (n) { SetStringInfoLength(s, n); UpdateHash(h, s); }
      FinalizeHash(h);
      out_si(GetHashDigest(h));
      h = DestroyHashInfo(h);
      s = DestroyStringInfo(s);
      free(g);
      return;
    }
  if (strcmp(name, "vast") == 0)
    {
      char *g = arg_str(op, 0);
      size_t n = ((size_t) arg_int(op, 1) << 20) + (size_t) arg_int(op, 2);
      HashInfo *h = AcquireHashInfo(alg(g));
      s = AcquireStringInfo(n);
      memset(GetStringInfoDatum(s), 'a', n);
      InitializeHash(h);
      UpdateHash(h, s);
      FinalizeHash(h);
      out_si(GetHashDigest(h));
      h = DestroyHashInfo(h);
      s = DestroyStringInfo(s);
      free(g);
      return;
    }
  i = (int) arg_int(op, 0);
  if (strcmp(name, "acq") == 0) { char *g = arg_str(op, 1); ho[i] = AcquireHashInfo(alg(g)); free(g); outf("0"); }
  else if (strcmp(name, "init") == 0) outf("%d", InitializeHash(ho[i]) != WizardFalse);
  else if (strcmp(name, "upd") == 0) { s = arg_si(op, 1); outf("%d", UpdateHash(ho[i], s) != WizardFalse); }
  else if (strcmp(name, "fin") == 0) { FinalizeHash(ho[i]); out_si(GetHashDigest(ho[i])); }
  else if (strcmp(name, "again") == 0) out_si(ho[i] ? GetHashDigest(ho[i]) : GetHMACDigest(mo[i]));
  else if (strcmp(name, "del") == 0)
    {
      if (ho[i]) ho[i] = DestroyHashInfo(ho[i]);
      if (mo[i]) mo[i] = DestroyHMACInfo(mo[i]);
      outf("0");
    }
  else if (strcmp(name, "hacq") == 0) { char *g = arg_str(op, 1); mo[i] = AcquireHMACInfo(alg(g)); free(g); outf("0"); }
  else if (strcmp(name, "hinit") == 0) { k = arg_si(op, 1); InitializeHMAC(mo[i], k); outf("0"); }
  else if (strcmp(name, "hreset") == 0) { ResetHMAC(mo[i]); outf("0"); }
  else if (strcmp(name, "hupd") == 0) { s = arg_si(op, 1); UpdateHMAC(mo[i], s); outf("0"); }
  else if (strcmp(name, "hfin") == 0) { FinalizeHMAC(mo[i]); out_si(GetHMACDigest(mo[i])); }
  else if (strcmp(name, "hcons") == 0)
    { k = arg_si(op, 1); s = arg_si(op, 2); ConstructHMAC(mo[i], k, s); out_si(GetHMACDigest(mo[i])); }
  else _exit(99);
  if (s) s = DestroyStringInfo(s);
  if (k) k = DestroyStringInfo(k);
}
