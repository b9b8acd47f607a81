/* Driver for block ciphers and cipher objects (C03, C04). */
#include "common.h"
#include "wizard/aes.h"
#include "wizard/chacha.h"
#include "wizard/serpent.h"
#include "wizard/twofish.h"

typedef struct { CipherInfo *c; StringInfo *buf; } Obj;
static Obj ob[8];
static void *bo[4];

static void drv_begin(void) { WizardsToolkitGenesis("driver"); }
static void drop(int i)
{
  if (ob[i].c) ob[i].c = DestroyCipherInfo(ob[i].c);
  if (ob[i].buf) ob[i].buf = DestroyStringInfo(ob[i].buf);
}
static void drv_end(void)
{
  int i;
  for (i = 0; i < 8; i++) drop(i);
  if (bo[0]) bo[0] = DestroyAESInfo(bo[0]);
  if (bo[1]) bo[1] = DestroySerpentInfo(bo[1]);
  if (bo[2]) bo[2] = DestroyTwofishInfo(bo[2]);
  if (bo[3]) bo[3] = DestroyChachaInfo(bo[3]);
}

static const char *CN[] = { "aes", "serpent", "twofish", "chacha" };
static const CipherType CT[] = { AESCipher, SerpentCipher, TwofishCipher, ChachaCipher };
static const char *MN[] = { "cbc", "cfb", "ctr", "ecb", "ofb" };
static const CipherMode MT[] = { CBCMode, CFBMode, CTRMode, ECBMode, OFBMode };

static int idx(const char **t, int n, Op *op, int k)
{
  char *s = arg_str(op, k);
  int i;
  for (i = 0; i < n; i++)
    if (strcmp(t[i], s) == 0) { free(s); return i; }
  _exit(99);
}

/* one object of each cipher for the whole behaviour, re-keyed every time */
static unsigned int setkey(int c, StringInfo *k)
{
  switch (c)
  {
    case 0: if (!bo[0]) bo[0] = AcquireAESInfo(); SetAESKey(bo[0], k); return GetAESBlocksize(bo[0]);
    case 1: if (!bo[1]) bo[1] = AcquireSerpentInfo(); SetSerpentKey(bo[1], k); return GetSerpentBlocksize(bo[1]);
    case 2: if (!bo[2]) bo[2] = AcquireTwofishInfo(); SetTwofishKey(bo[2], k); return GetTwofishBlocksize(bo[2]);
    default: if (!bo[3]) bo[3] = AcquireChachaInfo(); SetChachaKey(bo[3], k); return GetChachaBlocksize(bo[3]);
  }
}
static void block(int c, int enc, const unsigned char *p, unsigned char *q)
{
  switch (c)
  {
    case 0: if (enc) EncipherAESBlock(bo[0], p, q); else DecipherAESBlock(bo[0], p, q); break;
    case 1: if (enc) EncipherSerpentBlock(bo[1], p, q); else DecipherSerpentBlock(bo[1], p, q); break;
    case 2: if (enc) EncipherTwofishBlock(bo[2], p, q); else DecipherTwofishBlock(bo[2], p, q); break;
    default: if (enc) EncipherChachaBlock(bo[3], p, q); else DecipherChachaBlock(bo[3], p, q); break;
  }
}

/* what enciphering left in the buffer, the padding included */
static StringInfo *encipher(CipherInfo *c, int mode, StringInfo *s)
{
  size_t n = GetStringInfoLength(s), b = GetCipherBlocksize(c);
  s = EncipherCipher(c, s);
  if (GetStringInfoLength(s) != n) _exit(98);
  if (MT[mode] != CFBMode)
    SetStringInfoLength(s, n + b - n % b);
  return s;
}

static int md[8];

static void drv_op(const char *name, Op *op)
{
  int i;
  if (strcmp(name, "blk") == 0)
    {
      int c = idx(CN, 4, op, 0);
      StringInfo *k = arg_si(op, 1);
      size_t n, o, b = setkey(c, k);
      unsigned char *t = arg_bytes(op, 2, &n), *x = malloc(n), *y = malloc(n);
      for (o = 0; o < n; o += b) block(c, 1, t + o, x + o);
      memcpy(y, t, n);
      for (o = 0; o < n; o += b) block(c, 0, y + o, y + o);
      outf("["); out_bytes(x, n); outf(","); out_bytes(y, n); outf(",%ld]", (long) b);
      free(t); free(x); free(y);
      k = DestroyStringInfo(k);
      return;
    }
  if (strcmp(name, "chacha") == 0)
    {
      StringInfo *k = arg_si(op, 0);
      unsigned char *c = arg_bytes(op, 1, NULL), *n = arg_bytes(op, 2, NULL), *t = arg_bytes(op, 3, NULL), x[64];
      setkey(3, k);
      SetChachaNonce(bo[3], n, c);
      block(3, 1, t, x);
      out_bytes(x, 64);
      free(c); free(n); free(t);
      k = DestroyStringInfo(k);
      return;
    }
  if (strcmp(name, "mode") == 0)
    {
      int c = idx(CN, 4, op, 0), m = idx(MN, 5, op, 1);
      CipherInfo *ci = AcquireCipherInfo(CT[c], MT[m]);
      StringInfo *k = arg_si(op, 2), *n = arg_si(op, 3), *s = arg_si(op, 4), *u;
      size_t len = GetStringInfoLength(s), full;
      SetCipherKey(ci, k);
      SetCipherNonce(ci, n);
      s = encipher(ci, m, s);
      outf("["); out_si(s); outf(",");
      full = GetStringInfoLength(s);
      u = CloneStringInfo(s);
      s = DecipherCipher(ci, s);
      out_si(s); outf(",");
      if (full > len) SetStringInfoLength(u, len);
      /* the last block is there even when the length does not cover it */
      u = DecipherCipher(ci, u);
      out_bytes(GetStringInfoDatum(u), len); outf(",");
      out_si(GetCipherNonce(ci));
      outf("]");
      ci = DestroyCipherInfo(ci);
      k = DestroyStringInfo(k); n = DestroyStringInfo(n); s = DestroyStringInfo(s); u = DestroyStringInfo(u);
      return;
    }
  i = (int) arg_int(op, 0);
  if (strcmp(name, "new") == 0)
    {
      drop(i);
      md[i] = idx(MN, 5, op, 2);
      ob[i].c = AcquireCipherInfo(CT[idx(CN, 4, op, 1)], MT[md[i]]);
      outf("%ld", (long) GetCipherBlocksize(ob[i].c));
    }
  else if (strcmp(name, "key") == 0) { StringInfo *k = arg_si(op, 1); SetCipherKey(ob[i].c, k); k = DestroyStringInfo(k); outf("0"); }
  else if (strcmp(name, "nonce") == 0) { StringInfo *k = arg_si(op, 1); SetCipherNonce(ob[i].c, k); k = DestroyStringInfo(k); outf("0"); }
  else if (strcmp(name, "zero") == 0) { ResetCipherNonce(ob[i].c); outf("0"); }
  else if (strcmp(name, "get") == 0) out_si(GetCipherNonce(ob[i].c));
  else if (strcmp(name, "enc") == 0)
    {
      if (ob[i].buf) ob[i].buf = DestroyStringInfo(ob[i].buf);
      ob[i].buf = encipher(ob[i].c, md[i], arg_si(op, 1));
      out_si(ob[i].buf);
    }
  else if (strcmp(name, "dec") == 0)
    {
      StringInfo *u = CloneStringInfo(ob[arg_int(op, 1)].buf);
      u = DecipherCipher(ob[i].c, u);
      out_si(u);
      u = DestroyStringInfo(u);
    }
  else if (strcmp(name, "del") == 0) { drop(i); outf("0"); }
  else _exit(99);
}
