/* Driver for what is left in use when everything made was destroyed (M03). */
#include "common.h"
#include <dirent.h>
#include "scratch.h"
#include "wizard/blob-private.h"
#include "wizard/hmac.h"
#include "wizard/random_.h"
#include "wizard/semaphore.h"

size_t __sanitizer_get_current_allocated_bytes(void);

#define SLOTS 4
#define KINDS 15
static struct { int kind; void *p; int how; } slot[SLOTS];
static long held;
static char at[8][1200];

static const char *word[] = { "", "a", "key", "another", "&<>\"'\n", "a rather longer text, to be put away", "x=1&y=2", "0" };
#define WORD(n) word[(n) & 7]
static void *let_go(void *p) { return RelinquishWizardMemory(p); }
static int order(const void *x, const void *y) { return strcmp(x, y); }
static char *numbered(long n) { char t[40]; sprintf(t, "%ld", n); return ConstantString(t); }
static StringInfo *bytes_of(size_t n, int seed)
{
  StringInfo *s = AcquireStringInfo(n);
  size_t k;
  for (k = 0; k < n; k++) GetStringInfoDatum(s)[k] = (unsigned char) (k * (seed | 1) + seed);
  return s;
}
static void *make(int kind, int how)
{
  static const HashType hash[] = { CRC64Hash, MD5Hash, SHA1Hash, SHA2256Hash, SHA3512Hash, SHA2224Hash, SHA2384Hash, SHA3256Hash };
  static const CipherType cipher[] = { AESCipher, ChachaCipher, SerpentCipher, TwofishCipher };
  static const CipherMode mode[] = { CBCMode, CFBMode, CTRMode, ECBMode, OFBMode };
  static const EntropyType entropy[] = { ZIPEntropy, BZIPEntropy, LZMAEntropy, ZIPEntropy };
  switch (kind)
  {
    case 1: return NewHashmap((size_t) (how + 1) * 3, HashStringType, CompareHashmapString, let_go, let_go);
    case 2: return NewLinkedList(how & 1 ? 5 : 0);
    case 3: return NewSplayTree(CompareSplayTreeString, let_go, let_go);
    case 4: return bytes_of((size_t) how * 9, how);
    case 5: return AcquireHashInfo(hash[how & 7]);
    case 6: return AcquireHMACInfo(hash[how & 7]);
    case 7: return AcquireCipherInfo(cipher[how & 3], mode[(how >> 2) % 5]);
    case 8: return AcquireEntropyInfo(entropy[how & 3], 1 + how % 9);
    case 9: return AcquireRandomInfo(hash[how & 7]);
    case 10: return NewXMLTreeTag(how & 1 ? "root" : "r");
    case 11: return AcquireExceptionInfo();
    case 12: return AcquireString(WORD(how));
    case 13: return AcquireTimerInfo();
    case 14: { KeyringInfo *k = AcquireKeyringInfo(at[0]); return k; }
    case 15: return AcquireAuthenticateInfo(SecretAuthenticateMethod, at[0], hash[how & 7]);
  }
  return NULL;
}
static void drop(int kind, void *p)
{
  switch (kind)
  {
    case 1: (void) DestroyHashmap(p); break;
    case 2: (void) DestroyLinkedList(p, let_go); break;
    case 3: (void) DestroySplayTree(p); break;
    case 4: (void) DestroyStringInfo(p); break;
    case 5: (void) DestroyHashInfo(p); break;
    case 6: (void) DestroyHMACInfo(p); break;
    case 7: (void) DestroyCipherInfo(p); break;
    case 8: (void) DestroyEntropyInfo(p); break;
    case 9: (void) DestroyRandomInfo(p); break;
    case 10: (void) DestroyXMLTree(p); break;
    case 11: (void) DestroyExceptionInfo(p); break;
    case 12: (void) DestroyString(p); break;
    case 13: (void) DestroyTimerInfo(p); break;
    case 14: (void) DestroyKeyringInfo(p); break;
    case 15: (void) DestroyAuthenticateInfo(p); break;
  }
}
static void strings(char **list) { if (list != NULL) (void) DestroyStringList(list); }
static void act(int kind, void **q, int what, long n)
{
  static const char *doc[] = { "<a/>", "<?xml version=\"1.0\"?><!-- c --><a b='1' c=\"2\">t&amp;t<d>u</d><d>v</d></a>", "<a><b></a>", "<a", "", "<!DOCTYPE a [<!ENTITY e 'x'><!ATTLIST a k CDATA 'v'>]><a>&e;&#65;</a>",
    "<!DOCTYPE a [<!ENTITY e '&e;'>]><a>&e;</a>", "<a><?pi data?><![CDATA[<>]]></a>" };
  ExceptionInfo *x = AcquireExceptionInfo();
  void *p = *q;
  size_t k, m;
  char *t, **list;
  StringInfo *s;
  switch (kind)
  {
    case 1:
      switch (what % 6)
      {
        case 0: case 1: (void) PutEntryInHashmap(p, numbered(n), ConstantString(WORD(n))); break;
        case 2: t = numbered(n); (void) GetValueFromHashmap(p, t); (void) DestroyString(t); break;
        case 3: t = numbered(n); { char *v = RemoveEntryFromHashmap(p, t); if (v != NULL) (void) DestroyString(v); } (void) DestroyString(t); break;
        case 4: ResetHashmapIterator(p); while (GetNextKeyInHashmap(p) != NULL) ; break;
        case 5: for (k = 0; k < 40; k++) (void) PutEntryInHashmap(p, numbered(n + (long) k), ConstantString("v")); break;
      }
      break;
    case 2:
      switch (what % 9)
      {
        case 0: case 1: t = numbered(n); if (AppendValueToLinkedList(p, t) == WizardFalse) (void) DestroyString(t); break;
        case 2: t = numbered(n); if (InsertValueInLinkedList(p, (size_t) (n % 5), t) == WizardFalse) (void) DestroyString(t); break;
        case 3: t = RemoveElementFromLinkedList(p, (size_t) (n % 5)); if (t != NULL) (void) DestroyString(t); break;
        case 4: t = RemoveLastElementFromLinkedList(p); if (t != NULL) (void) DestroyString(t); break;
        case 5: t = GetValueFromLinkedList(p, (size_t) (n % 5)); if (t != NULL) { t = RemoveElementByValueFromLinkedList(p, t); if (t != NULL) (void) DestroyString(t); } break;
        case 6: ClearLinkedList(p, let_go); break;
        case 7: { void *a[200]; if (GetNumberOfElementsInLinkedList(p) < 200) (void) LinkedListToArray(p, a); } break;
        case 8: { void *old = NULL; t = numbered(n); if (InsertValueInSortedLinkedList(p, order, &old, t) == WizardFalse) (void) DestroyString(t); else if (old != NULL) (void) DestroyString(old); } break;
      }
      break;
    case 3:
      switch (what % 8)
      {
        case 0: case 1: (void) AddValueToSplayTree(p, numbered(n), ConstantString(WORD(n))); break;
        case 2: t = numbered(n); (void) GetValueFromSplayTree(p, t); (void) DestroyString(t); break;
        case 3: t = numbered(n); { char *v = RemoveNodeFromSplayTree(p, t); if (v != NULL) (void) DestroyString(v); } (void) DestroyString(t); break;
        case 4: t = numbered(n); (void) DeleteNodeFromSplayTree(p, t); (void) DestroyString(t); break;
        case 5: (void) DestroySplayTree(CloneSplayTree(p, (void *(*)(void *)) ConstantString, (void *(*)(void *)) ConstantString)); break;
        case 6: ResetSplayTree(p); break;
        case 7: ResetSplayTreeIterator(p); if (GetNextKeyInSplayTree(p) != NULL) { void *v = (void *) GetValueFromSplayTree(p, GetNextKeyInSplayTree(p) == NULL ? "0" : "1"); if (v != NULL) (void) DeleteNodeByValueFromSplayTree(p, v); } break;
      }
      break;
    case 4:
      switch (what % 9)
      {
        case 0: SetStringInfoLength(p, (size_t) n); break;
        case 1: s = bytes_of((size_t) n % 50, 3); ConcatenateStringInfo(p, s); (void) DestroyStringInfo(s); break;
        case 2: s = SplitStringInfo(p, (size_t) n % 40); if (s != NULL) (void) DestroyStringInfo(s); break;
        case 3: SetStringInfoPath(p, WORD(n)); break;
        case 4: (void) DestroyString(StringInfoToHexString(p)); (void) DestroyString(StringInfoToString(p)); break;
        case 5: s = bytes_of((size_t) n, 5); SetStringInfo(p, s); (void) DestroyStringInfo(s); break;
        case 6: s = CloneStringInfo(p); (void) CompareStringInfo(s, p); (void) GetStringInfoCRC(s); (void) DestroyStringInfo(s); break;
        case 7: ResetStringInfo(p); break;
        case 8: s = HexStringToStringInfo(n & 1 ? "0a1b2" : "xyz"); if (s != NULL) (void) DestroyStringInfo(s); s = StringToStringInfo(WORD(n)); if (s != NULL) (void) DestroyStringInfo(s); break;
      }
      break;
    case 5:
      s = bytes_of((size_t) n, 7);
      (void) InitializeHash(p);
      for (k = 0; k < (size_t) (what % 4); k++) (void) UpdateHash(p, s);
      (void) FinalizeHash(p);
      (void) GetHashDigest(p);
      (void) DestroyString(GetHashHexDigest(p));
      (void) DestroyStringInfo(s);
      break;
    case 6:
      s = bytes_of((size_t) n, 7);
      if (what & 1) ConstructHMAC(p, s, s);
      else
        {
          InitializeHMAC(p, s);
          for (k = 0; k < (size_t) (what % 4); k++) UpdateHMAC(p, s);
          FinalizeHMAC(p);
          if (what & 4) ResetHMAC(p);
        }
      (void) GetHMACDigest(p);
      (void) DestroyStringInfo(s);
      break;
    case 7:
      s = bytes_of((size_t) n % 70, 9);
      switch (what % 6)
      {
        case 0: { StringInfo *key = bytes_of((size_t) (n & 1 ? 32 : 16), 3); SetCipherKey(p, key); (void) DestroyStringInfo(key); break; }
        case 1: SetCipherNonce(p, s); break;
        case 2: case 3: { StringInfo *key = bytes_of(32, 3); SetCipherKey(p, key); (void) DestroyStringInfo(key); (void) EncipherCipher(p, s); break; }
        case 4: { StringInfo *key = bytes_of(32, 3); SetCipherKey(p, key); (void) DestroyStringInfo(key); (void) EncipherCipher(p, s); (void) DecipherCipher(p, s); break; }
        case 5: ResetCipherNonce(p); break;
      }
      (void) DestroyStringInfo(s);
      break;
    case 8:
      s = bytes_of((size_t) n * (what & 1 ? 40 : 1), what & 2 ? 0 : 37);
      if (what % 5 == 4) (void) RestoreEntropy(p, 100, s, x);
      else if (IncreaseEntropy(p, s, x) != WizardFalse && what % 5 != 3)
        {
          StringInfo *c = CloneStringInfo(GetEntropyChaos(p));
          (void) RestoreEntropy(p, GetStringInfoLength(s) + (what % 5 == 2), c, x);
          (void) DestroyStringInfo(c);
        }
      (void) DestroyStringInfo(s);
      break;
    case 9:
      if (what & 1) (void) DestroyStringInfo(GetRandomKey(p, (size_t) n % 90));
      else { unsigned char b[128]; SetRandomKey(p, (size_t) n % 90, b); }
      if (what & 2) (void) GetRandomValue(p);
      if (what & 4) (void) GetPseudoRandomValue(p);
      break;
    case 10:
      switch (what % 10)
      {
        case 0: { XMLTreeInfo *y = NewXMLTree(doc[n & 7], x); if (y != NULL) { (void) DestroyString(XMLTreeInfoToXML(y)); (void) DestroyXMLTree(y); } break; }
        case 1: (void) SetXMLTreeContent(p, WORD(n)); break;
        case 2: (void) SetXMLTreeAttribute(p, WORD(1 + n % 3), WORD(n)); break;
        case 3: (void) SetXMLTreeAttribute(p, WORD(1 + n % 3), NULL); break;
        case 4: (void) AddChildToXMLTree(p, WORD(1 + n % 3), (size_t) n % 4); break;
        case 5: (void) DestroyString(XMLTreeInfoToXML(p)); break;
        case 6: { XMLTreeInfo *c = GetXMLTreeChild(p, WORD(1 + n % 3)); if (c != NULL) (void) DestroyXMLTree(PruneTagFromXMLTree(c)); break; }
        case 7: (void) GetXMLTreePath(p, n & 1 ? "a/key" : "key[1]"); (void) GetXMLTreeAttribute(p, "a"); break;
        case 8: { XMLTreeInfo *c = AddChildToXMLTree(p, "deep", 0); if (c != NULL) { (void) SetXMLTreeContent(c, WORD(n)); (void) SetXMLTreeAttribute(c, "k", "v"); } break; }
        case 9: (void) GetXMLTreeProcessingInstructions(p, "pi"); (void) AddPathToXMLTree(p, n & 1 ? "a/b" : "c", 0); break;
      }
      break;
    case 11:
      switch (what % 5)
      {
        case 0: (void) ThrowException(p, n & 1 ? OptionError : BlobWarning, WORD(n), "context"); break;
        case 1: (void) ThrowWizardException(p, GetWizardModule(), n & 1 ? FileError : RandomWarning, "reason `%s'", WORD(n)); break;
        case 2: ClearWizardException(p); break;
        case 3: (void) ThrowException(x, OptionError, WORD(n), NULL); InheritException(p, x); break;
        case 4: for (k = 0; k < 30; k++) (void) ThrowException(p, OptionWarning, WORD((long) k), NULL); break;
      }
      break;
    case 12:
      switch (what % 9)
      {
        case 0: (void) CloneString((char **) q, n == 3 ? NULL : WORD(n)); if (*q == NULL) *q = AcquireString(""); break;
        case 1: (void) ConcatenateString((char **) q, WORD(n)); break;
        case 2: (void) SubstituteString((char **) q, "a", n & 1 ? "bbbbbbb" : ""); break;
        case 3: { int c = 0; list = StringToArgv(WORD(n), &c); if (list != NULL) { for (k = 0; k < (size_t) c; k++) (void) DestroyString(list[k]); (void) RelinquishWizardMemory(list); } break; }
        case 4: t = CanonicalXMLContent(p, n & 1 ? WizardTrue : WizardFalse); if (t != NULL) (void) DestroyString(t); break;
        case 5: t = *(char *) p == 0 ? NULL : Base64Encode(p, strlen(p), &m); if (t != NULL) { void *d = Base64Decode(t, &m); if (d != NULL) (void) RelinquishWizardMemory(d); (void) DestroyString(t); } break;
        case 6: list = GetPathComponents(n & 1 ? "/a/bb/ccc" : p, &m); if (list != NULL) { for (k = 0; k < m; k++) (void) DestroyString(list[k]); (void) RelinquishWizardMemory(list); } break;
        case 7: t = GetEnvironmentValue(n & 1 ? "HOME" : "NONE_SUCH"); if (t != NULL) (void) DestroyString(t); break;
        case 8: (void) GlobExpression(p, n & 1 ? "*{a,b}[c-e]?" : "[", WizardTrue); (void) IsGlob(p); break;
      }
      break;
    case 13:
      StartTimer(p, n & 1 ? WizardTrue : WizardFalse); (void) GetElapsedTime(p); (void) ContinueTimer(p); ResetTimer(p);
      break;
    case 14:
      s = bytes_of(8, (int) (n % 6) * 2 + 1);
      SetKeyringId(p, s);
      switch (what % 4)
      {
        case 0: SetKeyringKey(p, s); SetKeyringNonce(p, s); (void) ImportKeyringKey(p, x); break;
        case 1: (void) ExportKeyringKey(p, x); break;
        case 2: { KeyringInfo *o = AcquireKeyringInfo(at[1 + n % 2]); SetKeyringId(o, s); (void) ExportKeyringKey(o, x); (void) DestroyKeyringInfo(o); break; }
        case 3: SetKeyringPath(p, n & 1 ? at[0] : at[3]); break;
      }
      (void) DestroyStringInfo(s);
      break;
    case 15:
      SetAuthenticatePassphrase(p, n & 1 ? at[4] : n & 2 ? at[5] : at[4]);
      switch (what % 4)
      {
        case 0: SetAuthenticateKeyLength(p, (size_t) (n % 3 + 1) * 64); (void) GenerateAuthenticateKey(p, x); break;
        case 1: s = bytes_of(8, 77); SetAuthenticateId(p, s); (void) AuthenticateKey(p, x); (void) DestroyStringInfo(s); break;
        case 2: if (GenerateAuthenticateKey(p, x) != WizardFalse) { s = CloneStringInfo(GetAuthenticateId(p)); SetAuthenticateId(p, s); (void) AuthenticateKey(p, x); (void) GetAuthenticateKey(p); (void) DestroyStringInfo(s); } break;
        case 3: if (GenerateAuthenticateKey(p, x) != WizardFalse) { SetAuthenticatePassphrase(p, at[5]); (void) AuthenticateKey(p, x); } break;
      }
      break;
  }
  (void) DestroyExceptionInfo(x);
}
/* calls that make nothing to be kept */
static void once(int what, long n)
{
  ExceptionInfo *x = AcquireExceptionInfo();
  size_t k, m = 0;
  void *b;
  BlobInfo *f;
  StringInfo *s;
  unsigned char buffer[300];
  memset(buffer, 'x', sizeof(buffer));
  switch (what % 12)
  {
    case 0: case 1: case 2:
      {
        const char *path = at[6 + n % 2];
        char name[1300];
        snprintf(name, sizeof(name), "%s%s", path, what % 12 == 0 ? "" : what % 12 == 1 ? ".gz" : ".bz2");
        f = OpenBlob(name, WriteBinaryBlobMode, WizardTrue, x);
        if (f == NULL) break;
        for (k = 0; k < (size_t) n % 5; k++) (void) WriteBlobChunk(f, sizeof(buffer), buffer);
        (void) WriteBlobString(f, "text");
        (void) CloseBlob(f);
        (void) DestroyBlob(f);
        f = OpenBlob(name, ReadBinaryBlobMode, WizardTrue, x);
        if (f == NULL) break;
        while (ReadBlobChunk(f, 77, buffer) > 0) ;
        if (n & 1) (void) CloseBlob(f);
        (void) DestroyBlob(f);
        break;
      }
    case 3: f = OpenBlob(at[2], ReadBinaryBlobMode, WizardTrue, x); if (f != NULL) (void) DestroyBlob(f); break;
    case 4: b = FileToBlob(at[4 + n % 2], ~0UL, &m, x); if (b != NULL) (void) RelinquishWizardMemory(b); b = FileToBlob(at[2], ~0UL, &m, x); if (b != NULL) (void) RelinquishWizardMemory(b); break;
    case 5: s = FileToStringInfo(at[n % 3 == 0 ? 2 : 4], ~0UL, x); if (s != NULL) (void) DestroyStringInfo(s); b = FileToString(at[4], ~0UL, x); if (b != NULL) (void) DestroyString(b); break;
    case 6: { char **l = GetMimeList(n & 1 ? "*" : "nothing", &m, x); if (l != NULL) { for (k = 0; k < m; k++) (void) DestroyString(l[k]); (void) RelinquishWizardMemory(l); } break; }
    case 7: { const MimeInfo **l = GetMimeInfoList("*", &m, x); if (l != NULL) (void) RelinquishWizardMemory((void *) l); (void) GetMimeInfo("a.pdf", buffer, 100, x); b = WizardToMime("gif"); if (b != NULL) (void) DestroyString(b); break; }
    case 8: strings(GetWizardOptions(n & 1 ? WizardHashOptions : WizardCipherOptions)); break;
    case 9: { char **l = GetConfigureList("*", &m, x); if (l != NULL) { for (k = 0; k < m; k++) (void) DestroyString(l[k]); (void) RelinquishWizardMemory(l); } break; }
    case 10: { const ConfigureInfo **l = GetConfigureInfoList("*", &m, x); if (l != NULL) (void) RelinquishWizardMemory((void *) l); break; }
    case 11: { char t[WizardPathExtent]; int fd = AcquireUniqueFileResource(workdir, t, x); if (fd != -1) { close(fd); (void) RelinquishUniqueFileResource(t, WizardTrue); } break; }
  }
  (void) DestroyExceptionInfo(x);
}
static int descriptors(void)
{
  int k, n = 0;
  for (k = 0; k < 400; k++) if (fcntl(k, F_GETFD) != -1) n++;
  return n;
}
static void drv_begin(void)
{
  int kind, k;
  char home[1200];
  FILE *f;
  workdir_make();
  snprintf(home, sizeof(home), "%s/home", workdir);
  (void) mkdir(home, 0700);
  setenv("HOME", home, 1);
  setenv("WIZARD_TMPDIR", workdir, 1);
  setenv("TMPDIR", workdir, 1);
  for (k = 0; k < 8; k++) snprintf(at[k], sizeof(at[k]), "%s/%s", workdir, (const char *[]) { "ring", "no/ring", "none", "ring2", "phrase", "phrase2", "s0", "s1" }[k]);
  for (k = 4; k < 6; k++) { f = fopen(at[k], "w"); fprintf(f, "phrase %d", k); fclose(f); }
  WizardsToolkitGenesis("driver");
  /* whatever is set up once and kept */
  for (kind = 1; kind <= KINDS; kind++)
    for (k = 0; k < 10; k++)
    {
      void *p = make(kind, k);
      if (p == NULL) continue;
      act(kind, &p, k, k + 1);
      act(kind, &p, k, k);
      drop(kind, p);
    }
  for (k = 0; k < 12; k++) { once(k, k); once(k, k + 1); }
}
static void drv_end(void) { workdir_remove(); }

static void drv_op(const char *name, Op *op)
{
  int i = strcmp(name, "mark") == 0 ? 0 : (int) arg_int(op, 0), k = strcmp(name, "mark") == 0 || strcmp(name, "free") == 0 ? 0 : (int) arg_int(op, 1);
  long n = strcmp(name, "new") == 0 || strcmp(name, "act") == 0 ? arg_int(op, 2) : 0, before = (long) __sanitizer_get_current_allocated_bytes();
  int ok = 1;
  if (strcmp(name, "new") == 0)
    {
      slot[i].kind = k;
      slot[i].p = make(k, (int) n);
      ok = slot[i].p != NULL;
    }
  else if (strcmp(name, "act") == 0) act(slot[i].kind, &slot[i].p, k, n);
  else if (strcmp(name, "once") == 0) once(i, k);
  else if (strcmp(name, "free") == 0) { drop(slot[i].kind, slot[i].p); slot[i].p = NULL; }
  held += (long) __sanitizer_get_current_allocated_bytes() - before;
  if (strcmp(name, "mark") == 0) outf("[%ld,%d]", held, descriptors());
  else outf("%d", ok);
}
