/* Driver for option tables (S06). */
#include "common.h"
#include "wizard/mime-private.h"

static void drv_begin(void) { WizardsToolkitGenesis("driver"); }
static void drv_end(void) { }

static struct { const char *name; WizardOption option; } tables[] = {
  { "authenticate", WizardAuthenticateOptions }, { "cipher", WizardCipherOptions },
  { "command", WizardCommandOptions }, { "datatype", WizardDataTypeOptions }, { "debug", WizardDebugOptions },
  { "endian", WizardEndianOptions }, { "entropy", WizardEntropyOptions },
  { "entropylevel", WizardEntropyLevelOptions }, { "keylength", WizardKeyLengthOptions },
  { "hash", WizardHashOptions }, { "list", WizardListOptions }, { "mode", WizardModeOptions },
  { "logevent", WizardLogEventOptions }, { "resource", WizardResourceOptions } };

#define LOGV (long) (AllEvents &~ TraceEvent), BlobEvent, DeprecateEvent, ConfigureEvent, ExceptionEvent, \
  LocaleEvent, NoEvents, ResourceEvent, TraceEvent, UserEvent, WarningEvent, -9
static struct { const char *name; long v[64]; } consts[] = {
  { "authenticate", { UndefinedAuthenticate, PublicAuthenticateMethod, SecretAuthenticateMethod, -9 } },
  { "cipher", { UndefinedCipher, AESCipher, ChachaCipher, NoCipher, SerpentCipher, TwofishCipher, -9 } },
  { "datatype", { UndefinedData, ByteData, LongData, ShortData, StringData, -9 } },
  { "endian", { UndefinedEndian, LSBEndian, MSBEndian, -9 } },
  { "entropy", { UndefinedEntropy, NoEntropy, BZIPEntropy, LZMAEntropy, ZIPEntropy, -9 } },
  { "entropylevel", { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, -9 } },
  { "keylength", { 256, 512, 1024, 2048, -9 } },
  { "hash", { UndefinedHash, CRC64Hash, MD5Hash, NoHash, SHA1Hash, SHA2224Hash, SHA2256Hash, SHA2384Hash, SHA2512Hash,
      SHA2Hash, SHA2224Hash, SHA2256Hash, SHA2384Hash, SHA2512Hash, SHA3Hash, SHA3224Hash, SHA3256Hash, SHA3384Hash,
      SHA3512Hash, -9 } },
  { "list", { WizardAuthenticateOptions, WizardCipherOptions, WizardCommandOptions, WizardDataTypeOptions,
      WizardDebugOptions, WizardEndianOptions, WizardEntropyOptions, WizardEntropyLevelOptions, WizardHashOptions,
      WizardKeyLengthOptions, WizardListOptions, WizardModeOptions, -9 } },
  { "logevent", { LOGV } },
  { "debug", { LOGV } },
  { "mode", { UndefinedMode, CBCMode, CFBMode, CTRMode, ECBMode, OFBMode, -9 } },
  { "resource", { UndefinedResource, AreaResource, DiskResource, FileResource, MapResource, MemoryResource, -9 } },
  /* number of parameters of each command option */
  { "command", { 1,1, 1,1, 0,0, 1,1, 1,1, 1,1, 0,0, 1,1, 1,1, 1,1, 1,1, 1,1, 1,1, 1,1, 1,1, 1,1, 0,0, 1,1, -9 } } };

static WizardOption table(const char *n)
{
  unsigned int k;
  for (k = 0; k < sizeof(tables) / sizeof(*tables); k++)
    if (strcmp(tables[k].name, n) == 0) return tables[k].option;
  _exit(99);
}

static void drv_op(const char *name, Op *op)
{
  unsigned int k, j;

  if (strcmp(name, "consts") == 0)
    {
      outf("{");
      for (k = 0; k < sizeof(consts) / sizeof(*consts); k++)
      {
        outf("%s\"%s\":[", k ? "," : "", consts[k].name);
        for (j = 0; consts[k].v[j] != -9; j++) outf("%s%ld", j ? "," : "", consts[k].v[j]);
        outf("]");
      }
      outf("}");
    }
  else if (strcmp(name, "names") == 0)
    {
      char **v = GetWizardOptions(table(arg_str(op, 0)));
      outf("[");
      for (k = 0; v[k] != NULL; k++) outf("%s\"%s\"", k ? "," : "", v[k]);
      outf("]");
    }
  else if (strcmp(name, "parse") == 0)
    outf("%ld", (long) ParseWizardOption(table(arg_str(op, 0)), arg_int(op, 1) ? WizardTrue : WizardFalse, arg_str(op, 2)));
  else if (strcmp(name, "print") == 0)
    {
      char *t = arg_str(op, 0);
      for (k = 0; strcmp(consts[k].name, t) != 0; k++) ;
      outf("\"%s\"", WizardOptionToMnemonic(table(t), (ssize_t) consts[k].v[arg_int(op, 1) - 1]));
    }
  else if (strcmp(name, "isoption") == 0)
    outf("%d", IsWizardOption(arg_str(op, 0)) != WizardFalse);
  else _exit(99);
}
