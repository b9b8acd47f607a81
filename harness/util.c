/* Driver for the utilities (U01, U02, U03): each runs in a process of its own. */
#include "common.h"
#include <ctype.h>
#include <time.h>
#include <utime.h>
#include "utilities.h"
#include "scratch.h"

#define FILES 16
static char fname[FILES][512];

static char *path(int f)
{
  static char b[8][2048];
  static int k = 0;
  k = (k + 1) % 8;
  snprintf(b[k], 2048, "%s/%s", workdir, fname[f]);
  return b[k];
}
static unsigned char *slurp(const char *p, size_t *n)
{
  FILE *f = fopen(p, "rb");
  unsigned char *b;
  long len;
  *n = 0;
  if (f == NULL) return NULL;
  fseek(f, 0, SEEK_END);
  len = ftell(f);
  fseek(f, 0, SEEK_SET);
  b = malloc(len + 1);
  *n = fread(b, 1, len, f);
  b[*n] = 0;
  fclose(f);
  return b;
}
static void spill(const char *p, const unsigned char *b, size_t n)
{
  FILE *f = fopen(p, "wb");
  if (f == NULL) _exit(98);
  fwrite(b, 1, n, f);
  fclose(f);
}
/* content: kind 0 zeros, 1 incompressible, 2 repetitive text, 3 all bytes in turn */
static void fill(unsigned char *b, size_t n, int kind, unsigned long long x)
{
  size_t i;
  x = x * 6364136223846793005ULL + 1442695040888963407ULL;
  for (i = 0; i < n; i++)
    {
      x = x * 6364136223846793005ULL + 1442695040888963407ULL;
      b[i] = kind == 0 ? 0 : kind == 1 ? (unsigned char) (x >> 56) : kind == 2 ? (unsigned char) ("to be or not to be "[i % 19]) : (unsigned char) i;
    }
}
static void drv_begin(void)
{
  int i;
  char home[1100];
  workdir_make();
  snprintf(home, sizeof(home), "%s/home", workdir);
  mkdir(home, 0700);
  setenv("HOME", home, 1);
  for (i = 0; i < FILES; i++) snprintf(fname[i], sizeof(fname[i]), "f%d", i);
  if (chdir(workdir) != 0) _exit(98);
}
static void drv_end(void) { if (chdir("/") == 0) workdir_remove(); }

static char *args[64];
static int nargs;
static void opt(const char *name, Op *op, int i)
{
  char *v = arg_str(op, i);
  if (*v == 0) { free(v); return; }
  args[nargs++] = strdup(name);
  args[nargs++] = v;
}
static void optint(const char *name, long v)
{
  char b[32];
  if (v == -1) return;
  snprintf(b, sizeof(b), "%ld", v);
  args[nargs++] = strdup(name);
  args[nargs++] = strdup(b);
}
static void optfile(const char *name, int f)
{
  if (f < 0) return;
  args[nargs++] = strdup(name);
  args[nargs++] = strdup(path(f));
}
/* exit status, 128 + signal when killed */
static int launch(int (*prog)(int, char **), const char *name)
{
  int status;
  pid_t pid;
  args[0] = strdup(name);
  args[nargs] = NULL;
  fflush(drv_out);
  pid = fork();
  if (pid == 0)
    {
      int fd = open(path(15), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(fd, 1);
      dup2(fd, 2);
      close(fd);
      alarm(20);
      exit(prog(nargs, args));
    }
  waitpid(pid, &status, 0);
  while (nargs > 0) free(args[--nargs]);
  return WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
}
static void field(const unsigned char *b, const char *tag)
{
  char t[64];
  const char *p, *q;
  snprintf(t, sizeof(t), "<cipher:%s>", tag);
  p = strstr((const char *) b, t);
  if (p == NULL) { outf(",\"\""); return; }
  p += strlen(t);
  q = strchr(p, '<');
  outf(",\"%.*s\"", q == NULL ? 0 : (int) (q - p), p);
}
static long offset(int f, long base, long off)
{
  size_t n;
  unsigned char *b = slurp(path(f), &n), *p;
  long r = off;
  if (base == 2) r = (long) n + off;
  if (base == 1 && b != NULL)
    for (p = b; p + 18 <= b + n; p++)
      if (memcmp(p, "<?cipherpacket?>\f\n", 18) == 0) { r = (long) (p + 18 - b) + off; break; }
  free(b);
  return r;
}
static void drv_op(const char *name, Op *op)
{
  size_t n, m, k;
  unsigned char *a, *b;
  if (strcmp(name, "name") == 0)        /* file, name */
    {
      char *s = arg_str(op, 1);
      snprintf(fname[arg_int(op, 0)], sizeof(fname[0]), "%s", s);
      free(s);
      outf("0");
    }
  else if (strcmp(name, "put") == 0)    /* file, kind, seed, length */
    {
      n = (size_t) arg_int(op, 3);
      a = malloc(n + 1);
      fill(a, n, (int) arg_int(op, 1), (unsigned long long) arg_int(op, 2));
      if (arg_int(op, 1) >= 16)         /* pieces of that size, each easier or harder to compress than the one before */
        {
          size_t z = (size_t) arg_int(op, 1), k;
          fill(a, n, 1, (unsigned long long) arg_int(op, 2));
          for (k = 0; k < n; k++) if (k % z >= k / z % (z + 1)) a[k] = 'x';
        }
      spill(path((int) arg_int(op, 0)), a, n);
      free(a);
      outf("0");
    }
  else if (strcmp(name, "set") == 0)    /* file, bytes */
    {
      a = arg_bytes(op, 1, &n);
      spill(path((int) arg_int(op, 0)), a, n);
      free(a);
      outf("0");
    }
  else if (strcmp(name, "enc") == 0 || strcmp(name, "dec") == 0)
    {   /* in, out, passphrase, ring, properties, cipher, mode, hmac, entropy, level, key hash, key length, chunk size */
      int enc = *name == 'e', r, props = (int) arg_int(op, 4), out = (int) arg_int(op, 1);
      nargs = 1;
      optfile("-passphrase", (int) arg_int(op, 2));
      optfile("-keyring", (int) arg_int(op, 3));
      optfile("-properties", props);
      if (enc)
        {
          opt("-cipher", op, 5); opt("-mode", op, 6); opt("-hmac", op, 7); opt("-entropy", op, 8);
          optint("-level", arg_int(op, 9)); opt("-key", op, 10); optint("-key-length", arg_int(op, 11)); optint("-chunksize", arg_int(op, 12));
        }
      args[nargs++] = strdup(fname[arg_int(op, 0)]);
      args[nargs++] = strdup(fname[out]);
      unlink(path(out));
      r = enc ? launch(encipher_main, "encipher") : launch(decipher_main, "decipher");
      if (!enc) { outf("%d", r); return; }
      b = slurp(path(out), &n);
      a = slurp(path(props >= 0 ? props : out), &m);
      outf("[\"enc\",%d,%zu,%ld", r, n, props >= 0 ? 0L : offset(out, 1, 0));
      if (a != NULL)
        {
          field(a, "type"); field(a, "mode"); field(a, "hmac"); field(a, "entropy"); field(a, "level");
          field(a, "key-hash"); field(a, "key-length"); field(a, "chunksize");
        }
      outf("]");
      free(a);
      free(b);
    }
  else if (strcmp(name, "cmp") == 0)    /* file, file: sizes and common prefix, -1 for none */
    {
      a = slurp(path((int) arg_int(op, 0)), &n);
      b = slurp(path((int) arg_int(op, 1)), &m);
      for (k = 0; a && b && k < n && k < m && a[k] == b[k]; k++) ;
      outf("[%ld,%ld,%ld]", a ? (long) n : -1L, b ? (long) m : -1L, (long) k);
      free(a);
      free(b);
    }
  else if (strcmp(name, "flip") == 0)   /* file, base, offset, mask: the byte at that place, changed */
    {
      int f = (int) arg_int(op, 0);
      long o = offset(f, arg_int(op, 1), arg_int(op, 2));
      a = slurp(path(f), &n);
      if (a != NULL && o >= 0 && o < (long) n) { a[o] ^= (unsigned char) arg_int(op, 3); spill(path(f), a, n); outf("1"); }
      else outf("0");
      free(a);
    }
  else if (strcmp(name, "cut") == 0)    /* file, base, offset: the rest is gone */
    {
      int f = (int) arg_int(op, 0);
      long o = offset(f, arg_int(op, 1), arg_int(op, 2));
      a = slurp(path(f), &n);
      if (a != NULL && o >= 0 && o < (long) n) { spill(path(f), a, (size_t) o); outf("1"); }
      else outf("0");
      free(a);
    }
  else if (strcmp(name, "glue") == 0)   /* file, bytes */
    {
      FILE *f = fopen(path((int) arg_int(op, 0)), "ab");
      a = arg_bytes(op, 1, &n);
      fwrite(a, 1, n, f);
      fclose(f);
      free(a);
      outf("1");
    }
  else if (strcmp(name, "swap") == 0)   /* file, base, offset, offset, length: two pieces exchanged */
    {
      int f = (int) arg_int(op, 0);
      long o = offset(f, arg_int(op, 1), arg_int(op, 2)), p = offset(f, arg_int(op, 1), arg_int(op, 3)), l = arg_int(op, 4), i;
      a = slurp(path(f), &n);
      if (a != NULL && o >= 0 && p >= o + l && p + l <= (long) n)
        {
          for (i = 0; i < l; i++) { unsigned char c = a[o + i]; a[o + i] = a[p + i]; a[p + i] = c; }
          spill(path(f), a, n);
          outf("1");
        }
      else outf("0");
      free(a);
    }
  else if (strcmp(name, "drop") == 0 || strcmp(name, "dup") == 0)   /* file, base, offset, length: a piece taken out or doubled */
    {
      int f = (int) arg_int(op, 0), dup = name[1] == 'u';
      long o = offset(f, arg_int(op, 1), arg_int(op, 2)), l = arg_int(op, 3);
      a = slurp(path(f), &n);
      if (a != NULL && o >= 0 && o + l <= (long) n)
        {
          b = malloc(n + l + 1);
          memcpy(b, a, o);
          if (dup) { memcpy(b + o, a + o, l); memcpy(b + o + l, a + o, n - o); spill(path(f), b, n + l); }
          else { memcpy(b + o, a + o + l, n - o - l); spill(path(f), b, n - l); }
          free(b);
          outf("1");
        }
      else outf("0");
      free(a);
    }
  else if (strcmp(name, "gone") == 0)   /* file */
    outf("%d", unlink(path((int) arg_int(op, 0))));
  else if (strcmp(name, "digest") == 0) /* manifest, then hash and file in turn: exit status and the entries of the manifest */
    {
      int i, r, c = 0;
      char *p, *q;
      nargs = 1;
      for (i = 1; i + 1 < op->argc; i += 2)
        {
          opt("-hash", op, i);
          args[nargs++] = strdup(fname[arg_int(op, i + 1)]);
        }
      args[nargs++] = strdup(fname[arg_int(op, 0)]);
      unlink(path((int) arg_int(op, 0)));
      r = launch(digest_main, "digest");
      a = slurp(path((int) arg_int(op, 0)), &n);
      outf("[%d,[", r);
      for (p = (char *) a; p != NULL && (p = strstr(p, "<digest:extent>")) != NULL; )
        {       /* length, hash and digest */
          outf("%s[%ld,", c++ ? "," : "", strtol(p + 15, &q, 10));
          if ((p = strstr(p, "</digest:extent>")) == NULL || (p = strstr(p, "<digest:")) == NULL || (q = strchr(p, '>')) == NULL) { outf("\"\",[]]"); break; }
          outf("\"%.*s\",[", (int) (q - p - 8), p + 8);
          for (p = q + 1, k = 0; isxdigit((unsigned char) p[0]) && isxdigit((unsigned char) p[1]); p += 2)
            outf("%s%d", k++ ? "," : "", hexval(p[0]) * 16 + hexval(p[1]));
          outf("]]");
        }
      outf("]]");
      free(a);
    }
  else if (strcmp(name, "verify") == 0) /* report, manifests ...: exit status, the files reported, in order, and those the messages name */
    {
      int i, r, c = 0, rep = (int) arg_int(op, 0);
      char *p, t[600];
      nargs = 1;
      args[nargs++] = strdup("-authenticate");
      for (i = 1; i < op->argc; i++) args[nargs++] = strdup(fname[arg_int(op, i)]);
      args[nargs++] = strdup(fname[rep]);
      r = launch(digest_main, "digest");
      a = slurp(path(rep), &n);
      outf("[%d,[", r);
      for (p = (char *) a; p != NULL && (p = strstr(p, "Path: ")) != NULL; p += 6)
        {
          for (i = 0; i < FILES; i++)
            if (strncmp(p + 6, fname[i], strlen(fname[i])) == 0 && p[6 + strlen(fname[i])] == '\n') break;
          outf("%s%d", c++ ? "," : "", i);
        }
      free(a);
      a = slurp(path(15), &n);
      outf("],[");
      for (c = i = 0; i < FILES; i++)
        {
          snprintf(t, sizeof(t), "`%s'", fname[i]);
          if (a != NULL && strstr((char *) a, t) != NULL) outf("%s%d", c++ ? "," : "", i);
        }
      outf("]]");
      free(a);
    }
  else if (strcmp(name, "zone") == 0)
    {
      char *z = arg_str(op, 0);
      setenv("TZ", z, 1);
      tzset();
      free(z);
      outf("0");
    }
  else if (strcmp(name, "touch") == 0)  /* file, days, seconds */
    {
      struct utimbuf u;
      u.actime = u.modtime = (time_t) arg_int(op, 1) * 86400 + arg_int(op, 2);
      outf("%d", utime(path((int) arg_int(op, 0)), &u));
    }
  else if (strcmp(name, "when") == 0)   /* file */
    {
      struct stat st;
      if (stat(path((int) arg_int(op, 0)), &st) != 0) outf("[-1,-1]");
      else outf("[%ld,%ld]", (long) st.st_mtime / 86400, (long) st.st_mtime % 86400);
    }
  else if (strcmp(name, "text") == 0)   /* file: its bytes */
    {
      a = slurp(path((int) arg_int(op, 0)), &n);
      out_bytes(a, a ? n : 0);
      free(a);
    }
  else _exit(99);
}
