/* Driver for streams and whole-file transfers (B01, B02). */
#include "common.h"
#include "wizard/blob.h"
#include "wizard/blob-private.h"
#include "scratch.h"
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <poll.h>
#include <zlib.h>
#include <bzlib.h>

static BlobInfo *blobs[4];
static int fds[4];
static pid_t kids[4];
static const char *names[] = { "", "a", "b.gz", "c.bz2", "d.Z", "e" };
static const char *exts[] = { "", "", ".gz", ".bz2", ".Z", "" };

static void drv_begin(void)
{
  WizardsToolkitGenesis("driver");
  workdir_make();
}

static char *path_of(int f)
{
  static char p[2048];
  snprintf(p, sizeof(p), "%s/%s", workdir, names[f]);
  return p;
}

static void *must(size_t n)
{
  void *p = malloc(n ? n : 1);
  if (p == NULL) _exit(99);
  return p;
}

static unsigned char *pat(long p, long d, long n)
{
  unsigned char *b = must((size_t) n);
  long k;
  for (k = 0; k < n; k++) b[k] = (unsigned char) ((p + k * d + (k / 256) * 97) % 256);
  return b;
}

/* bytes as runs of a first byte, a difference and a length */
static void out_runs(const unsigned char *b, long n)
{
  long i = 0;
  outf("[");
  while (i < n)
    {
      long j = i + 1;
      int d = 0;
      if (j < n)
        {
          d = (b[j] - b[i]) & 255;
          while (j < n && ((b[j] - b[j - 1]) & 255) == d) j++;
        }
      outf("%s[%d,%d,%ld]", i ? "," : "", b[i], d, j - i);
      i = j;
    }
  outf("]");
}

static void write_all(int fd, const unsigned char *b, size_t n)
{
  while (n > 0)
    {
      ssize_t k = write(fd, b, n);
      if (k <= 0) { if (k < 0 && errno == EINTR) continue; return; }
      b += k; n -= (size_t) k;
    }
}

static unsigned char *slurp(const char *p, long *n)
{
  int fd = open(p, O_RDONLY);
  unsigned char *b;
  struct stat s;
  *n = -1;
  if (fd < 0) return NULL;
  fstat(fd, &s);
  b = must((size_t) s.st_size + 1);
  *n = (long) read(fd, b, (size_t) s.st_size);
  close(fd);
  return b;
}

static void spill(const char *p, const unsigned char *b, size_t n)
{
  int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) _exit(99);
  write_all(fd, b, n);
  close(fd);
}

/* compress into the file, in a number of parts */
static void put(const char *p, int kind, const unsigned char *b, long n, int parts)
{
  int i;
  if (kind == 0) { spill(p, b, (size_t) n); return; }
  unlink(p);
  for (i = 0; i < parts; i++)
    {
      long from = n * i / parts, to = n * (i + 1) / parts;
      if (kind == 1)
        {
          gzFile g = gzopen(p, "ab");
          if (g == NULL) _exit(99);
          if (to > from) gzwrite(g, b + from, (unsigned) (to - from));
          gzclose(g);
        }
      else
        {
          FILE *f = fopen(p, "ab");
          int err;
          BZFILE *z;
          if (f == NULL) _exit(99);
          z = BZ2_bzWriteOpen(&err, f, 1, 0, 0);
          if (to > from) BZ2_bzWrite(&err, z, (void *) (b + from), (int) (to - from));
          BZ2_bzWriteClose(&err, z, 0, NULL, NULL);
          fclose(f);
        }
    }
}

static void cat(const char *p)
{
  long n, m = 0, cap = 1 << 18;
  unsigned char *b = slurp(p, &n), *o;
  if (b == NULL) { outf("[-1,[]]"); return; }
  if (n >= 3 && b[0] == 0x1f && b[1] == 0x8b && b[2] == 8)
    {
      gzFile g = gzopen(p, "rb");
      int k;
      o = must((size_t) cap);
      while ((k = gzread(g, o + m, (unsigned) (cap - m))) > 0) { m += k; if (m == cap) o = realloc(o, (size_t) (cap *= 2)); }
      if (gzclose(g) != Z_OK || k < 0) m = -2;
    }
  else if (n >= 3 && memcmp(b, "BZh", 3) == 0)
    {
      FILE *f = fopen(p, "rb");
      int err, k;
      BZFILE *z = BZ2_bzReadOpen(&err, f, 0, 0, NULL, 0);
      o = must((size_t) cap);
      while ((k = BZ2_bzRead(&err, z, o + m, (int) (cap - m))) > 0 && err == BZ_OK) { m += k; if (m == cap) o = realloc(o, (size_t) (cap *= 2)); }
      if (err == BZ_STREAM_END) m += k; else m = -2;
      BZ2_bzReadClose(&err, z);
      fclose(f);
    }
  else
    {
      o = must((size_t) n);
      memcpy(o, b, (size_t) n);
      m = n;
    }
  outf("[%ld,", m);
  out_runs(o, m < 0 ? 0 : m);
  outf("]");
  free(o);
  free(b);
}

/* a process at the other end of a named pipe: feeds the file into it in pieces, or stores what comes out */
static pid_t other_end(const char *fifo, const char *file, int feed, size_t piece)
{
  int ready = feed ? -1 : open(fifo, O_RDONLY | O_NONBLOCK);
  pid_t pid = fork();
  if (pid != 0 && ready >= 0) close(ready);
  if (pid == 0)
    {
      int in, out;
      unsigned char buf[4096];
      ssize_t k;
      signal(SIGPIPE, SIG_IGN);
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      alarm(60);
      for (in = 3; in < 256; in++) if (in != ready) close(in);
      if (feed)
        {
          long n;
          unsigned char *b = slurp(file, &n);
          size_t at = 0;
          out = open(fifo, O_WRONLY);
          while (at < (size_t) n)
            {
              size_t m = (size_t) n - at < piece ? (size_t) n - at : piece;
              ssize_t w = write(out, b + at, m);
              if (w <= 0) break;
              at += (size_t) w;
              if (piece < 1000 && at < 4 * piece) usleep(300);
            }
          close(out);
        }
      else
        {
          struct pollfd pf;
          in = pf.fd = ready;
          pf.events = POLLIN;
          while (poll(&pf, 1, -1) < 0 && errno == EINTR) ;
          fcntl(in, F_SETFL, 0);
          out = open(file, O_WRONLY | O_CREAT | O_TRUNC, 0644);
          while ((k = read(in, buf, sizeof(buf))) > 0) write_all(out, buf, (size_t) k);
          close(out);
          close(in);
        }
      _exit(0);
    }
  return pid;
}

static void finish(int x)
{
  int status;
  if (fds[x] > 0) close(fds[x]);
  if (kids[x] > 0) while (waitpid(kids[x], &status, 0) < 0 && errno == EINTR) ;
  fds[x] = 0;
  kids[x] = 0;
}

static BlobInfo *open_blob(int x, int f, BlobMode mode, int cz, int how, long piece)
{
  char p[4096], file[2048];
  ExceptionInfo *ex = AcquireExceptionInfo();
  int reading = mode == ReadBinaryBlobMode;
  BlobInfo *b;

  snprintf(file, sizeof(file), "%s", path_of(f));
  strcpy(p, file);
  fds[x] = 0;
  kids[x] = 0;
  if (how == 1)
    {
      fds[x] = reading ? open(file, O_RDONLY) : open(file, O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fds[x] < 0) _exit(99);
      snprintf(p, sizeof(p), "fd:%d", fds[x]);
    }
  else if (how == 2)
    snprintf(p, sizeof(p), reading ? "|cat '%s'" : "|cat > '%s'", file);
  else if (how == 3)
    {
      snprintf(p, sizeof(p), "%s/fifo%d", workdir, x);
      unlink(p);
      if (mkfifo(p, 0600) != 0) _exit(99);
      kids[x] = other_end(p, file, reading, (size_t) piece);
    }
  else if (how == 4)
    {
      snprintf(p, sizeof(p), "%s/full%d%s", workdir, x, exts[f]);
      unlink(p);
      if (symlink("/dev/full", p) != 0) _exit(99);
    }
  errno = EINTR;
  b = OpenBlob(p, mode, cz ? WizardTrue : WizardFalse, ex);
  ex = DestroyExceptionInfo(ex);
  return b;
}

static void transfer(const char *name, const char *p, size_t extent)
{
  ExceptionInfo *ex = AcquireExceptionInfo();
  size_t n = 0;
  unsigned char *b = NULL;
  StringInfo *si = NULL;
  errno = EINTR;
  if (strcmp(name, "whole") == 0)
    {
      n = 12345;
      b = (unsigned char *) FileToBlob(p, extent, &n, ex);
    }
  else if (strcmp(name, "string") == 0)
    {
      b = (unsigned char *) FileToString(p, extent, ex);
      if (b != NULL) n = strlen((char *) b);
    }
  else
    {
      si = name[0] == 'i' ? FileToStringInfo(p, extent, ex) : ConfigureFileToStringInfo(p);
      if (si != NULL) { b = GetStringInfoDatum(si); n = GetStringInfoLength(si); }
    }
  outf("[%d,%ld,", b != NULL, (long) n);
  out_runs(b, b != NULL ? (long) n : 0);
  outf(",%d]", GetExceptionSeverity(ex) != UndefinedException);
  if (si != NULL) si = DestroyStringInfo(si);
  else if (b != NULL) b = (unsigned char *) RelinquishWizardMemory(b);
  ex = DestroyExceptionInfo(ex);
}

static void drv_op(const char *name, Op *op)
{
  int x = (int) arg_int(op, 0);
  errno = EINTR;
  if (strcmp(name, "put") == 0)
    {
      long n = arg_int(op, 4);
      unsigned char *b = pat(arg_int(op, 2), arg_int(op, 3), n);
      put(path_of(x), (int) arg_int(op, 1), b, n, (int) arg_int(op, 5));
      free(b);
      outf("0");
    }
  else if (strcmp(name, "cat") == 0) cat(path_of(x));
  else if (strcmp(name, "whole") == 0 || strcmp(name, "string") == 0 || strcmp(name, "info") == 0 || strcmp(name, "conf") == 0)
    {
      int how = (int) arg_int(op, 1), status;
      size_t extent = arg_int(op, 3) < 0 ? ~(size_t) 0 : (size_t) arg_int(op, 3);
      char fifo[2048];
      if (how == 0) { transfer(name, path_of(x), extent); return; }
      snprintf(fifo, sizeof(fifo), "%s/fifo", workdir);
      if (how == 1 || how == 3)
        {
          unlink(fifo);
          if (mkfifo(fifo, 0600) != 0) _exit(99);
          kids[1] = other_end(fifo, path_of(x), 1, (size_t) arg_int(op, 2));
        }
      if (how == 1) transfer(name, fifo, extent);
      else
        {
          pid_t pid;
          fflush(drv_out);
          pid = fork();
          if (pid == 0)
            {
              int fd = open(how == 2 ? path_of(x) : fifo, O_RDONLY);
              alarm(60);
              dup2(fd, 0);
              close(fd);
              transfer(name, "-", extent);
              fflush(drv_out);
              _exit(0);
            }
          while (waitpid(pid, &status, 0) < 0 && errno == EINTR) ;
          if (status != 0) abort();
        }
      finish(1);
    }
  else if (strcmp(name, "map") == 0 || strcmp(name, "mapw") == 0)
    {
      int w = name[3] == 'w';
      MapMode mode = w || arg_int(op, 1) == 2 ? IOMode : ReadMode;
      long off = arg_int(op, w ? 1 : 2), n = arg_int(op, w ? 2 : 3);
      int fd = open(path_of(x), mode == ReadMode ? O_RDONLY : O_RDWR);
      unsigned char *m = MapBlob(fd, mode, off, (size_t) n);
      close(fd);
      if (m != NULL && w) m[arg_int(op, 3)] = (unsigned char) arg_int(op, 4);
      if (!w)
        {
          outf("[%d,", m != NULL);
          out_runs(m, m == NULL ? 0 : n);
          outf("]");
        }
      if (m != NULL && UnmapBlob(m, (size_t) n) == WizardFalse) m = NULL;
      if (w) outf("%d", m != NULL);
    }
  else if (strcmp(name, "harm") == 0)
    {
      long n, at;
      unsigned char *b = slurp(path_of(x), &n);
      at = 4 + (n - 4) * arg_int(op, 1) / 1000;
      if (n > 4)
        {
          if (arg_int(op, 2) == 0) n = at;
          else if (arg_int(op, 2) == 1) b[at] ^= 1;
          else if (arg_int(op, 2) == 2) b[at] ^= 0x80;
          else if (at < n - 1) { memmove(b + at, b + at + 1, (size_t) (n - at - 1)); n--; }
          spill(path_of(x), b, (size_t) n);
        }
      free(b);
      outf("0");
    }
  else if (strcmp(name, "wopen") == 0)
    {
      blobs[x] = open_blob(x, (int) arg_int(op, 1), WriteBinaryBlobMode, (int) arg_int(op, 2), (int) arg_int(op, 3), 0);
      outf("%d", blobs[x] != NULL);
    }
  else if (strcmp(name, "ropen") == 0)
    {
      blobs[x] = open_blob(x, (int) arg_int(op, 1), ReadBinaryBlobMode, (int) arg_int(op, 2), (int) arg_int(op, 3), arg_int(op, 4));
      outf("%d", blobs[x] != NULL);
    }
  else if (strcmp(name, "write") == 0 || strcmp(name, "wchunk") == 0)
    {
      long n = arg_int(op, 3);
      unsigned char *b = pat(arg_int(op, 1), arg_int(op, 2), n);
      errno = EINTR;
      outf("%ld", (long) (name[1] == 'r' ? WriteBlob(blobs[x], (size_t) n, b) : WriteBlobChunk(blobs[x], (size_t) n, b)));
      free(b);
    }
  else if (strcmp(name, "wbyte") == 0) outf("%ld", (long) WriteBlobByte(blobs[x], (unsigned char) arg_int(op, 1)));
  else if (strcmp(name, "wstr") == 0)
    {
      long n = arg_int(op, 2), k;
      char *s = must((size_t) n + 1);
      for (k = 0; k < n; k++) s[k] = (char) (33 + (arg_int(op, 1) + k + 1) % 90);
      s[n] = 0;
      errno = EINTR;
      outf("%ld", (long) WriteBlobString(blobs[x], s));
      free(s);
    }
  else if (strcmp(name, "read") == 0 || strcmp(name, "rchunk") == 0)
    {
      long n = arg_int(op, 1), k;
      unsigned char *b = must((size_t) n);
      errno = EINTR;
      k = (long) (name[1] == 'e' ? ReadBlob(blobs[x], (size_t) n, b) : ReadBlobChunk(blobs[x], (size_t) n, b));
      outf("[%ld,", k);
      out_runs(b, k < 0 ? 0 : k);
      outf("]");
      free(b);
    }
  else if (strcmp(name, "rbyte") == 0) outf("%d", ReadBlobByte(blobs[x]));
  else if (strcmp(name, "eof") == 0) outf("%d", EOFBlob(blobs[x]) != 0);
  else if (strcmp(name, "tell") == 0) outf("%ld", (long) TellBlob(blobs[x]));
  else if (strcmp(name, "size") == 0) outf("%ld", (long) GetBlobSize(blobs[x]));
  else if (strcmp(name, "extent") == 0) outf("%d", SetBlobExtent(blobs[x], (WizardSizeType) arg_int(op, 1)) != WizardFalse);
  else if (strcmp(name, "sync") == 0) outf("%d", SyncBlob(blobs[x]) != 0);
  else if (strcmp(name, "close") == 0)
    {
      int ok = CloseBlob(blobs[x]) != WizardFalse;
      finish(x);
      blobs[x] = DestroyBlob(blobs[x]);
      outf("%d", ok);
    }
  else if (strcmp(name, "drop") == 0)
    {
      blobs[x] = DestroyBlob(blobs[x]);
      finish(x);
      outf("0");
    }
}
static void drv_end(void)
{
  int x;
  for (x = 1; x <= 3; x++)
    {
      if (kids[x] > 0) kill(kids[x], SIGKILL);
      finish(x);
    }
  workdir_remove();
}
