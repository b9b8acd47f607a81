/* The stored reservoir and what may become of it. */
static size_t stored(const char *at, unsigned char *b, size_t max)
{
  int fd = __real_open(at, O_RDONLY);
  ssize_t n;
  if (fd < 0) return 0;
  n = read(fd, b, max);
  close(fd);
  return n < 0 ? 0 : (size_t) n;
}
static void store(const char *at, const unsigned char *b, size_t n)
{
  int fd = __real_open(at, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0 || write(fd, b, n) != (ssize_t) n) _exit(99);
  close(fd);
}
static int reservoir_op(const char *name, Op *op)
{
  char home[1100], dir[1200], at[1300];
  static unsigned char b[8192];
  size_t n;
  snprintf(home, sizeof(home), "%s/home", workdir);
  snprintf(dir, sizeof(dir), "%s/.wizard", home);
  snprintf(at, sizeof(at), "%s/reservoir.xdm", dir);
  if (strcmp(name, "use") == 0)
    {
      int p[2], st = 0, got = 0;
      unsigned char answer[9];
      pid_t pid;
      setenv("HOME", home, 1);
      (void) mkdir(home, 0700);
      { char gone[1200]; snprintf(gone, sizeof(gone), "%s/.gone", workdir); if (access(gone, F_OK) == 0) (void) rmdir(home); }
      if (pipe(p) != 0) _exit(99);
      fflush(drv_out);
      pid = fork();
      if (pid == 0)
        {
          RandomInfo *r;
          prctl(PR_SET_PDEATHSIG, SIGKILL);
          alarm(20);
          no_entropy = (int) arg_int(op, 1);
          no_device = (int) arg_int(op, 2);
          r = AcquireRandomInfo(hashes[arg_int(op, 0)]);
          answer[0] = r != NULL;
          memset(answer + 1, 0, 8);
          if (r != NULL) { SetRandomKey(r, 8, answer + 1); r = DestroyRandomInfo(r); }
          if (write(p[1], answer, 9) != 9) _exit(1);
          _exit(0);
        }
      close(p[1]);
      got = read(p[0], answer, 9) == 9;
      close(p[0]);
      waitpid(pid, &st, 0);
      if (!got || st != 0) outf("[-1,[],[]]");
      else
        {
          outf("[%d,", answer[0]);
          bytes(answer + 1, 8);
          outf(",");
          n = stored(at, b, sizeof(b));
          bytes(b, n);
          outf("]");
        }
    }
  else if (strcmp(name, "damage") == 0)
    {
      const char *how = arg_str(op, 0);
      size_t k = (size_t) arg_int(op, 1);
      char other[1300], kept[1300];
      setenv("HOME", home, 1);
      snprintf(other, sizeof(other), "%s/.gone", workdir);
      (void) unlink(other);
      (void) mkdir(home, 0700);
      (void) mkdir(dir, 0700);
      n = stored(at, b, 4096);
      if (unlink(at) != 0) (void) rmdir(at);
      snprintf(other, sizeof(other), "%s/elsewhere", workdir);
      snprintf(kept, sizeof(kept), "%s/kept", workdir);
      if (strcmp(how, "missing") == 0) ;
      else if (strcmp(how, "keep") == 0) { store(at, b, n); store(kept, b, n); }
      else if (strcmp(how, "back") == 0) { n = stored(kept, b, 4096); store(at, b, n); }
      else if (strcmp(how, "empty") == 0) store(at, b, 0);
      else if (strcmp(how, "directory") == 0) (void) mkdir(at, 0700);
      else if (strcmp(how, "dangling") == 0) { snprintf(other, sizeof(other), "%s/no/where", workdir); (void) symlink(other, at); }
      else if (strcmp(how, "link") == 0) { store(other, b, n); (void) symlink(other, at); }
      else if (strcmp(how, "long") == 0) { memset(b, 255, 8192); store(at, b, 8192); }
      else if (strcmp(how, "cut") == 0) store(at, b, n < k ? n : k);
      else if (strcmp(how, "byte") == 0) { if (k < n) b[k] ^= (unsigned char) arg_int(op, 2); store(at, b, n); }
      else if (strcmp(how, "append") == 0) store(at, b, n + k);
      else if (strcmp(how, "nohome") == 0)
        {
          workdir_empty(home);
          snprintf(other, sizeof(other), "%s/.gone", workdir);
          store(other, b, 0);
        }
      outf("1");
    }
  else return 0;
  return 1;
}
