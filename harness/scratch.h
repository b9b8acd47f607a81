/* A scratch directory of the behaviour's own. */
#ifndef VERIF_SCRATCH_H
#define VERIF_SCRATCH_H
#include <dirent.h>
static char workdir[1024];
static void workdir_make(void)
{
  char here[512];
  if (getcwd(here, sizeof(here)) == NULL) _exit(99);
  snprintf(workdir, sizeof(workdir), "%s/w-XXXXXX", here);
  if (mkdtemp(workdir) == NULL) _exit(99);
}
static void workdir_empty(const char *at)
{
  DIR *d = opendir(at);
  struct dirent *e;
  if (d == NULL) return;
  while ((e = readdir(d)) != NULL)
  {
    char p[2048];
    struct stat s;
    if (strcmp(e->d_name, ".") == 0 || strcmp(e->d_name, "..") == 0) continue;
    snprintf(p, sizeof(p), "%s/%s", at, e->d_name);
    if (lstat(p, &s) == 0 && S_ISDIR(s.st_mode)) workdir_empty(p);
    else (void) unlinkat(AT_FDCWD, p, 0);
  }
  closedir(d);
  (void) rmdir(at);
}
static void workdir_remove(void)
{
  if (strstr(workdir, "/w-") != NULL) workdir_empty(workdir);
}
#endif
