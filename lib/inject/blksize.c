/* Lets every file claim NB_BLKSIZE (environment) as its preferred block size,
 * as file systems differ in it: 512 bytes to several MiB. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/stat.h>
static int claim(int r, blksize_t *b)
{
  const char *e = getenv("NB_BLKSIZE");
  if(r == 0 && e) *b = atol(e);
  return r;
}
#define PATH(N, S) \
  extern int __real_##N(const char *, struct S *); \
  int __wrap_##N(const char *p, struct S *s) { return claim(__real_##N(p, s), &s->st_blksize); }
#define FD(N, S) \
  extern int __real_##N(int, struct S *); \
  int __wrap_##N(int fd, struct S *s) { return claim(__real_##N(fd, s), &s->st_blksize); }
#define AT(N, S) \
  extern int __real_##N(int, const char *, struct S *, int); \
  int __wrap_##N(int fd, const char *p, struct S *s, int f) { return claim(__real_##N(fd, p, s, f), &s->st_blksize); }
PATH(stat, stat) PATH(lstat, stat) FD(fstat, stat) AT(fstatat, stat)
PATH(stat64, stat64) PATH(lstat64, stat64) FD(fstat64, stat64) AT(fstatat64, stat64)
