/* The border between a program with swapped byte order and the C library:
   converts what is handed over in memory. Compiled without the pass. */
#define _GNU_SOURCE
#define _FILE_OFFSET_BITS 64
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <utime.h>
#include <stdio.h>
#include <string.h>
#include <fcntl.h>
#include <stdlib.h>
#include <regex.h>
#define SW(x) do { unsigned char *p_ = (unsigned char *)&(x), t_; for(unsigned i_ = 0; i_ < sizeof(x) / 2; i_++) { t_ = p_[i_]; p_[i_] = p_[sizeof(x) - 1 - i_]; p_[sizeof(x) - 1 - i_] = t_; } } while(0)
static int fix(int r, struct stat *s)
{
  if(r == 0)
  {
    SW(s->st_dev); SW(s->st_ino); SW(s->st_mode); SW(s->st_nlink); SW(s->st_uid); SW(s->st_gid); SW(s->st_rdev); SW(s->st_size); SW(s->st_blksize); SW(s->st_blocks);
    SW(s->st_atim.tv_sec); SW(s->st_atim.tv_nsec); SW(s->st_mtim.tv_sec); SW(s->st_mtim.tv_nsec); SW(s->st_ctim.tv_sec); SW(s->st_ctim.tv_nsec);
  }
  return r;
}
int __real_stat64(const char *, struct stat *); int __wrap_stat64(const char *p, struct stat *s) { return fix(__real_stat64(p, s), s); }
int __real_lstat64(const char *, struct stat *); int __wrap_lstat64(const char *p, struct stat *s) { return fix(__real_lstat64(p, s), s); }
int __real_fstat64(int, struct stat *); int __wrap_fstat64(int d, struct stat *s) { return fix(__real_fstat64(d, s), s); }
int __real_fstatat64(int, const char *, struct stat *, int); int __wrap_fstatat64(int d, const char *p, struct stat *s, int f) { return fix(__real_fstatat64(d, p, s, f), s); }
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { int r = __real_clock_gettime(c, t); if(r == 0) { SW(t->tv_sec); SW(t->tv_nsec); } return r; }
int __real_gettimeofday(struct timeval *, void *);
int __wrap_gettimeofday(struct timeval *t, void *z) { int r = __real_gettimeofday(t, z); if(r == 0) { SW(t->tv_sec); SW(t->tv_usec); } return r; }
time_t __real_time(time_t *); time_t __wrap_time(time_t *t) { time_t r = __real_time(0); if(t) { *t = r; SW(*t); } return r; }
int __real_utime(const char *, const struct utimbuf *);
int __wrap_utime(const char *p, const struct utimbuf *t) { if(!t) return __real_utime(p, t); struct utimbuf c = *t; SW(c.actime); SW(c.modtime); return __real_utime(p, &c); }
static const struct timespec *two(struct timespec *c, const struct timespec *t) { if(!t) return t; memcpy(c, t, 2 * sizeof *c); for(int i = 0; i < 2; i++) { SW(c[i].tv_sec); SW(c[i].tv_nsec); } return c; }
int __real_utimensat(int, const char *, const struct timespec *, int);
int __wrap_utimensat(int d, const char *p, const struct timespec *t, int f) { struct timespec c[2]; return __real_utimensat(d, p, two(c, t), f); }
int __real_futimens(int, const struct timespec *);
int __wrap_futimens(int d, const struct timespec *t) { struct timespec c[2]; return __real_futimens(d, two(c, t)); }
static const struct timeval *twov(struct timeval *c, const struct timeval *t) { if(!t) return t; memcpy(c, t, 2 * sizeof *c); for(int i = 0; i < 2; i++) { SW(c[i].tv_sec); SW(c[i].tv_usec); } return c; }
int __real_utimes(const char *, const struct timeval *);
int __wrap_utimes(const char *p, const struct timeval *t) { struct timeval c[2]; return __real_utimes(p, twov(c, t)); }
int __real_lutimes(const char *, const struct timeval *);
int __wrap_lutimes(const char *p, const struct timeval *t) { struct timeval c[2]; return __real_lutimes(p, twov(c, t)); }
ssize_t __real_getline(char **, size_t *, FILE *);
ssize_t __wrap_getline(char **l, size_t *n, FILE *f) { SW(*n); ssize_t r = __real_getline(l, n, f); SW(*n); return r; }
int __real_regexec(const regex_t *, const char *, size_t, regmatch_t *, int);
int __wrap_regexec(const regex_t *x, const char *s, size_t n, regmatch_t *m, int f) { int r = __real_regexec(x, s, n, m, f); if(m) for(size_t i = 0; i < n; i++) { SW(m[i].rm_so); SW(m[i].rm_eo); } return r; }
