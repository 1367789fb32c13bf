/* Memory runs out, from main() on: the allocation number NB_OOM_AT (environment, counted from
 * 1) fails, and with NB_OOM_FOR the ones after it do too, that many in all. The
 * number of allocations which were asked for is written to the file NB_OOM_LOG.
 * Compiling an expression counts as one: the C library's regcomp() frees what it
 * never allocated in some of these cases. */
#include <errno.h>
#include <fcntl.h>
#include <regex.h>
#include <stddef.h>
#include <stdlib.h>
#include <unistd.h>
static unsigned long count, from, until;
static int ready, off = 1;
static int refuse(void)
{
  if(off) return 0;
  if(!ready)
  {
    const char *a = getenv("NB_OOM_AT"), *f = getenv("NB_OOM_FOR");
    ready = 1;
    from = a ? strtoul(a, NULL, 10) : 0;
    until = from + (f ? strtoul(f, NULL, 10) : 1);
  }
  count++;
  if(count >= from && count < until && from != 0)
  {
    errno = ENOMEM;
    return 1;
  }
  return 0;
}
__attribute__((destructor)) static void report(void)
{
  const char *p = getenv("NB_OOM_LOG");
  char text[24];
  size_t n = sizeof text;
  unsigned long c = count;
  int fd;
  if(!p || (fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600)) < 0) return;
  do text[--n] = (char)('0' + c % 10);
  while((c /= 10) != 0);
  if(write(fd, text + n, sizeof text - n) < 0) {}
  close(fd);
}
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { return refuse() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return refuse() ? NULL : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return refuse() ? NULL : __real_realloc(p, n); }
int __real_regcomp(regex_t *, const char *, int);
int __wrap_regcomp(regex_t *r, const char *e, int f)
{
  int result;
  if(refuse()) return REG_ESPACE;
  off++;
  result = __real_regcomp(r, e, f);
  off--;
  return result;
}
int __real_main(int, char **, char **);
int __wrap_main(int argc, char **argv, char **env)
{
  off = 0;
  return __real_main(argc, argv, env);
}
