/* Replaces the checksum by one with few distinct values, keeping it a
 * function of the content, so that different files collide. With NB_WEAK_BYTES
 * (environment: a list of positions, separated by commas) only the bytes there
 * are kept, else the number of distinct values is 2^NB_WEAK_BITS (default 0). */
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
static void weaken(unsigned char *p, size_t n)
{
  unsigned char old[64];
  const char *b = getenv("NB_WEAK_BYTES");
  memcpy(old, p, n);
  memset(p, 0, n);
  if(b)
  {
    while(*b)
    {
      char *end;
      size_t k = (size_t)strtoul(b, &end, 10);
      if(k < n) p[k] = old[k];
      b = *end ? end + 1 : end;
    }
  }
  else
  {
    const char *e = getenv("NB_WEAK_BITS");
    p[0] = old[0] & ((1u << (e ? atoi(e) : 0)) - 1u);
  }
}
int __real_blake2b_final(void *S, void *out, size_t outlen);
int __wrap_blake2b_final(void *S, void *out, size_t outlen)
{
  int r = __real_blake2b_final(S, out, outlen);
  weaken(out, outlen);
  return r;
}
/* calls the real blake2b_final(), as both are in one file */
extern __attribute__((weak)) int __real_blake2b(void *out, size_t outlen, const void *in, size_t inlen, const void *key, size_t keylen);
int __wrap_blake2b(void *out, size_t outlen, const void *in, size_t inlen, const void *key, size_t keylen)
{
  int r = __real_blake2b(out, outlen, in, inlen, key, keylen);
  weaken(out, outlen);
  return r;
}
