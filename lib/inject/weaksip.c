/* Makes nearly all keys of the string tables collide. */
#include <stddef.h>
#include <stdint.h>
/* weak: without a function of that name nothing is replaced */
extern __attribute__((weak)) uint64_t __real_siphash(const uint8_t *in, const size_t inlen, const uint8_t *k);
uint64_t __wrap_siphash(const uint8_t *in, const size_t inlen, const uint8_t *k)
{
  return __real_siphash(in, inlen, k) & 1u;
}
