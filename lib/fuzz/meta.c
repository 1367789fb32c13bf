/* In-process monitor for metadataLoad() and metadataWrite(): libFuzzer
   produces the bytes, the sanitizers watch the code, and a second reader of
   the format (written from the layout, not from the code) decides which bytes
   have to be accepted and what has to be written back. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <setjmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include "CRegion/region.h"
#include "metadata.h"
#include "str.h"

static jmp_buf on_exit_;
static int armed;
#include "regions.h"
extern void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int status)
{
  if(armed)
  {
    armed = 0;
    longjmp(on_exit_, 1 + (status == 1));
  }
  __real_exit(status);
}

/* ---- the second reader ------------------------------------------------ */

typedef struct { uint8_t *d; size_t n, cap; } Buf;
static void put(Buf *b, const void *p, size_t n)
{
  if(b->n + n > b->cap)
  {
    b->cap = (b->n + n) * 2;
    b->d = realloc(b->d, b->cap);
  }
  if(n) memcpy(b->d + b->n, p, n);
  b->n += n;
}
static void put64(Buf *b, uint64_t v)
{
  uint8_t x[8];
  for(int i = 0; i < 8; i++) x[i] = v >> (8 * i);
  put(b, x, 8);
}

static const uint8_t *D;
static size_t N, P;
static int bad;
static uint64_t NB;
static uint64_t *refs, *newid;
static const char *why;

static int need(uint64_t n)
{
  if(bad || n > N - P) { if(!bad) why = "truncated"; bad = 1; return 0; }
  return 1;
}
/* Where things are, for the mutator. */
typedef struct { size_t start, end, count; } Range;
static size_t fields[4000], nfields, bytes_[4000], nbytes_;
static Range rnodes[2000], rpoints[2000];
static size_t nrnodes, nrpoints;
static uint64_t u64(void)
{
  if(!need(8)) return 0;
  if(nfields < 4000) fields[nfields++] = P;
  uint64_t v = 0;
  for(int i = 0; i < 8; i++) v |= (uint64_t)D[P + i] << (8 * i);
  P += 8;
  return v;
}
static void fail(const char *m) { if(!bad) why = m; bad = 1; }

/* The canonical form: nodes sorted by name, backups renumbered, targets cut
   at their first null byte. */
typedef struct { int type; } Point;
static void history(Buf *out, int *len, int *first, int *second)
{
  size_t counter = P;
  uint64_t n = u64();
  put64(out, n);
  *len = 0;
  *first = *second = -1;
  for(uint64_t i = 0; i < n && !bad; i++)
  {
    if(i && nrpoints) rpoints[nrpoints - 1].end = P;
    if(nrpoints < 2000) rpoints[nrpoints++] = (Range){ P, P, counter };
    uint64_t id = u64();
    if(bad) return;
    if(id >= NB) { fail("backup id"); return; }
    if(newid != NULL) put64(out, newid[id]);
    refs[id]++;
    if(!need(1)) return;
    if(nbytes_ < 4000) bytes_[nbytes_++] = P;
    int t = D[P++];
    put(out, &D[P - 1], 1);
    if(i == 0) *first = t;
    if(i == 1) *second = t;
    if(*len < 2) (*len)++;
    if(t == 0) continue;
    if(t > 3) { fail("type"); return; }
    if(!need(8)) return;
    put(out, D + P, 8);
    P += 8;
    if(t == 1)
    {
      if(!need(12)) return;
      put(out, D + P, 12);
      P += 12;
      uint64_t size = u64();
      if(bad) return;
      put64(out, size);
      uint64_t k = size > 20 ? 21 : size;
      if(!need(k)) return;
      put(out, D + P, k);
      P += k;
    }
    else if(t == 2)
    {
      uint64_t k = u64();
      if(bad || !need(k)) return;
      size_t l = strnlen((const char *)D + P, k);
      put64(out, l);
      put(out, D + P, l);
      P += k;
    }
    else
    {
      if(!need(12)) return;
      put(out, D + P, 12);
      P += 12;
    }
  }
  if(n && !bad && nrpoints) rpoints[nrpoints - 1].end = P;
}

typedef struct { const uint8_t *name; size_t len; Buf b; } Sub;
static int cmpsub(const void *a, const void *b)
{
  const Sub *x = a, *y = b;
  size_t m = x->len < y->len ? x->len : y->len;
  int c = memcmp(x->name, y->name, m);
  return c ? c : (x->len > y->len) - (x->len < y->len);
}
static void nodes(Buf *out, size_t prefix, int depth)
{
  size_t counter = P;
  uint64_t n = u64();
  if(bad) return;
  if(n > (N - P) / 8) { fail("count"); return; }
  put64(out, n);
  if(n == 0) return;
  Sub *s = calloc(n, sizeof *s);
  for(uint64_t i = 0; i < n && !bad; i++)
  {
    size_t k = nrnodes;
    if(nrnodes < 2000) rnodes[nrnodes++] = (Range){ P, P, counter };
    uint64_t l = u64();
    if(bad || !need(l)) break;
    const uint8_t *name = D + P;
    P += l;
    s[i].name = name;
    s[i].len = l;
    if(l == 0) fail("empty name");
    else if(memchr(name, 0, l) || memchr(name, '/', l) || (l == 1 && name[0] == '.') || (l == 2 && name[0] == '.' && name[1] == '.'))
      fail("bad name");
    else if(prefix + 1 + l >= 4096) fail("path too long");
    if(bad || !need(1)) break;
    if(nbytes_ < 4000) bytes_[nbytes_++] = P;
    int pol = D[P++];
    if(pol > 3) { fail("policy"); break; }
    put64(&s[i].b, l);
    put(&s[i].b, name, l);
    put(&s[i].b, &D[P - 1], 1);
    int len, t0, t1;
    history(&s[i].b, &len, &t0, &t1);
    if(bad) break;
    if(len == 0) { fail("no history"); break; }
    if(t0 == 0 && !(pol == 3 && t1 > 0)) { fail("history"); break; }
    nodes(&s[i].b, prefix + 1 + l, depth + 1);
    if(!bad && k < 2000) rnodes[k].end = P;
  }
  if(!bad)
  {
    qsort(s, n, sizeof *s, cmpsub);
    for(uint64_t i = 0; i < n; i++)
    {
      if(i && cmpsub(&s[i - 1], &s[i]) == 0) fail("duplicate");
      put(out, s[i].b.d, s[i].b.n);
    }
  }
  for(uint64_t i = 0; i < n; i++) free(s[i].b.d);
  free(s);
}

static int canonical(const uint8_t *data, size_t size, Buf *out)
{
  why = "";
  for(int pass = 0; pass < 2; pass++)
  {
    D = data; N = size; P = 0; bad = 0;
    out->n = 0;
    nfields = nbytes_ = nrnodes = nrpoints = 0;
    NB = u64();
    if(!bad && NB > (N - P) / 8) fail("backups");
    if(bad) break;
    size_t times = P;
    if(pass == 0)
    {
      refs = calloc(NB + 1, 8);
      newid = NULL;
    }
    else
    {
      newid = calloc(NB + 1, 8);
      uint64_t k = 0;
      for(uint64_t i = 0; i < NB; i++)
        if(refs[i]) newid[i] = k++;
      put64(out, k);
      for(uint64_t i = 0; i < NB; i++)
        if(refs[i]) put(out, data + times + 8 * i, 8);
    }
    P += 8 * NB;
    int a, b, c;
    history(out, &a, &b, &c);
    if(!bad)
    {
      uint64_t total = u64();
      put64(out, total);
      nodes(out, 0, 0);
    }
    if(!bad && P != N) fail("trailing bytes");
    if(bad) break;
  }
  free(refs);
  free(newid);
  refs = newid = NULL;
  return !bad;
}

/* ---- the comparison --------------------------------------------------- */

static char dir[64], meta[96], tmp[96];
static unsigned long accepted, refused, written;

static void put_file(const char *path, const uint8_t *d, size_t n)
{
  int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if(fd < 0 || write(fd, d, n) != (ssize_t)n) __real_exit(3);
  close(fd);
}
static void stop(const char *m)
{
  if(!judged()) give_up();
  printf("MONITOR: %s (%s)\n", m, why);
  fflush(stdout);
  abort();
}

static void report(void)
{
  printf("OBSERVED accepted=%lu refused=%lu written=%lu\n", accepted, refused, written);
  fflush(stdout);
}

int LLVMFuzzerInitialize(int *argc, char ***argv)
{
  const char *base = getenv("FUZZ_DIR");
  snprintf(dir, sizeof dir, "%s", base ? base : "/tmp/fuzzdir");
  mkdir(dir, 0700);
  snprintf(meta, sizeof meta, "%s/metadata", dir);
  snprintf(tmp, sizeof tmp, "%s/tmp-file", dir);
  if(!getenv("FUZZ_LOUD"))
  {
    /* error messages of the code, not of the fuzzer */
    stderr = fopen("/dev/null", "w");
  }
  atexit(report);
  CR_GetGlobalRegion();
  return 0;
}

/* ---- mutations which keep most of the layout -------------------------- */

size_t LLVMFuzzerMutate(uint8_t *data, size_t size, size_t max);
static uint32_t seed_;
static uint32_t rnd(uint32_t n)
{
  seed_ = seed_ * 1664525u + 1013904223u;
  return n ? (seed_ >> 8) % n : 0;
}
static uint64_t get64(const uint8_t *p)
{
  uint64_t v = 0;
  for(int i = 0; i < 8; i++) v |= (uint64_t)p[i] << (8 * i);
  return v;
}
static void set64(uint8_t *p, uint64_t v)
{
  for(int i = 0; i < 8; i++) p[i] = v >> (8 * i);
}
static size_t put_in(uint8_t *d, size_t n, size_t max, size_t at, size_t del, const uint8_t *ins, size_t nins)
{
  if(n - del + nins > max) return n;
  memmove(d + at + nins, d + at + del, n - at - del);
  memcpy(d + at, ins, nins);
  return n - del + nins;
}
size_t LLVMFuzzerCustomMutator(uint8_t *d, size_t n, size_t max, unsigned int seed)
{
  static Buf scratch;
  seed_ = seed;
  if(rnd(8) == 0) return LLVMFuzzerMutate(d, n, max);
  for(uint32_t times = 1 + (rnd(4) == 0) * rnd(4); times; times--)
  {
    canonical(d, n, &scratch);
    switch(rnd(8))
    {
      case 0:
      case 1: /* a field */
      {
        static const uint64_t extreme[] = { 0, 1, 2, 3, 20, 21, 22, 255, 4095, 4096, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 1ull << 60,
                                            1ull << 61, 0x0aaaaaaaaaaaaaab, 1ull << 62, 1ull << 63, (1ull << 63) - 1, -1, -2, -8, -9, -21 };
        if(!nfields) break;
        size_t o = fields[rnd(nfields)];
        uint64_t v = get64(d + o);
        switch(rnd(7))
        {
          case 0: v++; break;
          case 1: v--; break;
          case 2: v ^= 1ull << rnd(64); break;
          case 3: v = n - o - 8 + rnd(3) - 1; break;
          case 4: v = -(uint64_t)(o + 8) + rnd(40); break; /* wraps around with the position */
          default: v = extreme[rnd(sizeof extreme / sizeof *extreme)];
        }
        set64(d + o, v);
        if(rnd(6) == 0)
        {
          /* nothing but a few other bytes behind it */
          size_t m = o + 8 + rnd(4);
          if(m < n) n = m;
          for(size_t k = o + 8; k < n; k++) d[k] = 'a' + rnd(26);
        }
        break;
      }
      case 2: /* a type or policy */
        if(nbytes_) d[bytes_[rnd(nbytes_)]] = rnd(4) ? rnd(5) : rnd(256);
        break;
      case 3: /* another node in a list */
      case 4: /* or point in a history */
      {
        int is = rnd(2);
        Range *list = is ? rnodes : rpoints;
        size_t k = is ? nrnodes : nrpoints;
        if(!k) break;
        Range a = list[rnd(k)], b = list[rnd(k)];
        if(a.end <= a.start || a.end - a.start > 2000) break;
        uint8_t copy[2000];
        size_t l = a.end - a.start;
        memcpy(copy, d + a.start, l);
        if(is && rnd(3) && l > 9 && get64(copy) > 0) copy[8] = 'a' + rnd(26);
        size_t m = put_in(d, n, max, b.start, 0, copy, l);
        if(m != n)
        {
          if(rnd(16)) set64(d + b.count, get64(d + b.count) + 1);
          n = m;
        }
        break;
      }
      case 5: /* one less */
      {
        int is = rnd(2);
        Range *list = is ? rnodes : rpoints;
        size_t k = is ? nrnodes : nrpoints;
        if(!k) break;
        Range a = list[rnd(k)];
        if(a.end <= a.start) break;
        if(rnd(16)) set64(d + a.count, get64(d + a.count) - 1);
        n = put_in(d, n, max, a.start, a.end - a.start, (const uint8_t *)"", 0);
        break;
      }
      case 6: /* another name */
      {
        static const char *names[] = { "", ".", "..", "...", "a/b", "/", "\0", "a\0", "a", "b", "f", "..\0", ".a", "\xff" };
        static const size_t lens[] = { 0, 1, 2, 3, 3, 1, 1, 2, 1, 1, 1, 3, 2, 1 };
        if(!nrnodes) break;
        Range a = rnodes[rnd(nrnodes)];
        if(a.end <= a.start) break;
        uint64_t l = get64(d + a.start);
        uint8_t big[4200];
        size_t k = rnd(20), nl;
        if(k < 14) { nl = lens[k]; memcpy(big, names[k], nl); }
        else { nl = k < 17 ? 1 + rnd(300) : 4080 + rnd(20); memset(big, 'n', nl); }
        size_t m = put_in(d, n, max, a.start + 8, l, big, nl);
        if(m != n || nl == l) set64(d + a.start, nl);
        n = m;
        break;
      }
      case 7: /* a state of another kind, at the front of a history */
      {
        if(!nrpoints) break;
        Range a = rpoints[rnd(nrpoints)];
        uint8_t p[100] = { 0 };
        size_t l = 9;
        p[8] = rnd(5);
        if(p[8]) l += 8;
        if(p[8] == 1) { uint32_t s = rnd(24); p[29] = s; l += 20 + (s > 20 ? 21 : s); }
        if(p[8] == 2) { p[17] = rnd(20); l += 8 + p[17]; memset(p + 25, 't', p[17]); }
        if(p[8] == 3) l += 12;
        size_t m = put_in(d, n, max, a.start, 0, p, l);
        if(m != n) set64(d + a.count, get64(d + a.count) + 1);
        n = m;
        break;
      }
    }
  }
  return n;
}

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
  static Buf want, got;
  int ok = canonical(data, size, &want);
  put_file(meta, data, size);

  CR_Region *r = current = CR_RegionNew();
  if(setjmp(over_)) return over();
  Metadata *volatile m = NULL;
  int e = setjmp(on_exit_);
  if(e == 0)
  {
    armed = 1;
    m = metadataLoad(r, str(meta));
    armed = 0;
    if(!ok) stop("accepted bytes which are no well-formed metadata");
    accepted++;
    armed = 1;
    metadataWrite(m, str(dir), str(tmp), str(meta));
    armed = 0;
    int fd = open(meta, O_RDONLY);
    struct stat st;
    if(fd < 0 || fstat(fd, &st) != 0) stop("did not write metadata");
    uint8_t *d = malloc(st.st_size + 1);
    if(read(fd, d, st.st_size) != st.st_size) stop("unreadable");
    close(fd);
    if(!canonical(d, st.st_size, &got)) stop("wrote bytes which are no well-formed metadata");
    if(got.n != want.n || memcmp(got.d, want.d, got.n) != 0) stop("wrote something else than it has read");
    free(d);
    written++;
  }
  else
  {
    if(e != 2) stop("ended with success");
    if(ok) stop(m ? "could not write well-formed metadata" : "refused well-formed metadata");
    refused++;
  }
  CR_RegionRelease(r);
  release_rest();
  return 0;
}
