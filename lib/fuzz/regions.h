/* Releases what a run which ended with an error message left behind. */
#include "CRegion/global-region.h"
extern CR_Region *__real_CR_RegionNew(void);
extern void __real_CR_RegionRelease(CR_Region *);
static CR_Region *live[64];
CR_Region *__wrap_CR_RegionNew(void)
{
  CR_Region *r = __real_CR_RegionNew();
  if(armed)
  {
    for(int i = 0; i < 64; i++)
      if(!live[i]) { live[i] = r; break; }
  }
  return r;
}
void __wrap_CR_RegionRelease(CR_Region *r)
{
  for(int i = 0; i < 64; i++)
    if(live[i] == r) live[i] = NULL;
  __real_CR_RegionRelease(r);
}
static void release_rest(void)
{
  for(int i = 0; i < 64; i++)
    if(live[i])
    {
      __real_CR_RegionRelease(live[i]);
      live[i] = NULL;
    }
}

/* With FUZZ_UB in the environment only the sanitizers judge: a run with
   another result than expected just ends. */
static jmp_buf over_;
static CR_Region *current;
static int judged(void)
{
  static int known = -1;
  if(known < 0) known = getenv("FUZZ_UB") == NULL;
  return known;
}
static void give_up(void)
{
  armed = 0;
  longjmp(over_, 1);
}
static int over(void)
{
  __real_CR_RegionRelease(current);
  release_rest();
  return 0;
}
