/* Included before everything else by the variants of the other byte order:
   code which picks machine specific shortcuts (vector instructions) must take
   the portable path, as it would on such a machine. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <limits.h>
#include <stdarg.h>
#include <stdbool.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <utime.h>
#include <dirent.h>
#include <regex.h>
#include <ctype.h>
#include <inttypes.h>
#include <locale.h>
#include <math.h>
#include <pwd.h>
#include <grp.h>
#include <search.h>
#include <setjmp.h>
#include <signal.h>
#include <assert.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#undef __x86_64__
#undef __amd64__
#undef __x86_64
#undef __amd64
#undef __i386__
#undef __i386
#undef __SSE__
#undef __SSE2__
#undef __SSE3__
#undef __SSSE3__
#undef __SSE4_1__
#undef __SSE4_2__
#undef __AVX__
#undef __AVX2__
#undef __XOP__
#undef __LITTLE_ENDIAN__
