"""Builds the variants of nb (and the helper programs) from /repo's working tree."""
import fcntl, glob, hashlib, inspect, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("NB_REPO", "/repo")
CACHE = os.path.join(VERIF, ".build")

BASE = ["-std=c99", "-D_XOPEN_SOURCE=600", "-D_FILE_OFFSET_BITS=64", "-w"]
BLK = "-Wl," + ",".join("--wrap=" + f for f in ("stat", "lstat", "fstat", "fstatat", "stat64", "lstat64", "fstat64", "fstatat64"))
VARIANTS = {
    # name: (compiler, compile flags, link flags, extra sources)
    "plain": ("gcc", ["-O2", "-g"], ["-static"], []),
    "o0": ("gcc", ["-O0", "-ggdb"], [], []),
    "o3": ("gcc", ["-O3"], [], []),
    "asan": ("clang", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                       "-fno-sanitize-recover=all", "-DCREGION_ALWAYS_FRESH_MALLOC"],
             ["-fsanitize=address,undefined"], []),
    "asanpool": ("clang", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                           "-fno-sanitize-recover=all"],
                 ["-fsanitize=address,undefined"], []),
    "msan": ("clang", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory",
                       "-fno-sanitize-recover=all", "-DCREGION_ALWAYS_FRESH_MALLOC"],
             ["-fsanitize=memory"], []),
    "oom": ("gcc", ["-O2", "-g"], ["-static", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=regcomp,--wrap=main"], ["inject/oom.c"]),
    "asanoom": ("clang", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                          "-fno-sanitize-recover=all", "-DCREGION_ALWAYS_FRESH_MALLOC"],
                ["-fsanitize=address,undefined", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=regcomp,--wrap=main"], ["inject/oom.c"]),
    "blk": ("gcc", ["-O2", "-g"], ["-static", BLK], ["inject/blksize.c"]),
    "asanblk": ("clang", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                          "-fno-sanitize-recover=all", "-fno-sanitize=function", "-DCREGION_ALWAYS_FRESH_MALLOC"],
                ["-fsanitize=address,undefined", BLK], ["inject/blksize.c"]),
    "weak": ("gcc", ["-O2", "-g"], ["-static", "-Wl,--wrap=blake2b_final,--wrap=blake2b"], ["inject/weakhash.c"]),
    "weaksip": ("gcc", ["-O2", "-g"], ["-static", "-Wl,--wrap=siphash"], ["inject/weaksip.c"]),
    "fuzzmeta": ("clang", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all",
                           "-DCREGION_ALWAYS_FRESH_MALLOC", "-Dmain=nb_main"],
                 ["-fsanitize=fuzzer,address,undefined", "-Wl,--wrap=exit,--wrap=CR_RegionNew,--wrap=CR_RegionRelease"], ["fuzz/meta.c", "fuzz/regions.h"]),
    "fuzzconfig": ("clang", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all",
                             "-DCREGION_ALWAYS_FRESH_MALLOC", "-Dmain=nb_main"],
                   ["-fsanitize=fuzzer,address,undefined", "-Wl,--wrap=exit,--wrap=CR_RegionNew,--wrap=CR_RegionRelease"], ["fuzz/config.c", "fuzz/regions.h"]),
}


class BuildError(Exception):
    pass


def sources():
    return sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/third-party/*/*.c"))


def tree_hash(variant):
    h = hashlib.sha256()
    files = sources() + sorted(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/third-party/*/*.h"))
    for x in VARIANTS[variant][3]:
        files.append(os.path.join(HERE, x))
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(repr((variant, VARIANTS[variant], BASE, variant in MACHINES and (inspect.getsource(machine), sorted(PLAIN_CALLS), BORDER))).encode())
    return h.hexdigest()[:24]


class Unavailable(Exception):
    """This variant cannot be built or run here, for reasons which lie in the simulation."""


class Unportable(Exception):
    """The program cannot be built for this kind of machine."""


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))


def lock():
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def prune(keep=30):
    entries = []
    for n in os.listdir(CACHE):
        p = os.path.join(CACHE, n)
        if os.path.isdir(p):
            try:
                entries.append((os.stat(p).st_mtime, p))
            except OSError:
                pass
    entries.sort()
    for _, p in entries[:-keep]:
        shutil.rmtree(p, ignore_errors=True)


# what a program of swapped byte order may use of the C library: functions which
# exchange integers by value, bytes and pointers only, or which border.c converts
PLAIN_CALLS = set("""
    __cxa_atexit __errno_location __gmon_start__ __libc_start_main __stack_chk_fail __assert_fail abort abs access atexit atoi atol atoll
    bsearch calloc chdir chmod chown clearerr close closedir copy_file_range creat creat64 dirfd dprintf dup dup2 err errx exit faccessat fchmod fchmodat fchown
    fchownat fclose fdatasync fdopen fdopendir feof ferror fflush fgetc fgets fileno fnmatch fopen fopen64 fprintf fputc fputs fputs_unlocked fread free
    fseek fseeko fseeko64 fsync ftell ftello ftello64 ftruncate ftruncate64 funlockfile fwrite getc getchar getcwd getegid getenv geteuid getgid getpid
    getppid getrandom getuid isalnum isalpha isatty isdigit isprint isspace lchown link linkat lockf lockf64 lseek lseek64 malloc memccpy memchr memcmp memcpy memmem
    memmove mempcpy memrchr memset mkdir mkdirat mkfifo mkstemp mkstemp64 nice open open64 openat openat64 opendir perror posix_fadvise posix_fadvise64 pread pread64
    printf putc putchar puts pwrite pwrite64 qsort raise rand random read readdir readdir64 readlink readlinkat realloc reallocarray realpath regcomp
    regerror regfree remove rename renameat rewind rewinddir rmdir setbuf setenv setlinebuf setvbuf snprintf sprintf srand srandom stpcpy stpncpy
    strcasecmp strcat strchr strchrnul strcmp strcoll strcpy strcspn strdup strerror strlen strncasecmp strncat strncmp strncpy strndup strnlen
    strpbrk strrchr strspn strstr strtok strtok_r strtol strtoll strtoul strtoull symlink symlinkat sync syncfs sysconf tmpfile toupper tolower truncate truncate64
    umask ungetc unlink unlinkat vfprintf vprintf vsnprintf vsprintf warn warnx write fgetc_unlocked getc_unlocked putc_unlocked fputc_unlocked fread_unlocked
    fwrite_unlocked flock fchdir _exit strverscmp strsep index rindex bcmp bzero stdin stdout stderr environ optarg optind
    _DYNAMIC _GLOBAL_OFFSET_TABLE_ _IO_putc _IO_getc __isoc99_strtol __isoc23_strtol __isoc23_strtoll __isoc23_strtoul __isoc23_strtoull
    """.split())
BORDER = ["stat64", "lstat64", "fstat64", "fstatat64", "clock_gettime", "gettimeofday", "time", "utime", "utimensat", "futimens", "utimes", "lutimes", "getline", "regexec"]
PORTABLE = os.path.join(HERE, "portable")
LIB32 = ["/lib32/libc.so.6", "/lib/ld-linux.so.2", "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.builtins-i386.a"]


def machine(variant, tmp):
    """Builds the program for a machine of another kind: be64, le32 or be32."""
    big, bits = variant.startswith("be"), int(variant[2:])
    flags = ["-O2", "-g0", "-fno-builtin", "-fno-pie", "-fno-stack-protector", "-I" + REPO + "/third-party", "-I" + REPO + "/src"]
    if bits == 32:
        for f in LIB32:
            if not os.path.exists(f):
                raise Unavailable(f + " is missing")
        flags += ["-m32", "-march=i686", "-I" + PORTABLE + "/include32", "-isystem", "/usr/include/x86_64-linux-gnu"]
    swapped = ["-U__BYTE_ORDER__", "-D__BYTE_ORDER__=__ORDER_BIG_ENDIAN__", "-I" + PORTABLE + "/includebe"] if big else []
    units = []
    for i, s in enumerate(sources()):
        own = ["-include", PORTABLE + "/includebe/reference.h"] if big and "/third-party/" in s else []
        units.append((s, ["clang"] + BASE + flags + swapped + own, os.path.join(tmp, "%d.o" % i)))

    def syntax(u):
        try:
            run(u[1] + ["-fsyntax-only", u[0]])
        except BuildError as e:
            raise Unportable(str(e))

    def helper_run(cmd):
        try:
            run(cmd)
        except (BuildError, OSError) as e:
            raise Unavailable(str(e))
    plugin = os.path.join(tmp, "bepass.so")
    if big:
        try:
            cxx = subprocess.run(["llvm-config", "--cxxflags"], stdout=subprocess.PIPE, check=True).stdout.decode().split()
        except (OSError, subprocess.CalledProcessError) as e:
            raise Unavailable(str(e))
        helper_run(["clang++", "-shared", "-fPIC", "-O1", "-fno-rtti"] + cxx + [PORTABLE + "/bepass.cpp", "-o", plugin])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(syntax, units))
        list(ex.map(lambda u: helper_run(u[1] + (["-fpass-plugin=" + plugin] if big else []) + ["-c", u[0], "-o", u[2]]), units))
    objs = [u[2] for u in units]
    gnu = ["clang", "-std=gnu99"] + BASE[1:] + flags
    if big:
        p = subprocess.run(["nm", "-P"] + objs, stdout=subprocess.PIPE)
        used = [l.split() for l in p.stdout.decode(errors="replace").split("\n")]
        defined = {u[0] for u in used if len(u) > 2}
        foreign = {u[0] for u in used if len(u) >= 2 and u[1] in "Uvw"} - defined - PLAIN_CALLS - set(BORDER) - {"_nb_dummy"}
        foreign = {f for f in foreign if not f.startswith(("__udiv", "__umod", "__div", "__mod", "__mul", "__ashl", "__lshr", "__ashr", "__fix", "__float"))}
        if foreign:
            raise Unavailable("the border has no conversion for " + " ".join(sorted(foreign)))
        helper_run(gnu + ["-c", PORTABLE + "/border.c", "-o", tmp + "/border.o"])
        objs.append(tmp + "/border.o")
    wraps = ["--wrap=" + w for w in BORDER] if big else []
    exe = os.path.join(tmp, "nb")
    if bits == 32:
        helper_run(gnu + ["-O1", "-c", PORTABLE + "/start32.c", "-o", tmp + "/start.o"])
        helper_run(["ld", "-m", "elf_i386", "-dynamic-linker", "/lib/ld-linux.so.2", "-o", exe, tmp + "/start.o"] + objs + wraps + LIB32)
    else:
        helper_run(["gcc", "-no-pie"] + objs + ["-Wl," + w for w in wraps] + ["-o", exe])
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=30)
    except (OSError, subprocess.TimeoutExpired) as e:
        raise Unavailable("does not run here: %s" % e)
    if p.returncode != 1 or b"nb: error" not in p.stderr:
        raise Unavailable("does not run here: %r" % p)
    for n in os.listdir(tmp):
        if n != "nb":
            os.unlink(os.path.join(tmp, n))


MACHINES = ["be64", "le32", "be32"]
for _m in MACHINES:
    VARIANTS[_m] = ("clang", ["machine"], [], ["portable/bepass.cpp", "portable/border.c", "portable/start32.c", "portable/includebe/reference.h",
                                               "portable/includebe/bits/endianness.h", "portable/include32/gnu/stubs-32.h"])


def build(variant):
    """Returns the path of an up to date binary; raises BuildError."""
    out = os.path.join(CACHE, variant + "-" + tree_hash(variant))
    exe = os.path.join(out, "nb")
    with lock():
        if os.path.exists(exe):
            os.utime(out)
            return exe
        prune()
        tmp = out + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        if variant in MACHINES:
            try:
                machine(variant, tmp)
            except (Unavailable, Unportable):
                shutil.rmtree(tmp, ignore_errors=True)
                raise
            shutil.rmtree(out, ignore_errors=True)
            os.rename(tmp, out)
            return exe
        cc, cflags, lflags, extra = VARIANTS[variant]
        jobs, objs = [], []
        for i, s in enumerate(sources() + [os.path.join(HERE, x) for x in extra if x.endswith(".c")]):
            o = os.path.join(tmp, "%d.o" % i)
            objs.append(o)
            jobs.append([cc] + BASE + cflags + ["-I" + REPO + "/third-party", "-I" + REPO + "/src", "-c", s, "-o", o])
        try:
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(run, jobs))
            run([cc] + objs + lflags + ["-o", os.path.join(tmp, "nb")])
        except BuildError:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        for o in objs:
            os.unlink(o)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        return exe


def helper(name):
    """Builds a helper program from lib/NAME.c."""
    src = os.path.join(HERE, name + ".c")
    with open(src, "rb") as f:
        digest = hashlib.sha256(f.read()).hexdigest()[:24]
    out = os.path.join(CACHE, "%s-%s" % (name, digest))
    exe = os.path.join(out, name)
    with lock():
        if not os.path.exists(exe):
            os.makedirs(out, exist_ok=True)
            run(["gcc", "-O1", "-static", "-w", "-o", exe + ".tmp", src])
            os.rename(exe + ".tmp", exe)
        else:
            os.utime(out)
    return exe


if __name__ == "__main__":
    t = time.time()
    for v in sys.argv[1:] or list(VARIANTS):
        try:
            print(build(v), round(time.time() - t, 1))
        except (Unavailable, Unportable) as e:
            print(v, "is left out:", str(e)[:300])
    print(helper("nbsup"))
