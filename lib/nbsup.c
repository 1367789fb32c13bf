/* nbsup - ptrace supervisor used as the observation and fault layer.
 *
 * Runs one program, reports every file-system related system call it makes
 * (resolved to absolute paths and inode numbers), and can kill the program
 * before/after a given call, make a call fail, or shorten a transfer.
 *
 *   nbsup [-l LOG] [-r PREFIX] [-i FD -o FD] [-k N] [-K N] [-e N:ERRNO]
 *         [-E N:ERRNO:FLAGMASK] [-s N:LEN] [-d] [-t SECONDS] -- PROGRAM ARGS...
 *
 * Only events touching a path below PREFIX are reported, plus every event
 * which mutates the file system, wherever it is. Events are numbered from 1.
 * Log lines are tab separated:
 *   seq name ret flags ino path1 path2 arg data
 * paths and data in hex. With -i/-o each event is announced before it runs
 * ("E seq name flags ino path1 path2 arg\n") and waits for one command line:
 *   c        go on            C  go on and report "X seq ret\n" afterwards
 *   k        kill now         e N fail with errno N
 *   s N      shorten the transfer to N bytes
 *   d        detach: go on without asking any more
 * -E makes every event from number N on which has one of the flags fail.
 * Exit status: that of the program, 128+sig if it was ended by a signal,
 * 250 on supervisor errors. "Q status\n" is sent on the control channel. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

enum { X_MUT = 1, X_SYNC = 2, X_LOCK = 4, X_DATA = 8, X_READ = 16, X_STAT = 32, X_CLOSE = 64, X_OPEN = 128, X_DIR = 256 };
enum { P_NONE, P_PATH, P_ATPATH, P_FD, P_PATH2, P_ATPATH2, P_SYMLINK, P_SYMLINKAT, P_FDFD, P_MMAP, P_ANY };

typedef struct { int nr; const char *name; int kind; int flags; int argi; } Sc;
static const Sc table[] = {
  { SYS_open, "open", P_PATH, X_OPEN, 1 },
  { SYS_openat, "open", P_ATPATH, X_OPEN, 2 },
  { SYS_creat, "creat", P_PATH, X_OPEN | X_MUT, 1 },
  { SYS_close, "close", P_FD, X_CLOSE, -1 },
  { SYS_read, "read", P_FD, X_READ, 2 },
  { SYS_pread64, "pread", P_FD, X_READ, 2 },
  { SYS_readv, "readv", P_FD, X_READ, -1 },
  { SYS_write, "write", P_FD, X_MUT | X_DATA, 2 },
  { SYS_pwrite64, "pwrite", P_FD, X_MUT | X_DATA, 3 },
  { SYS_writev, "writev", P_FD, X_MUT | X_DATA, -1 },
  { SYS_lseek, "lseek", P_FD, 0, 1 },
  { SYS_ftruncate, "ftruncate", P_FD, X_MUT, 1 },
  { SYS_truncate, "truncate", P_PATH, X_MUT, 1 },
  { SYS_fallocate, "fallocate", P_FD, X_MUT, 2 },
  { SYS_fsync, "fsync", P_FD, X_SYNC, -1 },
  { SYS_fdatasync, "fdatasync", P_FD, X_SYNC, -1 },
  { SYS_sync, "sync", P_ANY, X_SYNC, -1 },
  { SYS_syncfs, "syncfs", P_FD, X_SYNC, -1 },
  { SYS_rename, "rename", P_PATH2, X_MUT, -1 },
  { SYS_renameat, "rename", P_ATPATH2, X_MUT, -1 },
  { SYS_renameat2, "rename", P_ATPATH2, X_MUT, 4 },
  { SYS_link, "link", P_PATH2, X_MUT, -1 },
  { SYS_linkat, "link", P_ATPATH2, X_MUT, 4 },
  { SYS_symlink, "symlink", P_SYMLINK, X_MUT, -1 },
  { SYS_symlinkat, "symlink", P_SYMLINKAT, X_MUT, -1 },
  { SYS_unlink, "unlink", P_PATH, X_MUT, -1 },
  { SYS_unlinkat, "unlink", P_ATPATH, X_MUT, 2 },
  { SYS_rmdir, "rmdir", P_PATH, X_MUT, -1 },
  { SYS_mkdir, "mkdir", P_PATH, X_MUT, 1 },
  { SYS_mkdirat, "mkdir", P_ATPATH, X_MUT, 2 },
  { SYS_mknod, "mknod", P_PATH, X_MUT, 1 },
  { SYS_mknodat, "mknod", P_ATPATH, X_MUT, 2 },
  { SYS_chmod, "chmod", P_PATH, X_MUT, 1 },
  { SYS_fchmod, "fchmod", P_FD, X_MUT, 1 },
  { SYS_fchmodat, "chmod", P_ATPATH, X_MUT, 2 },
  { 452, "chmod", P_ATPATH, X_MUT, 2 },
  { SYS_chown, "chown", P_PATH, X_MUT, 1 },
  { SYS_lchown, "lchown", P_PATH, X_MUT, 1 },
  { SYS_fchown, "fchown", P_FD, X_MUT, 1 },
  { SYS_fchownat, "chown", P_ATPATH, X_MUT, 2 },
  { SYS_utime, "utime", P_PATH, X_MUT, -1 },
  { SYS_utimes, "utime", P_PATH, X_MUT, -1 },
  { SYS_futimesat, "utime", P_ATPATH, X_MUT, -1 },
  { SYS_utimensat, "utime", P_ATPATH, X_MUT, -1 },
  { SYS_setxattr, "setxattr", P_PATH, X_MUT, -1 },
  { SYS_removexattr, "removexattr", P_PATH, X_MUT, -1 },
  { SYS_copy_file_range, "copy_file_range", P_FDFD, X_MUT, 4 },
  { SYS_sendfile, "sendfile", P_FD, X_MUT, 3 },
  { SYS_mmap, "mmap", P_MMAP, X_MUT, 1 },
  { SYS_fcntl, "fcntl", P_FD, X_LOCK, 1 },
  { SYS_flock, "flock", P_FD, X_LOCK, 1 },
  { SYS_stat, "stat", P_PATH, X_STAT, -1 },
  { SYS_lstat, "lstat", P_PATH, X_STAT, -1 },
  { SYS_fstat, "fstat", P_FD, X_STAT, -1 },
  { SYS_newfstatat, "stat", P_ATPATH, X_STAT, 3 },
  { SYS_statx, "stat", P_ATPATH, X_STAT, 2 },
  { SYS_access, "access", P_PATH, X_STAT, -1 },
  { SYS_faccessat, "access", P_ATPATH, X_STAT, -1 },
  { 439, "access", P_ATPATH, X_STAT, -1 },
  { SYS_readlink, "readlink", P_PATH, X_STAT, -1 },
  { SYS_readlinkat, "readlink", P_ATPATH, X_STAT, -1 },
  { SYS_getdents64, "getdents", P_FD, X_DIR, -1 },
  { SYS_chdir, "chdir", P_PATH, 0, -1 },
  { SYS_chroot, "chroot", P_PATH, X_MUT, -1 },
  { SYS_mount, "mount", P_PATH, X_MUT, -1 },
};
#define NSC (sizeof table / sizeof *table)

static pid_t child;
static FILE *logf_;
static FILE *ctl_in, *ctl_out;
static const char *prefix = "";
static long kill_before, kill_after, err_at, err_no, short_at, short_len, errs_from, errs_no, errs_mask;
static int log_data;

static void fatal(const char *m) { fprintf(stderr, "nbsup: %s: %s\n", m, strerror(errno)); if(child > 0) kill(child, SIGKILL); _exit(250); }

static size_t peek(uint64_t addr, void *buf, size_t n)
{
  struct iovec l = { buf, n }, r = { (void *)addr, n };
  ssize_t k = process_vm_readv(child, &l, 1, &r, 1, 0);
  return k < 0 ? 0 : (size_t)k;
}
static void peekstr(uint64_t addr, char *out, size_t cap)
{
  size_t n = 0;
  out[0] = 0;
  while(n + 1 < cap)
  {
    size_t chunk = 256 - (addr + n) % 256;
    if(chunk > cap - 1 - n) chunk = cap - 1 - n;
    size_t k = peek(addr + n, out + n, chunk);
    if(k == 0) break;
    char *z = memchr(out + n, 0, k);
    if(z) return;
    n += k;
  }
  out[n] = 0;
}
static void fdpath(int64_t fd, char *out, size_t cap, uint64_t *ino)
{
  char p[64];
  struct stat st;
  if((int)fd == AT_FDCWD) snprintf(p, sizeof p, "/proc/%d/cwd", child);
  else snprintf(p, sizeof p, "/proc/%d/fd/%d", child, (int)fd);
  ssize_t k = readlink(p, out, cap - 1);
  out[k < 0 ? 0 : k] = 0;
  if(ino) *ino = stat(p, &st) == 0 ? st.st_ino : 0;
}
static void abspath(int64_t dirfd, const char *rel, char *out, size_t cap)
{
  if(rel[0] == '/') { snprintf(out, cap, "%s", rel); return; }
  char base[4200];
  fdpath(dirfd, base, sizeof base, NULL);
  if(rel[0] == 0) { snprintf(out, cap, "%s", base); return; }
  snprintf(out, cap, "%s/%s", base, rel);
}
static uint64_t lino(const char *p)
{
  struct stat st;
  return p[0] == '/' && lstat(p, &st) == 0 ? st.st_ino : 0;
}
static int inside(const char *p)
{
  size_t n = strlen(prefix);
  return n == 0 || (strncmp(p, prefix, n) == 0);
}
static void hexout(FILE *f, const void *data, size_t n)
{
  static const char d[] = "0123456789abcdef";
  const unsigned char *b = data;
  for(size_t i = 0; i < n; i++) { putc(d[b[i] >> 4], f); putc(d[b[i] & 15], f); }
}

static void child_main(char **argv)
{
  struct sock_filter f[NSC + 6];
  size_t n = 0;
  f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for(size_t i = 0; i < NSC; i++)
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, table[i].nr, NSC - i, 0);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
  struct sock_fprog prog = { .len = n, .filter = f };
  if(ptrace(PTRACE_TRACEME, 0, 0, 0) != 0) _exit(250);
  raise(SIGSTOP);
  prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
  if(prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog) != 0) _exit(250);
  execv(argv[0], argv);
  _exit(250);
}

static int finish(int status)
{
  int code = WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
  if(logf_) { fprintf(logf_, "Q\t%d\n", code); fclose(logf_); }
  if(ctl_out) { fprintf(ctl_out, "Q %d\n", code); fflush(ctl_out); }
  return code;
}

int main(int argc, char **argv)
{
  int opt, infd = -1, outfd = -1, tmo = 0;
  char *logname = NULL;
  while((opt = getopt(argc, argv, "+l:r:i:o:k:K:e:E:s:dt:")) != -1)
    switch(opt)
    {
      case 'l': logname = optarg; break;
      case 'r': prefix = optarg; break;
      case 'i': infd = atoi(optarg); break;
      case 'o': outfd = atoi(optarg); break;
      case 'k': kill_before = atol(optarg); break;
      case 'K': kill_after = atol(optarg); break;
      case 'e': sscanf(optarg, "%ld:%ld", &err_at, &err_no); break;
      case 'E': sscanf(optarg, "%ld:%ld:%ld", &errs_from, &errs_no, &errs_mask); break;
      case 's': sscanf(optarg, "%ld:%ld", &short_at, &short_len); break;
      case 'd': log_data = 1; break;
      case 't': tmo = atoi(optarg); break;
      default: return 250;
    }
  if(logname && (logf_ = fopen(logname, "we")) == NULL) fatal("log");
  if(infd >= 0) { ctl_in = fdopen(infd, "r"); fcntl(infd, F_SETFD, FD_CLOEXEC); }
  if(outfd >= 0) { ctl_out = fdopen(outfd, "w"); fcntl(outfd, F_SETFD, FD_CLOEXEC); }
  if(tmo) alarm(tmo);
  child = fork();
  if(child < 0) fatal("fork");
  if(child == 0) { alarm(0); child_main(argv + optind); }
  int status;
  if(waitpid(child, &status, 0) != child || !WIFSTOPPED(status)) fatal("start");
  if(ptrace(PTRACE_SETOPTIONS, child, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL) != 0) fatal("setoptions");
  if(ptrace(PTRACE_CONT, child, 0, 0) != 0) fatal("cont");

  long seq = 0;
  static char raw1[8400], raw2[8400], p1[16800], p2[16800];
  while(1)
  {
    if(waitpid(child, &status, 0) != child) fatal("wait");
    if(WIFEXITED(status) || WIFSIGNALED(status)) return finish(status);
    int sig = WSTOPSIG(status);
    if((status >> 8) != (SIGTRAP | (PTRACE_EVENT_SECCOMP << 8)))
    {
      if(sig == SIGTRAP || sig == (SIGTRAP | 0x80) || sig == SIGSTOP) sig = 0;
      ptrace(PTRACE_CONT, child, 0, sig);
      continue;
    }
    struct user_regs_struct r;
    if(ptrace(PTRACE_GETREGS, child, 0, &r) != 0) { continue; }
    const Sc *sc = NULL;
    for(size_t i = 0; i < NSC; i++) if((int)r.orig_rax == table[i].nr) { sc = &table[i]; break; }
    if(sc == NULL) { ptrace(PTRACE_CONT, child, 0, 0); continue; }

    int64_t a[6] = { r.rdi, r.rsi, r.rdx, r.r10, r.r8, r.r9 };
    const char *name = sc->name;
    if(sc->nr == SYS_unlinkat && (a[2] & AT_REMOVEDIR)) name = "rmdir";
    if(sc->nr == SYS_fchownat && (a[4] & AT_SYMLINK_NOFOLLOW)) name = "lchown";
    if(sc->nr == SYS_utimensat && (a[3] & AT_SYMLINK_NOFOLLOW)) name = "lutime";
    if(sc->nr == 452 && (a[3] & AT_SYMLINK_NOFOLLOW)) name = "lchmod";
    if(sc->nr == SYS_newfstatat && (a[3] & AT_SYMLINK_NOFOLLOW)) name = "lstat";
    if(sc->nr == SYS_statx && (a[2] & AT_SYMLINK_NOFOLLOW)) name = "lstat";
    int flags = sc->flags;
    uint64_t ino = 0;
    int64_t arg = sc->argi >= 0 ? a[sc->argi] : 0;
    p1[0] = p2[0] = 0;
    int skip = 0;
    switch(sc->kind)
    {
      case P_PATH: peekstr(a[0], raw1, sizeof raw1); abspath(AT_FDCWD, raw1, p1, sizeof p1); break;
      case P_ATPATH:
        raw1[0] = 0;
        if(a[1] != 0) peekstr(a[1], raw1, sizeof raw1);
        if(raw1[0] != 0) abspath((int)a[0], raw1, p1, sizeof p1);
        else
        {
          fdpath((int)a[0], p1, sizeof p1, &ino);
          if(sc->nr == SYS_utimensat) name = "futime";
          if(sc->nr == SYS_fchownat) name = "fchown";
          if(sc->nr == 452) name = "fchmod";
          if(sc->nr == SYS_newfstatat || sc->nr == SYS_statx) name = "fstat";
        }
        break;
      case P_FD: fdpath((int)a[0], p1, sizeof p1, &ino); break;
      case P_PATH2:
        peekstr(a[0], raw1, sizeof raw1); abspath(AT_FDCWD, raw1, p1, sizeof p1);
        peekstr(a[1], raw2, sizeof raw2); abspath(AT_FDCWD, raw2, p2, sizeof p2); break;
      case P_ATPATH2:
        peekstr(a[1], raw1, sizeof raw1); abspath((int)a[0], raw1, p1, sizeof p1);
        peekstr(a[3], raw2, sizeof raw2); abspath((int)a[2], raw2, p2, sizeof p2); break;
      case P_SYMLINK: peekstr(a[0], p2, sizeof p2); peekstr(a[1], raw1, sizeof raw1); abspath(AT_FDCWD, raw1, p1, sizeof p1); break;
      case P_SYMLINKAT: peekstr(a[0], p2, sizeof p2); peekstr(a[2], raw1, sizeof raw1); abspath((int)a[1], raw1, p1, sizeof p1); break;
      case P_FDFD: fdpath((int)a[2], p1, sizeof p1, &ino); fdpath((int)a[0], p2, sizeof p2, NULL); break;
      case P_MMAP:
        if((int)a[4] < 0 || (a[3] & MAP_ANONYMOUS) || !(a[3] & MAP_SHARED) || !(a[2] & PROT_WRITE)) skip = 1;
        else fdpath((int)a[4], p1, sizeof p1, &ino);
        break;
      default: break;
    }
    if(sc->flags & X_OPEN)
    {
      int fl = sc->nr == SYS_creat ? O_CREAT | O_TRUNC | O_WRONLY : (int)arg;
      arg = fl;
      if((fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC))) flags |= X_MUT;
    }
    if(sc->nr == SYS_fcntl && !(arg == F_SETLK || arg == F_SETLKW || arg == F_OFD_SETLK || arg == F_OFD_SETLKW)) skip = 1;
    if(sc->nr == SYS_fcntl && !skip)
    {
      struct flock fk;
      if(peek(a[2], &fk, sizeof fk) == sizeof fk) arg = (arg << 8) | (unsigned char)fk.l_type;
    }
    if(sc->nr == SYS_chown || sc->nr == SYS_lchown || sc->nr == SYS_fchown) arg = (int64_t)(((uint64_t)(uint32_t)a[1] << 32) | (uint32_t)a[2]);
    if(sc->nr == SYS_fchownat) arg = (int64_t)(((uint64_t)(uint32_t)a[2] << 32) | (uint32_t)a[3]);
    if(!skip && sc->kind != P_ANY)
    {
      int in = inside(p1) || (p2[0] == '/' && sc->kind != P_SYMLINK && sc->kind != P_SYMLINKAT && inside(p2));
      int real = p1[0] == '/' && strncmp(p1, "/dev/", 5) != 0 && strncmp(p1, "/proc/", 6) != 0;
      if(strncmp(p1, "/dev/shm", 8) == 0) real = 1;
      if(!in && !((flags & X_MUT) && real)) skip = 1;
    }
    if(skip) { ptrace(PTRACE_CONT, child, 0, 0); continue; }
    if(ino == 0) ino = lino(p1);
    uint64_t ino2 = sc->kind == P_PATH2 || sc->kind == P_ATPATH2 ? lino(p2) : 0;

    seq++;
    char cmd = 'c';
    long cmdarg = 0;
    if(ctl_out)
    {
      fprintf(ctl_out, "E %ld %s %d %lu ", seq, name, flags, (unsigned long)ino);
      putc('x', ctl_out); hexout(ctl_out, p1, strlen(p1)); fputs(" x", ctl_out); hexout(ctl_out, p2, strlen(p2));
      fprintf(ctl_out, " %ld\n", (long)arg);
      fflush(ctl_out);
      char line[128];
      if(fgets(line, sizeof line, ctl_in) == NULL) { cmd = 'k'; }
      else { cmd = line[0]; cmdarg = atol(line + 1); }
    }
    if(seq == kill_before) cmd = 'k';
    if(seq == err_at) { cmd = 'e'; cmdarg = err_no; }
    if(errs_from && seq >= errs_from && (flags & errs_mask)) { cmd = 'e'; cmdarg = errs_no; }
    if(seq == short_at) { cmd = 's'; cmdarg = short_len; }
    if(cmd == 'd') { fclose(ctl_out); fclose(ctl_in); ctl_out = ctl_in = NULL; cmd = 'c'; }

    unsigned char *data = NULL;
    size_t ndata = 0;
    if(cmd == 's' && (sc->nr == SYS_write || sc->nr == SYS_read || sc->nr == SYS_pwrite64 || sc->nr == SYS_pread64))
    {
      if((uint64_t)cmdarg < (uint64_t)a[2]) { r.rdx = cmdarg; a[2] = cmdarg; ptrace(PTRACE_SETREGS, child, 0, &r); }
    }
    if(log_data && (flags & X_DATA) && logf_ && sc->nr != SYS_writev)
    {
      ndata = a[2];
      data = malloc(ndata ? ndata : 1);
      ndata = peek(a[1], data, ndata);
    }
    else if(log_data && logf_ && sc->nr == SYS_writev)
    {
      struct iovec iov[64];
      size_t cnt = a[2] > 64 ? 64 : a[2];
      cnt = peek(a[1], iov, cnt * sizeof *iov) / sizeof *iov;
      for(size_t i = 0; i < cnt; i++)
      {
        data = realloc(data, ndata + iov[i].iov_len + 1);
        ndata += peek((uint64_t)iov[i].iov_base, data + ndata, iov[i].iov_len);
      }
    }
    if(cmd == 'k')
    {
      if(logf_) { fprintf(logf_, "K\t%ld\t%s\n", seq, name); }
      kill(child, SIGKILL);
      while(waitpid(child, &status, 0) == child && !(WIFEXITED(status) || WIFSIGNALED(status))) ;
      return finish(status);
    }
    if(cmd == 'e')
    {
      r.orig_rax = -1; r.rax = -cmdarg;
      ptrace(PTRACE_SETREGS, child, 0, &r);
    }
    if(ptrace(PTRACE_SYSCALL, child, 0, 0) != 0) { free(data); continue; }
    if(waitpid(child, &status, 0) != child) fatal("wait2");
    if(WIFEXITED(status) || WIFSIGNALED(status)) return finish(status);
    if(ptrace(PTRACE_GETREGS, child, 0, &r) != 0) { free(data); continue; }
    if(cmd == 'e') { r.rax = -cmdarg; ptrace(PTRACE_SETREGS, child, 0, &r); }
    int64_t ret = r.rax;
    if((sc->flags & X_OPEN) && ret >= 0)
    {
      char tmp[8400];
      fdpath(ret, tmp, sizeof tmp, &ino);
    }
    else if(sc->nr == SYS_mkdir || sc->nr == SYS_mkdirat || sc->nr == SYS_symlink || sc->nr == SYS_symlinkat) ino = lino(p1);
    if(logf_)
    {
      fprintf(logf_, "%ld\t%s\t%ld\t%d\t%lu\t%lu\tx", seq, name, (long)ret, flags, (unsigned long)ino, (unsigned long)ino2);
      hexout(logf_, p1, strlen(p1)); fputs("\tx", logf_); hexout(logf_, p2, strlen(p2));
      fprintf(logf_, "\t%ld\tx", (long)arg);
      if(data && ret > 0) hexout(logf_, data, (size_t)ret < ndata ? (size_t)ret : ndata);
      putc('\n', logf_);
    }
    free(data);
    if(cmd == 'C') { fprintf(ctl_out, "X %ld %ld %lu\n", seq, (long)ret, (unsigned long)ino); fflush(ctl_out); }
    if(seq == kill_after)
    {
      if(logf_) { fprintf(logf_, "K\t%ld\t%s\n", seq, name); }
      kill(child, SIGKILL);
      while(waitpid(child, &status, 0) == child && !(WIFEXITED(status) || WIFSIGNALED(status))) ;
      return finish(status);
    }
    ptrace(PTRACE_CONT, child, 0, 0);
  }
}
