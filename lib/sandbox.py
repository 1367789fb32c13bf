"""Worker processes confined to a user and mount namespace of their own.

Inside, uid 0 is an unprivileged uid of the host (100000), /tmp, /var/tmp and
/dev/shm are private tmpfs mounts, and a range of other uids is mapped too, so
that the program under test can be run as 'root' with real owners while it can
reach nothing real."""
import ctypes, os, pickle, select, signal, struct, sys, traceback

CLONE_NEWNS, CLONE_NEWUSER = 0x00020000, 0x10000000
MS_NOSUID, MS_NODEV = 2, 4
MNT_DETACH = 2
UIDMAP = "0 100000 65536\n2147483648 300000 1000\n4294967000 400000 294\n"
HUGE_IDS = [2147483648, 2147483653, 4294967000, 4294967293]

libc = ctypes.CDLL(None, use_errno=True)


def _check(r, what):
    if r != 0:
        e = ctypes.get_errno()
        raise OSError(e, what + ": " + os.strerror(e))


def mount_tmpfs(path, opts="mode=755,size=3g,nr_inodes=2m"):
    _check(libc.mount(b"tmpfs", path.encode(), b"tmpfs", MS_NODEV, opts.encode()), "mount " + path)


def umount(path):
    _check(libc.umount2(path.encode(), MNT_DETACH), "umount " + path)


def _write_all(fd, b):
    while b:
        n = os.write(fd, b)
        b = b[n:]


def spawn(worker, wid, inherited=()):
    """Forks a confined worker running worker(wid, send). Returns (pid, read fd)."""
    r, w = os.pipe()
    ur, uw = os.pipe()      # child -> parent: unshared
    gr, gw = os.pipe()      # parent -> child: maps written
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r); os.close(ur); os.close(gw)
            for fd in inherited:
                os.close(fd)
            os.setsid()
            libc.prctl(1, signal.SIGKILL, 0, 0, 0)
            _check(libc.unshare(CLONE_NEWUSER | CLONE_NEWNS), "unshare")
            os.write(uw, b"u"); os.close(uw)
            if os.read(gr, 1) != b"g":
                raise OSError("id maps were not written")
            os.close(gr)
            os.setgroups([])
            os.setresgid(0, 0, 0)
            os.setresuid(0, 0, 0)
            libc.prctl(1, signal.SIGKILL, 0, 0, 0)
            libc.prctl(4, 1, 0, 0, 0)       # dumpable again
            mount_tmpfs("/tmp", "mode=1777,size=6g,nr_inodes=4m")
            for d in ("/var/tmp", "/dev/shm"):
                if os.path.isdir(d):
                    mount_tmpfs(d, "mode=1777,size=64m")
            os.chdir("/tmp")
            os.umask(0o022)

            def send(obj):
                b = pickle.dumps(obj)
                _write_all(w, struct.pack("<Q", len(b)) + b)
            try:
                worker(wid, send)
                code = 0
            except BaseException:
                send({"kind": "error", "text": traceback.format_exc()})
        except BaseException:
            try:
                b = pickle.dumps({"kind": "error", "text": traceback.format_exc()})
                _write_all(w, struct.pack("<Q", len(b)) + b)
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w); os.close(uw); os.close(gr)
    try:
        if os.read(ur, 1) == b"u":
            for name in ("uid_map", "gid_map"):
                fd = os.open("/proc/%d/%s" % (pid, name), os.O_WRONLY)
                try:
                    os.write(fd, UIDMAP.encode())
                finally:
                    os.close(fd)
            os.write(gw, b"g")
    finally:
        os.close(ur); os.close(gw)
    return pid, r


def run_workers(worker, count, on_message):
    """on_message(obj) returns True to stop everything. Returns list of exit statuses."""
    procs = {}
    fds = []
    for i in range(count):
        pid, r = spawn(worker, i, tuple(fds))
        procs[r] = [pid, b""]
        fds.append(r)
    stop = False
    status = []
    try:
        while procs and not stop:
            ready, _, _ = select.select(list(procs), [], [], 5.0)
            for fd in ready:
                data = os.read(fd, 1 << 20)
                if not data:
                    pid = procs.pop(fd)[0]
                    os.close(fd)
                    status.append(os.waitpid(pid, 0)[1])
                    continue
                p = procs[fd]
                p[1] += data
                while len(p[1]) >= 8:
                    n = struct.unpack("<Q", p[1][:8])[0]
                    if len(p[1]) < 8 + n:
                        break
                    obj = pickle.loads(p[1][8:8 + n])
                    p[1] = p[1][8 + n:]
                    if on_message(obj):
                        stop = True
    finally:
        for fd, (pid, _) in list(procs.items()):
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            os.close(fd)
    return status
