"""Runs commands under the ptrace supervisor (nbsup) and reads its event log."""
import collections, errno, os, re, stat, subprocess, threading

import world

MUT, SYNC, LOCK, DATA, READ, STAT, CLOSE, OPEN, DIRF = 1, 2, 4, 8, 16, 32, 64, 128, 256
Ev = collections.namedtuple("Ev", "seq name ret flags ino ino2 p1 p2 arg data")


def parse_log(path):
    evs, end = [], None
    with open(path, "rb") as f:
        for line in f:
            if not line.endswith(b"\n"):
                break
            x = line[:-1].split(b"\t")
            if x[0] == b"Q":
                end = int(x[1])
            elif x[0] == b"K":
                pass
            else:
                evs.append(Ev(int(x[0]), x[1].decode(), int(x[2]), int(x[3]), int(x[4]), int(x[5]), norm(bytes.fromhex(x[6][1:].decode())),
                              x7(x[1], bytes.fromhex(x[7][1:].decode())), int(x[8]), bytes.fromhex(x[9][1:].decode())))
    return evs, end


def x7(name, p):
    return p if name == b"symlink" else norm(p)


def norm(p):
    """Collapses slashes; what the kernel reported for removed files loses its suffix."""
    if p.endswith(b" (deleted)"):
        p = p[:-10]
    return re.sub(rb"/+", b"/", p)


def traced(ctx, *args, opts=(), prefix=b"/tmp/w", data=False, **kw):
    """Runs nb under the supervisor. Returns (run, events)."""
    log = ctx.tmpfile()
    sup = ["-l", log, "-r", prefix] + (["-d"] if data else []) + list(opts)
    r = ctx.nb(*args, sup=sup, **kw)
    evs, end = parse_log(log)
    os.unlink(log)
    ctx.count("events_observed", len(evs))
    return r, evs


def killed(ctx, *args, at, after=False, **kw):
    """Runs nb and kills it right before (or after) event AT. Returns (run, events)."""
    return traced(ctx, *args, opts=["-K" if after else "-k", str(at)], crash_ok=True, **kw)


class Control:
    """A run which stops before every event until told to go on."""

    def __init__(self, ctx, args, prefix=b"/tmp/w", stdin=b"y\n", name="p", **kw):
        self.ctx, self.args, self.name = ctx, args, name
        ir, iw = os.pipe()      # commands to the supervisor
        or_, ow = os.pipe()     # events from it
        os.set_inheritable(ir, True)
        os.set_inheritable(ow, True)
        self.proc = ctx.start(args, sup=["-r", prefix, "-i", ir, "-o", ow], pass_fds=(ir, ow), **kw)
        ctx.count("program_runs")
        os.close(ir)
        os.close(ow)
        self.cmd = os.fdopen(iw, "wb", 0)
        self.ev = os.fdopen(or_, "rb")
        try:
            self.proc.stdin.write(stdin)
            self.proc.stdin.close()
        except BrokenPipeError:
            pass
        self.proc.stdin = None
        self.code = None
        self.pending = None
        self.events = []
        self.advance()

    def advance(self):
        """Reads the next announcement. Returns it, or None when the run has ended."""
        while True:
            line = self.ev.readline()
            if not line:
                self.pending = None
                self.code = 250 if self.code is None else self.code
                return None
            x = line.split()
            if x[0] == b"Q":
                self.code = int(x[1])
                self.pending = None
                return None
            if x[0] == b"E":
                self.pending = Ev(int(x[1]), x[2].decode(), None, int(x[3]), int(x[4]), 0, norm(bytes.fromhex(x[5][1:].decode())),
                                  x7(x[2], bytes.fromhex(x[6][1:].decode())), int(x[7]), b"")
                return self.pending

    def step(self, cmd=b"C"):
        """Executes the pending event and waits for the next. Returns its result (None if killed)."""
        e = self.pending
        self.cmd.write(cmd + b"\n")
        ret = None
        if cmd == b"C":
            line = self.ev.readline()
            x = line.split()
            if x and x[0] == b"X":
                ret = int(x[2])
                self.events.append(e._replace(ret=ret, ino=int(x[3])))
            elif x and x[0] == b"Q":
                self.code = int(x[1])
                self.pending = None
                return None
            self.ctx.count("events_observed")
        self.advance()
        return ret

    def detach(self):
        if self.pending is not None:
            self.cmd.write(b"d\n")
            self.pending = None

    def finish(self, timeout=60):
        import harness
        self.detach()
        try:
            out, err = self.proc.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.communicate()
            raise harness.Hang("no end: %r" % (self.args,))
        for f in (self.cmd, self.ev):
            try:
                f.close()
            except OSError:
                pass
        rc = self.proc.returncode
        if rc in (249, 250):
            raise harness.HarnessError("supervisor failed: %r %r" % (self.args, err[-400:]))
        if 128 <= rc < 192:
            rc = -(rc - 128)
        r = harness.Run(rc, out, err, self.args)
        self.ctx.trail.append(r.brief())
        del self.ctx.trail[:-12]
        return r


class Links:
    """Tracks symbolic links over a trace, to resolve paths as the kernel did."""

    def __init__(self, snap):
        self.links = {p: e.target for p, e in snap.items() if e.type == world.L}

    def resolve(self, path, follow=False, depth=0):
        if depth > 40:
            return path
        cur = b""
        parts = [x for x in path.split(b"/") if x not in (b"", b".")]
        for i, x in enumerate(parts):
            if x == b"..":
                cur = os.path.dirname(cur) if cur else b""
                if cur == b"/":
                    cur = b""
                continue
            nxt = cur + b"/" + x
            last = i == len(parts) - 1
            if nxt in self.links and (not last or follow):
                t = self.links[nxt]
                rest = b"/".join(parts[i + 1:])
                base = t if t.startswith(b"/") else cur + b"/" + t
                return self.resolve(base + (b"/" + rest if rest else b""), follow, depth + 1)
            cur = nxt
        return cur or b"/"

    def apply(self, e):
        if e.ret is None or e.ret < 0:
            return
        if e.name == "symlink":
            self.links[self.resolve(e.p1)] = e.p2
        elif e.name in ("unlink", "rmdir"):
            self.links.pop(self.resolve(e.p1), None)
        elif e.name == "rename":
            a, b = self.resolve(e.p1), self.resolve(e.p2)
            self.links.pop(b, None)
            for p in [p for p in self.links if p == a or p.startswith(a + b"/")]:
                self.links[b + p[len(a):]] = self.links.pop(p)


# calls which act on what a link in the last place leads to
FOLLOWING = {"open", "creat", "truncate", "chmod", "chown", "utime", "setxattr", "removexattr"}


def mutations(evs, links):
    """Yields (event, resolved path, second resolved path) for everything that
    changed the file system; descriptor based calls are resolved by the kernel."""
    for e in evs:
        if e.flags & MUT and e.ret is not None and e.ret >= 0:
            if e.name in ("write", "pwrite", "writev", "ftruncate", "fallocate", "fchmod", "fchown", "futime", "copy_file_range", "sendfile", "mmap"):
                yield e, e.p1, None
            elif e.name == "open":
                nofollow = e.arg & os.O_NOFOLLOW
                yield e, links.resolve(e.p1, not nofollow), None
            else:
                yield e, links.resolve(e.p1, e.name in FOLLOWING), links.resolve(e.p2) if e.name in ("rename", "link") else None
            links.apply(e)


def copy_repo(src, dst):
    if os.path.lexists(dst):
        world.rmtree(dst)
    world.copy_tree(src, dst)
