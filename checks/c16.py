"""C16: two commands never work on one repository at the same time.

Two to four commands run on one repository, stopped before every file system
call and scheduled one call at a time. The monitor watches whose calls reach
metadata and stored files (their spans must not overlap), what losers do, and
whether what is recorded in the end is the outcome of one run after another."""
import os

import scen, sup, world
from sup import DIRF, LOCK, MUT, OPEN, READ

PROP = "C16"
VARIANTS = ["plain"]
CASES = {"quick": 1200, "thorough": 20000}
LEVEL = "exploration"
RULE = ("one evaluation = one schedule of two to four concurrent commands over their file system calls; non-trivial: at least two of them were "
        "alive at the lock file at the same time; distinct by commands and the order of the calls which reach the lock file")
REQUIRED = {"schedules": 1100, "refused_commands": 600, "spans_compared": 250, "owners_killed": 60, "stale_lock_files": 60, "handovers": 150,
            "read_only_runs": 60, "runs_after": 1100, "commands_of_readers": 150}
ASSUMPTIONS = ["commands run on one machine and a file system with working advisory locks", "the schedule switches between file system calls"]

REPO = scen.BASE + b"/repo"
IN_USE = b"already being used by another process"


class Proc:
    def __init__(self, ctx, name, args, stdin, user=None):
        self.name, self.args, self.inp, self.user = name, args, stdin, user
        self.first = self.last = None       # span of its accesses
        self.started, self.ended, self.killed = None, None, False
        self.locked = self.tried = False
        self.wrote = 0                      # times it replaced the metadata
        self.changed = []                   # what it changed in the repository
        self.c = sup.Control(ctx, args, name=name, stdin=stdin, user=user)

    @property
    def alive(self):
        return self.c.pending is not None


def repo_path(p):
    """The place inside of the repository a path means, or None."""
    for pre in (REPO, scen.BASE + b"/link"):
        if p == pre:
            return b""
        if p is not None and p.startswith(pre + b"/"):
            q = os.path.normpath(p[len(pre) + 1:])
            return b"" if q == b"." else q
    return None


def at_lock(e):
    return repo_path(e.p1) == b"lockfile"


def observe(pr, e, ret, t):
    for p in (e.p1, e.p2):
        rel = repo_path(p) if p else None
        if rel is None or rel == b"config":
            continue
        if rel == b"lockfile":
            pr.tried = True
            if e.flags & LOCK and ret == 0 and e.arg & 0xff == 1:
                pr.locked = True
            continue
        ok = ret is not None and ret >= 0
        if rel == b"" and not (e.flags & DIRF or e.name in ("getdents", "getdents64")):
            continue
        if e.flags & (OPEN | READ | MUT | DIRF):
            pr.first = t if pr.first is None else pr.first
            pr.last = t
            if e.flags & MUT and ok:
                pr.changed.append((e.name, rel))
    if e.name == "rename" and repo_path(e.p2) == b"metadata" and ret == 0:
        pr.wrote += 1


def command(rng):
    c = rng.random()
    if c < 0.55:
        return "backup", [], rng.choice([b"y\n"] * 5 + [b"n\n"])
    if c < 0.7:
        return "gc", [b"gc"], b""
    if c < 0.85:
        return "integrity", [b"integrity"], b""
    return "restore", [b"%d" % rng.randrange(2)] + ([b"/"] if rng.random() < 0.3 else []), rng.choice([b"y\n", b"n\n"])


def add(rng, s, k):
    world.write(s.src + b"/added%d" % k, rng.randbytes(rng.choice([0, 5, 21, 300, 5000])))


def schedule(ctx, rng, s):
    n = rng.choice([2, 2, 2, 3, 4])
    kill = rng.random() < 0.35
    if rng.random() < 0.4:
        if not os.path.lexists(REPO + b"/lockfile"):
            world.write(REPO + b"/lockfile", b"")
            os.chmod(REPO + b"/lockfile", rng.choice([0o220, 0o600]))
        ctx.count("stale_lock_files")
    procs, order, trace, added = [], [], [], 0
    todo = n
    t = 0
    cur = None
    sticky = rng.choice([0.5, 0.9, 0.97, 0.99])
    # some schedules switch only where somebody is about to touch the lock file
    focus = rng.random() < 0.7
    while todo or any(p.alive for p in procs):
        alive = [p for p in procs if p.alive]
        if todo and (len(alive) < 2 and rng.random() < 0.9 or not alive or rng.random() < 0.05):
            add(rng, s, added)
            added += 1
            name, a, inp = command(rng)
            spell = rng.choice([REPO, REPO, REPO + b"/", scen.BASE + b"/link", scen.BASE + b"//repo/."])
            # somebody who may read everything but not write to the repository
            user = 65534 if rng.random() < 0.1 else None
            ctx.count("commands_of_readers", user is not None)
            p = Proc(ctx, name, [spell] + a, inp, user)
            p.started = t
            procs.append(p)
            todo -= 1
            alive = [p for p in procs if p.alive]
            if not p.alive:
                p.ended = t
            continue
        if cur is None or not cur.alive:
            cur = rng.choice(alive)
        else:
            e = cur.c.pending
            hot = at_lock(e)
            if rng.random() < (0.5 if hot else (1 - sticky) * (0.1 if focus else 1)):
                cur = rng.choice(alive)
        e = cur.c.pending
        if e is None:
            cur.ended = t
            continue
        t += 1
        if t > 60000:
            ctx.fail("livelock", "no end after %d calls" % t, commands=[p.args for p in procs])
        if kill and rng.random() < (0.03 if at_lock(e) else 0.003) and cur.c.pending:
            cur.killed = True
            # its last call may or may not have happened
            cur.c.step(b"k")
            ctx.count("owners_killed", cur.locked)
        else:
            ret = cur.c.step()
            observe(cur, e, ret, t)
            if at_lock(e):
                order.append((procs.index(cur), e.name, ret is not None and ret >= 0))
            trace.append((cur.name, e.name, ret))
        if not cur.alive:
            cur.ended = t
    for p in procs:
        p.r = p.c.finish()
    return procs, order, t


def judge(ctx, s, procs, order):
    what = [(p.name, p.r.rc, p.first, p.last, p.started, p.ended) for p in procs]
    for p in procs:
        if not p.killed:
            ctx.check_sane(p.r)
    spans = [p for p in procs if p.first is not None]
    for x in range(len(spans)):
        for y in range(x + 1, len(spans)):
            a, b = spans[x], spans[y]
            ctx.count("spans_compared")
            if a.first <= b.last and b.first <= a.last:
                ctx.fail("overlap", "%s worked on the repository from call %d to %d, %s from %d to %d" % (
                    a.name, a.first, a.last, b.name, b.first, b.last), runs=what, lock=order[:60])
            if not (a.ended <= b.started or b.ended <= a.started):
                ctx.count("handovers")
    for p in procs:
        if p.killed:
            continue
        if p.first is None and IN_USE in p.r.err:
            ctx.count("refused_commands")
            if p.r.rc != 1 or p.r.out:
                ctx.fail("refusal", "a refused command ended with status %d" % p.r.rc, run=p.r.brief())
            if not any(q is not p and q.tried and q.started <= p.ended and q.ended >= p.started for q in procs):
                ctx.fail("blocked", "refused although no other command was running", run=p.r.brief(), runs=what)
        elif p.r.rc != 0:
            declined = p.inp == b"n\n" and b"(y/n)" in p.r.out and not p.r.err
            lookup = p.name == "restore" and any(x in p.r.err for x in (b"exist", b"invalid", b"older"))
            if not (declined or lookup or p.user):
                ctx.fail("failed", "a command failed without a reason", run=p.r.brief(), runs=what, lock=order[:60])
        if IN_USE in p.r.err and p.changed:
            ctx.fail("refusal", "a refused command changed %r" % p.changed[:4], run=p.r.brief())


def read_only(ctx, rng, s):
    """Reading commands on a read-only file system work without a lock."""
    import sandbox
    mnt = scen.BASE + b"/mnt"
    os.makedirs(mnt, exist_ok=True)
    lock = rng.random() < 0.5
    if lock and not os.path.lexists(REPO + b"/lockfile"):
        world.write(REPO + b"/lockfile", b"")
    L = sandbox.libc
    if L.mount(REPO, mnt, None, 4096, None) != 0:
        raise OSError("bind mount")
    try:
        if L.mount(None, mnt, None, 4096 | 32 | 1, None) != 0:
            raise OSError("read-only remount")
        before = world.snap(REPO)
        other = None
        if rng.random() < 0.5:
            # somebody reads it as well
            other = sup.Control(ctx, [mnt, b"integrity"], stdin=b"")
            for _ in range(rng.randrange(200)):
                if other.pending is not None:
                    other.step()
        for a, rc in (([b"integrity"], 0), ([b"0"], 0), ([], 1), ([b"gc"], 1)):
            if rng.random() < 0.75:
                r = ctx.nb(mnt, *a, expect=None)
                ctx.count("read_only_runs")
                if r.rc != rc:
                    ctx.fail("read-only", "%r on a read-only file system ended with %d" % (a, r.rc), run=r.brief())
                if rc and b"Read-only file system" not in r.err:
                    ctx.fail("read-only", "%r on a read-only file system gives another reason" % a, run=r.brief())
        if other is not None:
            r = other.finish()
            if r.rc != 0:
                ctx.fail("read-only", "the integrity check failed on a read-only file system", run=r.brief())
        bad = [p for p, e in world.snap(REPO).items() if p not in before or world.untouched(before[p], e)]
        if bad:
            ctx.fail("read-only", "changed: %r" % bad[:3])
    finally:
        sandbox.umount(mnt.decode())
    if lock:
        os.unlink(REPO + b"/lockfile")


def case(ctx, i, rng):
    s = scen.Scene(ctx, rng, weird=0, big=0, special=0, unreadable=False)
    os.symlink(b"repo", scen.BASE + b"/link")
    s.gen.fill(rng.randrange(1, 5), 2)
    s.simple_config(b"track")
    add(rng, s, 99)
    s.backup()
    times = len(s.meta().times)
    if rng.random() < 0.5:
        add(rng, s, 98)
        s.backup()
        times = len(s.meta().times)
    if i % 12 == 0:
        read_only(ctx, rng, s)
    procs, order, t = schedule(ctx, rng, s)
    ctx.count("schedules")
    ctx.count("evaluations")
    judge(ctx, s, procs, order)
    # what one run after another records
    wrote = sum(p.wrote for p in procs)
    dead = any(p.killed for p in procs)
    m = s.meta()
    if len(m.times) != times + wrote:
        ctx.fail("lost-backup", "%d backups recorded after %d + %d" % (len(m.times), times, wrote),
                 runs=[(p.name, p.r.rc, p.wrote) for p in procs], lock=order[:60])
    for p in procs:
        if not p.killed and p.name == "backup" and p.r.rc == 0 and p.wrote != (b"(y/n)" in p.r.out and b"Discarding" in p.r.out):
            ctx.fail("lost-backup", "a backup which succeeded recorded nothing", run=p.r.brief())
    s.audit(exact=False)
    if not dead and os.path.lexists(REPO + b"/lockfile") and not any(p.first is None for p in procs):
        ctx.count("lock_files_left")
    # nobody is left, so nobody is blocked
    add(rng, s, 97)
    r = s.backup()
    ctx.count("runs_after")
    s.audit()
    if len(s.meta().times) != len(m.times) + 1 or s.src + b"/added97" not in s.meta().paths():
        ctx.fail("lost-backup", "the next backup recorded nothing", run=r.brief())
    if len([p for p in procs if p.tried]) > 1:
        ctx.seen("nontrivial", ([p.name for p in procs], order))
    return {"commands": [(p.name, p.r.rc, p.killed) for p in procs], "calls": t, "lock": order[:12]}
