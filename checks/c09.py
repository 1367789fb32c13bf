"""C09: after any failing operation nothing is lost and success is not reported.

Every file related system call of a run is made to fail with errors it may
return, or to transfer less than asked for; single and persistent. If the run
exits with zero its whole job must be done, otherwise there is a message; the
repository describes the old or the new state with every stored file intact,
and the next undisturbed run succeeds."""
import errno, itertools, os
from errno import (EACCES, EAGAIN, EBUSY, EDQUOT, EFBIG, EINTR, EINVAL, EIO, EMFILE, EMLINK, ENFILE, ENOLCK, ENOMEM, ENOSPC, ENOTEMPTY, EOVERFLOW,
                   EPERM, EROFS, ESPIPE, EXDEV)
import crash, metafmt, scen, sup, world

PROP = "C09"
VARIANTS = ["plain", "oom"]
CASES = {"quick": 120, "thorough": 3000}
LEVEL = "fault_enumeration"
RULE = ("one evaluation = one run of a command with one injected error, one shortened transfer, persistent errors from one call on, or allocations "
        "of memory which fail; over the calls and allocations of an undisturbed run of that command; non-trivial: the fault was delivered; distinct by scenario, call and fault")
REQUIRED = {"backup_faults": 2500, "restore_faults": 1500, "gc_faults": 250, "integrity_faults": 400, "short_transfers": 600,
            "persistent_faults": 600, "sync_faults": 250, "memory_faults": 2500, "failed_runs": 2500, "survived_runs": 400}
ASSUMPTIONS = ["faults are injected between the program and the kernel: the failing call has no effect",
               "that a path does not exist is not injected: the program may rightly believe it",
               "transfers are shortened to at least one byte", "memory does not run out before main() or in the middle of compiling an expression: the C library does not survive that"]
ERR = {"open": [EACCES, EMFILE, EIO, ENFILE, EINTR, ENOMEM], "creat": [EACCES, EMFILE, ENOSPC], "close": [EIO, EDQUOT], "read": [EIO, EINTR, EAGAIN],
       "readv": [EIO], "pread": [EIO], "write": [ENOSPC, EIO, EDQUOT, EINTR, EAGAIN, EFBIG], "writev": [ENOSPC, EIO], "pwrite": [ENOSPC],
       "fsync": [EIO, ENOSPC, EINVAL, EINTR, EDQUOT], "fdatasync": [EIO, ENOSPC, EINVAL, EINTR, EROFS, EDQUOT],
       "rename": [EIO, ENOSPC, EXDEV, EACCES, EPERM, EBUSY, EROFS], "mkdir": [ENOSPC, EACCES, EMLINK, EROFS], "unlink": [EACCES, EIO, EBUSY, EPERM, EROFS],
       "rmdir": [EACCES, EBUSY, ENOTEMPTY, EPERM, EROFS], "stat": [EIO, EACCES, ENOMEM], "lstat": [EIO, EACCES], "fstat": [EIO, ENOMEM, EOVERFLOW],
       "access": [EIO, EACCES], "readlink": [EIO, EACCES], "getdents": [EIO], "fcntl": [EIO, ENOLCK, EINTR], "symlink": [ENOSPC, EACCES, EPERM, EDQUOT],
       "chmod": [EPERM, EIO, EROFS], "fchmod": [EPERM, EROFS], "chown": [EPERM, EDQUOT, EROFS], "fchown": [EPERM, EINVAL],
       "lchown": [EPERM, EDQUOT, EINVAL], "utime": [EPERM, EIO, EACCES, EROFS], "lseek": [EIO, ESPIPE, EINVAL]}
ERR.update(lchmod=ERR["chmod"], lutime=ERR["utime"], futime=ERR["utime"])
MASKS = [(sup.DATA, [ENOSPC, EIO]), (sup.SYNC, [EIO]), (sup.READ, [EIO]), (sup.MUT, [EROFS, EDQUOT, EACCES]), (sup.OPEN, [EMFILE, EACCES]),
         (sup.STAT, [EACCES, EIO]), (sup.DIRF, [EIO]), (sup.CLOSE, [EIO]), (sup.LOCK, [ENOLCK])]


def faults(ctx, evs, rng, budget):
    """Yields (supervisor options, description, event, kind)."""
    plan = []
    for e in evs:
        if e.ret is None or e.ret < 0:
            continue
        w = 3 if e.flags & (sup.MUT | sup.SYNC) else 2 if e.flags & (sup.READ | sup.DIRF | sup.LOCK) else 1
        en = ERR.get(e.name, [EIO])
        x = rng.choice(en)
        plan.append((w, ["-e", "%d:%d" % (e.seq, x)], "%s %r fails with %s" % (e.name, e.p1, errno.errorcode[x]), e, "error"))
        if e.flags & (sup.READ | sup.DATA) and e.ret > 1:
            n = rng.choice([1, e.ret // 2, e.ret - 1])
            plan.append((3, ["-s", "%d:%d" % (e.seq, max(n, 1))], "%s %r transfers %d of %d" % (e.name, e.p1, n, e.ret), e, "short"))
    for _ in range(max(4, budget // 8)):
        if evs:
            e = rng.choice(evs)
            m, en = rng.choice(MASKS)
            x = rng.choice(en)
            hit = [f for f in evs if f.seq >= e.seq and f.flags & m and f.ret is not None and f.ret >= 0]
            if hit:
                plan.append((3, ["-E", "%d:%d:%d" % (e.seq, x, m)], "from %s %r on %d fails with %s" % (e.name, e.p1, m, errno.errorcode[x]),
                             hit[0], "persistent"))
    if len(plan) > budget:
        plan = [p for _, p in sorted(((rng.random() ** (1.0 / p[0]), p) for p in plan), key=lambda x: -x[0])[:budget]]
    for w, o, d, e, k in plan:
        yield o, d, e, k


class Memory:
    """A fault which lies in no system call."""
    flags, name, p1 = 0, "memory", b""

    def __init__(self, seq):
        self.seq = seq


def shortages(ctx, args, rng, budget, variant="oom"):
    """Yields the same as faults() for memory which runs out. What ARGS run changes is up to the caller."""
    log = scen.BASE + b"/allocations"
    ctx.nb(*args, variant=variant, env={"NB_OOM_LOG": log.decode()}, expect=None)
    n = int(world.read(log))
    os.unlink(log)
    ctx.count("allocations_counted", n)
    for at in sorted(rng.sample(range(1, n + 1), min(n, budget))):
        k = rng.choice([1, 1, 1, 2, 10**9])
        yield ["oom", at, k], "%s allocation %d of %d fails" % ("only" if k == 1 else "from" if k > 2 else "with its successor", at, n), Memory(at), "memory"


def disturbed(ctx, args, opts, variant="oom"):
    if opts[0] == "oom":
        return ctx.nb(*args, variant=variant, env={"NB_OOM_AT": str(opts[1]), "NB_OOM_FOR": str(opts[2])})
    r, evs = sup.traced(ctx, *args, opts=opts)
    r.evs = evs
    return r


def note(ctx, i, what, e, kind, r):
    ctx.count(what + "_faults")
    ctx.count("evaluations")
    ctx.count({"error": "single_faults", "short": "short_transfers", "persistent": "persistent_faults", "memory": "memory_faults"}[kind])
    if e.flags & sup.SYNC:
        ctx.count("sync_faults")
    ctx.count("survived_runs" if r.rc == 0 else "failed_runs")
    ctx.seen("nontrivial", (i, what, e.seq, kind, r.rc))
    ctx.seen("faulted_calls", (what, e.name, kind, r.rc))


def must_fail(ctx, r, e, kind, d, written, opts):
    """Failures which can't leave the job done."""
    if r.rc == 0 and kind not in ("short", "memory"):
        m = int(opts[1].split(":")[2]) if kind == "persistent" else e.flags
        if kind == "error" and e.flags & sup.SYNC and not ("EINTR" in d and any(x.seq > e.seq and x.p1 == e.p1 and x.ret == 0 and x.flags & sup.SYNC for x in r.evs)) or kind == "persistent" and m & sup.SYNC:
            ctx.fail("sync-ignored", "success although nothing could be synchronised: " + d, run=r.brief())
        if kind == "error" and e.name == "close" and (e.p1, e.ino) in written:
            ctx.fail("close-ignored", "success although a written file could not be closed: " + d, run=r.brief())


def case(ctx, i, rng):
    if i % 3 == 0:
        return restore_case(ctx, i, rng)
    s = crash.pending_backup(ctx, rng, size=(2, 7), most=2)
    if s is None:
        return None
    saved, old = crash.save(s), crash.load(ctx, s.repo)
    r, evs = sup.traced(ctx, s.repo)
    if r.rc != 0 or b"(y/n)" not in r.out:
        return None
    new = crash.load(ctx, s.repo)
    scen.audit(ctx, s.repo, new)
    done = crash.save(s, b"done")
    written = {(e.p1, e.ino) for e in evs if e.flags & sup.DATA}
    ctx.nb(s.repo)
    again = crash.load(ctx, s.repo)
    deep = 1 if ctx.tier == "quick" else 4
    last = None
    crash.reset(s, saved)
    for opts, d, e, kind in itertools.chain(faults(ctx, evs, rng, 70 * deep), shortages(ctx, [s.repo], rng, 25 * deep)):
        crash.reset(s, saved)
        r = disturbed(ctx, [s.repo], opts)
        last = d
        note(ctx, i, "backup", e, kind, r)
        must_fail(ctx, r, e, kind, d, written, opts)
        m = crash.load(ctx, s.repo)
        committed = crash.same_meta(m, new, True)
        if not committed and not crash.same_meta(m, old, False):
            ctx.fail("mixed-state", "neither the old nor the new state: " + d, run=r.brief(), differences=crash.difference(m, new))
        if r.rc == 0 and not committed:
            ctx.fail("false-success", "success without the new state: " + d, run=r.brief())
        if m is not None:
            scen.audit(ctx, s.repo, m, exact=r.rc == 0)
        if kind == "short" and r.rc != 0:
            ctx.count("short_transfers_refused")
        if rng.random() < 0.5:
            ctx.nb(s.repo, expect=0)
            m = crash.load(ctx, s.repo)
            if not (crash.states(m) == crash.states(again) if committed else crash.same_meta(m, new, True)):
                ctx.fail("not-resumed", "the next backup does not end in the new state: " + d, differences=crash.difference(m, new))
            scen.audit(ctx, s.repo, m, exact=not committed, key="leftovers")
    # collection
    crash.reset(s, done)
    for k in range(rng.randrange(1, 4)):
        p = s.repo + rng.choice([b"/ff/11", b"/0", b"/left/over"])
        os.makedirs(p, exist_ok=True)
        world.write(p + b"/f%d" % k, b"z" * rng.randrange(50))
    dirty = crash.save(s, b"dirty")
    r, evs = sup.traced(ctx, s.repo, "gc", expect=0)
    crash.reset(s, dirty)
    for opts, d, e, kind in itertools.chain(faults(ctx, evs, rng, 25 * deep), shortages(ctx, [s.repo, "gc"], rng, 8 * deep)):
        crash.reset(s, dirty)
        r = disturbed(ctx, [s.repo, "gc"], opts)
        note(ctx, i, "gc", e, kind, r)
        if not crash.same_meta(crash.load(ctx, s.repo), new, False):
            ctx.fail("mixed-state", "a collection changed the metadata: " + d, run=r.brief())
        scen.audit(ctx, s.repo, new, exact=r.rc == 0)
        if rng.random() < 0.3:
            ctx.nb(s.repo, "gc", expect=0)
            scen.audit(ctx, s.repo, new, exact=True, key="leftovers")
    # integrity check, of a damaged repository every other time
    crash.reset(s, done)
    need = sorted(metafmt.needed_blobs(new))
    damaged = bool(need) and rng.random() < 0.6
    if damaged:
        p = s.repo + b"/" + rng.choice(need)
        data = bytearray(world.read(p))
        k = rng.randrange(3)
        if k == 0:
            os.unlink(p)
        elif k == 1:
            data[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
            world.write(p, data)
        else:
            world.write(p, data[:-1])
    r, evs = sup.traced(ctx, s.repo, "integrity", expect=1 if damaged else 0)
    for opts, d, e, kind in itertools.chain(faults(ctx, evs, rng, 25 * deep), shortages(ctx, [s.repo, "integrity"], rng, 8 * deep)):
        r = disturbed(ctx, [s.repo, "integrity"], opts)
        note(ctx, i, "integrity", e, kind, r)
        if damaged and r.rc == 0:
            ctx.fail("false-success", "a damaged repository is called healthy: " + d, run=r.brief())
        if not damaged and kind == "short" and r.rc != 0 and e.p1 != s.repo + b"/metadata":
            ctx.fail("short-read", "a healthy repository is not called so: " + d, run=r.brief())
    return {"last": last, "events": len(evs)}


def restore_case(ctx, i, rng):
    s = crash.pending_backup(ctx, rng, size=(2, 7), most=1)
    if s is None or s.backup(expect=None).rc != 0 or not s.has_meta():
        return None
    m = s.meta()
    bid = rng.choice([0, 0, rng.randrange(max(len(m.times), 1))])
    keep = scen.BASE + b"/keep"
    os.mkdir(keep)
    if rng.random() < 0.5 or not os.path.isdir(s.src):
        world.rmtree(s.top)
        os.mkdir(s.top)
    else:
        s.mutate(rng.randrange(0, 3))
        scen.hostile(s, m, bid, rng.randrange(1, 4), victims=False)
        scen.unfollow(m, bid, rng, True)
        scen.notice_restore(m, bid, rng)
    if scen.aliased(m, bid):
        return None
    world.copy_tree(s.top, keep + b"/top")
    exp = metafmt.expected_tree(m, bid)
    free = {p for p in exp if exp[p][1] == 0 and exp[p][0].type == metafmt.DIR} | {s.top}

    def cmp(want, got, what, key, run):
        bad = []
        for p in sorted(set(want) | set(got)):
            if p not in got or p not in want:
                bad.append("%r %s" % (p, "is missing" if p not in got else "should not be there"))
                continue
            d = world.same(want[p], got[p], times=p not in free, mode=p not in free, owner=p not in free)
            if d:
                bad.append("%r: %s" % (p, ", ".join(d)))
        if bad:
            ctx.fail(key, "%s: %s" % (what, "; ".join(bad[:5])), run=run.brief())

    def repo_now():
        return {p: (e.type, e.mode, e.size, e.digest, e.ino) for p, e in world.snap(s.repo).items() if p not in (s.repo, s.repo + b"/lockfile")}
    repo = repo_now()
    r, evs = sup.traced(ctx, s.repo, str(bid), expect=0)
    want = world.snap(s.top)
    written = {(e.p1, e.ino) for e in evs if e.flags & sup.DATA}
    last = None

    def redo():
        world.rmtree(s.top)
        world.copy_tree(keep + b"/top", s.top)
    redo()
    deep = 1 if ctx.tier == "quick" else 4
    for opts, d, e, kind in itertools.chain(faults(ctx, evs, rng, 110 * deep), shortages(ctx, [s.repo, str(bid)], rng, 25 * deep)):
        redo()
        r = disturbed(ctx, [s.repo, str(bid)], opts)
        last = d
        note(ctx, i, "restore", e, kind, r)
        must_fail(ctx, r, e, kind, d, written, opts)
        if r.rc == 0:
            cmp(want, world.snap(s.top), "success in spite of: " + d, "false-success", r)
        if rng.random() < 0.3:
            r = ctx.nb(s.repo, str(bid), expect=0)
            cmp(want, world.snap(s.top), "repeated after: " + d, "not-resumed", r)
        if rng.random() < 0.2 and repo_now() != repo:
            ctx.fail("repository", "a restore changed the repository: " + d, run=r.brief())
    return {"last": last}
