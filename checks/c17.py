"""C17: every command writes only where it is supposed to.

Every call which changes the file system is traced, wherever it happens, and
resolved like the kernel does; it must be allowed for the command. Snapshots of
everything before and after back this up. Calls which follow a final symbolic
link must not be made on one, unless the recorded state is a directory."""
import os, re
import cfggen, crash, metafmt, scen, sup, world

PROP = "C17"
VARIANTS = ["plain"]
CASES = {"quick": 1300, "thorough": 12000}
LEVEL = "exploration"
RULE = ("one evaluation = one traced command (backup confirmed, declined, without changes or failing; collection; integrity check; restore of "
        "everything, a path or one which fails) with hostile links in tree and repository; non-trivial: it made mutating calls other than on "
        "the lock file; distinct by command and calls")
REQUIRED = {"names_for_stored_files": 300, "bystanders_compared": 5000, "mutating_calls_checked": 20000, "backups_checked": 500, "declined_checked": 100, "idle_checked": 100, "gc_checked": 200,
            "integrity_checked": 150, "restores_checked": 300, "failed_checked": 60}
ASSUMPTIONS = ["a symlink to a directory in place of a recorded directory is followed by design",
               "no links are planted where the repository keeps its own directories (a/bc)"]
R = scen.BASE + b"/repo"
BLOB = re.compile(rb"^/[0-9a-f](/[0-9a-f]{2}(/[0-9a-f]{37}x[0-9a-f]+x[0-9a-f]+)?)?$")


def rel(p):
    return p[len(R):] if p == R or p.startswith(R + b"/") else None


def temporary(r):
    """What is written goes by another name at first."""
    return r.count(b"/") == 1 and r not in (b"/config", b"/metadata") and not BLOB.match(r)


def allowed_backup(e, p, q):
    r = rel(p)
    if r is None:
        return False
    if r == b"/lockfile":
        return True
    if e.name in ("open", "write", "writev", "pwrite", "ftruncate", "fallocate"):
        return temporary(r)
    if e.name == "mkdir":
        return bool(BLOB.match(r)) and r.count(b"/") < 3
    if e.name == "rename":
        t = rel(q)
        return temporary(r) and t is not None and (t == b"/metadata" or bool(BLOB.match(t)) and t.count(b"/") == 3)
    if e.name in ("unlink", "rmdir"):       # the collection at the end
        return r not in (b"/config", b"/metadata", b"")
    return False


def allowed_gc(e, p, q):
    r = rel(p)
    return r == b"/lockfile" or r is not None and e.name in ("unlink", "rmdir") and r not in (b"/config", b"/metadata", b"")


def allowed_lock(e, p, q):
    return rel(p) == b"/lockfile" and e.name in ("open", "unlink")


def frozen_repo():
    return {p: (e.ino, e.nlink, e.ctime, e.mode, e.uid, e.gid, e.size, e.mtime_ns) for p, e in world.snap(R, content=False).items()
            if p not in (R, R + b"/lockfile")}


def repo_same(before):
    """Removing another name of a stored file, outside of the repository, is no change of it."""
    now = frozen_repo()
    return set(now) == set(before) and all(a[0] == b[0] and (a[1] > b[1] or a[1:3] == b[1:3]) and a[3:] == b[3:]
                                           for a, b in ((before[p], now[p]) for p in now))


def stored_names(ctx, s, rng):
    """Names outside of the repository for files which it stores."""
    stored = [p for p, e in world.snap(R, content=False).items() if e.type == world.F and p.count(b"/") > R.count(b"/") + 1]
    places = sorted(p for p, e in world.snap(s.src, content=False).items() if e.type != world.D)
    for p in rng.sample(places, min(len(places), 2)):
        if stored:
            os.unlink(p)
            os.link(rng.choice(sorted(stored)), p)
            ctx.count("names_for_stored_files")


def check(ctx, evs, start, allowed, what):
    n = 0
    for e, p, q in sup.mutations(evs, sup.Links(start)):
        ctx.count("mutating_calls_checked")
        if p in (b"/dev/null", b"/dev/tty") or p.startswith((b"pipe:", b"/pipe:", b"socket:")):
            continue
        if not allowed(e, p, q):
            ctx.fail("stray-write", "%s: %s on %r%s" % (what, e.name, p, " -> %r" % q if q else ""))
        if rel(p) != b"/lockfile":
            n += 1
    return n


def outside_same(ctx, before, what, content=True):
    now = world.snap(scen.BASE, skip={R})
    for p in set(before) | set(now):
        a, b = before.get(p), now.get(p)
        if a is None or b is None:
            ctx.fail("outside", "%s: %r %s" % (what, p, "appeared" if a is None else "vanished"))
        d = world.untouched(a, b)
        if a.type == world.F and a.mtime_ns != b.mtime_ns:
            d.append("time")
        if d:
            ctx.fail("outside", "%s: %r: %s" % (what, p, ", ".join(d)))
    ctx.count("paths_compared", len(now))


def hostile_repo(s, rng):
    """Links and strange things in the repository, leading out of it."""
    vic = scen.BASE + b"/victim"
    if not os.path.lexists(vic):
        os.mkdir(vic)
        world.write(vic + b"/file", b"victim content\n" * 4)
        os.makedirs(vic + b"/dir/deep")
        world.write(vic + b"/dir/inner", b"inner")
    for k in range(rng.randrange(0, 4)):
        p = R + rng.choice([b"/zz", b"/00", b"/f/fff", b"/a/link", b"/0/00/l", b"/tmp-filex", b"/9/9z", b"/configs", b"/lost", b"/lockfile.old"])
        if os.path.lexists(p) or not os.path.isdir(os.path.dirname(p)) and rng.random() < 0.5:
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        k = rng.randrange(5)
        if k < 3:
            os.symlink(rng.choice([vic, vic + b"/file", vic + b"/dir", s.src, b"../victim", b"..", b"/", b"nowhere"]), p)
        elif k == 3:
            os.makedirs(p + b"/x/y")
            os.symlink(vic, p + b"/x/l")
        else:
            world.write(p, b"foreign")


def traced(ctx, *args, **kw):
    start = world.snap(scen.BASE, content=False)
    start.update(world.snap(R, content=False))
    r, evs = sup.traced(ctx, *args, **kw)
    return r, evs, start


def case(ctx, i, rng):
    s = scen.Scene(ctx, rng, weird=rng.choice([0, 0.2]), big=0.02, links=0.25)
    s.gen.fill(rng.randrange(2, 9), 3)

    def configure():
        if rng.random() < 0.5:
            return s.simple_config(rng.choice([b"track", b"copy", b"mirror"]))
        s.config(cfggen.config(rng, s, links=0.2))
    configure()
    r = None
    for k in range(rng.randrange(1, 4)):
        if k:
            s.mutate(rng.randrange(0, 5))
            if not os.path.isdir(s.src):
                return None
            if rng.random() < 0.2:
                configure()
        hostile_repo(s, rng)
        # a backup: declined, then confirmed, then with nothing to do
        for mode in rng.choice([["n", "y", "y"], ["y", "y"], ["y"], ["", "y"]]):
            before, repo = world.snap(scen.BASE, skip={R}), frozen_repo()
            r, evs, start = traced(ctx, R, stdin=mode + "\n" if mode else "")
            prompted = b"(y/n)" in r.out
            did = mode == "y" and prompted and r.rc == 0
            n = check(ctx, evs, start, allowed_backup if mode == "y" and prompted else allowed_lock, "backup, answered %r" % mode)
            outside_same(ctx, before, "backup")
            if not (mode == "y" and prompted) and repo != frozen_repo():
                ctx.fail("repository", "a backup which did nothing changed the repository", run=r.brief())
            ctx.count("backups_checked" if did else "declined_checked" if prompted else "idle_checked" if r.rc == 0 else "failed_checked")
            ctx.count("evaluations")
            if n:
                ctx.seen("nontrivial", [(e.name, e.p1) for e in evs if e.flags & sup.MUT])
    if not s.has_meta():
        return None
    m = s.meta()
    hostile_repo(s, rng)
    if rng.random() < 0.5:
        before, repo = world.snap(scen.BASE, skip={R}), frozen_repo()
        r, evs, start = traced(ctx, R, "integrity")
        check(ctx, evs, start, allowed_lock, "integrity check")
        outside_same(ctx, before, "integrity check")
        if not repo_same(repo):
            ctx.fail("repository", "an integrity check changed the repository", run=r.brief())
        ctx.count("integrity_checked")
        ctx.count("evaluations")
    if rng.random() < 0.7:
        before = world.snap(scen.BASE, skip={R})
        r, evs, start = traced(ctx, R, "gc")
        if check(ctx, evs, start, allowed_gc, "collection"):
            ctx.seen("nontrivial", [(e.name, e.p1) for e in evs if e.flags & sup.MUT])
        outside_same(ctx, before, "collection")
        ctx.count("gc_checked")
        ctx.count("evaluations")
    # restores
    for k in range(rng.randrange(1, 3)):
        bid = rng.choice([0, rng.randrange(max(len(m.times), 1))])
        if not os.path.isdir(s.src):
            break
        s.mutate(rng.randrange(0, 4))
        scen.hostile(s, m, bid, rng.randrange(0, 6))
        if rng.random() < 0.5:
            scen.unfollow(m, bid, rng)
        if rng.random() < 0.3:
            stored_names(ctx, s, rng)
        exp = metafmt.expected_tree(m, bid)
        cand = sorted(p for p in exp if p.startswith(scen.BASE + b"/"))
        args = [str(bid)]
        if cand and rng.random() < 0.5:
            args.append(rng.choice(cand + [s.src + b"/not-there", scen.BASE]))
        path = args[1] if len(args) > 1 else b""
        mode = rng.choice(["y", "y", "y", "n", ""])
        if scen.aliased(m, bid):
            continue
        sel = {p for p in exp if not path or scen.under(p, path)}
        lead = {p for p in exp if path and path.startswith(p + b"/")}
        before, repo = world.snap(scen.BASE, skip={R}), frozen_repo()
        r, evs, start = traced(ctx, R, *args, stdin=mode + "\n" if mode else "")
        prompted = b"(y/n)" in r.out
        links = sup.Links(start)
        okset = {links.resolve(p) for p in sel | lead} | sel | lead
        # a link to a directory in place of a recorded directory is followed
        okset |= {links.resolve(p, True) for p in sel | lead if exp[p][0].type == metafmt.DIR and os.path.isdir(p)}
        gone = {links.resolve(p) for p in sel | lead if p in before and before[p].type == world.D and exp[p][0].type != metafmt.DIR}

        def allowed(e, p, q):
            if allowed_lock(e, p, q):
                return True
            if not (prompted and mode == "y") or rel(p) is not None:
                return False
            if q is not None or e.name in ("link", "rename"):
                return p in okset and q in okset
            return p in okset or e.name in ("unlink", "rmdir", "chmod", "fchmod") and any(p.startswith(g + b"/") for g in gone)
        if check(ctx, evs, start, allowed, "restore %r" % args):
            ctx.seen("nontrivial", [(e.name, e.p1) for e in evs if e.flags & sup.MUT])
        if not repo_same(repo):
            ctx.fail("repository", "a restore changed the repository", run=r.brief())
        if not (prompted and mode == "y"):
            outside_same(ctx, before, "restore without consent")
        else:       # names, which share what they name with others
            after = world.snap(scen.BASE, skip={R})
            bad = []
            for p, b in before.items():
                if p in okset or any(p.startswith(g + b"/") for g in gone):
                    continue
                d = world.untouched(b, after[p]) if p in after else ["gone"]
                if d and not (b.type == world.D and any(q.startswith(p + b"/") for q in okset)):
                    bad.append("%r: %s" % (p, ", ".join(d)))
            if bad:
                ctx.fail("outside", "restore %r changed what it does not restore: %s" % (args, "; ".join(bad[:5])), run=r.brief())
            ctx.count("bystanders_compared", len(before))
        ctx.count("restores_checked" if r.rc == 0 else "failed_checked")
        ctx.count("evaluations")
    return {"last": r.out[:200], "args": [repr(a) for a in r.args]}
