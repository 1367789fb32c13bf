"""C26: an interrupted restore can simply be repeated.

The restore is killed before (or after) every call which changes the file
system, or that call is made to fail, each time on a fresh copy of the same
tree. Then nothing outside of the selection may have changed, the repository
must be as it was, and the same restore run again must end in the tree the
undisturbed restore ended in."""
import errno, os
import crash, metafmt, scen, sup, world

PROP = "C26"
VARIANTS = ["plain"]
CASES = {"quick": 110, "thorough": 2500}
LEVEL = "fault_enumeration"
RULE = ("one evaluation = one disturbed restore (killed or failed at every mutating system call of the reference run) and its repetition; "
        "non-trivial: the disturbed run had changed something; distinct by scenario and disturbed call")
REQUIRED = {"kills": 1500, "failures": 800, "chains": 150, "in_place": 25, "fresh": 12}
ASSUMPTIONS = ["attributes of directories without a policy of their own are not compared",
               "a kill takes effect between two system calls"]
ERRS = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EPERM, errno.EROFS, errno.EDQUOT]


def repo_frozen(s):
    return {p: (e.ino, e.ctime, e.mode, e.uid, e.gid, e.size) for p, e in world.snap(s.repo, content=False).items()
            if p not in (s.repo, s.repo + b"/lockfile")}


def compare(ctx, want, got, free, parents, what, key):
    bad = []
    for p in sorted(set(want) | set(got)):
        if p not in got:
            bad.append("%r is missing" % p)
        elif p not in want:
            bad.append("%r should not be there" % p)
        else:
            d = world.same(want[p], got[p], times=p not in free and p not in parents, mode=p not in free, owner=p not in free)
            if d:
                bad.append("%r: %s" % (p, ", ".join(d)))
    if bad:
        ctx.fail(key, "%s: %s" % (what, "; ".join(bad[:5])))


def case(ctx, i, rng):
    ctx.umask = rng.choice([0o022, 0, 0o002, 0o077, 0o777])
    s = crash.pending_backup(ctx, rng, size=(2, 8), most=2, policies=i % 3 == 0)
    if s is None or s.backup(expect=None).rc != 0 or not s.has_meta():
        return None
    if rng.random() < 0.4:
        s.mutate(2)
        s.normalise()
        if s.backup(expect=None).rc != 0:
            return None
    m = s.meta()
    bid = rng.choice([0, 0, rng.randrange(max(len(m.times), 1))])
    if not os.path.isdir(s.src) or i % 3 == 0:
        world.rmtree(s.top)
        os.mkdir(s.top)
        ctx.count("fresh")
    else:
        s.mutate(rng.randrange(0, 4))
        scen.hostile(s, m, bid, rng.randrange(1, 6))
        scen.unfollow(m, bid, rng, True)
        scen.notice_restore(m, bid, rng)
        ctx.count("in_place")
    if scen.aliased(m, bid):
        return None
    exp = metafmt.expected_tree(m, bid)
    args = []
    cand = sorted(p for p in exp if p.startswith(s.top + b"/"))
    if cand and rng.random() < 0.3:
        args = [rng.choice(cand)]
    sel = {p for p in exp if not args or scen.under(p, args[0])}
    lead = {p for p in exp if args and args[0].startswith(p + b"/")}
    free = {p for p in exp if exp[p][1] == 0 and exp[p][0].type == metafmt.DIR}
    parents = {os.path.dirname(p) for p in sel | lead} - sel | {scen.BASE}     # they change their times
    keep = scen.BASE + b"/keep"
    os.mkdir(keep)
    names = {}
    for n in (b"top", b"victim"):
        if os.path.lexists(scen.BASE + b"/" + n):
            world.copy_tree(scen.BASE + b"/" + n, keep + b"/" + n, names)
    skip = {keep, s.repo}

    def put_back():
        names = {}
        for n in (b"top", b"victim"):
            p = scen.BASE + b"/" + n
            if os.path.lexists(p):
                world.rmtree(p)
            if os.path.lexists(keep + b"/" + n):
                world.copy_tree(keep + b"/" + n, p, names)

    def look(content=True):
        return world.snap(scen.BASE, content=content, skip=skip)

    repo = repo_frozen(s)
    start = look()
    r, evs = sup.traced(ctx, s.repo, str(bid), *args)
    if r.rc != 0:
        ctx.fail("failed", "an undisturbed restore fails", run=r.brief())
    want = look()
    pts = [e for e in evs if e.flags & sup.MUT and e.ret >= 0 and not e.p1.startswith(s.repo)]
    if len(pts) > 100:
        pts = pts[:30] + rng.sample(pts[30:-20], 50) + pts[-20:]
    replaced = {p for p in sel | lead if p in start and start[p].type == world.D and exp[p][0].type != metafmt.DIR}

    def outside(what):
        now = look()
        for p in set(start) | set(now):
            if p in sel or p in lead or any(p.startswith(q + b"/") for q in replaced):
                continue
            a, b = start.get(p), now.get(p)
            if a is None or b is None:
                ctx.fail("outside", "%r, outside of the selection, %s (%s)" % (p, "appeared" if a is None else "vanished", what))
            d = world.same(a, b, times=p not in parents)
            if d:
                ctx.fail("outside", "%r, outside of the selection: %s (%s)" % (p, ", ".join(d), what))
        if repo_frozen(s) != repo:
            ctx.fail("repository", "the repository was changed (%s)" % what)

    def repeat(what):
        r = ctx.nb(s.repo, str(bid), *args, expect=0)
        compare(ctx, want, look(), free, parents, "after " + what + " and a repetition", "not-repeated")
        if repo_frozen(s) != repo:
            ctx.fail("repository", "the repository was changed (%s)" % what)

    for e in pts:
        for mode in ("k", "e"):
            if mode == "e" and rng.random() < 0.5:
                continue
            put_back()
            if mode == "k":
                after = rng.random() < 0.3
                what = "a kill %s %s %r" % ("after" if after else "before", e.name, e.p1)
                r, _ = sup.killed(ctx, s.repo, str(bid), *args, at=e.seq, after=after)
                if r.rc != -9:
                    ctx.fail("not-deterministic", "event %d was not reached" % e.seq, run=r.brief())
                ctx.count("kills")
            else:
                en = rng.choice(ERRS)
                what = "a failing %s %r (%s)" % (e.name, e.p1, errno.errorcode[en])
                r, _ = sup.traced(ctx, s.repo, str(bid), *args, opts=["-e", "%d:%d" % (e.seq, en)])
                ctx.count("failures")
                if r.rc == 0:
                    compare(ctx, want, look(), free, parents, "success in spite of " + what, "false-success")
            outside(what)
            repeat(what)
            ctx.count("evaluations")
            ctx.seen("nontrivial", (i, e.seq, mode))
            ctx.seen("disturbed_calls", (e.name, mode))
    for _ in range(4 if pts else 0):
        put_back()
        for k in range(rng.randrange(2, 5)):
            sup.killed(ctx, s.repo, str(bid), *args, at=rng.choice(pts).seq, after=rng.random() < 0.5)
        ctx.count("chains")
        outside("several kills")
        repeat("several kills")
    return {"args": args, "bid": bid, "events": len(pts), "kinds": sorted({e.name for e in pts})}
