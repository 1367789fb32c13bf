"""C07: a backup or collection killed at any moment loses nothing.

The real program is killed by the ptrace supervisor before every call which
changes the file system (and after the last), on a fresh copy of the same
repository each time. Afterwards the metadata must parse and say the old or the
complete new state, every stored file it needs must be intact, and the next
backup must end in the state the undisturbed run ended in."""
import os
import crash, metafmt, refmodel, scen, sup, world

PROP = "C07"
VARIANTS = ["plain"]
CASES = {"quick": 130, "thorough": 1500}
LEVEL = "fault_enumeration"
RULE = ("one evaluation = one kill of a run, at every mutating system call of that run, plus chains of kills; non-trivial: the killed run had "
        "already changed the repository; distinct by the scenario and the killed call")
REQUIRED = {"kills": 2000, "kills_before_commit": 900, "kills_after_commit": 100, "chained_kills": 150, "gc_kills": 100}
ASSUMPTIONS = ["a kill takes effect between two system calls: what a call does to the file system is taken as atomic",
               "the clock only shows in the time of the newest backup, which is not compared"]


def check_after(ctx, s, old, new, what, exact=False):
    """The repository right after a kill. Returns whether the new state is in place."""
    m = crash.load(ctx, s.repo)
    if crash.same_meta(m, old, False):
        committed = False
    elif crash.same_meta(m, new, True):
        committed = True
    else:
        ctx.fail("mixed-state", "the metadata describes neither the old nor the new state (%s)" % what)
    if m is not None:
        scen.audit(ctx, s.repo, m, exact=False)
    return committed


def case(ctx, i, rng):
    s = crash.pending_backup(ctx, rng, size=(2, 9) if i % 4 else (8, 20))
    if s is None:
        return None
    tree = world.snap(s.top)
    saved = crash.save(s)
    old = crash.load(ctx, s.repo)
    r, evs = sup.traced(ctx, s.repo)
    if r.rc != 0:
        return None
    new = crash.load(ctx, s.repo)
    if b"(y/n)" not in r.out:
        return None
    scen.audit(ctx, s.repo, new, exact=True)
    done = crash.save(s, b"done")
    # what one more backup makes of the new state (directories without a policy may be recorded anew)
    ctx.nb(s.repo, stdin=b"y\n")
    again = crash.load(ctx, s.repo)
    points = [e for e in evs if e.flags & crash.MUTSYNC and e.ret >= 0]
    if len(points) > 160:
        points = points[:40] + rng.sample(points[40:-50], 70) + points[-50:]

    def kill(e, after=False):
        r, _ = sup.killed(ctx, s.repo, at=e.seq, after=after)
        if r.rc != -9:
            ctx.fail("not-deterministic", "event %d was not reached" % e.seq, run=r.brief())
        ctx.count("kills")
        what = "killed %s %s %r" % ("after" if after else "before", e.name, e.p1)
        c = check_after(ctx, s, old, new, what)
        ctx.count("kills_after_commit" if c else "kills_before_commit")
        ctx.count("evaluations")
        ctx.seen("nontrivial", (i, e.seq, after))
        ctx.seen("killed_calls", (e.name, e.p1[len(s.repo):][:12]))
        return c, what

    for e in points + points[-1:]:
        crash.reset(s, saved)
        c, what = kill(e, after=e is points[-1] and ctx.counts["kills"] % 2 == 0)
        # leftovers must go with the next backup, which still has something to do
        ctx.nb(s.repo, stdin=b"y\n", expect=0)
        m = crash.load(ctx, s.repo)
        if not (crash.states(m) == crash.states(again) if c else crash.same_meta(m, new, True)):
            ctx.fail("not-resumed", "the next backup does not end in the state of an undisturbed one (%s)" % what,
                     differences=crash.difference(m, new))
        scen.audit(ctx, s.repo, m, exact=not c, key="leftovers" if not c else "audit")
        if c:
            ctx.nb(s.repo, "gc", expect=0)
            scen.audit(ctx, s.repo, crash.load(ctx, s.repo), exact=True, key="leftovers")

    # several kills in a row, at different places, with changes in between
    for _ in range(4):
        crash.reset(s, saved)
        c = False
        for k in range(rng.randrange(2, 5)):
            e = rng.choice(points)
            r, evs2 = sup.killed(ctx, s.repo, at=e.seq, after=rng.random() < 0.3)
            ctx.count("chained_kills")
            m = crash.load(ctx, s.repo)
            if m is not None:
                scen.audit(ctx, s.repo, m, exact=False)
            if not crash.same_meta(m, old, False):
                if not c and not crash.same_meta(m, new, True) and crash.states(m) not in (crash.states(new), crash.states(again)):
                    ctx.fail("mixed-state", "after several kills the metadata describes neither the old nor the new state")
                c = True
        ctx.nb(s.repo, stdin=b"y\n", expect=0)
        m = crash.load(ctx, s.repo)
        if crash.states(m) not in (crash.states(new), crash.states(again)) or (not c and not crash.same_meta(m, new, True)):
            ctx.fail("not-resumed", "after several kills the next backup does not end in the state of an undisturbed one")
        ctx.nb(s.repo, "gc", expect=0)
        scen.audit(ctx, s.repo, m, exact=True, key="leftovers")

    # a collection with something to remove
    crash.reset(s, done)
    if rng.random() < 0.7:
        for k in range(rng.randrange(1, 5)):
            d = s.repo + rng.choice([b"/ff/11", b"/0", b"/left/over", b"/a/bc/d"])
            os.makedirs(d, exist_ok=True)
            world.write(d + b"/f%d" % k, b"z" * rng.randrange(50))
        world.write(s.repo + b"/tmp-file", b"half")
        dirty = crash.save(s, b"dirty")
        r, evs = sup.traced(ctx, s.repo, "gc", expect=0)
        scen.audit(ctx, s.repo, new, exact=True)
        pts = [e for e in evs if e.flags & sup.MUT and e.ret >= 0]
        for e in pts:
            crash.reset(s, dirty)
            r, _ = sup.killed(ctx, s.repo, "gc", at=e.seq, after=rng.random() < 0.5)
            if not crash.same_meta(crash.load(ctx, s.repo), new, False):
                ctx.fail("mixed-state", "a killed collection changed the metadata")
            scen.audit(ctx, s.repo, new, exact=False)
            if rng.random() < 0.7:
                ctx.nb(s.repo, "gc", expect=0)
                scen.audit(ctx, s.repo, new, exact=True, key="leftovers")
            ctx.count("gc_kills")
            ctx.count("evaluations")
            ctx.seen("nontrivial", (i, "gc", e.seq))
    if world.diff(tree, world.snap(s.top), world.same):
        ctx.fail("tree-changed", "the backed up tree was changed")
    return {"events": len(points), "kinds": sorted({e.name for e in points}), "rc": 0}
