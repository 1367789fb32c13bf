"""C01: restoring a backup reproduces every backed-up path exactly.

Monitor: the selected part of the tree is recorded (lstat and content) before
the originals are moved away; the tree found after the restore is compared with
it. What is selected is decided by lib/selection.py, not by the program."""
import os
import cfggen, scen, selection, world

PROP = "C01"
VARIANTS = ["plain", "weak", "blk"]
CASES = {"quick": 3000, "thorough": 80000}
LEVEL = "exploration"
RULE = ("random trees (all file types, sizes around every limit, any mode, owner, timestamp and legal name) and configurations, one to "
        "three backups with changes between them, loss of the whole tree, restore. Every restored path is compared with its recorded "
        "original in all kept aspects. Non-trivial: at least three paths were restored; distinct by the set of restored paths and modes.")
REQUIRED = {"paths_restored": 20000, "files_with_stored_content": 4000, "inline_files": 3000, "set_id_paths": 500, "links": 2000,
            "odd_timestamps": 1500, "unprivileged_runs": 100}
ASSUMPTIONS = ["content changes between backups come with a changed size or whole-second timestamp", "no ACLs or sparse holes are promised; hard links become files of their own"]


def originals(sel):
    """What has to come back: path -> entry, following configured parents as the selection does."""
    exp, amb, unr = sel.expected()
    out = {}
    for p in exp:
        r = sel.decide(p)
        out[p] = world.entry(p, os.stat(p) if r[2] else os.lstat(p))
    return out, exp, amb, unr


def case(ctx, i, rng):
    if i % 6 == 1:      # checksums in which few bytes make the difference
        ctx.count("cases_with_reduced_checksums", ctx.weaken(rng.sample(range(20), rng.choice([1, 2, 3]))))
    elif i % 6 == 3:
        ctx.blocks(rng)
    ctx.umask = rng.choice([0o022, 0o022, 0, 0o002, 0o027, 0o077, 0o777])
    user = 1000 if i % 10 == 9 else None
    if user:
        ctx.umask &= 0o077
    kw = dict(ids=False) if user else {}
    s = scen.Scene(ctx, rng, weird=rng.choice([0, 0.15, 0.15, 0.5, 1.0]), big=rng.choice([0.0, 0.03, 0.15]), **kw)
    s.gen.fill(rng.randrange(1, 14), rng.choice([1, 2, 3, 5]))
    if user:
        for p, e in world.snap(scen.BASE, content=False).items():
            os.lchown(p, user, user)
            if e.type in (world.F, world.D):
                os.chmod(p, (e.mode & 0o7777) | (0o500 if e.type == world.D else 0o400))
        os.chmod(s.repo, 0o755)
        os.chmod(s.top, 0o755)
        ctx.count("unprivileged_runs")
    rules = cfggen.rules(rng, s, missing=0.05)
    s.config(cfggen.layout(rng, rules, ig := cfggen.exprs(rng, cfggen.FULL, 0.3), cfggen.exprs(rng, cfggen.SUMM, 0.3)))
    if selection.Selection(rules, ig).expected()[1:] != ([], []):
        rules = [(rng.choice([b"copy", b"mirror", b"track"]), s.src)]
        ig = []
        s.config(cfggen.layout(rng, rules))
    ctx.count("policy_" + rules[0][0].decode())
    rounds = 1 if user else rng.choice([1, 1, 2, 3])
    for k in range(rounds):
        if k:
            s.mutate(rng.randrange(1, 8))
        s.normalise()
        sel = selection.Selection(rules, ig)
        want, pol, amb, unr = originals(sel)
        b = s.backup(expect=1 if amb or unr else 0, user=user)
        if k and b"(y/n)" not in b.out:
            # nothing to record: attributes of directories which only lead to something do not count
            want.update({p: e for p, e in led.items() if p in want})
        led = {p: e for p, e in want.items() if pol[p] == 0}
        if amb or unr:
            return None
    if not s.has_meta():
        if want:
            ctx.fail("nothing-recorded", "nothing was recorded although paths are selected", paths=sorted(want)[:5])
        return None
    whole = rng.choice([None, b"/", s.top, s.top + b"/"])
    gone = {p for p, n in s.meta(strict=False).paths().items() if p not in want and n.history[0][1].type != 0}
    s.set_aside(s.top)
    lead = {p: world.entry(p, content=False) for p in (b"/tmp", scen.BASE)}
    if whole not in (None, b"/") and not any(scen.under(p, s.top) for p in want):
        return None
    r = s.restore(0, whole, user=user)
    after = world.snap(s.top) if os.path.lexists(s.top) else {}
    bad = []
    for p, a in want.items():
        b = after.get(p)
        if p in (b"/tmp", scen.BASE):
            e = world.entry(p, content=False)
            if (e.mode, e.uid, e.gid, e.ino) != (lead[p].mode, lead[p].uid, lead[p].gid, lead[p].ino):
                bad.append("the existing %r was changed" % p)
            continue
        if b is None:
            bad.append("%r (%s) did not come back" % (p, a.type))
            continue
        d = world.same(a, b, times=pol[p] != 0)
        if d:
            bad.append("%r: %s" % (p, ", ".join(d)))
        ctx.count("paths_restored")
        if a.type == world.F:
            ctx.count("files_with_stored_content" if a.size > 20 else "inline_files")
        elif a.type == world.L:
            ctx.count("links")
        if a.mode & 0o6000 and a.type != world.L:
            ctx.count("set_id_paths")
        if not 0 < a.mtime < 2**31:
            ctx.count("odd_timestamps")
    copied = set()
    for p in after:
        if p in want:
            continue
        # removed paths which a copy policy keeps come back too
        if p in gone:
            copied.add(p)
            continue
        bad.append("%r was created" % p)
    if rounds == 1 and copied:
        bad.append("%r was created" % sorted(copied)[:3])
    if bad:
        ctx.fail("not-reproduced", "; ".join(bad[:6]), run=r.brief())
    if len(want) >= 3:
        ctx.seen("nontrivial", sorted((p, a.mode, a.size) for p, a in want.items()))
    return {"rules": rules[:4], "restored": len(after), "some": sorted(after)[:6]}
