"""C19: repeating a backup or restore without changes does nothing.

Monitor: every second run must print nothing, ask nothing (standard input is
empty, so a question would end it with status 1) and leave repository and tree
as they were, down to inode and ctime."""
import os, re
import cfggen, metafmt, refmodel, scen, selection, world

PROP = "C19"
VARIANTS = ["plain"]
CASES = {"quick": 1300, "thorough": 40000}
LEVEL = "exploration"
RULE = ("histories over random trees and configurations; after each confirmed backup the backup, a restore of it, and the collection are "
        "repeated; after each restore the restore is repeated. Non-trivial: the repeated run followed one which changed something; distinct "
        "by the report of that run.")
REQUIRED = {"repeated_backups": 2500, "repeated_restores": 1000, "restores_after_backup": 2000, "repeated_collections": 300,
            "kept_listings": 30}
ASSUMPTIONS = ["special case by design: a directory which leads to nothing (its rules match nothing) is listed as lost every time",
               "a rule for something below a path which is a link to a file is not generated"]


def frozen(root, skip=()):
    return {p: (e.ino, e.ctime, e.mode, e.uid, e.gid, e.size, e.mtime_ns, e.target)
            for p, e in world.snap(root, content=False).items() if p not in skip}


def changed(a, b):
    return sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p))


def repo_state(s):
    """The repository without its own directory entry, whose times move with the lock file."""
    return frozen(s.repo, (s.repo, s.repo + b"/lockfile"))


def repeat_backup(ctx, s, sel, exp):
    """A backup of what was just backed up."""
    before, tree = repo_state(s), frozen(s.top)
    m = s.meta() if s.has_meta() else None
    # what may stay listed: removed paths that are kept, and leading directories without purpose
    kept, led, stale = set(), set(), set()
    if m is not None:
        nodes = m.paths()
        for p, n, _ in m.walk():
            if p not in exp and n.history[0][1].type != 0:
                kept.add(p)
                if n.policy == 0:
                    led.add(p)
                # a directory which became something else in the same backup in which its
                # policy changed: what was inside is recorded as removed, or forgotten, one backup later
                up = p
                while up != b"/":
                    up = os.path.dirname(up)
                    if up in nodes and nodes[up].history[0][1].type in (metafmt.REG, metafmt.LNK):
                        stale.add(p)
    r = s.backup(stdin=b"", expect=None)
    after = repo_state(s)
    if before != after:
        ctx.fail("wrote", "a repeated backup changed the repository: %r" % changed(before, after)[:5], run=r.brief())
    if tree != frozen(s.top):
        ctx.fail("wrote", "a backup changed the tree: %r" % changed(tree, frozen(s.top))[:5], run=r.brief())
    rep = scen.parse_report(r.out)
    lines = [l for l in rep["body"].split(b"\n") if l[:3] in (b"++ ", b"!! ", b"<> ", b"@@ ", b"xx ")]
    if kept:        # kept paths in a summarised directory
        lines = [l for l in lines if not re.fullmatch(rb"!! .*/\.\.\. \(-\d+ items?(, -[^,()]*)?\)", l)]
    # leading directories which became something else and only lead to kept paths
    lines = [l for l in lines if not (l[:3] == b"<> " and any((l + b"\n").startswith((b"<> " + p + b"/ (Directory -> ", b"<> " + p.split(b"\n")[0] + b"\n")) for p in led))]
    lines = [l for l in lines if not (l[:3] == b"xx " and any(l[3:].lstrip(b"^").startswith(p.split(b"\n")[0]) for p in stale))]
    if lines:
        ctx.fail("not-a-fixpoint", "a repeated backup reports changes: %r" % lines[:4], run=r.brief())
    gone = [l for l in rep["body"].split(b"\n") if l[:3] == b"?? "]
    useless = purposeless(sel, exp)
    if gone and not useless and not stale:
        ctx.fail("not-a-fixpoint", "a repeated backup reports lost paths: %r" % gone[:4], run=r.brief())
    if (r.rc != 0 or rep["body"]) and not kept and not useless:
        ctx.fail("not-a-fixpoint", "a repeated backup is not silent", run=r.brief())
    if not rep["body"] and r.rc != 0:
        ctx.fail("not-a-fixpoint", "nothing to do, but it failed", run=r.brief())
    ctx.count("kept_listings", bool(rep["body"] and kept))
    ctx.count("repeated_backups")


def purposeless(sel, exp):
    """Whether some existing directory leads only to rules which match nothing."""
    todo = [b""]
    seen = 0
    while todo:
        d = todo.pop()
        try:
            names = os.listdir(d or b"/")
        except OSError:
            continue
        for n in names:
            p = d + b"/" + n
            try:
                r = sel.decide(p)
            except selection.Ambiguous:
                return True
            if r is None:
                continue
            if r[0] == 0:
                if p not in exp:
                    return True
                if os.path.isdir(p):
                    todo.append(p)
    return False


def repeat_restore(ctx, s, n, *args, what="repeated_restores"):
    tree, repo = frozen(scen.BASE, (s.repo, s.repo + b"/lockfile")), repo_state(s)
    r = s.restore(n, *args, stdin=b"", expect=None)
    now = frozen(scen.BASE, (s.repo, s.repo + b"/lockfile"))
    if tree != now:
        ctx.fail("wrote", "a repeated restore changed something: %r" % changed(tree, now)[:5], run=r.brief())
    if r.rc != 0 or r.out:
        ctx.fail("not-a-fixpoint", "a restore of what is there is not silent", run=r.brief())
    ctx.count(what)


def case(ctx, i, rng):
    s = scen.Scene(ctx, rng, weird=rng.choice([0, 0.2]), big=0.01)
    s.gen.fill(rng.randrange(1, 11), 3)
    last = b""
    rules = ig = None
    for k in range(rng.randrange(1, 5)):
        if k:
            s.mutate(rng.randrange(0, 6))
            if not os.path.isdir(s.src):
                break
        if rules is None or rng.random() < 0.4:
            rules = cfggen.rules(rng, s, missing=0.05)
            ig = cfggen.exprs(rng, cfggen.FULL, 0.4)
            s.config(cfggen.layout(rng, rules, ig, cfggen.exprs(rng, cfggen.SUMM, 0.3)))
        sel = selection.Selection(rules, ig)
        exp, amb, unr = sel.expected()
        if amb or unr or any(world.entry(p, content=False).type == world.L and sel.decide(p)[2] and not os.path.isdir(p)
                             for p in exp):
            continue
        s.normalise()
        r = s.backup(expect=None)
        if r.rc != 0:
            ctx.fail("failed", "the backup failed without a reason", run=r.brief())
        last = r.out
        repeat_backup(ctx, s, sel, exp)
        ctx.count("evaluations")
        if b"(y/n)" in last:
            ctx.seen("nontrivial", last)
        if rng.random() < 0.3:
            s.gc()
            before = repo_state(s)
            g = s.gc()
            if before != repo_state(s) or not g.out.endswith(b"(0 b deleted)\n"):
                ctx.fail("not-a-fixpoint", "a second collection did something", run=g.brief())
            ctx.count("repeated_collections")
            repeat_backup(ctx, s, sel, exp)
        if not s.has_meta():
            continue
        m = s.meta()
        # a restore directly after a backup: nothing to do, unless removed paths are kept
        tree = metafmt.expected_tree(m, 0)
        if all(p in exp for p in tree):
            repeat_restore(ctx, s, 0, what="restores_after_backup")
            sub = sorted(p for p in tree)
            if sub and rng.random() < 0.5:
                repeat_restore(ctx, s, 0, rng.choice(sub), what="restores_after_backup")
        elif exp:
            p = rng.choice(sorted(exp))
            if all(q in exp for q in tree if scen.under(q, p)):
                repeat_restore(ctx, s, 0, p, what="restores_after_backup")
        if rng.random() < 0.6:
            bid = rng.choice([0, rng.randrange(max(len(m.times), 1))])
            s.mutate(rng.randrange(0, 4))
            scen.hostile(s, m, bid, rng.randrange(0, 4))
            scen.unfollow(m, bid, rng)
            scen.notice_restore(m, bid, rng)
            if scen.aliased(m, bid):
                continue
            exp2 = metafmt.expected_tree(m, bid)
            args = []
            cand = sorted(p for p in exp2 if p.startswith(s.top))
            if cand and rng.random() < 0.4:
                args = [rng.choice(cand)]
            r = s.restore(bid, *args)
            if b"(y/n)" in r.out:
                ctx.seen("nontrivial", r.out)
            repeat_restore(ctx, s, bid, *args)
            if not os.path.isdir(s.src):
                break
    return {"rules": (rules or [])[:4], "last": last[:200]}
