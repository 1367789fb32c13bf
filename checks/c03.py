"""C03: every numbered backup of tracked paths stays restorable as it was.

Monitor: a snapshot of the tracked paths is kept for every confirmed backup;
later, backups are restored by number into an empty place and compared with
their snapshot. Collections, integrity checks, declined runs, runs without a
change and neutral configuration edits lie in between."""
import os
import cfggen, metafmt, scen, selection, world

PROP = "C03"
VARIANTS = ["plain", "weaksip"]
CASES = {"quick": 700, "thorough": 20000}
LEVEL = "exploration"
RULE = ("random trees with tracked (and partly copied or mirrored) paths, histories of 3 to 9 backups with creations, changes of every "
        "kind, removals and re-creations, then restores by number compared with the snapshots taken at backup time. Non-trivial: a restored "
        "backup differs from the newest one; distinct by number and restored tree.")
REQUIRED = {"tracked_paths_compared": 15000, "restores_of_older_backups": 900, "reappeared_paths": 15, "numbers_beyond_the_oldest": 40}
ASSUMPTIONS = ["content changes come with a changed size or whole-second timestamp",
               "tracked paths are not configured below copied or mirrored directories (those decide then)"]


def neutral(rng, rules):
    """The same rules, written differently."""
    rules = list(rules)
    rng.shuffle(rules)
    text = cfggen.layout(rng, rules, [b"^/nothing/like/this$"] if rng.random() < 0.3 else [],
                         cfggen.exprs(rng, cfggen.SUMM, 0.3))
    return text


def case(ctx, i, rng):
    if i % 4 == 3:
        ctx.collide()
    ctx.umask = rng.choice([0o022, 0, 0o002, 0o077, 0o777])
    s = scen.Scene(ctx, rng, weird=rng.choice([0, 0.2]), big=0.01, special=0.03)
    s.gen.fill(rng.randrange(2, 10), 3)
    if i % 3 == 0:
        rules = [(b"track", s.src)]
        for pol, p in cfggen.rules(rng, s, n=rng.randrange(1, 4), src_always=0, links=0):
            if p.startswith(s.src + b"/") and p != s.src and b"//" not in p and not any(
                    q != s.src and (p + b"/").startswith(q + b"/") or (q + b"/").startswith(p + b"/") for _, q in rules):
                rules.append((pol, p))
    elif i % 3 == 1:
        rules = [(b"track", s.src)]
    else:
        rules = [(b"track", p) for _, p in cfggen.rules(rng, s, links=0)]
    sel = selection.Selection(rules)
    if sel.expected()[1:] != ([], []):
        rules = [(b"track", s.src)]
        sel = selection.Selection(rules)
    s.config(cfggen.layout(rng, rules))
    snaps, confirmed, leading = {}, 0, set()
    for k in range(rng.randrange(3, 10)):
        if k:
            s.mutate(rng.choice([0, 1, 1, 2, 4, 8]))
            if not os.path.isdir(s.src) or os.path.islink(s.src):
                return None
        if rng.random() < 0.2:
            s.config(neutral(rng, rules))
        if any(not os.path.isdir(p) for p in leading):
            break       # removed together with a parent which has no policy: keeps its last state by design
        s.normalise()
        exp, amb, unr = sel.expected()
        if amb or unr:
            r, ch = s.full_backup(compare=False, report=False)
            continue
        leading |= {p for p, pol in exp.items() if pol == 0}
        snap = {p: world.entry(p, os.stat(p) if sel.decide(p)[2] else os.lstat(p)) for p, pol in exp.items() if pol == 3}
        if rng.random() < 0.15:
            s.full_backup(stdin=rng.choice([b"n\n", b""]), expect=None, compare=False, report=False)
            if s.has_meta() and confirmed == 0:
                ctx.fail("declined", "a declined first backup wrote metadata")
        r, ch = s.full_backup(compare=False, report=False, label=k)
        if ch is None or not ch.any():
            continue
        snaps[k] = snap
        confirmed += 1
        if rng.random() < 0.2:
            s.gc()
        if rng.random() < 0.2:
            s.integrity(expect=0)
    if not snaps:
        return None
    m = s.meta()
    labels = [b.label for b in s.model.backups]
    if len(labels) != len(m.times):
        ctx.fail("number-of-backups", "%d backups are recorded, expected %d" % (len(m.times), len(labels)))
    if rules == [(b"track", s.src)] and len(m.times) != confirmed:
        ctx.fail("number-of-backups", "%d backups are recorded after %d confirmed ones" % (len(m.times), confirmed))
    aside = s.set_aside(s.top)
    numbers = list(range(len(labels)))
    rng.shuffle(numbers)
    newest = None
    for n in [0] + [x for x in numbers if x][:4] + ([len(labels) + rng.choice([0, 1, 1000, 2**32, 2**62])] if rng.random() < 0.4 else []):
        old = n >= len(labels)
        want = {} if old else snaps[labels[n]]
        r = s.restore(n)
        after = world.snap(s.top) if os.path.lexists(s.top) else {}
        bad = []
        rest = {p for p, (st, pol) in metafmt.expected_tree(m, n).items() if pol != 3}
        for p, a in want.items():
            if not p.startswith(s.top + b"/"):
                continue
            ctx.count("tracked_paths_compared")
            b = after.get(p)
            if b is None:
                bad.append("%r (%s) did not come back" % (p, a.type))
                continue
            d = world.same(a, b)
            if d:
                bad.append("%r: %s" % (p, ", ".join(d)))
        for p in after:
            if p not in want and p not in rest:
                bad.append("%r did not exist then" % p)
        if bad:
            ctx.fail("not-as-it-was", "number %d (backup %r of %d): %s" % (n, None if old else labels[n], len(labels), "; ".join(bad[:5])))
        ctx.count("restores_of_older_backups" if 0 < n < len(labels) else "numbers_beyond_the_oldest" if old else "restores_of_newest")
        if n == 0:
            newest = want
        elif not old and [(p, e.mode, e.mtime, e.digest) for p, e in sorted(want.items())] != [(p, e.mode, e.mtime, e.digest) for p, e in sorted(newest.items())]:
            ctx.seen("nontrivial", (n, sorted((p, e.mode, e.mtime, e.digest) for p, e in want.items())))
        if os.path.lexists(s.top):
            world.rmtree(s.top)
    seq = [snaps[k] for k in sorted(snaps)]
    for p in {p for x in seq for p in x}:
        pres = [p in x for x in seq]
        if any(pres[a] and not pres[b] and any(pres[b:]) for a in range(len(pres)) for b in (a + 1,) if b < len(pres)):
            ctx.count("reappeared_paths")
    # the newest backup can be continued from the untouched originals
    os.rename(aside, s.top)
    s.audit()
    return {"rules": rules[:3], "backups": confirmed, "numbers": len(labels)}
