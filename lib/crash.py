"""Scenarios with a pending run, whose repository can be put back and inspected
after the run was disturbed."""
import os

import cfggen, metafmt, refmodel, scen, selection, sup, world

MUTSYNC = sup.MUT | sup.SYNC


def _neutral(policy, st):
    """The time of a directory without a policy changes with everything that happens around it."""
    return st._replace(mtime=None) if policy == 0 and st.type == metafmt.DIR else st


def normal(meta):
    return {p: (pol, tuple((i, _neutral(pol, st)) for i, st in h)) for p, (pol, h) in refmodel.normal_meta(meta).items()}


def load(ctx, repo):
    if not os.path.lexists(repo + b"/metadata"):
        return None
    return scen.read_meta(ctx, repo)


def same_meta(a, b, fresh):
    """Whether two descriptions agree. FRESH: b's newest backup was made at another time."""
    if a is None or b is None:
        return a is b
    if normal(a) != normal(b) or len(a.times) != len(b.times):
        return False
    k = 1 if fresh else 0
    return a.times[k:] == b.times[k:]


def states(meta):
    """path -> (policy, recorded states), without the numbers of the backups."""
    return {p: (n.policy, tuple(_neutral(n.policy, st) for _, st in n.history)) for p, n, _ in meta.walk()}


def pending_backup(ctx, rng, size=(2, 9), most=3, changes=(1, 6), policies=True, **gen):
    """A scene whose next backup has something to do; None if it happens not to."""
    s = scen.Scene(ctx, rng, special=0.02, odd_times=0.2, big=0.02, **gen)
    s.gen.fill(rng.randrange(*size), 2)
    rules, ig = None, []

    def configure():
        if policies and rng.random() < 0.5:
            rs = cfggen.rules(rng, s, missing=0.05)
            ig = cfggen.exprs(rng, cfggen.FULL, 0.2)
            sel = selection.Selection(rs, ig)
            exp, amb, unr = sel.expected()
            if not (amb or unr):
                s.config(cfggen.layout(rng, rs, ig, ()))
                return True
        s.simple_config(rng.choice([b"track", b"track", b"copy", b"mirror"]))
        return True
    configure()
    for k in range(rng.randrange(0, most + 1)):
        s.normalise()
        if s.backup(expect=None).rc != 0:
            return None
        s.mutate(rng.randrange(*changes))
        if not os.path.isdir(s.src):
            return None
        if rng.random() < 0.2:
            configure()
    s.normalise()
    return s


def save(s, name=b"saved"):
    to = scen.BASE + b"/" + name
    sup.copy_repo(s.repo, to)
    return to


def reset(s, saved):
    sup.copy_repo(saved, s.repo)


def difference(a, b):
    if a is None or b is None:
        return "one is missing"
    x, y = normal(a), normal(b)
    return ["%r: %r / %r" % (p, x.get(p), y.get(p)) for p in sorted(set(x) | set(y)) if x.get(p) != y.get(p)][:6] + [
        "%d/%d backups" % (len(a.times), len(b.times)), "times %r/%r" % (a.times, b.times)]
