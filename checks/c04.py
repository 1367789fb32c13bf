"""C04: each policy keeps exactly what it promises over any history of backups.

Monitors after every backup of a history: (1) the metadata, read by the
independent parser, equals what the executable model (lib/refmodel.py) says;
(2) what each policy promises is asserted directly from the selection, the disk
and the metadata before and after; (3) the repository holds exactly the stored
files its versions need."""
import os
import cfggen, refmodel, scen, selection, world
from metafmt import NONE, DIR

PROP = "C04"
VARIANTS = ["plain", "weak", "weaksip"]
CASES = {"quick": 4500, "thorough": 120000}
LEVEL = "exploration"
RULE = ("histories of 2 to 8 backups over random trees with random changes of the tree and of the configuration (policies, nested rules, "
        "ignores) in between, and of three nested paths whose types, contents and policies change freely; the whole metadata is compared after every backup. Non-trivial: the backup changed a recorded path; distinct "
        "by its report.")
REQUIRED = {"recorded_paths_compared": 60000, "kept_copies": 200, "forgotten_mirrors": 200, "recorded_removals": 300,
            "histories_extended": 500, "tiny_states": 10000, "histories_dropped": 100, "uncovered_paths_forgotten": 200}
ASSUMPTIONS = ["content changes come with a changed size or whole-second timestamp",
               "a path which disappears together with a parent that has no policy of its own keeps its last state by design"]


def shape(n):
    return [s for _, s in n.history]


def obsolete(p, old, new):
    """Whether p lies below a path which left track while its latest recorded
    version was no directory: what it held before is dropped with its history."""
    q = os.path.dirname(p)
    while q not in (b"/", b""):
        o = old.get(q)
        if o is not None and o.policy == 3 and o.history[0][1].type != DIR and (q not in new or new[q].policy != 3):
            return True
        q = os.path.dirname(q)
    return False


def promises(ctx, sel, exp, old, new, wrote):
    """The promises of the policies for one confirmed backup."""
    bad = []
    for p, pol in exp.items():
        n = new.get(p)
        if n is None:
            bad.append("%r is selected but not recorded" % p)
            continue
        if n.policy != pol:
            bad.append("%r has policy %d instead of %d" % (p, n.policy, pol))
        e = world.entry(p, os.stat(p) if sel.decide(p)[2] else os.lstat(p))
        d = scen.state_ent_diff(n.history[0][1], e)
        if d and (pol != 0 or wrote):
            bad.append("%r is recorded with %s" % (p, ", ".join(d)))
    for p, o in old.items():
        n = new.get(p)
        parent = os.path.dirname(p)
        up = parent in exp and os.path.isdir(parent) and (not os.path.islink(parent) or sel.decide(parent)[2]) or parent == b"/"
        if n is not None and o.policy == 3 and n.policy == 3:
            a, b = shape(o), shape(n)
            if b != a and b[1:] != a:
                bad.append("the history of %r was rewritten" % p)
            ctx.count("histories_extended", b != a)
        if n is not None and o.policy == 3 and n.policy != 3:
            if len(n.history) != 1 or n.history[0][1].type == NONE:
                bad.append("%r left track but keeps more than its latest state" % p)
            ctx.count("histories_dropped", len(o.history) > 1)
        if p in exp or not up or obsolete(p, old, new):
            continue
        try:
            r = sel.decide(p)
        except selection.Ambiguous:
            continue
        if r is None:
            ctx.count("uncovered_paths_forgotten")
            if n is not None:
                bad.append("%r is not covered any more but still recorded" % p)
            continue
        if r[0] == 0 or os.path.lexists(p) and not (os.path.islink(p) or os.path.isfile(p) or os.path.isdir(p)):
            pass        # special files count as removed
        if r[0] == 2:
            ctx.count("forgotten_mirrors")
            if n is not None:
                bad.append("%r was removed and has the mirror policy, but is still recorded" % p)
        elif r[0] == 1:
            last = next((s for s in shape(o) if s.type != NONE), None)
            if last is None:
                continue
            ctx.count("kept_copies")
            if n is None:
                bad.append("%r was removed and has the copy policy, but was forgotten" % p)
            elif shape(n) != [last] or n.policy != 1:
                bad.append("%r was removed and has the copy policy, but its last version changed" % p)
        elif r[0] == 3:
            ctx.count("recorded_removals")
            if n is None:
                bad.append("%r was removed and is tracked, but was forgotten" % p)
            elif shape(n)[0].type != NONE:
                bad.append("the removal of %r was not recorded" % p)
    for p in new:
        if p not in exp and p not in old:
            bad.append("%r is recorded but not selected" % p)
    if bad:
        ctx.fail("promise-broken", "; ".join(bad[:6]))


class Tiny:
    """Three nested paths whose types and policies change freely: everything
    which can happen to a path and what is above and below it, soon."""

    def __init__(self, s, rng):
        self.s, self.r = s, rng
        self.paths = [s.src + b"/d", s.src + b"/d/x", s.src + b"/d/x/y"]
        self.want = ["gone"] * 3
        self.rules, self.ig = None, []
        self.script = None
        if rng.random() < 0.35:
            # a directory with content turns into something else, goes away and comes back
            top = rng.choice([0, 0, 1])
            a = ["dir"] * 3
            b, c, d = [x[:] for x in [a] * 3]
            a[2] = rng.choice(["file", "gone", "link", "dir"])
            b[top], c[top] = rng.choice(["file", "link", "fifo", "gone"]), rng.choice(["gone", "gone", "file", "link"])
            d[top] = rng.choice(["gone", "dir", "file"])
            self.script = [x for x in (a, b, c, d, a) if rng.random() < 0.85]

    def tree(self):
        r = self.r
        if self.script:
            self.want = self.script.pop(0)[:]
        for k in range(3):
            if self.script is None and r.random() < 0.45:
                self.want[k] = r.choice(["gone", "file", "file", "dir", "dir", "dir", "link", "fifo"])
        above = True
        for p, w in zip(self.paths, self.want):
            have = "gone" if not os.path.lexists(p) else "link" if os.path.islink(p) else "dir" if os.path.isdir(p) else "file" if os.path.isfile(p) else "fifo"
            if not above:
                break
            above = w == "dir"
            if have == w and (w in ("dir", "gone") or r.random() < 0.6):
                continue
            if have == "dir":
                world.rmtree(p)
            elif have != "gone":
                os.unlink(p)
            if w == "file":
                self.s.gen.mkfile(p, r.randbytes(r.choice([0, 5, 20, 21, 40])) if r.random() < 0.8 else b"the same again and again")
            elif w == "dir":
                os.mkdir(p)
                self.s.gen.stamp(p, True)
            elif w == "link":
                os.symlink(r.choice([b"nowhere", b"/nowhere", b"."]), p)
            elif w == "fifo":
                os.mkfifo(p)
        self.s.ctx.count("tiny_states")

    def config(self):
        r = self.r
        pol = lambda: r.choice([b"copy", b"mirror", b"track", b"track"])
        if self.rules is not None and self.rules and r.random() < 0.6:
            k = r.randrange(len(self.rules))
            self.rules[k] = (pol(), self.rules[k][1])
        else:
            few = 0.1 if self.script is not None else 0.3
            own = [p for p in [self.s.src] + self.paths if r.random() < (0.8 if p == self.s.src else few)] or [self.s.src]
            self.rules = [(pol(), p) for p in own]
        if r.random() < 0.3:
            self.ig = [e for e in (b"/d$", b"/x$", b"/y$") if r.random() < 0.25]
        return list(self.rules), list(self.ig)


def case(ctx, i, rng):
    if i % 4 == 1:      # checksums in which few bytes make the difference
        ctx.count("cases_with_reduced_checksums", ctx.weaken(rng.sample(range(20), rng.choice([1, 2, 3]))))
    elif i % 4 == 3:
        ctx.collide()
    s = scen.Scene(ctx, rng, weird=rng.choice([0, 0.15]), big=0.01)
    tiny = Tiny(s, rng) if i % 3 else None
    if tiny is None:
        s.gen.fill(rng.randrange(2, 11), 3)
    hist = []
    rules, ig = None, []
    for k in range(rng.randrange(3, 7) if tiny else rng.randrange(2, 9)):
        if tiny:
            if rules is None or rng.random() < 0.5:
                rules, ig = tiny.config()
                s.config(cfggen.layout(rng, rules, ig))
        elif rules is None or rng.random() < 0.45:
            if rules is None or rng.random() < 0.5:
                rules = cfggen.rules(rng, s)
                ig = cfggen.exprs(rng, cfggen.FULL, 0.4)
            else:
                rules = list(rules)
                c = rng.random()
                j = rng.randrange(len(rules))
                if c < 0.6:
                    rules[j] = (rng.choice([b"copy", b"mirror", b"track"]), rules[j][1])
                elif c < 0.8 and len(rules) > 1:
                    del rules[j]
                else:
                    have = {p for _, p in rules}
                    rules += [x for x in cfggen.rules(rng, s, n=1) if x[1] not in have]
                if rng.random() < 0.4:
                    ig = cfggen.exprs(rng, cfggen.FULL, 0.6)
            s.config(cfggen.layout(rng, rules, ig, cfggen.exprs(rng, cfggen.SUMM, 0.2)))
        did = tiny.tree() if tiny else s.mutate(rng.choice([0, 1, 2, 3, 6])) if k else []
        if not os.path.isdir(s.src):
            break
        old = s.meta().paths() if s.has_meta() else {}
        sel = selection.Selection(rules, ig)
        if rng.random() < 0.1:
            before = world.snap(s.repo)
            s.backup(stdin=b"no\n", expect=None)
            if {p: e.ino for p, e in before.items()} != {p: e.ino for p, e in world.snap(s.repo).items()}:
                ctx.fail("declined", "a declined backup changed the repository")
        s.normalise()
        exp, amb, unr = sel.expected()
        before = world.read(s.repo + b"/metadata") if old else None
        r, ch = s.full_backup(report=False)
        ctx.count("evaluations")
        hist.append((did, r.out[:120]))
        if r.rc != 0:
            if not (amb or unr):
                ctx.fail("failed", "the backup failed without a reason", run=r.brief())
            if old and world.read(s.repo + b"/metadata") != before:
                ctx.fail("failed", "a failed backup changed the metadata", run=r.brief())
            continue
        if not s.has_meta():
            continue
        promises(ctx, sel, exp, old, s.meta().paths(), ch.any())
        s.audit()
        if ch.any():
            ctx.seen("nontrivial", r.out)
    return {"rules": (rules or [])[:4], "history": hist[-2:]}
