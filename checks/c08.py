"""C08: a power loss during a backup leaves a complete old or new repository.

The calls of a real run, with all data written, are replayed into a model of a
disk with volatile caches (lib/posixfs.py). After every call, what a power loss
may leave behind is enumerated; the metadata in it must be that of before or
after the run, with every stored file it needs. Some of the outcomes are put on
disk and the real program goes on from there."""
import hashlib, os, re

import crash, metafmt, posixfs, scen, sup, world
from posixfs import File

PROP = "C08"
VARIANTS = ["plain"]
CASES = {"quick": 260, "thorough": 5000}
LEVEL = "fault_enumeration"
RULE = ("one evaluation = one state which a power loss at one call of one run may leave on disk; non-trivial: the run had changes which were not "
        "yet synchronised then; distinct by scenario, call, surviving changes and data")
REQUIRED = {"power_losses": 25000, "states_before_commit": 15000, "states_after_commit": 1000, "unsynchronised_moments": 5000,
            "recoveries_run": 500, "collections_observed": 50, "finished_runs": 250, "second_losses": 3000}
ASSUMPTIONS = ["a rename never leaves both names behind, and within one directory reaches the disk as a whole; changes of the same name reach it in their order; nothing else is ordered without a synchronisation",
               "synchronising a file makes its data durable, synchronising a directory the changes of its entries",
               "the disk keeps what was synchronised"]


BLOB = re.compile(rb"[0-9a-f]/[0-9a-f]{2}/[0-9a-f]{37}x[0-9a-f]+x[0-9a-f]+")


class Judge:
    """Judges what is left of a repository."""

    def __init__(self, ctx, old, new):
        self.ctx, self.old, self.new = ctx, old, new
        self.need = {}

    def needed(self, data):
        if data not in self.need:
            self.need[data] = metafmt.needed_blobs(metafmt.parse(data, strict=False))
        return self.need[data]

    def look(self, tree, rng, where, finished):
        """All variants of the data in one set of surviving names. Returns whether the new state was there."""
        ctx = self.ctx
        m = tree.get(b"metadata")
        metas = [None] if m is None else posixfs.contents(rng, m) if isinstance(m, File) else [b"?"]
        committed = None
        for data in metas:
            ctx.count("power_losses")
            ctx.count("evaluations")
            if data == self.new:
                committed = True
                ctx.count("states_after_commit")
            elif data == self.old:
                committed = bool(committed)
                ctx.count("states_before_commit")
            else:
                ctx.fail("mixed-state", "a power loss %s leaves metadata of neither before nor after the run (%s)" % (
                    where, "none" if data is None else "%d bytes" % len(data)))
            if finished and data != self.new:
                ctx.fail("not-durable", "a power loss %s undoes the run although it had reported success" % where)
            if data is None:
                continue
            for b in self.needed(data):
                f = tree.get(b)
                if not isinstance(f, File):
                    ctx.fail("lost-file", "a power loss %s loses the stored file %s" % (where, b.decode()))
                for c in posixfs.contents(rng, f):
                    if not intact(b, c):
                        ctx.fail("lost-file", "a power loss %s leaves %d wrong bytes in the stored file %s" % (where, len(c), b.decode()))
                ctx.count("stored_files_verified")
        return committed


_intact = {}


def intact(blob, data):
    k = (blob, hashlib.blake2b(data, digest_size=16).digest())
    if k not in _intact:
        if len(_intact) > 5000:
            _intact.clear()
        h, size, _ = blob.split(b"x")
        _intact[k] = len(data) == int(size, 16) and world.b2(data).hex().encode() == h.replace(b"/", b"")
    return _intact[k]


def read_meta(s):
    p = s.repo + b"/metadata"
    return world.read(p) if os.path.lexists(p) else None


def observe(ctx, rng, s, args, i, key, old, second=False):
    """Traces one run and looks at every power loss during it. Returns (Run, reservoir of outcomes) or None."""
    disk = posixfs.Disk(s.repo)
    r, evs = sup.traced(ctx, s.repo, *args, data=True)
    if r.rc != 0:
        return None
    j = Judge(ctx, old, read_meta(s))
    picks, seen_n = [], 0
    most = 24 if second else 48
    for e in evs:
        try:
            if not disk.event(e):
                continue
        except posixfs.Unmodelled as u:
            ctx.count("unmodelled_runs")
            return r, []
        where = "after %s %s" % (e.name, e.p1[len(s.repo):].decode("latin1"))
        dirty = bool(disk.ops) or any(isinstance(o, File) and o.pending for o in disk.byino.values())
        ctx.count("unsynchronised_moments", dirty)
        for sub in disk.subsets(rng, most):
            t = disk.tree(sub)
            j.look(t, rng, where, False)
            if second:
                ctx.count("second_losses")
            if dirty:
                ctx.seen("nontrivial", (i, key, e.seq, sorted(sub)))
            # outcomes to go on from, foremost those with something half done in them
            seen_n += 1
            half = any(isinstance(o, File) and (o.pending or BLOB.fullmatch(p) and not intact(p, o.data)) for p, o in t.items())
            if rng.random() < (6 if half else 2) / (seen_n + 2):
                if len(picks) >= 4:
                    picks.pop(rng.randrange(len(picks)))
                picks.append((where, t, [(o, list(o.pending), o.data) for o in t.values() if isinstance(o, File)]))
    for sub in disk.subsets(rng, most):
        j.look(disk.tree(sub), rng, "after the end", True)
    ctx.count("finished_runs")
    ctx.seen("calls", sorted({e.name for e in evs if e.flags & (sup.MUT | sup.SYNC)}))
    return r, picks


def put(pick, root, rng):
    where, t, data = pick
    for o, pending, d in data:
        o.pending, o.data = pending, d
    posixfs.materialise(t, root, rng)
    return where


def case(ctx, i, rng):
    s = crash.pending_backup(ctx, rng, size=(2, 7) if i % 4 else (6, 16))
    if s is None:
        return None
    # leftovers of an earlier, interrupted run
    if rng.random() < 0.25 and os.path.isdir(s.src):
        r, evs = sup.killed(ctx, s.repo, at=rng.randrange(5, 200))
        ctx.count("runs_killed_before")
    saved = crash.save(s)
    old = read_meta(s)
    x = observe(ctx, rng, s, [], i, "backup", old)
    if x is None:
        return None
    r, picks = x
    new = crash.load(ctx, s.repo)
    if b"(y/n)" not in r.out:
        return None
    done = crash.save(s, b"done")
    ctx.nb(s.repo, stdin=b"y\n")
    again = crash.load(ctx, s.repo)
    for pick in picks:
        where = put(pick, s.repo, rng)
        was = read_meta(s)
        committed = was is not None and was != old
        if rng.random() < 0.3:
            y = observe(ctx, rng, s, [], i, "again " + where, was, second=True)
            if y is None:
                ctx.fail("not-resumed", "the backup after a power loss %s failed" % where)
        else:
            ctx.nb(s.repo, stdin=b"y\n", expect=0)
        ctx.count("recoveries_run")
        m = crash.load(ctx, s.repo)
        if not (crash.states(m) == crash.states(again) if committed else crash.same_meta(m, new, True)):
            ctx.fail("not-resumed", "the backup after a power loss %s does not end in the state of an undisturbed one" % where,
                     differences=crash.difference(m, new))
        scen.audit(ctx, s.repo, m, exact=False)
        if rng.random() < 0.3:
            ctx.nb(s.repo, "integrity", expect=0)
    # a collection with something to remove
    if rng.random() < 0.45:
        crash.reset(s, done)
        for k in range(rng.randrange(1, 4)):
            d = s.repo + rng.choice([b"/ff/11", b"/0", b"/left/over", b"/a/bc/d"])
            os.makedirs(d, exist_ok=True)
            world.write(d + b"/f%d" % k, b"z" * rng.randrange(50))
        ctx.count("collections_observed")
        x = observe(ctx, rng, s, [b"gc"], i, "gc", read_meta(s))
        if x is None:
            ctx.fail("failed", "the collection failed")
        for pick in x[1][:1]:
            where = put(pick, s.repo, rng)
            ctx.nb(s.repo, "gc", expect=0)
            scen.audit(ctx, s.repo, new, exact=True)
    return {"files": len(metafmt.needed_blobs(new)), "picked": [p[0] for p in picks]}
