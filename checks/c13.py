"""C13: the integrity check finds every damaged stored file and nothing else.

Stored files of repositories with histories are damaged in every way; the
paths reported are compared with those an independent reader of metadata and
stored files finds, and a complete snapshot shows that nothing was changed."""
import collections, os

import crash, damage, metafmt, refmodel, scen, term, world

PROP = "C13"
VARIANTS = ["plain", "o0", "weak", "blk", "weaksip"]
CASES = {"quick": 700, "thorough": 15000}
LEVEL = "exploration"
RULE = ("one evaluation = one integrity check of a repository with zero or more damaged stored files; non-trivial: at least one path has a damaged version; "
        "distinct by scenario and damage")
REQUIRED = {"healthy_checks": 450, "damaged_checks": 3000, "paths_reported": 6000, "stored_files_damaged": 4000, "old_versions_damaged": 500, "terminal_runs": 200, "records_damaged": 400}
ASSUMPTIONS = ["files with at most 20 bytes are kept in the metadata and have no stored file which could be damaged",
               "recorded sizes add up to less than 2^64 bytes; with more, the check may refuse the metadata"]


def expected(repo, meta):
    """Paths with a damaged version in their history."""
    ok, out = {}, []
    for p, n, _ in meta.walk():
        for _, st in n.history:
            b = metafmt.blob_name(st)
            if b is not None:
                if b not in ok:
                    ok[b] = damage.healthy(repo, b)
                if not ok[b]:
                    out.append(p)
                    break
    return out


def lie(rng, repo):
    """Changes what is recorded about stored files. Returns the new description and what was done."""
    m = metafmt.parse(world.read(repo + b"/metadata"))
    where = [(n.history, k) for _, n, _ in m.walk() for k, (_, st) in enumerate(n.history) if metafmt.blob_name(st) is not None]
    did, huge = [], False
    for _ in range(rng.choice([1, 1, 2])):
        hist, k = rng.choice(where)
        bid, st = hist[k]
        old = repo + b"/" + metafmt.blob_name(st)
        op = rng.choice(["size", "huge", "huge", "sum", "slot"])
        if op == "huge" and not huge:
            # all sizes together stay below 2^64
            st, huge = st._replace(size=rng.choice([1 << 32, 1 << 40, (1 << 54) + 1, 1 << 56, 1 << 60, 1 << 62, (1 << 63) - 1, 1 << 63])), True
        elif op == "sum":
            x = rng.randrange(20)
            st = st._replace(content=st.content[:x] + bytes([st.content[x] ^ 1 << rng.randrange(8)]) + st.content[x + 1:])
        elif op == "slot":
            st = st._replace(slot=st.slot ^ 1 << rng.randrange(8))
        else:
            st = st._replace(size=st.size + rng.choice([1, 4096, 1 << 32]))
        hist[k] = (bid, st)
        new = repo + b"/" + metafmt.blob_name(st)
        if rng.random() < 0.4 and os.path.isfile(old) and not os.path.lexists(new):
            os.makedirs(os.path.dirname(new), exist_ok=True)
            world.write(new, world.read(old))
        did.append((op, st.size))
    world.write(repo + b"/metadata", metafmt.serialize(m))
    return m, did


def case(ctx, i, rng):
    # checksums in which few bytes make the difference
    weak = i % 3 == 1 and ctx.weaken(rng.sample(range(20), rng.choice([1, 2])))
    blk = i % 6 == 3
    if blk:
        ctx.blocks(rng)
    sip = i % 6 == 5
    if sip:
        ctx.collide()
    ctx.count("cases_with_reduced_checksums", bool(weak))
    s = crash.pending_backup(ctx, rng, size=(3, 14), most=4, policies=i % 3 == 0, unreadable=False, weird=rng.choice([0, 0.3]))
    if s is None:
        return None
    # several names for the same content, and several contents for one name
    if os.path.isdir(s.src) and rng.random() < 0.6:
        for k in range(rng.randrange(1, 5)):
            d = s.gen.content(rng.choice([21, 100, 5000, 5000]))
            for n in range(rng.randrange(1, 4)):
                p = s.src + b"/shared%d-%d" % (k % 2, n)
                if not os.path.isdir(p) or os.path.islink(p):
                    if os.path.lexists(p):
                        os.unlink(p)
                    world.write(p, d)
            if rng.random() < 0.7:
                s.normalise()
                s.backup(expect=None)
    s.backup(expect=None)
    if not s.has_meta():
        return None
    original = s.meta()
    blobs = damage.stored(s.repo, original)
    saved = crash.save(s)
    seen = []
    for k in range(8 if ctx.tier == "quick" else 25):
        crash.reset(s, saved)
        did = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 6, 20])):
            x = damage.damage(rng, s.repo, blobs) if blobs else None
            if x:
                did.append(x)
        ctx.count("stored_files_damaged", len(did))
        meta, lied = original, blobs and rng.random() < 0.15
        if lied:
            meta, x = lie(rng, s.repo)
            did += x
            ctx.count("records_damaged", len(x))
        if rng.random() < 0.2:
            # things the check has no business with
            world.write(s.repo + b"/tmp-file", b"left over")
            os.makedirs(s.repo + b"/f/ff", exist_ok=True) if not os.path.lexists(s.repo + b"/f") else None
        want = expected(s.repo, meta)
        newest = set()
        for p, n, _ in meta.walk():
            b = metafmt.blob_name(n.history[0][1])
            if b is not None and not damage.healthy(s.repo, b):
                newest.add(p)
        ctx.count("old_versions_damaged", len(set(want) - newest))
        before = scen.snap_all()
        args = [s.repo + rng.choice([b"", b"", b"/", b"/."]), b"integrity"]
        r = term.run(ctx, args) if rng.random() < (0.5 if lied else 0.15) else ctx.nb(*args, expect=None, variant=None if weak or blk or sip else rng.choice(["plain", "plain", "o0"]))
        after = scen.snap_all()
        ctx.count("evaluations")
        lines = r.out.split(b"\n")
        want_lines = collections.Counter()
        for p in want:
            want_lines.update((b"?? " + p + b" (corrupted)").split(b"\n"))
        head = r.out.find(b"Status of repository: ")
        if head < 0:
            ctx.fail("no-verdict", "no verdict", run=r.brief(), damage=did)
        verdict, _, rest = r.out[head + 22:].partition(b"\n")
        got = collections.Counter(rest.strip(b"\n").split(b"\n")) if rest.strip(b"\n") else collections.Counter()
        if want:
            ctx.count("damaged_checks")
            ctx.count("paths_reported", len(want))
            ctx.seen("nontrivial", (i, sorted(map(repr, did))))
            if r.rc != 1:
                ctx.fail("missed", "damage but exit status %d" % r.rc, run=r.brief(), damage=did, expected=want)
            if verdict != b"Incomplete" or b"nb: error: found %d item" % len(want) not in r.err:
                ctx.fail("wrong-verdict", "verdict %r" % verdict, run=r.brief(), damage=did, expected=want)
        else:
            ctx.count("healthy_checks")
            if r.rc != 0 or verdict != b"Healthy":
                ctx.fail("false-alarm", "nothing is damaged but: %r, exit status %d" % (verdict, r.rc), run=r.brief(), damage=did)
        if got != want_lines:
            ctx.fail("wrong-paths", "unexpected %r, missing %r" % (sorted((got - want_lines).elements())[:5], sorted((want_lines - got).elements())[:5]),
                     run=r.brief(), damage=did, expected=want)
        bad = [p for p in set(before) | set(after) if p not in (s.repo, s.repo + b"/lockfile") and (
            p not in before or p not in after or world.untouched(before[p], after[p]))]
        if bad:
            ctx.fail("changed", "the check changed %r" % bad[:4], run=r.brief())
        if s.repo + b"/lockfile" in after:
            ctx.fail("changed", "the lock file stayed behind", run=r.brief())
        seen += did[:2]
    return {"stored": len(blobs), "damage": seen[:6]}
