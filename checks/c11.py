"""C11: equal content is stored once, different content never shares a stored file.

Histories over files whose contents repeat or differ in single bytes are backed
up by builds with checksums of 0 to 8 bits, so that nearly everything collides,
and by the real build. After every backup the content behind each recorded
version and the identity of each stored file is compared with what was there."""
import collections, os

import harness, metafmt, sandbox, scen, world
from metafmt import NONE, REG

PROP = "C11"
VARIANTS = ["plain", "weak", "blk"]
CASES = {"quick": 1100, "thorough": 20000}
LEVEL = "exploration"
RULE = ("one evaluation = one backup after which the content of every recorded version was compared; non-trivial: at least two different contents had the "
        "same checksum and size, or equal contents had several names; distinct by the recorded versions")
REQUIRED = {"versions_compared": 20000, "colliding_contents": 2500, "shared_contents": 2000, "full_checksums": 20, "stored_files_unchanged": 8000,
            "restored_files": 4000, "stored_files_removed": 300, "huge_contents": 2}
ASSUMPTIONS = ["a file which is rewritten with another content of the same size and the same (weakened) checksum counts as unchanged; this is not generated",
               "with colliding checksums, a content may be stored a second time after another one with its checksum and size was collected"]


class Pool:
    """Contents: several sizes, each with variants which differ in one place."""

    def __init__(self, rng):
        self.r, self.sizes = rng, {}
        for n in rng.sample([21, 22, 64, 4095, 4096, 4097, 8192, 9000, 13000], rng.randrange(1, 4)):
            base = rng.choice([bytes(n), rng.randbytes(n)])
            vs = [base]
            for _ in range(rng.randrange(1, 9)):
                b = bytearray(rng.choice(vs))
                at = rng.choice([0, n - 1, n - 1, min(4095, n - 1), min(4096, n - 1), n // 2, rng.randrange(n)])
                b[at] ^= 1 << rng.randrange(8)
                if bytes(b) not in vs:
                    vs.append(bytes(b))
            self.sizes[n] = vs

    def pick(self, last=None):
        """A content which a change of a file with content LAST may lead to."""
        for _ in range(20):
            n = self.r.choice(list(self.sizes))
            if last is None or len(last) != n:
                return self.r.choice(self.sizes[n])
        return None


def blobs(repo):
    out = {}
    for p, e in world.snap(repo).items():
        rel = p[len(repo) + 1:]
        if rel.count(b"/") == 2 and e.type == world.F:
            out[rel] = e
    return out


def case(ctx, i, rng):
    if i == 0:
        return huge(ctx, rng)
    if i % 40 == 7:
        return full(ctx, rng)
    variant = "plain" if i % 4 == 3 else "weak"
    bits = rng.choice([0, 0, 1, 3, 8])
    env = {"NB_WEAK_BITS": str(bits)}
    if i % 8 == 3:
        variant = "blk"
        ctx.blocks(rng)
    s = scen.Scene(ctx, rng)
    pool = Pool(rng)
    pols = [rng.choice([b"track", b"track", b"copy", b"mirror"]) for _ in range(2)]
    dirs = [s.src + b"/d0", s.src + b"/d1"]
    lines = []
    for p, d in zip(pols, dirs):
        os.mkdir(d)
        lines += [b"[" + p + b"]", d]
    s.config(lines)
    names = [d + b"/f%d" % k for d in dirs for k in range(rng.randrange(2, 12))]
    last, now, t = {}, {}, 1000
    held = {}           # stored file -> entry
    removed = set()     # (checksum, size) which lost a stored file
    before = {}         # path -> states

    def run(*a, **kw):
        return ctx.nb(s.repo, *a, variant=variant, env=env, **kw)
    for k in range(rng.randrange(2, 7)):
        for _ in range(rng.randrange(1, 12)):
            p = rng.choice(names)
            op = rng.random()
            t += 1
            if op < 0.65:
                c = pool.pick(last.get(p))
                if c is None or len(c) == len(last.get(p, b"")):
                    continue
                # a link in place of the file would be followed
                world.write(p, c)
                os.utime(p, (t, t))
                now[p] = c
            elif op < 0.85 and p in now:
                os.unlink(p)
                del now[p]
            elif p in now:
                q = rng.choice(names)
                if q not in now and len(last.get(q, b"")) != len(now[p]):
                    os.rename(p, q)
                    now[q] = now.pop(p)
        r = run(expect=None)
        ctx.count("backups")
        if r.rc != 0:
            ctx.fail("failed", "the backup failed", run=r.brief())
        last.update(now)
        if not s.has_meta():
            continue
        ctx.count("evaluations")
        m = s.meta()
        have = blobs(s.repo)
        # stored files stay as they are until they are removed
        for b, e in held.items():
            if b not in have:
                removed.add(b.rpartition(b"x")[0])
                ctx.count("stored_files_removed")
            elif (e.ino, e.ctime, e.digest, e.mtime_ns) != (have[b].ino, have[b].ctime, have[b].digest, have[b].mtime_ns):
                ctx.fail("changed", "the stored file %s was changed or replaced" % b.decode(), run=r.brief())
            else:
                ctx.count("stored_files_unchanged")
        held = have
        used = collections.defaultdict(set)     # stored file -> contents it stands for
        nodes = m.paths()
        for p, c in now.items():
            n = nodes.get(p)
            if n is None or n.history[0][1].type != REG:
                ctx.fail("missing", "%r is not recorded" % p)
            b = metafmt.blob_name(n.history[0][1])
            e = have.get(b)
            if e is None or e.size != len(c) or e.digest != world.b2(c):
                ctx.fail("shared", "what is stored for %r is another content (%s)" % (p, b.decode()), run=r.brief(), bits=bits)
            ctx.count("versions_compared")
        for p, n in nodes.items():
            old = before.get(p)
            hist = [(st, metafmt.blob_name(st)) for _, st in n.history]
            for st, b in hist:
                if b is not None:
                    if b not in have:
                        ctx.fail("missing", "the stored file %s of %r is not there" % (b.decode(), p), run=r.brief())
                    used[b].add(have[b].digest)
            if old is not None:
                for st, b, dg in old:
                    if (st, b) in hist and b is not None and have[b].digest != dg:
                        ctx.fail("shared", "an older version of %r has another content now" % p, run=r.brief())
                    ctx.count("versions_compared")
        before = {p: [(st, b, have[b].digest) for st, b in ((st, metafmt.blob_name(st)) for _, st in n.history) if b is not None]
                  for p, n in nodes.items()}
        by = collections.defaultdict(list)
        for b, e in have.items():
            by[e.digest].append(b)
        for dg, bs in by.items():
            if len(bs) > 1 and not (variant == "weak" and {b.rpartition(b"x")[0] for b in bs} & removed):
                ctx.fail("twice", "one content is stored %d times: %r" % (len(bs), bs[:3]), run=r.brief(), bits=bits)
        groups = collections.Counter(b.rpartition(b"x")[0] for b in have)
        coll = sum(v for v in groups.values() if v > 1)
        share = len(now) - len(set(now.values()))
        ctx.count("colliding_contents", coll)
        ctx.count("shared_contents", share)
        if coll or share:
            ctx.seen("nontrivial", sorted((p, repr(n.history)) for p, n in nodes.items()))
        if rng.random() < 0.3:
            run("integrity", expect=0)
        if rng.random() < 0.2:
            g = run("gc", expect=0)
            if blobs(s.repo).keys() != have.keys():
                ctx.fail("collected", "a collection removed what is needed", run=g.brief())
    if now:
        s.set_aside(s.top)
        run("0", expect=0)
        for p, c in now.items():
            if not os.path.isfile(p) or world.read(p) != c:
                ctx.fail("shared", "%r was restored with another content" % p, bits=bits)
            ctx.count("restored_files")
    return {"variant": variant, "bits": bits, "files": len(now), "stored": len(held)}


def full(ctx, rng):
    """More contents with one checksum than there are places for."""
    s = scen.Scene(ctx, rng)
    s.simple_config(rng.choice([b"track", b"copy", b"mirror"]))
    env = {"NB_WEAK_BITS": "0"}
    n = rng.choice([21, 100, 4097])
    first = rng.choice([250, 255, 256])
    seed = rng.randbytes(n - 4)

    def add(k):
        world.write(s.src + b"/c%d" % k, seed + b"%04d" % k)
    for k in range(first):
        add(k)
    ctx.nb(s.repo, variant="weak", env=env, expect=0)
    m = s.meta()
    slots = sorted(st.slot for _, nd, _ in m.walk() for _, st in nd.history if st.type == REG)
    if slots != list(range(first)):
        ctx.fail("shared", "%d contents are stored in %d places" % (first, len(set(slots))))
    # what is there already needs no place
    for k in range(3):
        world.write(s.src + b"/again%d" % k, seed + b"%04d" % rng.choice([0, first - 1, first // 2]))
    ctx.nb(s.repo, variant="weak", env=env, expect=0)
    before = {p: (e.digest, e.ino) for p, e in world.snap(s.repo).items() if e.type == world.F}
    if len(before) != first + 2:
        ctx.fail("twice", "known contents were stored again")
    for k in range(first, 257 + rng.randrange(3)):
        add(k)
    r = ctx.nb(s.repo, variant="weak", env=env, expect=None)
    ctx.count("full_checksums")
    ctx.count("evaluations")
    ctx.seen("nontrivial", (n, first, seed))
    if r.rc != 1 or b"nb: error:" not in r.err:
        ctx.fail("overflow", "257 contents with one checksum were accepted", run=r.brief())
    after = {p: (e.digest, e.ino) for p, e in world.snap(s.repo).items() if e.type == world.F}
    if any(after.get(p) != x for p, x in before.items()):
        ctx.fail("changed", "the failing backup changed what is stored", run=r.brief())
    # with less it goes on
    for k in range(first, 260):
        if os.path.exists(s.src + b"/c%d" % k):
            os.unlink(s.src + b"/c%d" % k)
    world.write(s.src + b"/small", b"small")
    ctx.nb(s.repo, variant="weak", env=env, expect=0)
    s.set_aside(s.top)
    ctx.nb(s.repo, "0", variant="weak", env=env, expect=0)
    for k in range(first):
        if world.read(s.src + b"/c%d" % k) != seed + b"%04d" % k:
            ctx.fail("shared", "c%d was restored with another content" % k)
    ctx.count("restored_files", first)
    return {"contents": first, "size": n}


def huge(ctx, rng):
    """Contents with more than 4 GiB which differ in one byte."""
    sandbox.libc.mount(b"tmpfs", os.fsencode(harness.ROOT), b"tmpfs", 32, b"size=14g")
    s = scen.Scene(ctx, rng)
    s.simple_config(b"track")
    env = {"NB_WEAK_BITS": "0"}
    size = (4 << 30) + rng.choice([100, 4096, 12345])
    at = rng.choice([1 << 20, 1 << 31, (1 << 32) - 1, rng.randrange(20000, 1 << 32)])
    for name, c in ((b"/a", b"a"), (b"/b", b"b")):
        with open(s.src + name, "wb") as f:
            f.truncate(size)
            f.seek(at)
            f.write(c)
        ctx.nb(s.repo, variant="weak", env=env, expect=0, timeout=300)
    m = s.meta()
    names = {}
    for name, c in ((b"/a", b"a"), (b"/b", b"b")):
        st = m.paths()[s.src + name].history[0][1]
        names[name] = b = metafmt.blob_name(st)
        with open(s.repo + b"/" + b, "rb") as f:
            f.seek(at)
            got = f.read(1)
        if st.size != size or os.stat(s.repo + b"/" + b).st_size != size or got != c:
            ctx.fail("shared", "what is stored for %r is another content (%d bytes, differing in byte %d)" % (name, size, at))
        ctx.count("versions_compared")
    if ctx.tier != "quick":
        # a third file with a known content needs no place
        os.rename(s.src + b"/a", s.src + b"/c")
        ctx.nb(s.repo, variant="weak", env=env, expect=0, timeout=300)
        if metafmt.blob_name(s.meta().paths()[s.src + b"/c"].history[0][1]) != names[b"/a"]:
            ctx.fail("twice", "a known content was stored again")
    ctx.count("huge_contents", 2)
    ctx.count("evaluations")
    ctx.seen("nontrivial", (size, at))
    return {"size": size, "at": at}
