"""C24: a repository means the same on every kind of machine.

The real sources run as four kinds of machine: 64 and 32 bit (a real i386
program), little and big endian (a compiler pass swaps every integer which the
program keeps in memory; lib/portable). They take turns on one repository. What
each of them records is compared with the reference model and the strict little
endian parser, what it restores with the recorded states, and what it says with
what another machine says about a copy."""
import os, random
import badmeta, cfggen, crash, damage, metafmt, refmodel, scen, selection, world

PROP = "C24"
VARIANTS = ["plain", "be64", "le32", "be32"]
OPTIONAL = {"be64": ["be64_commands"], "be32": ["be32_commands"], "le32": ["le32_commands"]}
CASES = {"quick": 700, "thorough": 16000}
LEVEL = "exploration"
RULE = ("one evaluation = one command of one machine on a repository which machines of other kinds have written, or of several machines on copies of "
        "the same one; non-trivial: the last writer was a machine of another kind; distinct by the kinds, the command and the metadata")
REQUIRED = {"be64_commands": 900, "le32_commands": 900, "be32_commands": 900, "handovers": 1500, "recorded_paths_compared": 15000, "restored_paths_verified": 4000,
            "twin_commands": 400, "damaged_repositories": 40, "large_numbers": 60, "late_times": 30}
ASSUMPTIONS = ["big endian machines are simulated: integers in memory are byte-swapped, registers and the C library are not",
               "no two contents have the same checksum", "times before 1901 and after 2038 are compared only as far as a machine can represent them"]

T32 = [-2**31, -2**31 + 1, -1, 0, 1, 255, 256, 2**16, 2**24 + 1, 2**31 - 1, 0x01020304, 0x7f000080, -0x01020304]


def machines(ctx):
    return [m for m in VARIANTS if m not in ctx.missing]


def pick(ctx, rng, other=None):
    ms = [m for m in machines(ctx) if m != other]
    return rng.choice(ms or machines(ctx))


def run(ctx, m):
    ctx.count(m + "_commands")
    ctx.count("evaluations")
    return m


def stored(repo):
    return {p[len(repo):]: (e.size, e.digest or e.small) for p, e in world.snap(repo).items()
            if e.type == world.F and not p.endswith((b"/lockfile", b"/metadata"))}


def oddtimes(s, rng):
    for p, e in s.source(content=False).items():
        if rng.random() < 0.2 and e.type != world.L:
            t = rng.choice(T32) * 10**9 + rng.choice([0, 0, 999999999])
            if t // 10**9 != e.mtime:
                os.utime(p, ns=(t, t))


def setup(ctx, rng):
    s = scen.Scene(ctx, rng, special=0.02, odd_times=0.0, big=0.05, weird=0.15)
    s.gen.fill(rng.randrange(2, 9), 2)
    oddtimes(s, rng)
    configure(s, rng)
    return s


def configure(s, rng):
    if rng.random() < 0.4:
        rs = cfggen.rules(rng, s, missing=0.05)
        ig = cfggen.exprs(rng, cfggen.FULL, 0.2)
        exp, amb, unr = selection.Selection(rs, ig).expected()
        if not (amb or unr):
            s.config(cfggen.layout(rng, rs, ig, cfggen.exprs(rng, cfggen.SUMM, 0.2)))
            return
    s.simple_config(rng.choice([b"track", b"track", b"copy", b"mirror"]))


def twin_of(ctx, s):
    t = scen.BASE + b"/twin"
    if os.path.lexists(t):
        world.rmtree(t)
    world.copy_tree(s.repo, t)
    return t


def agree(ctx, a, b, what):
    ma, mb = crash.load(ctx, a), crash.load(ctx, b)
    if (ma is None) != (mb is None) or ma is not None and (crash.normal(ma) != crash.normal(mb) or len(ma.times) != len(mb.times)):
        ctx.fail("machines-differ", "%s: the machines record different things: %r" % (what, crash.difference(ma, mb)))
    x, y = stored(a), stored(b)
    if x != y:
        ctx.fail("machines-differ", "%s: the machines store different files: %r" % (what, sorted(set(x.items()) ^ set(y.items()))[:4]))


def said(ctx, a, b, what):
    if (a.rc, a.out, b"error" in a.err) != (b.rc, b.out, b"error" in b.err):
        ctx.fail("machines-differ", "%s: the machines say different things" % what, one=a.brief(), other=b.brief())


def turns(ctx, i, rng):
    s = setup(ctx, rng)
    last, steps = None, []
    for k in range(rng.randrange(2, 6)):
        if k:
            s.mutate(rng.randrange(1, 6))
            if not os.path.isdir(s.src):
                return None
            oddtimes(s, rng)
            if rng.random() < 0.15:
                configure(s, rng)
        m = run(ctx, pick(ctx, rng, last))
        steps.append("backup on " + m)
        twin = twin_of(ctx, s) if rng.random() < 0.4 else None
        r, ch = s.full_backup(variant=m)
        if r.rc:
            return None
        if twin:
            o = run(ctx, pick(ctx, rng, m))
            x = ctx.nb(twin, variant=o)
            said(ctx, r, x, "backup on %s and %s" % (m, o))
            agree(ctx, s.repo, twin, "backup on %s and %s" % (m, o))
            ctx.count("twin_commands")
            if rng.random() < 0.5:
                # go on with what the other one has written
                world.rmtree(s.repo)
                os.rename(twin, s.repo)
                m = o
                if s.has_meta():
                    s.reload_model()
            else:
                world.rmtree(twin)
        if not s.has_meta():
            return None
        s.audit(exact=rng.random() < 0.5)
        ctx.count("handovers", last is not None)
        last = m
        raw = world.read(s.repo + b"/metadata")
        for op in rng.sample(["integrity", "gc", "restore", "restore", "prune"], rng.randrange(1, 4)):
            o = run(ctx, pick(ctx, rng, last))
            steps.append("%s on %s" % (op, o))
            ctx.count("handovers")
            ctx.seen("nontrivial", (last, o, op, raw))
            meta = s.meta()
            if op == "integrity":
                r = s.integrity(variant=o)
                if r.rc:
                    ctx.fail("not-healthy", "%s finds the repository of %s damaged" % (o, last), run=r.brief())
            elif op == "gc":
                if rng.random() < 0.5:
                    os.makedirs(s.repo + b"/0/00", exist_ok=True)
                    world.write(s.repo + b"/0/00/%sx1x0" % (b"0" * 37), b"")
                r = s.gc(variant=o)
                s.audit(exact=True)
            elif op == "restore":
                if not meta.times or scen.aliased(meta, 0):
                    continue
                bid = rng.randrange(len(meta.times))
                exp = metafmt.expected_tree(meta, bid)
                path = rng.choice([b""] * 3 + sorted(p for p in exp if p.startswith(s.src)))
                back = None
                if rng.random() < 0.6 and (not path or os.path.lexists(s.top)):
                    back = s.set_aside()
                else:
                    scen.unfollow(meta, bid, rng, strong=True)
                    scen.notice_restore(meta, bid, rng)
                if scen.aliased(meta, bid):
                    if back:
                        os.rename(back, s.top)
                    continue
                try:
                    lines, change = refmodel.restore_report(meta, bid, path)[:2]
                except refmodel.Dies:
                    ctx.fail("selection", "the model cannot restore %r" % path)
                before = scen.snap_all()
                d = ctx.nb(s.repo, b"%d" % bid, *([path] if path else []), stdin=b"n\n", variant=pick(ctx, rng, o))
                r = s.restore(bid, path or None, variant=o)
                if b"(y/n)" in d.out:
                    said(ctx, scen_out(d), scen_out(r), "restore")
                scen.check_restore_report(ctx, r, lines, change)
                scen.check_restored(ctx, meta, bid, path, before, scen.snap_all())
                if back:
                    if os.path.lexists(s.top):
                        world.rmtree(s.top)
                    os.rename(back, s.top)
                s.normalise()
            elif op == "prune":
                # a copy elsewhere which another machine collects
                t = twin_of(ctx, s)
                ctx.nb(t, b"gc", variant=o, expect=0)
                scen.audit(ctx, t, meta, exact=True)
                world.rmtree(t)
            if world.read(s.repo + b"/metadata") != raw:
                ctx.fail("changed", "%s changed the metadata" % op)
    return {"steps": steps}


class scen_out:
    """What was said before the question was asked."""
    def __init__(self, r):
        self.rc, self.err, self.args = 0, b"", r.args
        self.out = r.out.split(b"(y/n)")[0]

    def brief(self):
        return {"out": repr(self.out[-600:])}


def damaged(ctx, i, rng):
    s = setup(ctx, rng)
    for _ in range(rng.randrange(1, 3)):
        s.normalise()
        if s.backup(variant=run(ctx, pick(ctx, rng)), expect=None).rc:
            return None
        s.mutate(2)
        if not os.path.isdir(s.src):
            return None
    if not s.has_meta():
        return None
    meta = s.meta()
    blobs = damage.stored(s.repo, meta)
    if not blobs:
        return None
    done = [d for d in (damage.damage(rng, s.repo, blobs, ["missing", "short", "empty", "long", "flip", "zero", "other"]) for _ in range(rng.randrange(1, 4))) if d]
    if not done:
        return None
    ctx.count("damaged_repositories")
    ms = machines(ctx)
    rs = [ctx.nb(s.repo, b"integrity", variant=run(ctx, m)) for m in ms]
    for m, r in zip(ms[1:], rs[1:]):
        said(ctx, rs[0], r, "integrity on %s and %s" % (ms[0], m))
    ctx.seen("nontrivial", ("damage", world.read(s.repo + b"/metadata"), repr(done)))
    return {"damage": [repr(d) for d in done]}


def numbers(ctx, i, rng):
    """Recorded values of every magnitude are shown and kept by every machine."""
    s = setup(ctx, rng)
    s.simple_config(rng.choice([b"track", b"copy"]))
    for _ in range(rng.randrange(2, 5)):
        s.normalise()
        if s.backup(variant=run(ctx, pick(ctx, rng)), expect=None).rc:
            return None
        s.mutate(3)
        if not os.path.isdir(s.src):
            return None
        oddtimes(s, rng)
    if not s.has_meta():
        return None
    m = s.meta()
    n = 0
    for p, node, _ in m.walk():
        h = node.history
        for k, (b, st) in enumerate(h):
            if st.type == 0 or rng.random() > 0.6 or not p.startswith(s.src + b"/"):
                continue
            if k == 0 and rng.random() < 0.7:
                continue
            new = dict(uid=rng.choice([st.uid, 2**31, 2**32 - 2, 0x01020304]), gid=rng.choice([st.gid, 2**31 + 1, 0xfffefdfc]))
            if st.type in (metafmt.REG, metafmt.DIR):
                new["mtime"] = rng.choice(T32)
            if st.type == metafmt.REG and st.size > metafmt.HASH:
                new["size"] = rng.choice([2**16 + 3, 2**31, 2**32 - 1, 2**32, 2**32 + 21, 2**33 + 7, 2**40 + 2**31, 2**50 + 12345, 0x0102030405060708])
                n += 1
            h[k] = (b, st._replace(**new))
    if not m.times:
        return None
    m.times = [rng.choice(T32) if rng.random() < 0.5 else t for t in m.times]
    raw = metafmt.serialize(m)
    world.write(s.repo + b"/metadata", raw)
    m = s.meta()
    ctx.count("large_numbers")
    ms = machines(ctx)
    for bid in range(len(m.times)):
        rs = [ctx.nb(s.repo, b"%d" % bid, stdin=b"n\n", variant=run(ctx, v)) for v in ms]
        for v, r in zip(ms[1:], rs[1:]):
            said(ctx, rs[0], r, "restore of huge things on %s and %s" % (ms[0], v))
    rs = [ctx.nb(s.repo, b"integrity", variant=run(ctx, v)) for v in ms]
    for v, r in zip(ms[1:], rs[1:]):
        said(ctx, rs[0], r, "integrity on %s and %s" % (ms[0], v))
    if rng.random() < 0.5:
        with open(s.src + b"/huge", "wb") as f:
            f.truncate(rng.choice([2**31 - 1, 2**31, 2**32 + 5, 2**33 + 2**31, 5 * 2**40]) if os.statvfs(s.src).f_bsize else 0)
        rs = [ctx.nb(s.repo, stdin=b"n\n", variant=run(ctx, v)) for v in ms]
        for v, r in zip(ms[1:], rs[1:]):
            said(ctx, rs[0], r, "backup of something huge on %s and %s" % (ms[0], v))
        ctx.count("huge_files")
        os.unlink(s.src + b"/huge")
    # what is not touched is kept as it is, whoever writes it again
    s.reload_model()
    world.write(s.src + b"/new", b"new" * 20)
    v = run(ctx, pick(ctx, rng))
    s.full_backup(variant=v)
    ctx.seen("nontrivial", ("numbers", raw))
    return {"large": n}


def late(ctx, i, rng):
    """Times which some machines cannot represent: those refuse and keep their hands off."""
    s = setup(ctx, rng)
    s.simple_config()
    T = rng.choice([2**31, 2**31 + 1, 2**32, 2**32 + 77, 2**33 - 1, -2**31 - 1, -2**31 - 50000, 0xffffffff])
    where = rng.choice(["recorded", "found", "backup"])
    if where != "backup":
        world.write(s.src + b"/late", rng.randbytes(50))
    if where == "recorded":
        os.utime(s.src + b"/late", ns=(T * 10**9,) * 2)
    s.full_backup(variant=pick(ctx, rng, None) if where != "recorded" else "plain")
    if where == "found":
        os.utime(s.src + b"/late", ns=(T * 10**9,) * 2)
    elif where == "backup":
        m = s.meta()
        if not m.times:
            return None
        m.times[rng.randrange(len(m.times))] = T
        world.write(s.repo + b"/metadata", metafmt.serialize(m))
        s.reload_model()
    if os.path.lexists(s.src + b"/late") and os.lstat(s.src + b"/late").st_mtime_ns // 10**9 != T:
        return None                     # not representable on this filesystem
    ctx.count("late_times")
    keep = {p: (e.size, e.digest or e.small) for p, e in world.snap(s.repo).items() if e.type == world.F and not p.endswith(b"lockfile")}
    tree = world.snap(s.top)
    meta = s.meta()
    for v in machines(ctx):
        world.write(s.src + b"/n", b"x" * 30) if where != "recorded" else None
        cmds = [[b"integrity"], [b"gc"], [b"0"], []]
        if where == "found":
            cmds = [[]]
        for c in cmds:
            r = ctx.nb(s.repo, *c, stdin=b"n\n" if c == [b"0"] else b"n\n", variant=run(ctx, v))
            p = ctx.nb(s.repo, *c, stdin=b"n\n", variant="plain")
            if r.rc == 1 and b"nb: error" in r.err and (v.endswith("32")):
                ctx.count("late_times_refused")
            elif (r.rc, r.out) != (p.rc, p.out):
                ctx.fail("late-times", "a time of %d is neither handled nor refused by %s" % (T, v), run=r.brief(), plain=p.brief())
            else:
                ctx.count("late_times_handled")
        now = {p: (e.size, e.digest or e.small) for p, e in world.snap(s.repo).items() if e.type == world.F and not p.endswith(b"lockfile")}
        if now != keep:
            ctx.fail("late-times", "a time of %d made %s change the repository" % (T, v))
        # the whole way, where the machine can go it
        t = twin_of(ctx, s)
        r = ctx.nb(t, variant=run(ctx, v))
        if r.rc == 0 and b"(y/n)" in r.out:
            mt = scen.read_meta(ctx, t)
            if any(x not in mt.times for x in meta.times):
                ctx.fail("late-times", "%s forgot or changed the time of a backup" % v, run=r.brief(), before=meta.times, after=mt.times)
            for p, e in world.snap(s.src).items():
                n = mt.paths().get(p)
                if e.type == world.F and (n is None or n.history[0][1].mtime != e.mtime):
                    ctx.fail("late-times", "%s recorded %r wrongly" % (v, p), run=r.brief())
        elif r.rc != 0 and not v.endswith("32"):
            ctx.fail("late-times", "%s cannot handle a time of %d" % (v, T), run=r.brief())
        elif r.rc != 0:
            got = {p[len(t):]: (e.size, e.digest or e.small) for p, e in world.snap(t).items() if e.type == world.F and not p.endswith(b"lockfile")}
            if got.get(b"/metadata") != keep.get(s.repo + b"/metadata"):
                ctx.fail("late-times", "%s failed but changed the metadata" % v, run=r.brief())
        # what is lost comes back with its time, or not at all
        if where == "recorded":
            back = s.set_aside()
            r = ctx.nb(t, b"0", variant=run(ctx, v))
            got = os.lstat(s.src + b"/late").st_mtime_ns // 10**9 if os.path.lexists(s.src + b"/late") else None
            if r.rc == 0 and got != T:
                ctx.fail("late-times", "%s restored a time of %d as %r" % (v, T, got), run=r.brief())
            if r.rc == 1 and not v.endswith("32"):
                ctx.fail("late-times", "%s cannot restore a time of %d" % (v, T), run=r.brief())
            if os.path.lexists(s.top):
                world.rmtree(s.top)
            os.rename(back, s.top)
        world.rmtree(t)
    ctx.seen("nontrivial", ("late", where, T, keep.get(s.repo + b"/metadata")))
    return {"time": T, "where": where}


ZEROS = (2**32 + 5, bytes.fromhex("64ed99056d6da0a8f3201bdd91eef8edc3dfaf84"))     # BLAKE2b-160 of so many null bytes


def colossal(ctx, i, rng, m, change):
    """A stored file which is larger than what a machine can address is read to its end."""
    s = scen.Scene(ctx, rng)
    world.write(s.src + b"/zeros", b"z" * 30)
    s.simple_config(rng.choice([b"track", b"copy"]))
    s.backup(variant="plain")
    meta = s.meta()
    n = meta.paths()[s.src + b"/zeros"]
    old = metafmt.blob_name(n.history[0][1])
    n.history[0] = (0, n.history[0][1]._replace(size=ZEROS[0], content=ZEROS[1], slot=0))
    new = metafmt.blob_name(n.history[0][1])
    os.makedirs(s.repo + b"/" + os.path.dirname(new))
    world.rmtree(s.repo + b"/" + old.split(b"/")[0]) if old[:1] != new[:1] else os.unlink(s.repo + b"/" + old)
    with open(s.repo + b"/" + new, "wb") as f:
        f.truncate(ZEROS[0])
    world.write(s.repo + b"/metadata", metafmt.serialize(meta))
    ctx.seen("nontrivial", ("colossal", m, change))
    if not change:
        r = ctx.nb(s.repo, b"integrity", variant=run(ctx, m), timeout=800)
        if r.rc:
            ctx.fail("colossal", "%s finds a file of %d bytes damaged" % (m, ZEROS[0]), run=r.brief())
    else:
        # only the last byte differs
        with open(s.src + b"/zeros", "wb") as f:
            f.truncate(ZEROS[0])
            f.seek(ZEROS[0] - 1)
            f.write(b"x")
        os.utime(s.src + b"/zeros", (1234, 1234))
        r = ctx.nb(s.repo, variant=run(ctx, m), stdin=b"n\n", timeout=800)
        if b"!! %s/zeros\n" % s.src not in r.out.replace(b" (timestamp)", b""):
            ctx.fail("colossal", "%s does not notice that byte %d has changed" % (m, ZEROS[0] - 1), run=r.brief())
    ctx.count("colossal_files")
    return {"machine": m, "change": change}


COLOSSAL = {"quick": {0: ("le32", False)},
            "thorough": {0: ("le32", False), 1: ("be32", False), 2: ("be64", False), 3: ("plain", False), 4: ("le32", True), 5: ("be32", True), 6: ("be64", True)}}


def case(ctx, i, rng):
    if i in COLOSSAL[ctx.tier] and COLOSSAL[ctx.tier][i][0] in machines(ctx):
        return colossal(ctx, i, rng, *COLOSSAL[ctx.tier][i])
    k = i % 20
    if k < 13:
        return turns(ctx, i, rng)
    if k < 15:
        return damaged(ctx, i, rng)
    if k < 18:
        return numbers(ctx, i, rng)
    return late(ctx, i, rng)
