"""C21: repositories written earlier stay usable, and the format stays the same.

Three kinds of cases. Golden: repositories which were written by the original
version (golden/*.xz, with what every backup in them holds) are restored,
verified, collected and continued by builds of the current tree. Foreign:
repositories which an independent writer of the layout produced from scratch
(lib/metafmt.py, with states, slots and numbers no test has) are put to the same
use. Fresh: what this tree writes is decoded, re-encoded and checked against
snapshots of the source, the stored files against their names."""
import ast, glob, lzma, os, stat

import cfggen, crash, metafmt, refmodel, scen, world

PROP = "C21"
VARIANTS = ["plain", "o0", "o3", "asan"]
CASES = {"quick": 900, "thorough": 20000}
LEVEL = "exploration"
RULE = ("one evaluation = one repository (golden, foreign or fresh) taken through restores of all its backups, verification, collection and "
        "continuation; non-trivial: it has at least two backups; distinct by the bytes of its metadata and the order of the commands")
REQUIRED = {"golden_used": 250, "foreign_used": 250, "fresh_used": 150, "versions_restored": 12000, "slots_above_9": 200, "continued": 350, "collected": 350, "verified": 350,
            "stored_names_recomputed": 350, "metadata_reproduced": 350}
ASSUMPTIONS = ["the golden repositories were written by the original version of the program"]

GOLDEN = []


def prepare():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for f in sorted(glob.glob(here + "/golden/*.xz")):
        with lzma.open(f) as x:
            GOLDEN.append(ast.literal_eval(x.read().decode()))
    assert len(GOLDEN) >= 15


def unpack(ctx, files):
    for rel, data in files.items():
        p = scen.BASE + b"/repo/" + rel
        if data is None:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            world.write(p, data)


def compare(ctx, want, what, top=scen.BASE + b"/top"):
    """The tree below TOP is what WANT says, nothing else."""
    have = world.snap(top) if os.path.lexists(top) else {}
    bad = []
    for p, (st, pol) in want.items():
        if not scen.under(p, top):
            continue
        e = have.pop(p, None)
        if e is None:
            bad.append("%r is missing" % p)
            continue
        d = scen.state_ent_diff(st, e)
        if pol == 0 and st.type == metafmt.DIR:
            d = [x for x in d if not x.startswith("mtime")]
        if d:
            bad.append("%r: %s" % (p, ", ".join(d)))
        ctx.count("versions_restored")
    bad += ["%r was created" % p for p in have if p != top]
    if bad:
        ctx.fail("restored", "%s: %s" % (what, "; ".join(bad[:5])))


def clear():
    top = scen.BASE + b"/top"
    if os.path.lexists(top):
        world.rmtree(top)


def use(ctx, s, want, rng, kind, config_history=None):
    """WANT: what every backup has to restore, newest first."""
    data = world.read(s.repo + b"/metadata")
    m = scen.read_meta(ctx, s.repo)
    need = metafmt.needed_blobs(m)
    n = len(want)
    if len(m.times) != n:
        ctx.fail("restored", "%d backups instead of %d" % (len(m.times), n))
    order = []
    var = rng.choice(["plain", "plain", "plain", "o0", "o3", "asan"])
    todo = ["restore", "integrity", "gc"]
    rng.shuffle(todo)
    for op in todo:
        order.append(op)
        if op == "restore":
            ids = list(range(n)) if n <= 6 else [0, n - 1] + rng.sample(range(n), 4)
            rng.shuffle(ids)
            for b in ids:
                if rng.random() < 0.5:
                    clear()
                    r = s.restore(b, variant=var, expect=None)
                    if r.rc:
                        ctx.fail("restored", "backup %d of a %s repository can not be restored" % (b, kind), run=r.brief())
                    compare(ctx, want[b], "backup %d of a %s repository" % (b, kind))
                else:
                    # in place: what the other backup does not have stays
                    scen.unfollow(m, b, rng, strong=True)
                    scen.notice_restore(m, b, rng)
                    if os.path.lexists(s.repo + b"/lockfile"):
                        os.unlink(s.repo + b"/lockfile")
                    before = scen.snap_all()
                    r = s.restore(b, variant=var, expect=None)
                    if r.rc:
                        ctx.fail("restored", "backup %d of a %s repository can not be restored in place" % (b, kind), run=r.brief())
                    scen.check_restored(ctx, m, b, b"", before, scen.snap_all(), untouched=False)
        elif op == "integrity":
            r = s.integrity(variant=var)
            if r.rc or b"Found" in r.err:
                ctx.fail("verified", "the integrity check of a healthy %s repository reports something" % kind, run=r.brief())
            ctx.count("verified")
        else:
            r = s.gc(variant=var)
            if world.read(s.repo + b"/metadata") != data:
                ctx.fail("collected", "a collection changed the metadata of a %s repository" % kind, run=r.brief())
            scen.audit(ctx, s.repo, m, exact=True, key="collected")
            ctx.count("collected")
    if need and rng.random() < 0.3:
        # a check which checks nothing would not notice
        b = rng.choice(sorted(need))
        old = world.read(s.repo + b"/" + b)
        world.write(s.repo + b"/" + b, bytes([old[0] ^ 1]) + old[1:])
        r = s.integrity(variant=var)
        if r.rc != 1 or not all(p in r.out + r.err for p in need[b] if p.isascii() and b"\n" not in p and not any(c < 32 or c == 127 for c in p)):
            ctx.fail("verified", "the integrity check missed damage in %r of a %s repository" % (b, kind), run=r.brief())
        world.write(s.repo + b"/" + b, old)
        ctx.count("damage_noticed")
    # continue it
    clear()
    s.restore(0, variant=var)
    if not os.path.isdir(s.src):
        return order
    s.model = refmodel.Model.from_meta(m)
    s.mutate(rng.randrange(1, 5))
    r, ch = s.full_backup(variant=var, report=False)
    if ch is None:
        return order
    m2 = s.meta()
    ctx.count("metadata_reproduced")
    scen.audit(ctx, s.repo, m2, exact=False)
    if ch.any():
        ctx.count("continued")
        if config_history is not None and [st for _, st in m2.config] != [st for _, st in config_history]:
            ctx.fail("continued", "the history of the configuration got lost")
        # what was recorded before must still be there for what is tracked
        now = m2.paths()
        for p, node, _ in m.walk():
            if node.policy != 3 or p not in now or now[p].policy != 3:
                continue
            old, new = [st for _, st in node.history], [st for _, st in now[p].history]
            if new[len(new) - len(old) + 1:] != old[1:]:
                ctx.fail("continued", "older versions of %r got lost" % p)
        clear()
        b = rng.randrange(len(m2.times))
        s.restore(b, variant=var)
        compare(ctx, metafmt.expected_tree(m2, b), "backup %d of a continued %s repository" % (b, kind))
        r = s.integrity(variant=var)
        if r.rc:
            ctx.fail("verified", "the integrity check of a continued %s repository fails" % kind, run=r.brief())
    return order


def scene(ctx, rng):
    s = scen.Scene(ctx, rng, special=0, weird=0.1, odd_times=0.2, big=0.01)
    world.rmtree(s.top)
    return s


def golden(ctx, i, rng):
    g = GOLDEN[(i // 5 * 2 + i % 5) % len(GOLDEN)]
    s = scene(ctx, rng)
    unpack(ctx, g["files"])
    s.cfg_text = g["config"]
    want = [{p: (metafmt.State(*st), pol) for p, (st, pol) in w.items()} for w in g["expected"]]
    order = use(ctx, s, want, rng, "golden")
    ctx.count("golden_used")
    ctx.seen("goldens", g["name"])
    ctx.seen("nontrivial", (g["name"], order, i))
    return {"golden": g["name"], "order": order}


def foreign(ctx, i, rng):
    """A repository nobody's nb wrote."""
    s = scene(ctx, rng)
    nb = rng.randrange(2, 9)
    blobs, tree, hist = {}, {}, {}
    slots = {}
    ids = [0, 0, 1000, 65535, 2147483648, 4294967000]

    def state(t):
        uid, gid = rng.choice(ids), rng.choice(ids)
        mode = rng.choice([0o755, 0o644, 0o700, 0o777, 0o4755, 0o2711, 0o1777, 0o000, rng.randrange(0o10000)])
        mt = rng.choice([0, 1, -1, -2**31, 2**31, 2**33 + 5, 1600000000 + rng.randrange(10**6)])
        if t == metafmt.DIR:
            return metafmt.State(t, uid, gid, stat.S_IFDIR | mode | 0o700, mt, None, None, None, None)
        if t == metafmt.LNK:
            return metafmt.State(t, uid, gid, None, None, None, None, None, rng.choice([b"x", b"/nowhere", b"no/such", b"t" * 300, b"\xff\xfe", b"a\nb"]))
        size = rng.choice([0, 1, 15, 19, 20, 21, 22, 100, 255, 256, 4096, 5000])
        data = rng.choice([rng.randbytes(size), b"%d" % rng.randrange(9) * size, b"%d" % rng.randrange(9) * size])[:size]
        if size <= 20:
            return metafmt.State(t, uid, gid, stat.S_IFREG | mode, mt, size, data, None, None)
        key = world.b2(data), size
        if key not in slots or rng.random() < 0.2:
            slots[key] = rng.choice([0, 0, 1, 9, 10, 15, 16, 31, 99, 171, 254, 255])
        slot = slots[key]
        ctx.count("slots_above_9", slot > 9)
        st = metafmt.State(t, uid, gid, stat.S_IFREG | mode, mt, size, key[0], slot, None)
        blobs[metafmt.blob_name(st)] = data
        return st

    names = [b"a", b"b", b"c", b"file", b"with space", b"\xff", b"l\nf", b"n" * 255, b"..x", b"-", b"0"]
    tree[s.src] = state(metafmt.DIR)
    for b in range(nb):
        now = nb - 1 - b
        for _ in range(rng.randrange(1, 9)):
            dirs = sorted(p for p, st in tree.items() if st.type == metafmt.DIR and p.count(b"/") < 12)
            d = rng.choice(dirs)
            k = rng.random()
            if k < 0.55:
                p = d + b"/" + rng.choice(names)
                if p in tree and tree[p].type == metafmt.DIR:
                    for q in [q for q in tree if q.startswith(p + b"/")]:
                        del tree[q]
                tree[p] = state(rng.choice([metafmt.REG, metafmt.REG, metafmt.LNK, metafmt.DIR, metafmt.DIR]))
            elif d != s.src and k < 0.75:
                for q in [q for q in tree if scen.under(q, d)]:
                    del tree[q]
            else:
                tree[d] = tree[d]._replace(mode=stat.S_IFDIR + 0o700 + rng.randrange(0o100))
        for p in set(hist) | set(tree):
            h = hist.setdefault(p, [])
            st = tree.get(p, metafmt.st_none())
            if (not h and st.type != metafmt.NONE) or (h and h[0][1] != st):
                h.insert(0, (now, st))
    with_config = rng.random() < 0.3
    if with_config or rng.random() < 0.6:
        # at least one point names every backup, as after any run
        for b in range(nb):
            if not any(x == b for h in hist.values() for x, _ in h):
                hist[s.src] = sorted(hist[s.src] + [(b, next((st for x, st in hist[s.src] if x >= b), state(metafmt.DIR)))], key=lambda x: x[0])
    lead = metafmt.State(metafmt.DIR, 0, 0, stat.S_IFDIR | 0o755, 1600000000, None, None, None, None)
    order = rng.random() < 0.5
    nodes = {}
    root = metafmt.Node(b"", 0, [], [])
    for p in [b"/tmp", scen.BASE, s.top] + sorted(hist, reverse=False):
        parent = nodes.get(os.path.dirname(p), root)
        pol, h = (0, [(nb - 1, lead)]) if p not in hist else (3, hist[p])
        n = metafmt.Node(os.path.basename(p), pol, h, [])
        nodes[p] = n
        parent.subnodes.insert(0 if order else len(parent.subnodes), n)
    m = metafmt.Meta()
    m.times = [1700000000 - k * rng.choice([0, 1, 86400]) for k in range(nb)]
    m.nodes, m.total = root.subnodes, len(nodes)
    if with_config:
        m.config = [(b, metafmt.State(metafmt.REG, 0, 0, stat.S_IFREG | 0o644, 5, 3, b"x%dy" % b, None, None)) for b in sorted(rng.sample(range(nb), rng.randrange(1, min(nb, 3) + 1)))]
    for rel, data in blobs.items():
        p = s.repo + b"/" + rel
        os.makedirs(os.path.dirname(p), exist_ok=True)
        world.write(p, data)
    world.write(s.repo + b"/metadata", metafmt.serialize(m))
    s.simple_config(b"track")
    want = [metafmt.expected_tree(m, b) for b in range(nb)]
    order = use(ctx, s, want, rng, "foreign", m.config)
    ctx.count("foreign_used")
    ctx.seen("nontrivial", metafmt.serialize(m))
    return {"backups": nb, "nodes": m.total, "blobs": len(blobs), "order": order}


def fresh(ctx, i, rng):
    s = crash.pending_backup(ctx, rng, size=(3, 10), most=4, policies=False)
    if s is None:
        return None
    var = rng.choice(["plain", "o0", "o3"])
    r = s.backup(expect=None, variant=var)
    if r.rc or not s.has_meta():
        return None
    data = world.read(s.repo + b"/metadata")
    m = s.meta()
    if metafmt.serialize(m) != data:
        ctx.fail("written", "the metadata does not reproduce itself")
    ctx.count("metadata_reproduced")
    for p, (st, pol) in metafmt.expected_tree(m, 0).items():
        if not os.path.lexists(p):
            continue                    # copied paths stay; what is recorded is judged by C01
        d = scen.state_ent_diff(st, world.entry(p))
        if pol == 0 and st.type == metafmt.DIR:
            d = []
        if d and scen.under(p, s.src) and pol in (2, 3):
            ctx.fail("written", "%r: %s" % (p, ", ".join(d)))
    need = scen.audit(ctx, s.repo, m, exact=False, key="written")
    ctx.count("stored_names_recomputed", len(need))
    for b in need:
        h, rest = b.replace(b"/", b"").split(b"x", 1)
        d = world.read(s.repo + b"/" + b)
        if world.b2(d).hex().encode() + b"x%xx" % len(d) != h + b"x" + rest.split(b"x")[0] + b"x" or b"x" not in rest or rest.split(b"x")[1] != b"0":
            ctx.fail("written", "%r is no name for its content" % b)
    ctx.count("fresh_used")
    ctx.seen("nontrivial", data)
    return {"nodes": m.total, "stored": len(need)}


def case(ctx, i, rng):
    ctx.count("evaluations")
    if i % 5 in (0, 1):
        return golden(ctx, i, rng)
    if i % 5 in (2, 3):
        return foreign(ctx, i, rng)
    return fresh(ctx, i, rng)
