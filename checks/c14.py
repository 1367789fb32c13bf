"""C14: corrupt metadata is refused without harm.

Metadata of real repositories is damaged byte by byte and field by field and
given to every command of sanitised and plain builds. An independent parser
decides whether what came out is a well-formed description; if not, the command
must fail with a message and leave everything as it was, and if it is, nothing
but the paths it lists may be touched."""
import os

import badmeta, crash, damage, metafmt, scen, world

PROP = "C14"
VARIANTS = ["plain", "o0", "asan", "msan", "fuzzmeta"]
OPTIONAL = {"fuzzmeta": ["fuzz_runs", "fuzz_accepted", "fuzz_refused"]}
CASES = {"quick": 120, "thorough": 6000}
FUZZ = {"quick": (8, 25000), "thorough": (48, 700000)}      # jobs, inputs per job
LEVEL = "exploration"
RULE = ("one evaluation = one command on one damaged metadata file; non-trivial: the file differs from a healthy one; distinct by the bytes of the metadata "
        "and the command")
REQUIRED = {"refused": 800, "processed": 320, "sanitised_runs": 560, "restores_of_accepted": 130, "backups_of_accepted": 45,
            "collections_of_accepted": 35, "fuzz_runs": 200000, "fuzz_accepted": 5000, "fuzz_refused": 50000}
ASSUMPTIONS = ["sanitizers report what they can see: memory errors on the executed paths of the builds with them"]

SAN = {"asan": 0.28, "msan": 0.24, "o0": 0.1, "plain": 0.38}


def everything(s):
    return {p: e for p, e in world.snap(b"/tmp").items() if p not in (s.repo, s.repo + b"/lockfile")}


def changes(before, after):
    return sorted(p for p in set(before) | set(after) if p not in before or p not in after or world.untouched(before[p], after[p]))


def fuzz(ctx, i, rng):
    """In one process: libFuzzer and a mutator which knows the layout produce
    the bytes, a second reader of the layout says what is acceptable and what
    must be written back (lib/fuzz/meta.c)."""
    seeds = []
    s = crash.pending_backup(ctx, rng, size=(1, 5), most=4, unreadable=False, weird=0.1)
    if s is not None:
        s.backup(expect=None)
        if s.has_meta():
            seeds.append(world.read(s.repo + b"/metadata")[:6000])
    n = ctx.fuzz("fuzzmeta", seeds, FUZZ[ctx.tier][1], 1 + rng.randrange(2**31))
    ctx.seen("nontrivial", ("fuzz", i))
    return {"fuzz": FUZZ[ctx.tier][1], "seeds": len(seeds), "corpus": n}


def case(ctx, i, rng):
    if i >= CASES[ctx.tier] - FUZZ[ctx.tier][0]:
        return fuzz(ctx, i, rng)
    s = crash.pending_backup(ctx, rng, size=(2, 7), most=3, unreadable=False, weird=0.1)
    if s is None or not os.path.isdir(s.src):
        return None
    s.backup(expect=None)
    if not s.has_meta():
        return None
    vic = scen.BASE + b"/victim"
    os.mkdir(vic)
    world.write(vic + b"/file", b"victim content which must stay\n" * 3)
    os.mkdir(vic + b"/dir")
    good = world.read(s.repo + b"/metadata")
    offs, end = badmeta.offsets(metafmt.parse(good))
    assert end == len(good)
    saved = crash.save(s)
    top = scen.BASE + b"/kept"
    kinds = []
    for k in range(9 if ctx.tier == "quick" else 30):
        crash.reset(s, saved)
        if k == 0 and i < 2000:
            # every offset in turn
            cut = (i * 37) % len(good)
            kind, data = "truncate", good[:cut]
        else:
            kind, data = badmeta.bytewise(rng, good, offs) if rng.random() < 0.55 or not metafmt.parse(good).nodes else badmeta.fieldwise(rng, good)
        kinds.append(kind)
        if len(data) > 3000000:
            continue
        world.write(s.repo + b"/metadata", data)
        m = badmeta.acceptable(data)
        cmds = rng.sample(["backup", "decline", "gc", "integrity", "restore", "restore", "restore0"], 2 if m is None else 3)
        for cmd in cmds:
            var = rng.choices(list(SAN), SAN.values())[0]
            if len(data) > 200000 and var not in ("plain", "o0"):
                var = "asan"
            before = everything(s)
            bid = path = None
            if cmd in ("restore", "restore0"):
                bid = 0 if cmd == "restore0" else rng.choice([0, 1, 2, 5])
                path = rng.choice([b"", b"/", s.top, s.src, vic])
                r = ctx.nb(s.repo, str(bid), *([path] if path else []), variant=var)
            else:
                args = {"backup": [], "decline": [], "gc": [b"gc"], "integrity": [b"integrity"]}[cmd]
                r = ctx.nb(s.repo, *args, stdin=b"n\n" if cmd == "decline" else b"y\n", variant=var)
            after = everything(s)
            ctx.count("evaluations")
            ctx.count("sanitised_runs", var in ("asan", "msan"))
            ctx.seen("nontrivial", (data, cmd, bid, path))
            ctx.seen("kinds", kind)
            ch = changes(before, after)
            if m is None:
                ctx.count("refused")
                if r.rc != 1 or b"nb: error:" not in r.err:
                    ctx.fail("accepted", "metadata which is not well-formed (%s) was accepted by %s" % (kind, cmd), run=r.brief())
                if r.out:
                    ctx.fail("accepted", "metadata which is not well-formed (%s) was processed by %s" % (kind, cmd), run=r.brief())
                if ch:
                    ctx.fail("harm", "%s changed %r before it refused the metadata (%s)" % (cmd, ch[:3], kind), run=r.brief())
                continue
            ctx.count("processed")
            try:
                strict = metafmt.parse(data)
            except metafmt.Bad:
                strict = None
            if cmd in ("restore", "restore0"):
                ctx.count("restores_of_accepted")
                sel, replacing = set(), set()
                stack = [(b"/" + n.name, n) for n in m.nodes]
                while stack:
                    p, n = stack.pop()
                    sel.add(p)
                    if any(st.type in (metafmt.REG, metafmt.LNK) for _, st in n.history):
                        replacing.add(p)
                    stack.extend((p + b"/" + c.name, c) for c in n.subnodes)
                # what lies inside of something which had to be replaced goes with it
                bad = [p for p in ch if p not in sel and not (p not in after and any(p.startswith(q + b"/") for q in replacing))
                       and not (p in after and after[p].type == world.D and p in before and before[p].ino == after[p].ino and
                                (before[p].mode, before[p].uid, before[p].gid) == (after[p].mode, after[p].uid, after[p].gid))]
                # a recorded name may lead through a link which was there before
                if bad and not any(os.path.islink(q) for q in sel):
                    ctx.fail("harm", "a restore touched %r, which the metadata does not list (%s)" % (bad[:3], kind), run=r.brief())
                bad = [p for p in ch if scen.under(p, vic) and not any(scen.under(q, vic) for q in sel) and
                       not any(scen.under(vic, q) for q in replacing)]
                if bad and not any(before[q].type == world.L for q in sel if q in before):
                    ctx.fail("harm", "a restore touched %r (%s)" % (bad[:3], kind), run=r.brief())
            elif cmd == "integrity":
                if ch:
                    ctx.fail("harm", "the integrity check changed %r" % ch[:3], run=r.brief())
                if strict is not None:
                    broken = {p for p, n, _ in m.walk() for _, st in n.history if metafmt.blob_name(st) and not damage.healthy(s.repo, metafmt.blob_name(st))}
                    if r.rc != bool(broken):
                        ctx.fail("verdict", "the integrity check ended with %d, %d paths are broken" % (r.rc, len(broken)), run=r.brief())
            elif cmd == "decline":
                if ch:
                    ctx.fail("harm", "a declined backup changed %r" % ch[:3], run=r.brief())
            else:
                ctx.count("collections_of_accepted" if cmd == "gc" else "backups_of_accepted")
                out = [p for p in ch if not scen.under(p, s.repo)]
                if out:
                    ctx.fail("harm", "%s changed %r" % (cmd, out[:3]), run=r.brief())
                now = badmeta.acceptable(world.read(s.repo + b"/metadata"))
                if now is None:
                    ctx.fail("spread", "%s wrote metadata which is not well-formed (%s)" % (cmd, kind), run=r.brief())
                # whatever was there and is needed stays
                had = {p[len(s.repo) + 1:] for p in before if scen.under(p, s.repo)}
                lost = [b for b in metafmt.needed_blobs(now) if b in had and not os.path.lexists(s.repo + b"/" + b)]
                if lost:
                    ctx.fail("harm", "%s removed the needed %r" % (cmd, lost[:2]), run=r.brief())
            if ch:
                break       # the next command needs the same start
        if not os.path.isdir(s.repo) or not os.path.isdir(vic):
            break           # a directory above them was said to be a file
    return {"bytes": len(good), "kinds": kinds}
