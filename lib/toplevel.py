"""Backups and restores of what lies directly in the root directory: the program
runs in a root directory of its own."""
import os

import metafmt, scen, world

NAMES = [b"foo", b"foobar", b"foo.txt", b"fo", b"f", b"foo ", b"Foo", b"fooo", b"foo-", b"bar", b"ba", b"barfoo", b"a", b"aa", b"aaa", b"ab", b"b",
          b"src", b"srcs", b"sr", b"top", b"0", b"00", b"1", b"gc", b"integrity", b"-", b"--", b"..a", b"...", b".a", b"\xff", b"x\ny", b" ", b"*"]


def unchanged(ctx, before, after, what, run):
    bad = []
    for p in sorted(set(before) | set(after)):
        a, b = before.get(p), after.get(p)
        d = ["created or removed"] if a is None or b is None else world.untouched(a, b)
        if d:
            bad.append("%r: %s" % (p, ", ".join(d)))
    if bad:
        ctx.fail("changed-on-refusal", "%s was refused but changed something: %s" % (what, "; ".join(bad[:5])), run=run.brief())


def case(ctx, i, rng, requests=6):
    """What lies directly in the root directory: the program runs in a root of its own."""
    jail = scen.BASE + b"/jail"
    os.makedirs(jail + b"/repo")
    with open(ctx.exe(), "rb") as f:
        world.write(jail + b"/nb", f.read())
    os.chmod(jail + b"/nb", 0o755)
    g = world.Gen(rng, jail, weird=0.05, special=0, big=0, odd_times=0.1, unreadable=False, hardlinks=0, links=0)
    own = (b"/repo", b"/nb")

    def nb(*args, cwd=None, **kw):
        return ctx.nb(*args, chroot=jail, cwd=cwd, exe="/nb", **kw)

    def snap():
        return {p[len(jail):]: e for p, e in world.snap(jail).items() if p != jail and not any(
            p == jail + o or p.startswith(jail + o + b"/") for o in own)}

    def plant(n):
        p = jail + b"/" + n
        k = rng.random()
        if k < 0.5:
            g.mkfile(p)
        elif k < 0.65:
            g.mklink(p, rng.choice(NAMES[:14]) + b"-nowhere")
        else:
            os.mkdir(p)
            for m in rng.sample(NAMES, rng.randrange(0, 4)):
                g.mkfile(p + b"/" + m)
            g.stamp(p, d=True)

    def shake():
        for n in rng.sample(names, rng.randrange(1, 5)):
            p = jail + b"/" + n
            if os.path.lexists(p):
                world.rmtree(p)
            if rng.random() < 0.7:
                plant(n)

    names = rng.sample([n for n in NAMES if b"\n" not in n], rng.randrange(4, 9)) + [b"re%d" % k for k in range(3)] + [b"xre1"]
    for n in names:
        if rng.random() < 0.85:
            plant(n)
    rules = {n: rng.choice([b"copy", b"mirror", b"track", b"track"]) for n in names if not n.startswith(b"re") and rng.random() < 0.6}
    expr = rng.choice([None, None, b"copy", b"mirror", b"track"])
    whole = rng.choice([None, None, b"copy", b"mirror", b"track"])
    lines = []
    for pol in (b"copy", b"mirror", b"track"):
        lines += [b"[" + pol + b"]"] + [b"/" + n + rng.choice([b"", b"/"]) for n in rules if rules[n] == pol]
        if expr == pol:
            lines.append(b"//^re[0-9]$")
        if whole == pol:
            lines.append(b"/")
    if not any(l.startswith(b"/") for l in lines):
        return None
    if whole:
        lines += [b"[ignore]", b"^/(repo|nb)$"]
    world.write(jail + b"/repo/config", b"\n".join(lines) + b"\n")

    def policy(p):
        n = p.split(b"/")[1]
        return rules.get(n) or (expr if n.startswith(b"re") else None) or whole

    snaps = 0
    for k in range(rng.randrange(1, 5)):
        r = nb(b"/repo" + rng.choice([b"", b"/"]), expect=0)
        if not os.path.lexists(jail + b"/repo/metadata"):
            if b"(y/n)" in r.out:
                ctx.fail("lost", "a confirmed backup leaves no metadata", run=r.brief())
            return None
        m = scen.read_meta(ctx, jail + b"/repo")
        exp, disk = metafmt.expected_tree(m, 0), snap()
        for p, e in disk.items():
            if policy(p) is None:
                if p in exp:
                    ctx.fail("top-level", "%r was recorded, which no rule names" % p, run=r.brief())
                continue
            d = ["is not recorded"] if p not in exp else scen.state_ent_diff(exp[p][0], e)
            if d:
                ctx.fail("top-level", "a backup of the root directory: %r %s" % (p, ", ".join(d)), run=r.brief())
            snaps += 1
        for p in exp:
            if p not in disk and policy(p) != b"copy":
                ctx.fail("top-level", "%r is recorded as existing" % p, run=r.brief())
        shake()
    ctx.count("top_level_paths_verified", snaps)
    n = max(len(m.times), 1)
    for k in range(requests):
        if k:
            shake()
        bid = rng.choice([0, 0, rng.randrange(n), rng.randrange(n)])
        exp = metafmt.expected_tree(m, bid)
        path = rng.choice([b""] + [p for p, _, _ in m.walk()])
        for p in exp:       # every difference can be noticed
            if os.path.isfile(jail + p) and not os.path.islink(jail + p):
                st = os.lstat(jail + p)
                if st.st_mtime_ns // 10**9 == exp[p][0].mtime and scen.state_ent_diff(exp[p][0], world.entry(jail + p, st)):
                    os.utime(jail + p, (st.st_atime, exp[p][0].mtime + 7))
        before = snap()
        cwd = rng.choice([None] + [p for p, e in before.items() if e.type == world.D and b"/" not in p[1:]])
        if path:
            args = [rng.choice([path, path[1:] if cwd is None else path]) + rng.choice([b"", b"/"])]
        else:
            args = rng.choice([[], [b"/"], [b"//"]])
        r = nb(rng.choice([b"/repo", b"/repo/", b"repo" if cwd is None else b"/repo"]), b"%d" % bid, *args, cwd=cwd)
        after = snap()
        ctx.count("evaluations")
        ctx.count("top_level_requests")
        ctx.seen("nontrivial", (i, k, bid, args, cwd))
        if path and path not in exp:
            if r.rc != 1:
                ctx.fail("not-refused", "restore of %r from backup %d of the root directory" % (path, bid), run=r.brief())
            ctx.count("requests_refused")
            unchanged(ctx, before, after, "restore of %r from backup %d" % (path, bid), r)
        elif r.rc != 0:
            ctx.fail("refused", "restore of %r from backup %d of the root directory" % (path, bid), run=r.brief())
        else:
            ctx.count("requests_served")
            scen.check_restored(ctx, m, bid, path, before, after, key="addressed")
    return {"rules": sorted(rules.items()), "expression": expr, "root": whole}
