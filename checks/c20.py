"""C20: restore addresses exactly the requested path and backup.

Trees full of similar names, restores requested with every spelling of path,
working directory and number, and malformed requests. Complete snapshots before
and after decide what was acted on."""
import os
import cfggen, metafmt, refmodel, scen, selection, toplevel, world

PROP = "C20"
VARIANTS = ["plain"]
CASES = {"quick": 1000, "thorough": 20000}
LEVEL = "exploration"
RULE = ("one evaluation = one restore request (path spelling, working directory, number, repository spelling) or malformed command line, judged by "
        "complete snapshots; non-trivial: something had to be restored or the request had to be refused; distinct by scenario and request")
REQUIRED = {"requests_served": 4000, "requests_refused": 2500, "relative_requests": 800, "unknown_paths": 1000, "malformed_lines": 800,
            "paths_missing_then": 100, "restored_paths_verified": 15000,
            "top_level_requests": 300, "top_level_paths_verified": 1500}
ASSUMPTIONS = ["paths with empty, '.' or '..' elements are not names of anything in a repository; such a request has to be refused or to mean what the system means by it"]

FAMILY = [b"foo", b"foobar", b"foo.txt", b"fo", b"f", b"foo ", b"Foo", b"fooo", b"foo-", b"bar", b"ba", b"barfoo", b"a", b"aa", b"aaa", b"ab", b"b",
          b"src", b"srcs", b"sr", b"top", b"0", b"00", b"1", b"gc", b"integrity", b"-", b"--", b"..a", b"...", b".a", b"\xff", b"x\ny", b" ", b"*"]
BADNUM = [b"-1", b"+1", b"1x", b"", b" 0", b"0 ", b"0x0", b"99999999999999999999", b"9223372036854775808", b"18446744073709551616", b"1\n", b"\n1", b"0\n0",
          b"1.0", b"1e0", b"O", b"gc ", b"GC", b"gcc", b"g", b"Integrity", b"integrit", b"integrityx", b"-", b"--help", b"restore", b"\xff", b"0,1", b"1-2", b"1/"]


def grow(g, rng, d, depth):
    for n in rng.sample(FAMILY, rng.randrange(2, 7)):
        p = d + b"/" + n
        if os.path.lexists(p):
            continue
        if depth and rng.random() < 0.5:
            os.mkdir(p)
            grow(g, rng, p, depth - 1)
        elif rng.random() < 0.15:
            g.mklink(p, rng.choice(FAMILY))
        else:
            g.mkfile(p)


def shake(s, rng, n):
    """Changes with a preference for the types of things and their existence."""
    g = s.gen
    for _ in range(n):
        if rng.random() < 0.4:
            g.mutate()
            continue
        p = g.pick()
        if p is None:
            continue
        if rng.random() < 0.6:
            world.rmtree(p)
        if rng.random() < 0.7 and not os.path.lexists(p):
            if rng.random() < 0.5:
                os.mkdir(p)
                grow(g, rng, p, 1)
            else:
                g.mkfile(p)


def spell(rng, path, cwds):
    """A spelling of PATH: (argument, working directory)."""
    cwd = rng.choice([None, b"/", b"/tmp"] + cwds)
    arg = path
    if cwd is not None and rng.random() < 0.7:
        real = os.path.realpath(cwd)
        if path == real:
            cwd = os.path.dirname(cwd)
            real = os.path.realpath(cwd)
        pre = real.rstrip(b"/") + b"/"
        if path.startswith(pre):
            arg = path[len(pre):]
    return arg + rng.choice([b"", b"", b"/", b"//", b"////"]), cwd


def wrong(rng, paths):
    """A path which is not in the repository."""
    known = set(paths)
    for _ in range(50):
        p = rng.choice(paths)
        k = rng.randrange(8)
        q = [p + rng.choice([b"x", b"/x", b" ", b"\n", b"/foo", b"/lost/and/found", b"\xff", b"o"]), p[:-1], p.replace(b"/src", b"/src/src", 1), p.replace(b"foo", b"fo", 1),
             p.replace(b"/", b"//", 1) + b"/./x", p + b"/..x", p[:rng.randrange(2, len(p))], scen.BASE + b"/" + os.path.basename(p)][k].rstrip(b"/")
        if len(q) > 1 and q.startswith(b"/") and q not in known and b"//" not in q and b"/./" not in q:
            return q
    return b"/tmp/w/lost"


def repo_spelling(rng, s, cwd):
    if rng.random() < 0.6:
        return s.repo
    if cwd is not None and rng.random() < 0.6:
        return os.path.relpath(s.repo, os.path.realpath(cwd)) + rng.choice([b"", b"/", b"//"])
    return rng.choice([s.repo + b"/", s.repo + b"//", b"//tmp/./w/repo", b"/tmp/w/../w/repo/."])


def compare(ctx, before, after, what, run):
    bad = []
    for p in sorted(set(before) | set(after)):
        if p == scen.BASE + b"/repo" or p == scen.BASE + b"/repo/lockfile":
            continue
        a, b = before.get(p), after.get(p)
        d = ["created or removed"] if a is None or b is None else world.untouched(a, b)
        if d:
            bad.append("%r: %s" % (p, ", ".join(d)))
    if bad:
        ctx.fail("changed-on-refusal", "%s was refused but changed something: %s" % (what, "; ".join(bad[:5])), run=run.brief())


def case(ctx, i, rng):
    if i % 10 == 7:
        return toplevel.case(ctx, i, rng)
    s = scen.Scene(ctx, rng, weird=0.05, special=0, big=0, odd_times=0.1, unreadable=False)
    grow(s.gen, rng, s.src, 2)
    if rng.random() < 0.5:
        rules = cfggen.rules(rng, s, links=0)
        s.config(cfggen.layout(rng, rules, []))
        if selection.Selection(rules).expected()[1]:
            s.simple_config(b"track")
    else:
        s.simple_config(rng.choice([b"track", b"track", b"track", b"copy", b"mirror"]))
    for k in range(rng.choice([1, 2, 3, 4])):
        s.normalise()
        if s.backup(expect=None).rc != 0:
            return None
        shake(s, rng, rng.randrange(1, 6))
        if not os.path.isdir(s.src):
            return None
    if not s.has_meta():
        return None
    m = s.meta()
    allp = sorted(p for p, _, _ in m.walk())
    mine = [p for p in allp if p.startswith(s.top)]
    if not mine:
        return None
    keep = b"/tmp/auxkeep"
    os.mkdir(scen.BASE + b"/elsewhere")
    os.symlink(s.top, scen.BASE + b"/link")
    shape = []
    n = max(len(m.times), 1)
    if os.path.lexists(keep):
        world.rmtree(keep)
    world.copy_tree(s.top, keep)
    try:
        for k in range(12 if ctx.tier == "quick" else 40):
            if os.path.lexists(s.top):
                world.rmtree(s.top)
            if rng.random() < 0.8:
                world.copy_tree(keep, s.top)
                cwds = [scen.BASE, scen.BASE + b"/link", scen.BASE + b"/elsewhere", s.top, s.src] + [
                    p for p in mine if os.path.isdir(p) and not os.path.islink(p)][:8]
            else:
                cwds = [scen.BASE, scen.BASE + b"/elsewhere"]
            kind = rng.choice(["good", "good", "good", "good", "good", "unknown", "unknown", "odd", "line", "line"])
            bid = rng.choice([0, 0, rng.randrange(n), rng.randrange(n), n, 1000]) if kind == "good" else 0
            if kind in ("good", "odd"):
                scen.unfollow(m, bid, rng, strong=True)
                scen.notice_restore(m, bid, rng)
            cwds = [c for c in cwds if os.path.isdir(c)]
            ctx.count("evaluations")
            if kind == "good":
                path = rng.choice(mine) if rng.random() < 0.85 else b""
                exp = metafmt.expected_tree(m, bid)
                if path:
                    arg, cwd = spell(rng, path, cwds)
                    args = [arg]
                else:
                    cwd = rng.choice([None] + cwds)
                    args = rng.choice([[], [], [b"/"], [b"//"], [b"///"]])
                number = rng.choice([b"%d" % bid, b"%d" % bid, b"0%d" % bid, b"000%d" % bid])
                repo = repo_spelling(rng, s, cwd)
                before = scen.snap_all()
                r = ctx.nb(repo, number, *args, cwd=cwd, expect=None)
                after = scen.snap_all()
                what = "restore %r in %r" % ((repo, number) + tuple(args), cwd)
                ctx.count("relative_requests", bool(args and not args[0].startswith(b"/")))
                ctx.seen("nontrivial", (i, k, number, args, cwd))
                if path and path not in exp:
                    ctx.count("paths_missing_then")
                    ctx.count("requests_refused")
                    if r.rc != 1 or not any(x in r.err for x in (b"didn't exist at the specified time", b"not a directory at the specified time")):
                        ctx.fail("not-refused", "%s: the path did not exist in that backup" % what, run=r.brief())
                    compare(ctx, before, after, what, r)
                    continue
                if r.rc != 0:
                    ctx.fail("refused", "%s failed" % what, run=r.brief())
                ctx.count("requests_served")
                scen.check_restored(ctx, m, bid, path, before, after, key="addressed")
                continue
            before = scen.snap_all()
            there = None
            if kind == "unknown":
                q = wrong(rng, allp)
                arg, cwd = spell(rng, q, cwds)
                args = [repo_spelling(rng, s, cwd), b"%d" % rng.randrange(n), arg]
                ctx.count("unknown_paths")
            elif kind == "odd":
                # other spellings: either refused or what the system understands
                p = rng.choice(mine)
                cwd = rng.choice(cwds)
                args = [s.repo, b"0", rng.choice([b"", b".", b"..", b"./" + os.path.basename(p), p.replace(b"/top", b"/./top", 1), p.replace(b"/top", b"//top", 1),
                                                 b"/" + p, p + b"/.", p + b"/..", p + b"/../" + os.path.basename(p)])]
            else:
                cwd = rng.choice([None, b"/"] + cwds)
                p = rng.choice(mine)
                args = rng.choice([[], [s.repo + b"x"], [b""], [s.repo + b"/config"], [scen.BASE + b"/elsewhere"], [scen.BASE + b"/elsewhere", b"0"],
                                   [scen.BASE + b"/elsewhere", b"gc"], [scen.BASE + b"/elsewhere", b"integrity"], [s.repo, b"gc", b"x"], [s.repo, b"gc", b"gc"],
                                   [s.repo, b"integrity", p], [s.repo, b"integrity", b""], [s.repo, b"0", p, p], [s.repo, b"0", p, b""],
                                   [s.repo, b"0", b"1", b"2", b"3"], [s.repo, p], [s.repo, p, b"0"], [b"0", s.repo]]
                                  + [[s.repo, b] + ([p] if rng.random() < 0.5 else []) for b in BADNUM])
                ctx.count("malformed_lines")
            if cwd is not None:
                there = os.path.realpath(cwd)
            r = ctx.nb(*args, cwd=cwd, expect=None)
            what = "%r in %r" % (args, cwd)
            ctx.seen("nontrivial", (i, k, args, cwd))
            after = scen.snap_all()
            if kind == "odd":
                if r.rc == 0:
                    full = os.path.normpath(os.path.join(there, args[2]))
                    full = b"/" + full.lstrip(b"/")
                    scen.check_restored(ctx, m, 0, b"" if full == b"/" else full, before, after, key="addressed")
                    ctx.count("requests_served")
                    continue
            elif r.rc != 1:
                ctx.fail("not-refused", "%s was accepted" % what, run=r.brief())
            if b"nb: error: " not in r.err:
                ctx.fail("not-refused", "%s was refused without a message" % what, run=r.brief())
            ctx.count("requests_refused")
            compare(ctx, before, after, what, r)
            shape.append((args, r.err[:80]))
    finally:
        if os.path.lexists(keep):
            world.rmtree(keep)
    return {"refused": shape[:4], "paths": len(allp)}
