"""C25: repositories can be moved, copied, synchronised and addressed by any path.

A repository which wanders between commands and is addressed by ever different
spellings lives next to a twin which always is the same path: both have to say,
record and restore the same. Copies of several kinds are continued separately
and synchronised as documented, with the real cp(1); the result has to be the
newer repository, nothing more and nothing less."""
import os, shutil, subprocess

import cfggen, crash, metafmt, refmodel, scen, selection, world

PROP = "C25"
VARIANTS = ["plain", "asan"]
CASES = {"quick": 1000, "thorough": 20000}
LEVEL = "exploration"
RULE = ("one evaluation = one command on a repository which was moved, copied, synchronised or is addressed in an unusual way; non-trivial: the repository is "
        "elsewhere than it was created or the spelling is not its plain path; distinct by spelling, command and metadata")
REQUIRED = {"twin_commands": 1600, "moved": 600, "copied": 800, "synchronised": 350, "diverged": 180, "shared_files_kept_apart": 150, "restored_paths_verified": 6000,
            "continued_after_sync": 300, "other_filesystem": 300}
ASSUMPTIONS = ["no two contents have the same checksum", "cp(1) of this system does what its documentation says"]

NAMES = [b"repo", b"r", b"gc", b"integrity", b"0", b"with space", b"l\nf", b"\xff\xfe", b"-rf", b"config", b"metadata", b"n" * 200, b"..x", b"%s", b"$HOME", b"[a]*"]
PLACES = [scen.BASE + b"/places", scen.BASE + b"/other/deep/er", b"/dev/shm/p", b"/var/tmp/p"]


def spelling(ctx, rng, repo):
    """A way to address REPO: (argument, working directory)."""
    d, name = os.path.split(repo)
    k = rng.choice(["plain", "slash", "slashes", "double", "rel", "reldot", "up", "link", "linkchain", "rellink", "dot", "inside", "proc", "long"])
    cwd = rng.choice([b"/", scen.BASE, b"/tmp"])
    arg = repo
    if k == "slash":
        arg = repo + b"/"
    elif k == "slashes":
        arg = repo + b"/" * rng.choice([2, 3, 50])
    elif k == "double":
        arg = repo.replace(b"/", b"//")
    elif k == "rel":
        cwd = rng.choice([d, os.path.dirname(d)])
        arg = os.path.relpath(repo, cwd)
        if arg.startswith(b"-") and rng.random() < 0.5:
            arg = b"./" + arg
    elif k == "reldot":
        cwd, arg = d, b"./" * rng.choice([1, 2]) + name + rng.choice([b"", b"/", b"/."])
    elif k == "up":
        cwd = rng.choice([scen.BASE, b"/tmp", d])
        arg = os.path.relpath(repo, cwd)
        arg = rng.choice([arg, repo + b"/../" + name, d + b"/../" + os.path.basename(d) + b"/" + name])
    elif k in ("link", "linkchain", "rellink"):
        ln = scen.BASE + b"/ln"
        for x in (ln, ln + b"2"):
            if os.path.lexists(x):
                os.unlink(x)
        if k == "rellink":
            os.symlink(os.path.relpath(repo, scen.BASE), ln)
        else:
            os.symlink(repo, ln)
        arg = ln
        if k == "linkchain":
            os.symlink(b"ln", ln + b"2")
            arg = ln + b"2"
        arg += rng.choice([b"", b"/"])
    elif k == "dot":
        cwd, arg = repo, rng.choice([b".", b"./", b"././."])
    elif k == "inside":
        sub = repo + b"/" + rng.choice([n for n in os.listdir(repo) if os.path.isdir(repo + b"/" + n)] or [b"."])
        cwd, arg = sub, b".." if sub != repo + b"/." else b"."
    elif k == "proc":
        cwd, arg = repo, b"/proc/self/cwd"
    elif k == "long":
        arg = d + b"/." * 400 + b"/" + name
    ctx.seen("spellings", k)
    return arg, cwd


def duplicate(rng, src, dst, kind=None):
    """Copies a repository. Returns what kind of copy it is."""
    kind = kind or rng.choice(["archive", "plain", "links", "tar", "bytes"])
    if kind == "archive":
        subprocess.run([b"cp", b"-a", b"--", src, dst], check=True, stderr=subprocess.DEVNULL)
    elif kind == "plain":
        subprocess.run([b"cp", b"-r", b"--", src, dst], check=True, stderr=subprocess.DEVNULL)
    elif kind == "links":
        if os.stat(src).st_dev == os.stat(os.path.dirname(dst)).st_dev:
            subprocess.run([b"cp", b"-al", b"--", src, dst], check=True, stderr=subprocess.DEVNULL)
        else:
            kind = "archive"
            subprocess.run([b"cp", b"-a", b"--", src, dst], check=True, stderr=subprocess.DEVNULL)
    elif kind == "tar":
        os.mkdir(dst)
        p = subprocess.run([b"tar", b"-C", src, b"-cf", b"-", b"."], check=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        subprocess.run([b"tar", b"-C", dst, b"-xf", b"-"], check=True, input=p.stdout, stderr=subprocess.DEVNULL)
    else:
        for d, sub, files in os.walk(src):
            to = dst + d[len(src):]
            os.mkdir(to)
            for f in sorted(files, reverse=True):
                world.write(to + b"/" + f, world.read(d + b"/" + f))
                t = rng.randrange(2**31)
                os.utime(to + b"/" + f, (t, t))
                os.chmod(to + b"/" + f, rng.choice([0o644, 0o600, 0o444, 0o755]))
    return kind


def stored(repo):
    return {p[len(repo):]: (e.type, e.size, e.digest or e.small) for p, e in world.snap(repo, content=True).items() if p != repo and not p.endswith(b"/lockfile")}


def relevant(repo):
    """Everything but the metadata, whose bytes hold times."""
    return {p: v for p, v in stored(repo).items() if p != b"/metadata" and v[0] == world.F}


def place(rng):
    d = rng.choice(PLACES)
    os.makedirs(d, exist_ok=True)
    while True:
        p = d + b"/" + rng.choice(NAMES)
        if not os.path.lexists(p):
            return p
        p = d + b"/%d" % rng.randrange(10**9)
        if not os.path.lexists(p):
            return p


def same(ctx, a, b, what):
    ma, mb = crash.load(ctx, a), crash.load(ctx, b)
    if (ma is None) != (mb is None) or ma is not None and (crash.normal(ma) != crash.normal(mb) or len(ma.times) != len(mb.times)):
        ctx.fail("twin", "%s: the repositories record different things: %r" % (what, crash.difference(ma, mb)))
    if relevant(a) != relevant(b):
        x, y = relevant(a), relevant(b)
        ctx.fail("twin", "%s: the repositories store different files: %r" % (what, sorted(set(x.items()) ^ set(y.items()))[:4]))


def configure(ctx, s, rng):
    if rng.random() < 0.5:
        rs = cfggen.rules(rng, s, missing=0.05)
        exp, amb, unr = selection.Selection(rs).expected()
        if not (amb or unr):
            s.config(cfggen.layout(rng, rs, [], ()))
            return
    s.simple_config(rng.choice([b"track", b"copy", b"mirror"]))


def setup(ctx, rng):
    s = scen.Scene(ctx, rng, special=0.02, odd_times=0.2, big=0.02, weird=0.1)
    s.gen.fill(rng.randrange(3, 10), 2)
    configure(ctx, s, rng)
    return s


def clean():
    for d in (b"/dev/shm/p", b"/var/tmp/p"):
        if os.path.lexists(d):
            world.rmtree(d)


def wander(ctx, i, rng):
    s = setup(ctx, rng)
    var = "asan" if i % 6 == 0 else "plain"
    w = place(rng)
    os.mkdir(w)
    world.write(w + b"/config", s.cfg_text)
    steps = []
    for k in range(rng.randrange(4, 9)):
        op = rng.random()
        if op < 0.45:
            to = place(rng)
            if os.stat(os.path.dirname(to)).st_dev != os.stat(w).st_dev:
                duplicate(rng, w, to)
                world.rmtree(w)
                ctx.count("other_filesystem")
            else:
                os.rename(w, to)
            w = to
            ctx.count("moved")
        elif op < 0.8:
            to = place(rng)
            kind = duplicate(rng, w, to)
            old, w = w, to
            ctx.count("copied")
            if kind == "links" or rng.random() < 0.3:
                keep = stored(old)
            else:
                world.rmtree(old)
                keep = None
        if op >= 0.8 or op < 0.45:
            keep = None
        cmd = rng.choice(["backup", "backup", "backup", "restore", "restore", "gc", "integrity", "decline"])
        if not s.has_meta():
            cmd = "backup"
        arg, cwd = spelling(ctx, rng, w)
        kw = dict(variant=var, cwd=cwd, expect=None)
        ctx.count("evaluations")
        steps.append((cmd, arg[-60:]))
        if cmd in ("backup", "decline"):
            s.mutate(rng.randrange(0, 4))
            if not os.path.isdir(s.src):
                break
            if rng.random() < 0.2:
                configure(ctx, s, rng)
                os.unlink(w + b"/config")
                world.write(w + b"/config", s.cfg_text)
            s.normalise()
            args, inp = [], b"y\n" if cmd == "backup" else b"n\n"
        elif cmd == "restore":
            m = s.meta()
            bid = rng.randrange(max(len(m.times), 1))
            s.mutate(rng.randrange(0, 4))
            scen.unfollow(m, bid, rng, strong=True)
            scen.notice_restore(m, bid, rng)
            args, inp = [b"%d" % bid], b"y\n"
            paths = sorted(p for p in metafmt.expected_tree(m, bid) if p.startswith(s.top))
            if paths and rng.random() < 0.3:
                args.append(rng.choice(paths))
        else:
            args, inp = [b"gc" if cmd == "gc" else b"integrity"], b"y\n"
        if cmd == "restore":
            if not os.path.isdir(s.src) or scen.aliased(m, bid):
                break
            # the twin only answers the question, the other one acts
            t = ctx.nb(s.repo, *args, stdin=b"n\n", variant=var)
            before = {p: e for p, e in scen.snap_all().items() if not scen.under(p, w)}
            r = ctx.nb(arg, *args, stdin=inp, **kw)
            after = {p: e for p, e in scen.snap_all().items() if not scen.under(p, w)}
            if r.rc != 0 and b"(y/n)" in r.out or t.rc not in (0, 1):
                ctx.fail("twin", "restore through %r failed" % arg[-80:], run=r.brief())
            if (r.out, r.err) != (t.out, t.err) and b"(y/n)" not in t.out:
                ctx.fail("twin", "restore says something else through %r" % arg[-80:], run=r.brief(), twin=t.brief())
            if r.rc == 0:
                scen.check_restored(ctx, m, bid, args[1] if len(args) > 1 else b"", before, after)
        else:
            t = ctx.nb(s.repo, *args, stdin=inp, variant=var)
            r = ctx.nb(arg, *args, stdin=inp, **kw)
            if (r.rc, r.out.replace(w, s.repo), scrub(r.err)) != (t.rc, t.out, scrub(t.err)):
                ctx.fail("twin", "%s says something else through %r" % (cmd, arg[-80:]), run=r.brief(), twin=t.brief())
            if r.rc == 0 and cmd == "gc" and s.has_meta():
                scen.audit(ctx, w, scen.read_meta(ctx, w))
        ctx.count("twin_commands")
        if r.rc == 0 or cmd == "integrity":
            same(ctx, s.repo, w, "%s through %r" % (cmd, arg[-80:]))
        if os.path.lexists(w + b"/metadata"):
            ctx.seen("nontrivial", (cmd, arg, cwd, world.read(w + b"/metadata")))
        if keep is not None:
            if stored(old) != keep:
                ctx.fail("copies", "%s on a copy changed the original: %r" % (cmd, sorted(set(stored(old).items()) ^ set(keep.items()))[:4]), run=r.brief())
            ctx.count("shared_files_kept_apart")
            world.rmtree(old)
            keep = None
    clean()
    return {"steps": steps}


def scrub(err):
    """Errors name the repository as it was given."""
    return [l.split(b': "')[0] if l.startswith(b"nb: error") else l for l in err.split(b"\n")]


def sync(ctx, i, rng):
    s = setup(ctx, rng)
    for _ in range(rng.randrange(0, 3)):
        s.normalise()
        if s.backup(expect=None).rc:
            return None
        s.mutate(rng.randrange(1, 5))
        if not os.path.isdir(s.src):
            return None
    s.normalise()
    old = place(rng)
    duplicate(rng, s.repo, old, rng.choice(["archive", "plain", "tar"]))
    ctx.count("copied")

    def go_on(repo, n):
        for _ in range(n):
            if not os.path.isdir(s.src):
                return False
            s.mutate(rng.randrange(1, 6))
            if not os.path.isdir(s.src):
                return False
            if rng.random() < 0.2 and repo == s.repo:
                configure(ctx, s, rng)
            # content changes must be noticed by both
            for p, e in s.source(content=False).items():
                if e.type == world.F and rng.random() < 0.3:
                    t = s.gen.new_mtime(p)
                    os.utime(p, ns=(t, t))
            keep, s.repo = s.repo, repo
            s.normalise()
            s.repo = keep
            r = s.backup(repo=repo, expect=None)
            if r.rc:
                return False
        return True
    mixed = rng.random() < 0.55
    for _ in range(rng.randrange(1, 3)):
        if not go_on(s.repo, rng.randrange(1, 3)):
            clean()
            return None
        if mixed and not go_on(old, rng.randrange(1, 3)):
            clean()
            return None
    ctx.count("diverged", mixed)
    if rng.random() < 0.15:
        world.write(rng.choice([s.repo, old]) + b"/tmp-file", b"left over")
    if not s.has_meta():
        clean()
        return None
    m = s.meta()
    # as documented
    sh = 'cp -rn "$1"/* "$2"/; cp "$1"/{config,metadata} "$2"/'
    if rng.random() < 0.25:
        # interrupted between two files, and repeated
        names = [n for n in os.listdir(s.repo) if os.path.isdir(s.repo + b"/" + n)]
        for n in rng.sample(names, rng.randrange(len(names) + 1)):
            subprocess.run([b"cp", b"-rn", s.repo + b"/" + n, old + b"/"], check=True, stderr=subprocess.DEVNULL)
        r = ctx.nb(old, b"integrity")
        ctx.count("evaluations")
        if os.path.lexists(old + b"/metadata") and r.rc:
            ctx.fail("sync", "the older copy is damaged after half of a synchronisation", run=r.brief())
    p = subprocess.run(["bash", "-c", sh, "sh", s.repo, old], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError(p.stdout)
    arg, cwd = spelling(ctx, rng, old)
    r = ctx.nb(arg, b"gc", cwd=cwd, expect=0)
    ctx.count("evaluations")
    ctx.count("synchronised")
    if world.read(old + b"/metadata") != world.read(s.repo + b"/metadata") or world.read(old + b"/config") != world.read(s.repo + b"/config"):
        ctx.fail("sync", "a collection changed metadata or configuration", run=r.brief())
    scen.audit(ctx, old, m, exact=True, key="sync")
    r = ctx.nb(old, b"integrity")
    if r.rc:
        ctx.fail("sync", "the synchronised copy does not verify", run=r.brief())
    ctx.seen("nontrivial", ("sync", world.read(old + b"/metadata"), mixed))
    # it restores what the original restores
    b = rng.randrange(max(len(m.times), 1))
    s.mutate(2)
    scen.unfollow(m, b, rng, strong=True)
    if not os.path.isdir(s.src) or scen.aliased(m, b):
        clean()
        return {"diverged": mixed}
    scen.notice_restore(m, b, rng)
    before = {p: e for p, e in scen.snap_all().items() if not scen.under(p, old)}
    r = s.restore(b, repo=old, expect=None)
    after = {p: e for p, e in scen.snap_all().items() if not scen.under(p, old)}
    if r.rc == 0:
        scen.check_restored(ctx, m, b, b"", before, after)
    else:
        ctx.fail("sync", "the synchronised copy can not be restored", run=r.brief())
    # and goes on like the original
    if not os.path.isdir(s.src):
        clean()
        return None
    s.gc()
    s.mutate(rng.randrange(1, 5))
    if os.path.isdir(s.src):
        s.normalise()
        t, r = ctx.nb(s.repo), ctx.nb(old)
        if (t.rc, t.out) != (r.rc, r.out):
            ctx.fail("sync", "original and synchronised copy report different things", run=r.brief(), twin=t.brief())
        if r.rc == 0:
            same(ctx, s.repo, old, "backup after a synchronisation")
            ctx.count("continued_after_sync")
    clean()
    return {"diverged": mixed, "backups": len(m.times)}


def case(ctx, i, rng):
    return wander(ctx, i, rng) if i % 5 < 2 else sync(ctx, i, rng)
