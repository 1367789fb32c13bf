"""C10: files which change during a backup never end up as wrong stored data.

A backup is stopped between two system calls, files are changed under it, and
it goes on. Afterwards the metadata, if it was replaced, must be well-formed,
every stored file intact, the integrity check content, and the content recorded
for each file one which that file had at some moment of the run."""
import hashlib, os, stat
import crash, metafmt, refmodel, scen, sup, world

PROP = "C10"
VARIANTS = ["plain"]
CASES = {"quick": 365, "thorough": 5000}
LEVEL = "exploration"
RULE = ("one evaluation = one backup during which one to four changes were made at one or more chosen system calls; non-trivial: a changed path "
        "was part of the backup; distinct by scenario, system call and change")
REQUIRED = {"runs_disturbed": 1200, "completed_runs": 500, "refused_runs": 200, "contents_checked": 2500, "changes_during_reading": 300,
            "config_changes": 100, "changes_before_opening": 200, "targets_checked": 600, "config_rewrites": 150}
ASSUMPTIONS = ["the changes happen between system calls of the backup",
               "a changed file whose size and time in seconds stay the same is not expected to be noticed by later backups"]


def content(path):
    """(size, content as recorded) of a regular file, following links like open() does."""
    try:
        st = os.stat(path)
        if not stat.S_ISREG(st.st_mode):
            return None
        data = world.read(path)
    except OSError:
        return None
    return len(data), (world.b2(data) if len(data) > metafmt.HASH else data)


class Watch:
    """Which contents each path has had, those included which a file opened
    there got after it was moved elsewhere."""

    def __init__(self, top, config):
        self.top, self.ids, self.of, self.links, self.config = top, {}, {}, {}, config
        self.look()

    def note(self, p):
        c = content(p)
        if c is not None:
            st = os.stat(p)
            self.ids.setdefault(p, set()).add(st.st_ino)
            self.of.setdefault(st.st_ino, set()).add(c)

    def look(self):
        self.note(self.config)
        for d, ds, fs in os.walk(self.top):
            for f in fs + ds:
                p = d + b"/" + f
                if os.path.islink(p):
                    self.links.setdefault(p, set()).add(os.readlink(p))
                if os.path.islink(p) or not os.path.isdir(p):
                    self.note(p)

    def had(self, p):
        ids = self.ids.get(p, set()) | self.ids.get(os.path.realpath(os.path.dirname(p)) + b"/" + os.path.basename(p), set())
        return set().union(*(self.of[i] for i in ids))


def change(rng, s, p, watch, whole=False):
    """One change at path P. Returns its name."""
    kinds = ["rewrite", "rewrite-quiet", "truncate", "grow", "append", "replace", "replace-quiet", "remove", "todir", "tolink", "tolinkfile",
             "create", "rename", "swap", "emptied", "chmod", "removedir", "patch", "patch-quiet", "tofifo", "relink", "other", "other-quiet"]
    if whole:
        kinds = ["other", "other-quiet", "replace", "replace-quiet", "rewrite", "truncate", "grow"]
    if p == watch.config:
        kinds = ["emptied", "comment", "comment", "shorten", "rule", "replaced"]     # a rule is never cut: it would lead out of s.top
    if os.path.islink(p):
        kinds += ["relink"] * 20
    k = rng.choice(kinds)
    isf = os.path.isfile(p) and not os.path.islink(p)
    try:
        st = os.lstat(p)
    except OSError:
        st = None
    d = os.path.dirname(p)
    try:
        if k in ("rewrite", "rewrite-quiet", "patch", "patch-quiet") and isf:
            n = st.st_size
            with open(p, "r+b") as f:
                if k.startswith("patch") and n:
                    f.seek(rng.randrange(n))
                    f.write(bytes([rng.randrange(256)]))
                else:
                    f.write(rng.randbytes(n))
            if k.endswith("quiet"):
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
        elif k.startswith("other") and isf:     # other content of another size
            with open(p, "r+b") as f:
                n = rng.choice([st.st_size + 1, st.st_size + 7, st.st_size * 2 + 1, 19, 20, 21, max(0, st.st_size - 1), 4000])
                f.write(rng.randbytes(n))
                f.truncate(n)
            if k == "other-quiet":
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
        elif k == "truncate" and isf:
            os.truncate(p, rng.randrange(st.st_size + 1))
        elif k == "emptied" and isf:
            os.truncate(p, 0)
        elif k in ("grow", "append") and isf:
            with open(p, "ab") as f:
                f.write(rng.randbytes(rng.choice([1, 3, 20, 30, 5000])))
        elif k in ("replace", "replace-quiet") and st is not None and not stat.S_ISDIR(st.st_mode):
            world.write(d + b"/.new", rng.randbytes(st.st_size if rng.random() < 0.6 and isf else rng.randrange(9000)))
            if k == "replace-quiet":
                os.utime(d + b"/.new", ns=(st.st_atime_ns, st.st_mtime_ns))
            os.rename(d + b"/.new", p)
        elif k == "remove" and st is not None:
            world.rmtree(p)
        elif k == "todir" and isf:
            os.unlink(p)
            os.mkdir(p)
            world.write(p + b"/in", b"inside")
        elif k == "tolink" and st is not None:
            world.rmtree(p)
            os.symlink(rng.choice([b"nowhere", b"no where", b"lost/x"]), p)
        elif k == "tolinkfile" and isf:
            world.write(s.top + b"/other", rng.randbytes(st.st_size))
            os.unlink(p)
            os.symlink(s.top + b"/other", p)
        elif k == "tofifo" and isf:
            os.unlink(p)
            os.mkfifo(p)
        elif k == "relink" and os.path.islink(p):
            t = os.readlink(p)
            t = rng.choice([t[:-1], t + b"x", t[:len(t) // 2], t + b"/more" * 200, t[::-1], b"z" * len(t), b"n"]) or b"e"
            if rng.random() < 0.5:
                os.symlink(t, d + b"/.newlink")
                os.rename(d + b"/.newlink", p)
            else:
                os.unlink(p)
                os.symlink(t, p)
        elif k in ("comment", "shorten", "rule", "replaced"):
            t = world.read(p)
            if k == "comment":
                t = t.replace(b"\n", b"\n# this was added meanwhile\n", 1) if rng.random() < 0.5 else t + b"\n# at the end\n" * rng.choice([1, 400])
            elif k == "shorten":
                t = b"\n".join(t.split(b"\n")[:-2]) + b"\n"
            elif k == "rule":
                t += b"\n[ignore]\nsomething$\n"
            if k == "replaced":
                world.write(p + b".new", t + b"\n\n")
                os.rename(p + b".new", p)
            else:
                with open(p, "r+b") as f:
                    f.write(t)
                    f.truncate(len(t))
        elif k == "create":
            world.write(d + b"/created%d" % rng.randrange(5), rng.randbytes(rng.randrange(5000)))
        elif k == "rename" and st is not None:
            os.rename(p, d + b"/renamed%d" % rng.randrange(5))
        elif k == "swap" and isf:
            q = rng.choice(sorted(q for q in watch.ids if q != watch.config))
            if q != p and os.path.isfile(q) and not os.path.islink(q):
                os.rename(p, p + b"~")
                os.rename(q, p)
                os.rename(p + b"~", q)
        elif k == "chmod" and isf:
            os.chmod(p, rng.choice([0o600, 0, 0o777]))
        elif k == "removedir" and d != s.top and rng.random() < 0.3:
            world.rmtree(d)
        else:
            return None
    except OSError:     # not possible with what is at P now
        k = None
    watch.look()
    return k


def new_config(ctx, rng):
    """The configuration is rewritten in place while it is being read: what is
    recorded follows the old or the new one, but no part of one."""
    s = scen.Scene(ctx, rng, weird=0, special=0)
    names = [b"file%04d" % c for c in rng.sample(range(10000), rng.choice([4, 40, 300]))]
    paths = [s.src + b"/" + n for n in names]
    for p in paths:
        world.write(p, b"content of " + p)
    pol = rng.choice([b"copy", b"mirror", b"track"])

    def text(ps):
        return b"[" + pol + b"]\n" + b"".join(p + b"\n" for p in ps)
    few = rng.sample(paths, rng.randrange(1, len(paths) // 2 + 1))
    rest = [p for p in paths if p not in few]
    old, new = few, rest + few
    if rng.random() < 0.3:
        old, new = new, few if rng.random() < 0.5 else rest
    k = 0
    while True:
        s.config(text(old).split(b"\n")[:-1])
        conf = s.repo + b"/config"
        a, b = text(old), text(new)
        world.write(conf, a)
        if os.path.lexists(s.repo + b"/metadata"):
            os.unlink(s.repo + b"/metadata")
        c = sup.Control(ctx, [s.repo])
        n, done = 0, False
        while c.pending is not None:
            e = c.pending
            if not done and n == k:
                with open(conf, "r+b") as f:
                    f.truncate(0)
                    f.write(b)
                done = True
            if done:
                break
            c.step()
            n += e.p1 == conf
        if not done:
            c.finish()
            break
        r = c.finish()
        ctx.check_sane(r)
        k += 1
        ctx.count("evaluations")
        ctx.count("config_rewrites")
        ctx.seen("nontrivial", (names, k, len(old), len(new)))
        if r.rc == 0:
            m = crash.load(ctx, s.repo)
            got = sorted(p for p, n, _ in m.walk() if p in paths) if m else []
            if got not in (sorted(old), sorted(new)):
                ctx.fail("torn-config", "%d paths are recorded, the configuration named %d before and %d after it was rewritten at its access %d" % (
                    len(got), len(old), len(new), k), run=r.brief())
        elif os.path.lexists(s.repo + b"/metadata"):
            ctx.fail("failed-but-recorded", "the backup failed but recorded something", run=r.brief())
    return {"rewritten": k}


def case(ctx, i, rng):
    if i % 8 == 5:
        return new_config(ctx, rng)
    s = crash.pending_backup(ctx, rng, size=(3, 9), most=2, policies=i % 2 == 0)
    if s is None:
        return None
    s.config(s.cfg_text)
    saved, old = crash.save(s), crash.load(ctx, s.repo)
    keep = scen.BASE + b"/keep"
    world.copy_tree(s.top, keep)
    r, evs = sup.traced(ctx, s.repo)
    if r.rc != 0 or b"(y/n)" not in r.out:
        return None
    files = sorted({e.p1 for e in evs if e.p1.startswith(s.src + b"/")})
    conf = [e for e in evs if e.p1 == s.repo + b"/config"]
    opens = [e for e in evs if e.p1.startswith(s.src + b"/") and e.name == "open" and not os.path.isdir(e.p1)]
    lnk = [e for e in evs if e.p1.startswith(s.src + b"/") and e.name == "readlink"]
    hot = [e for e in evs if e.p1.startswith(s.src + b"/") and e.name in ("open", "read", "close", "lstat", "stat", "readlink")]
    reads = [e for e in evs if e.p1.startswith(s.src + b"/") and e.name in ("read", "close")]
    if not files:
        return None
    seen = []
    for _ in range(14 if ctx.tier == "quick" else 40):
        crash.reset(s, saved)
        if os.path.lexists(s.top):
            world.rmtree(s.top)
        world.copy_tree(keep, s.top)
        watch = Watch(s.top, s.repo + b"/config")
        during = whole = False
        if rng.random() < 0.4 and reads:
            e = rng.choice(reads)
            at, p, during = e.seq, e.p1, True
        elif rng.random() < 0.3 and opens:
            e = rng.choice(opens)
            at, p, whole = e.seq, e.p1, True
            ctx.count("changes_before_opening")
        elif rng.random() < 0.15 and conf:
            e = rng.choice(conf)
            at, p = e.seq + rng.choice([0, 0, 1]), e.p1
            ctx.count("config_changes")
        elif rng.random() < 0.15 and lnk:
            e = rng.choice(lnk)
            at, p = e.seq, e.p1
            ctx.count("link_changes")
        elif rng.random() < 0.6 and hot:
            e = rng.choice(hot)
            at, p = e.seq + rng.choice([0, 1]), e.p1
        else:
            at, p = rng.randrange(1, len(evs) + 1), rng.choice(files)
        c = sup.Control(ctx, [s.repo])
        ops = []
        more = rng.choice([1, 1, 1, 2, 4])
        while c.pending is not None and more:
            if c.pending.seq >= at:
                for _ in range(rng.choice([1, 1, 2])):
                    k = change(rng, s, p, watch, whole)
                    for _ in range(8):
                        if k is None:
                            k = change(rng, s, p, watch, whole)
                    if k:
                        ops.append((c.pending.seq, k, p))
                more -= 1
                at += rng.choice([1, 2, 5, 20])
                if rng.random() < 0.3:
                    p = rng.choice(files)
            if not more:
                break
            c.step(b"c")
        r = c.finish()
        ctx.check_sane(r)
        if not ops:
            continue
        seen.append(ops[0][1])
        ctx.count("evaluations")
        ctx.count("runs_disturbed")
        ctx.count("changes_during_reading", during)
        ctx.seen("nontrivial", (i, ops))
        ctx.seen("changes", [(k, r.rc) for _, k, _ in ops])
        what = "; ".join("%s %r at call %d" % (k, q, n) for n, k, q in ops)
        m = crash.load(ctx, s.repo)
        if r.rc != 0:
            ctx.count("refused_runs")
            if not crash.same_meta(m, old, False):
                ctx.fail("failed-but-recorded", "the backup failed but changed the metadata: " + what, run=r.brief())
            if m is not None:
                scen.audit(ctx, s.repo, m, exact=False)
        else:
            ctx.count("completed_runs")
            if m is None:
                if b"(y/n)" in r.out:
                    ctx.fail("nothing-recorded", "success without metadata: " + what, run=r.brief())
                continue
            scen.audit(ctx, s.repo, m, exact=b"(y/n)" in r.out)
            before = dict((q, [st for _, st in n.history]) for q, n, _ in old.walk()) if old else {}
            for q, n, _ in m.walk():
                if not q.startswith(s.top + b"/"):
                    continue
                for _, st in n.history:
                    if st.type == metafmt.LNK and not any(b.type == st.type and b.target == st.target for b in before.get(q, ())):
                        ctx.count("targets_checked")
                        if st.target not in watch.links.get(q, set()) | watch.links.get(os.path.realpath(os.path.dirname(q)) + b"/" + os.path.basename(q), set()):
                            ctx.fail("torn-target", "the target recorded for the link %r is none it had: %s" % (q, what), run=r.brief(), recorded=st.target)
                    if st.type != metafmt.REG or any(st.content == b.content and st.size == b.size for b in before.get(q, ()) if b.type == st.type):
                        continue
                    ctx.count("contents_checked")
                    if (st.size, st.content) not in watch.had(q):
                        ctx.fail("torn-content", "the content recorded for %r is none it had: %s" % (q, what), run=r.brief(),
                                 recorded=(st.size, st.content), had=watch.had(q))
            if metafmt.needed_blobs(m) and rng.random() < 0.4:
                g = ctx.nb(s.repo, "integrity", expect=0)
        # the dust has settled: an ordinary backup works again
        if i % 2 and os.path.isdir(s.src) and rng.random() < 0.5:
            if world.read(watch.config) != s.cfg_text:
                s.config(s.cfg_text)
            r = ctx.nb(s.repo, expect=None)
            if r.rc != 0:
                ctx.fail("not-resumed", "the next backup fails after: " + what, run=r.brief())
            if crash.load(ctx, s.repo):
                scen.audit(ctx, s.repo, crash.load(ctx, s.repo), exact=False)
    return {"changes": seen, "events": len(evs)}
