"""C22: a restore from damaged storage never passes off wrong content as success.

Stored files are damaged in every way; which of them a restore needs is decided
by the executable model of a restore, and what they still hold by opening them
independently. Exit status, message and every restored byte are compared."""
import os, stat, subprocess

import crash, damage, metafmt, refmodel, scen, world

PROP = "C22"
VARIANTS = ["plain", "o0"]
CASES = {"quick": 420, "thorough": 12000}
LEVEL = "exploration"
RULE = ("one evaluation = one restore from a repository with damaged stored files; non-trivial: a stored file which the restore needs is damaged; "
        "distinct by scenario, selection and damage")
REQUIRED = {"refused_restores": 800, "completed_despite_damage": 250, "damage_not_needed": 250, "altered_contents_restored": 200,
            "completed_after_repair": 250, "unreadable_files": 20, "files_left_as_they_were": 300}
ASSUMPTIONS = ["a stored file with altered bytes of the right number is restored as it is held; finding such damage is the integrity check's task (C13)"]


def held(path, size, user):
    """The first SIZE bytes which opening PATH yields, or None."""
    try:
        st = os.stat(path)
    except OSError:
        return None
    if not stat.S_ISREG(st.st_mode) or st.st_size < size:
        return None
    if user and not readable(path):
        return None
    return world.read(path)[:size]


def readable(path):
    while path != scen.BASE:
        st = os.stat(path)
        if st.st_mode & (0o100 if stat.S_ISDIR(st.st_mode) else 0o400) == 0:
            return False
        path = os.path.dirname(path)
    return True


def own(top, user):
    for p, e in world.snap(top, content=False).items():
        os.lchown(p, user, user)
        if e.type in (world.F, world.D):
            os.chmod(p, (e.mode & 0o7777) | (0o500 if e.type == world.D else 0o400))


def case(ctx, i, rng):
    user = 1000 if i % 7 == 6 else None
    kw = dict(ids=False) if user else {}
    s = crash.pending_backup(ctx, rng, size=(3, 14), most=4, policies=i % 3 == 0, unreadable=False, weird=rng.choice([0, 0.3]), **kw)
    if s is None or not os.path.isdir(s.src):
        return None
    if rng.random() < 0.6:
        for k in range(rng.randrange(1, 4)):
            d = s.gen.content(rng.choice([21, 100, 4096, 4097, 9000]))
            for n in range(rng.randrange(1, 3)):
                p = s.src + b"/shared%d-%d" % (k % 2, n)
                if not os.path.isdir(p) or os.path.islink(p):
                    if os.path.lexists(p):
                        os.unlink(p)
                    world.write(p, d)
            s.normalise()
            s.backup(expect=None)
    if user:
        own(s.top, user)
    s.backup(expect=None)
    if not s.has_meta():
        return None
    if user:
        own(s.repo, user)
        os.chmod(s.top, 0o755)
        os.chmod(scen.BASE, 0o777)
    meta = s.meta()
    blobs = damage.stored(s.repo, meta)
    if not blobs:
        return None
    saved = crash.save(s)
    tree = scen.BASE + b"/tree"
    os.rename(s.top, tree)
    seen = []
    for k in range(8 if ctx.tier == "quick" else 25):
        crash.reset(s, saved)
        if user:
            own(s.repo, user)
        if os.path.lexists(s.top):
            world.rmtree(s.top)
        bid = rng.choice([0, 0, rng.randrange(len(meta.times) + 1)])
        exp = metafmt.expected_tree(meta, bid)
        path = rng.choice([b"", b"", s.top, None])
        if path is None:
            path = rng.choice(sorted(p for p in exp if p.startswith(s.top)) or [b""])
        if user and any((st.uid, st.gid) != (user, user) for p, (st, _) in exp.items() if p.startswith(s.top)):
            continue        # what only root can restore
        if rng.random() < 0.6:
            subprocess.run([b"cp", b"-a", tree, s.top], check=True)
            for p in sorted(exp):
                if p.startswith(s.top) and os.path.isfile(p) and not os.path.islink(p) and rng.random() < 0.4:
                    os.unlink(p)
            scen.unfollow(meta, bid, rng, strong=True)
            scen.notice_restore(meta, bid, rng)
            if scen.aliased(meta, bid):
                continue
        try:
            _, ch, model = refmodel.restore_report(meta, bid, path)
        except refmodel.Dies:
            continue
        need, left = {}, 0
        stack = list(model.nodes)
        while stack:
            n = stack.pop()
            stack.extend(n.subnodes)
            if n.path not in exp:
                continue
            st = exp[n.path][0]
            b = metafmt.blob_name(st)
            h = refmodel.nopol(n.hint)
            if b is not None:
                if refmodel.H_added == h or refmodel.H_r2l <= h <= refmodel.H_o2d or (h & refmodel.H_content and n.policy != 0):
                    need.setdefault(b, []).append(n.path)
                else:
                    left += 1
        did = []
        pool = rng.choice([blobs, blobs, sorted(need) or blobs, sorted(set(blobs) - set(need)) or blobs])
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            if user and rng.random() < 0.5:
                b = rng.choice(pool)
                q = s.repo + b"/" + b
                if os.path.isfile(q) and not os.path.islink(q):
                    os.chmod(q if rng.random() < 0.8 else os.path.dirname(q), 0)
                    did.append(("unreadable", b))
                    ctx.count("unreadable_files")
                continue
            x = damage.damage(rng, s.repo, pool, rng.choice([damage.KINDS, damage.KINDS, damage.QUIET + ["long"]]))
            if x:
                did.append(x)
        if user:
            for p, e in world.snap(s.repo, content=False).items():
                os.lchown(p, user, user)
        bad, altered = {}, {}
        for b, ps in need.items():
            size = int(b.split(b"x")[1], 16)
            c = held(s.repo + b"/" + b, size, user)
            if c is None:
                bad[b] = ps
            elif not damage.healthy(s.repo, b):
                altered[b] = c
        before = world.snap(scen.BASE, skip=(s.repo,))
        var = rng.choice(["plain", "plain", "o0"])
        r = s.restore(bid, path, expect=None, user=user, variant=var)
        after = world.snap(scen.BASE, skip=(s.repo,))
        ctx.count("evaluations")
        ctx.count("files_left_as_they_were", left)
        if set(b for _, b in did) - set(need):
            ctx.count("damage_not_needed")
        if bad:
            ctx.count("refused_restores")
            ctx.seen("nontrivial", (i, bid, path, sorted(did)))
            if r.rc != 1:
                ctx.fail("passed-off", "needed stored files are broken but the exit status is %d" % r.rc, run=r.brief(), damage=did, broken=bad)
            if not any(b"\"" + p + b"\"" in r.err for ps in bad.values() for p in ps):
                ctx.fail("unnamed", "the message names no affected path", run=r.brief(), damage=did, broken=bad)
            for b, ps in bad.items():
                for p in ps:
                    e = after.get(p)
                    if e is not None and e.type == world.F and not scen.state_ent_diff(exp[p][0], e) and (
                            before.get(p) is None or before[p].ino != e.ino or scen.state_ent_diff(exp[p][0], before[p])):
                        ctx.fail("passed-off", "%r looks like it was restored" % p, run=r.brief(), damage=did)
            if rng.random() < 0.6:
                crash.reset(s, saved)
                if user:
                    own(s.repo, user)
                scen.notice_restore(meta, bid, rng)
                scen.unfollow(meta, bid, rng, strong=True)
                before = world.snap(scen.BASE, skip=(s.repo,))
                r = s.restore(bid, path, expect=None, user=user, variant=var)
                if r.rc != 0:
                    ctx.fail("repaired", "a restore after the repair of the repository failed", run=r.brief(), damage=did)
                scen.check_restored(ctx, meta, bid, path, before, world.snap(scen.BASE, skip=(s.repo,)), key="repaired")
                ctx.count("completed_after_repair")
        else:
            if r.rc != 0:
                ctx.fail("needlessly-refused", "all needed stored files can be read but the restore failed", run=r.brief(), damage=did, needed=need)
            m = meta
            if altered:
                ctx.seen("nontrivial", (i, bid, path, sorted(did)))
                m = metafmt.parse(world.read(saved + b"/metadata"))
                nodes = m.paths()
                for b, c in altered.items():
                    for p in need[b]:
                        n = nodes[p]
                        n.history[:] = [(k_, st._replace(content=world.b2(c)) if metafmt.blob_name(st) == b else st) for k_, st in n.history]
                        ctx.count("altered_contents_restored")
            scen.check_restored(ctx, m, bid, path, before, after)
            ctx.count("completed_despite_damage", bool(did))
        seen += did[:2]
    return {"stored": len(blobs), "damage": seen[:6]}
