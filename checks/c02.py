"""C02: restore repairs a modified tree in place and touches nothing else.

Monitor: complete snapshots (lstat, content, inode, ctime) of the scratch space
before and after the restore, judged by scen.check_restored against the states
the metadata holds (read by the independent parser)."""
import os
import cfggen, metafmt, refmodel, scen, selection, world

PROP = "C02"
VARIANTS = ["plain"]
CASES = {"quick": 4000, "thorough": 80000}
LEVEL = "exploration"
RULE = ("one to three backups of a random tree under a random configuration, then ordinary and hostile modifications (type changes, links "
        "to victims outside, special files, set-id bits, ownership) and a restore of everything or of one path from a random backup; every "
        "path of the scratch space is compared before/after. Non-trivial: the restore changed something; distinct by its report.")
REQUIRED = {"several_names": 1000, "restored_paths_verified": 5000, "hostile_changes": 2000, "single_path_restores": 200}
ASSUMPTIONS = ["content changes come with a changed size or whole-second timestamp",
               "a symlink to a directory in place of a recorded directory is followed by design and not generated"]


def case(ctx, i, rng):
    user = 1000 if i % 5 == 4 else None
    ctx.umask = 0o022 if user else rng.choice([0o022, 0, 0o002, 0o077, 0o777])
    kw = dict(ids=False, odd_times=0.1, unreadable=False) if user else {}
    s = scen.Scene(ctx, rng, weird=rng.choice([0, 0.2]), big=0.02, **kw)
    s.gen.fill(rng.randrange(3, 12), 3)
    if user:
        s.ids = [0]
        for p in list(world.snap(scen.BASE, content=False)):
            os.lchown(p, user, user)
        # chown clears set-id bits and link times do not matter
    rules = cfggen.rules(rng, s, links=0)
    s.config(cfggen.layout(rng, rules, cfggen.exprs(rng, cfggen.FULL, 0.4)))
    if selection.Selection(rules).expected()[1]:
        s.simple_config(rng.choice([b"copy", b"mirror", b"track"]))
    if user:
        return as_user(ctx, s, rng, user)
    for k in range(rng.choice([1, 1, 2, 3])):
        if k:
            s.mutate(rng.randrange(1, 6))
        s.normalise()
        r = s.backup(expect=None)
        if r.rc != 0:
            return None
    if not s.has_meta():
        return None
    m = s.meta()
    bid = rng.choice([0, 0, rng.randrange(max(len(m.times), 1))])
    return modify_and_restore(ctx, s, rng, m, bid)


def modify_and_restore(ctx, s, rng, m, bid, user=None):
    exp = metafmt.expected_tree(m, bid)
    path, args = b"", []
    below = sorted(p for p in exp if p.startswith(s.top))
    if below and rng.random() < 0.4:
        path = rng.choice(below)
        ctx.count("single_path_restores")
        args = [path]
    if user is None or rng.random() < 0.5:
        mut = s.mutate(rng.randrange(0, 5))
        host = scen.hostile(s, m, bid, rng.randrange(0, 8))
    else:
        mut = [s.gen.mutate() for _ in range(3)]
        host = []
    if rng.random() < 0.1:
        s.set_aside(rng.choice([s.top, s.src]))
    scen.unfollow(m, bid, rng)
    scen.notice_restore(m, bid, rng)
    if user:
        for p, e in world.snap(scen.BASE, content=False).items():
            if e.uid != user:
                os.lchown(p, user, user)
            if e.type != world.L:
                os.chmod(p, e.mode & 0o7777 | (0o700 if e.type == world.D else 0o400))
    ctx.count("hostile_changes", len(host))
    before = scen.snap_all()
    r = s.restore(bid, *args, user=user)
    after = scen.snap_all(skip=())
    scen.check_restored(ctx, m, bid, path, before, after)
    ctx.count("several_names", sum(e.nlink > 1 for e in before.values() if e.type != world.D))
    ctx.count("evaluations")
    if b"(y/n)" in r.out:
        ctx.seen("nontrivial", r.out)
    return {"path": path, "backup": bid, "changes": (mut + host)[:8], "report": r.out[:300]}


def as_user(ctx, s, rng, user):
    """The same without privileges, everything owned by the user."""
    s.normalise()
    for p, e in world.snap(scen.BASE, content=False).items():
        if e.type == world.F:
            os.chmod(p, rng.choice([0o644, 0o4755, 0o2755, 0o600, 0o755, 0o444]))
        elif e.type == world.D and p not in (scen.BASE, s.repo):
            os.chmod(p, rng.choice([0o755, 0o700, 0o2755, 0o555, 0o1755]))
    r = s.backup(user=user, expect=None)
    if r.rc or not s.has_meta():
        return None
    ctx.count("unprivileged_restores")
    return modify_and_restore(ctx, s, rng, s.meta(), 0, user)
