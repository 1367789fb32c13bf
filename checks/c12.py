"""C12: garbage collection removes exactly what no recorded version needs.

Repositories with histories get all kinds of foreign things planted, then a
collection (or a backup with changes) runs. A complete snapshot afterwards is
compared with what an independent reader of the metadata says is needed."""
import os, re, socket

import crash, metafmt, refmodel, scen, term, world

PROP = "C12"
VARIANTS = ["plain", "weaksip"]
CASES = {"quick": 1200, "thorough": 20000}
LEVEL = "exploration"
RULE = ("one evaluation = one garbage collection, or one backup with changes, in a repository with foreign files, directories, links and leftovers; "
        "non-trivial: something had to be removed; distinct by scenario and what was planted")
REQUIRED = {"collections": 1500, "backups_collected": 150, "foreign_items_planted": 9000, "foreign_items_removed": 9000, "stored_files_kept": 6000,
            "unneeded_versions_removed": 500, "outside_paths_compared": 10000, "terminal_runs": 200}
ASSUMPTIONS = ["no link or file is planted at a place which the repository uses as one of its directories when a backup runs", "no hard links into the repository"]

NAMES = [b"x", b"tmp-file", b"tmp-file2", b"metadata~", b"metadata.bak", b"Metadata", b"config.old", b"Config", b".hidden", b"lockfile2", b"lost+found", b".lock",
         b"00", b"a0", b"g", b"abc", b"aa", b"0x0", b" ", b"new\nline", b"\xff\xfe", b"...", b"-rf", b"*", b"n" * 255, b"confi", b"metadat", b"configx", b"lockfil"]


def looks_like_blob(rng, need):
    """A path close to that of a stored file."""
    if need and rng.random() < 0.7:
        b = rng.choice(sorted(need))
        a, c, f = b.split(b"/")
        h, size, slot = f.split(b"x")
        k = rng.randrange(9)
        return [b"%s/%s/%sx%sx%x" % (a, c, h, size, (int(slot, 16) + 1) % 256), b"%s/%s/%sx%xx%s" % (a, c, h, int(size, 16) + 1, slot), b + b"x", b + b"~",
                b[:-1] + b"Z", b"%s/%s/%s" % (a, c, h), b"%s/%s" % (a, f), f, b"%s/%s/%s/%s" % (a, c, b"sub", f)][k]
    h = rng.randbytes(20).hex().encode()
    return b"%s/%s/%sx%xx%x" % (h[:1], h[1:3], h[3:], rng.randrange(21, 100000), rng.randrange(3))


def plant(ctx, rng, s, need, victims, backup, spots):
    """Plants one foreign item. Returns its path relative to the repository or None."""
    k = rng.random()
    if k < 0.35:
        rel = looks_like_blob(rng, need)
    elif k < 0.7:
        rel = rng.choice(NAMES)
    elif k < 0.85 and spots:
        rel = rng.choice(spots) + b"/" + rng.choice(NAMES + [b"config", b"metadata", b"lockfile"])
    else:
        rel = rng.choice([b"0", b"7", b"f", b"0/00", b"a/bc"]) + b"/" + rng.choice(NAMES)
        if backup and rng.random() < 0.5:
            rel = b"z" + rel
    full = s.repo + b"/" + rel
    if len(full) > 3000 or not rel or max(len(x) for x in rel.split(b"/")) > 255 or os.path.lexists(full) or rel in need:
        return None
    q = full
    while len(q) > len(s.repo):
        q = os.path.dirname(q)
        if os.path.lexists(q) and (os.path.islink(q) or not os.path.isdir(q)):
            return None
    try:
        os.makedirs(os.path.dirname(full), exist_ok=True)
    except OSError:
        return None
    if os.path.realpath(os.path.dirname(full)) != os.path.dirname(full) or not os.path.isdir(os.path.dirname(full)):
        return None
    kind = rng.choice(["file", "file", "file", "dir", "tree", "link", "linkdir", "dangling", "fifo", "hard", "sparse", "locked", "socket"])
    if backup and (re.fullmatch(rb"[0-9a-f](/[0-9a-f]{2})?", rel) or rel == b"tmp-file") and kind not in ("file", "dir", "tree"):
        kind = "dir" if rel != b"tmp-file" else "file"
    if backup and rel == b"tmp-file":
        kind = "file"
    elif backup and re.fullmatch(rb"[0-9a-f](/[0-9a-f]{2}(/.*)?)?", rel) and kind == "file" and rel.count(b"/") < 2:
        kind = "dir"
    # what lies below a stored file's own directories must not get in the way of storing
    if kind == "file":
        world.write(full, rng.randbytes(rng.choice([0, 1, 30, 1023, 1024, 5000])))
        os.chmod(full, rng.choice([0o644, 0o444, 0, 0o4755]))
    elif kind == "hard":
        os.link(victims + b"/file", full)
    elif kind == "sparse":
        world.write(full, b"")
        os.truncate(full, rng.choice([1 << 20, 1 << 30, 5 << 30, (1 << 40) + 7]))
    elif kind == "dir":
        os.mkdir(full)
    elif kind == "tree":
        os.mkdir(full)
        d = full
        for _ in range(rng.randrange(1, 12)):
            world.write(d + b"/f", b"abc")
            if rng.random() < 0.3:
                os.symlink(victims, d + b"/l")
            d += b"/" + rng.choice([b"d", b"config", b"metadata", b"a", b"e" * 60])
            os.mkdir(d)
    elif kind == "locked":
        os.mkdir(full)
        world.write(full + b"/inner", b"12345")
        os.chmod(full, rng.choice([0o500, 0, 0o555, 0o1777]))
    elif kind == "link":
        os.symlink(rng.choice([victims + b"/file", b"../config", b"config", b"metadata", b"../victim/file"]), full)
    elif kind == "linkdir":
        os.symlink(rng.choice([victims, victims + b"/dir", b"..", b".", b"/", b"../victim", s.top]), full)
    elif kind == "dangling":
        os.symlink(b"nowhere", full)
    elif kind == "fifo":
        os.mkfifo(full)
    else:
        try:
            sk = socket.socket(socket.AF_UNIX)
            sk.bind(full)
            sk.close()
        except OSError:
            return None
    ctx.count("foreign_items_planted")
    return rel


def case(ctx, i, rng):
    if i % 4 == 3:
        ctx.collide()
    s = crash.pending_backup(ctx, rng, size=(3, 9), most=4, policies=i % 3 == 0, unreadable=False)
    if s is None:
        return None
    backup_first = rng.random() < 0.3
    if not s.has_meta():
        if s.backup(expect=None).rc != 0 or not s.has_meta():
            return None
        backup_first = False
    vic = scen.BASE + b"/victim"
    os.makedirs(vic + b"/dir")
    for p in (vic + b"/file", vic + b"/dir/file", vic + b"/config", vic + b"/dir/metadata"):
        world.write(p, b"victim " + p)
    done = []
    for turn in range(3):
        meta = s.meta()
        need = set(metafmt.needed_blobs(meta))
        have = world.snap(s.repo, content=True)
        spots = sorted({p[len(s.repo) + 1:] for p, e in have.items() if e.type == world.D} - {b""})
        backup = backup_first and turn == 0
        if backup:
            r = ctx.nb(s.repo, stdin=b"n\n", expect=None)
            if b"nb: error" in r.err:
                return None
        for _ in range(rng.choice([0, 1, 3, 8, 20]) if turn < 2 else 0):
            rel = plant(ctx, rng, s, need, vic, backup, spots)
            if rel:
                done.append(rel)
        if turn == 1 and rng.random() < 0.4:
            # forget some paths through the configuration, then collect by a backup
            s.mutate(2)
            if not os.path.isdir(s.src):
                return None
            s.normalise()
        before = world.snap(scen.BASE, content=True)
        keep = {b"config", b"metadata", b"lockfile"}
        use_tty = rng.random() < 0.2
        if backup:
            args = [s.repo]
        else:
            args = [s.repo + rng.choice([b"", b"", b"/", b"//", b"/."]), b"gc"]
        r = term.run(ctx, args) if use_tty else ctx.nb(*args, expect=None)
        if backup and r.rc != 0:
            if b"file has changed" in r.err:
                return None
            ctx.fail("failed", "the backup fails because of foreign items", run=r.brief(), planted=done)
        if r.rc != 0:
            ctx.fail("failed", "the collection failed", run=r.brief(), planted=done)
        ctx.count("evaluations")
        if backup and b"(y/n)" not in r.out:
            continue
        ctx.count("backups_collected" if backup else "collections")
        after = world.snap(scen.BASE, content=True)
        meta2 = s.meta()
        if not backup and (before[s.repo + b"/metadata"].digest != after[s.repo + b"/metadata"].digest):
            ctx.fail("metadata-changed", "the collection changed the metadata", run=r.brief())
        need2 = set(metafmt.needed_blobs(meta2))
        for b in need2:
            keep |= {b, b[:1], b[:4]}
        bad, freed = [], 0
        for p, e in after.items():
            if not p.startswith(s.repo + b"/"):
                continue
            rel = p[len(s.repo) + 1:]
            if rel not in keep:
                bad.append("%r is still there" % rel)
            old = before.get(p)
            if old is not None and rel != b"metadata" and e.type != world.D and rel != b"lockfile" and world.untouched(old, e):
                bad.append("%r was changed: %s" % (rel, world.untouched(old, e)))
        for b in need2:
            e = after.get(s.repo + b"/" + b)
            if e is None:
                if not backup or (s.repo + b"/" + b) in before:
                    bad.append("the needed %r is gone" % b)
                else:
                    bad.append("the needed %r was not stored" % b)
            elif e.type != world.F:
                bad.append("%r is no file" % b)
        if s.repo + b"/config" not in after:
            bad.append("the configuration is gone")
        gone = left = 0
        for p, e in before.items():
            if p.startswith(s.repo + b"/"):
                rel = p[len(s.repo) + 1:]
                if p not in after:
                    gone += 1
                    if e.type == world.F and backup and rel == b"tmp-file":
                        left = e.size       # it may have been used up by the backup
                    elif e.type == world.F and rel != b"lockfile":
                        freed += e.size
                        ctx.count("unneeded_versions_removed", rel not in done and rel.count(b"/") == 2)
            elif p != s.repo and not (backup and p.startswith(s.src)):
                ctx.count("outside_paths_compared")
                a = after.get(p)
                if a is None:
                    bad.append("%r outside of the repository is gone" % p)
                elif p == vic + b"/file":
                    # the number of its names changes
                    if world.same(e, a):
                        bad.append("%r outside of the repository was changed" % p)
                elif world.untouched(e, a):
                    bad.append("%r outside of the repository: %s" % (p, world.untouched(e, a)))
        for p in after:
            if p not in before and not p.startswith(s.repo):
                bad.append("%r was created" % p)
        ctx.count("foreign_items_removed", gone)
        ctx.count("stored_files_kept", len(need2))
        if gone:
            ctx.seen("nontrivial", (i, turn, sorted(done)))
        if bad:
            ctx.fail("collected", "; ".join(bad[:6]), run=r.brief(), planted=done)
        rep = scen.parse_report(r.out)
        m = re.search(rb"Discarding unreferenced data\.\.\. 100\.0% \((.*) deleted\)\n$", r.out)
        if m is None:
            ctx.fail("size", "no result of the collection", run=r.brief())
        if m.group(1) not in (refmodel.human(freed), refmodel.human(freed + left)):
            ctx.fail("size", "reported %r deleted instead of %r" % (m.group(1), refmodel.human(freed)), run=r.brief(), planted=done)
        done = []
    return {"need": len(need), "planted": [repr(x) for x in done[:5]]}
