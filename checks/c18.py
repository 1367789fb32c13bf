"""C18: the change report shows exactly what changed.

Monitor: standard output, standard error and exit status of every backup and
restore are compared, line by line, with what an executable model derives from
the disk, the configuration and the metadata read by the independent parser."""
import os
import cfggen, metafmt, refmodel, scen, world

PROP = "C18"
VARIANTS = ["plain", "weak"]
CASES = {"quick": 1200, "thorough": 40000}
LEVEL = "exploration"
RULE = ("histories of 2 to 6 backups over random trees, configurations and changes, each with a restore of everything or one path from a "
        "random backup onto the modified tree; the printed changes and totals are compared as multisets of lines. Non-trivial: changes were "
        "listed; distinct by the report.")
REQUIRED = {"terminal_runs": 600, "terminal_colours": 3000, "report_lines_compared": 8000, "restore_report_lines_compared": 1500, "summarised": 150, "totals_compared": 1500,
            "declined": 100, "colossal_sizes_reported": 500, "colossal_sizes_recorded": 1500}
ASSUMPTIONS = ["content changes come with a changed size or whole-second timestamp",
               "the order of the lines is not promised", "directories leading to rules which match nothing are listed as lost by design"]


def try_restore(ctx, s, rng):
    m = s.meta()
    if not m.times and not m.nodes:
        return
    bid = rng.choice([0, 0, rng.randrange(len(m.times) + 1)])
    path = b""
    known = sorted(p for p in m.paths() if p.startswith(s.top))
    if known and rng.random() < 0.5:
        path = rng.choice(known)
    s.mutate(rng.randrange(0, 4))
    scen.hostile(s, m, bid, rng.randrange(0, 4), victims=False)
    scen.notice_restore(m, bid, rng)
    if rng.random() < 0.1:
        world.rmtree(s.top)
    if scen.aliased(m, bid):
        return
    try:
        lines, ch = refmodel.restore_report(m, bid, path)[:2]
    except refmodel.Dies:
        r = s.restore(bid, path or None, expect=1)
        ctx.count("refused_restores")
        return
    no = rng.random() < 0.2 and ch.any()
    r = s.restore(bid, path or None, expect=1 if no else 0, stdin=b"n\n" if no else b"y\n")
    scen.check_restore_report(ctx, r, lines, ch)
    if ch.any():
        ctx.seen("nontrivial", r.out)
        ctx.count("restores_with_changes")


def big(rng, most):
    k = rng.randrange(7)
    n = rng.choice([1, 2, 9, 10, 99, 999, 1000, 1023, 1024, 1025, rng.randrange(1, 1025)]) * 1024**k
    n = rng.choice([n, n, n + rng.randrange(-3, 4), int(999.9 * 1024**k) + rng.randrange(-1, 3), int(n * (1 + rng.random() / 10))])
    return max(0, min(n, most))


def colossal_sources(ctx, s, rng):
    """A declined backup of files of any size, which contain nothing but holes."""
    fs = sorted(p for p, e in world.snap(s.src, content=False).items() if e.type == metafmt.REG)
    undo, left = [], 2**62
    try:
        for p in rng.sample(fs, min(len(fs), rng.randrange(1, 5))) + [s.src + b"/holes%d" % k for k in range(rng.randrange(3))]:
            if not os.path.lexists(p):
                world.write(p, b"")
                st = None
            else:
                st = os.lstat(p)
            undo.append((p, st))
            n = big(rng, left // 2)
            try:
                os.truncate(p, n if st is None or n > st.st_size else st.st_size)
            except OSError:     # more than the file system is able to express
                continue
            left -= n
        mod = refmodel.Model.from_meta(s.meta()) if s.has_meta() else refmodel.Model()
        cfg = refmodel.parse_config(s.cfg_text)
        try:
            mod.initiate(cfg)
        except refmodel.Dies:
            return
        lines, totals, warn, ch = refmodel.expected_backup_output(mod, cfg)
        r = s.backup(stdin=b"n\n", expect=1 if ch.any() else 0)
        scen.check_backup_report(ctx, r, lines, totals, ch)
        ctx.count("colossal_sizes_reported", len(undo))
        ctx.seen("nontrivial", r.out)
    finally:
        for p, st in undo:
            if st is None:
                os.unlink(p)
            else:
                os.truncate(p, st.st_size)
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))


def colossal_records(ctx, s, rng):
    """Declined restores with a repository which claims to know files of any size."""
    orig = world.read(s.repo + b"/metadata")
    m, left = s.meta(), 2**63
    for p, n, _ in m.walk():
        for k, (bid, st) in enumerate(n.history):
            if st.type == metafmt.REG and rng.random() < 0.6:
                z = big(rng, left // 2)
                left -= z
                n.history[k] = (bid, st._replace(size=z, content=rng.randbytes(min(z, metafmt.HASH)), slot=0 if z > metafmt.HASH else None))
    world.write(s.repo + b"/metadata", metafmt.serialize(m))
    aside = None
    try:
        if rng.random() < 0.6:
            aside = s.set_aside()
        for _ in range(2):
            bid = rng.randrange(len(m.times) + 1)
            path = rng.choice([b"", b""] + sorted(m.paths())[:20])
            if scen.aliased(m, bid):
                continue
            try:
                lines, ch = refmodel.restore_report(m, bid, path)[:2]
            except refmodel.Dies:
                continue
            r = s.restore(bid, path or None, expect=1 if ch.any() else 0, stdin=b"n\n")
            scen.check_restore_report(ctx, r, lines, ch)
            ctx.count("colossal_sizes_recorded", len(lines))
            ctx.seen("nontrivial", r.out)
    finally:
        if aside:
            os.rename(aside, s.top)
        world.write(s.repo + b"/metadata", orig)


def case(ctx, i, rng):
    if i % 4 == 1:      # checksums in which few bytes make the difference
        ctx.count("cases_with_reduced_checksums", ctx.weaken(rng.sample(range(20), rng.choice([1, 2, 3]))))
    s = scen.Scene(ctx, rng)
    s.gen.fill(rng.randrange(3, 14), 3)
    hist = []
    for k in range(rng.randrange(2, 7)):
        s.tty = rng.random() < 0.15
        if not os.path.isdir(s.src):
            os.makedirs(s.src, exist_ok=True)
            s.gen.fill(3, 2)
        if k == 0 or rng.random() < 0.5:
            s.config(cfggen.config(rng, s))
        if k:
            s.mutate(rng.randrange(0, 6))
        if rng.random() < 0.15:
            s.normalise()
            cfg = refmodel.parse_config(s.cfg_text)
            mod = refmodel.Model.from_meta(s.meta()) if s.has_meta() else refmodel.Model()
            try:
                mod.initiate(cfg)
            except refmodel.Dies:
                continue
            lines, totals, warn, ch = refmodel.expected_backup_output(mod, cfg)
            r = s.backup(stdin=rng.choice([b"n\n", b"", b"no\n"]), expect=1 if ch.any() else 0)
            scen.check_backup_report(ctx, r, lines, totals, ch)
            ctx.count("declined", ch.any())
            s.reload_model()
        r, ch = s.full_backup()
        ctx.count("evaluations")
        if ch is not None and ch.any():
            ctx.seen("nontrivial", r.out)
            ctx.count("totals_compared")
            ctx.count("summarised", r.out.count(b"item"))
        hist.append(r.out[:200])
        if ch is not None and s.has_meta() and rng.random() < 0.5:
            try_restore(ctx, s, rng)
        if ch is not None and s.has_meta() and os.path.isdir(s.src):
            if rng.random() < 0.25:
                colossal_sources(ctx, s, rng)
            if rng.random() < 0.25:
                colossal_records(ctx, s, rng)
    return {"config": s.cfg_text, "report": hist[-1] if hist else None}
