"""C15: no command triggers undefined behaviour or a memory error.

Every command is run on ordinary and on hostile input in builds with
AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer (with memory
pools and with a fresh allocation per object). The oracle is the instrumentation
and the way the process ends: status 0 or 1, a failure with a message."""
import os, random, shutil, stat

import c09
import badmeta, cfggen, crash, damage, harness, metafmt, scen, sup, term, world

PROP = "C15"
VARIANTS = ["plain", "asan", "asanblk", "asanoom", "asanpool", "msan", "fuzzmeta", "fuzzconfig"]
OPTIONAL = {"fuzzmeta": ["fuzz_runs", "fuzz_accepted", "fuzz_refused", "fuzz_written"], "fuzzconfig": ["fuzz_runs", "fuzz_accepted", "fuzz_refused"]}
CASES = {"quick": 284, "thorough": 20000}
FUZZ = {"quick": (8, 15000), "thorough": (48, 300000)}      # jobs, inputs per job
LEVEL = "exploration"
RULE = ("one evaluation = one run of the program in a build with sanitizers; non-trivial: the run got beyond its arguments or was given hostile ones; "
        "distinct by kind of input, arguments, exit status and output")
REQUIRED = {"cases_with_other_block_sizes": 150, "asan": 1000, "asanpool": 700, "msan": 1100, "backups_done": 500, "restores_done": 150, "collections_done": 70, "integrity_done": 45, "refused": 700,
            "faults": 350, "memory_faults": 300, "terminal_runs": 60, "changed_under_way": 25, "garbled_configs": 300, "odd_repositories": 150,
            "damaged_metadata": 80, "fuzz_runs": 100000, "fuzz_accepted": 2000, "fuzz_refused": 30000, "fuzz_written": 500}
ASSUMPTIONS = ["the sanitizers see what is executed; leaks are not counted as errors", "expressions which overflow or exhaust the C library's own compiler are excluded"]

SAN = ["asan"] * 4 + ["asanpool"] * 3 + ["msan"] * 4


def var(ctx, rng):
    if rng.random() < 0.08:
        ctx.blocks(rng, ctx.default)
        return "asanblk"
    v = rng.choice(SAN)
    ctx.count(v)
    return v


def note(ctx, kind, r):
    ctx.count("evaluations")
    ctx.seen("nontrivial", (kind, r.args, r.rc, r.out[:3000], r.err[:500]))
    ctx.seen("messages", bytes(c for c in r.err.split(b"\n")[0][:60] if not 48 <= c <= 57))
    if r.rc == 1 and b"nb: error:" in r.err:
        ctx.count("refused")


def run(ctx, rng, kind, *args, **kw):
    r = ctx.nb(*args, variant=var(ctx, rng), **kw)
    note(ctx, kind, r)
    return r


def any_command(ctx, rng, s, kind, **kw):
    """One command with arguments which make sense, and now and then none."""
    cmd = rng.choice(["backup"] * 4 + ["restore"] * 4 + ["gc", "integrity"])
    stdin = rng.choice([b"y\n"] * 5 + [b"n\n", b"", b"foo\nyes\n"])
    if cmd == "backup":
        r = run(ctx, rng, kind, s.repo, stdin=stdin, **kw)
        ctx.count("backups_done", r.rc == 0)
    elif cmd == "restore":
        n = rng.choice([0, 0, 0, 1, 1, 2, 3, 5, 100])
        known = []
        try:
            known = [p for p in metafmt.parse(world.read(s.repo + b"/metadata"), strict=False).paths() if p.startswith(s.top)]
        except (OSError, metafmt.Bad):
            pass
        path = rng.choice(known) if known and rng.random() < 0.5 else rng.choice([None, None, b"/", s.src, s.top, b".", b"top/src", b"/nonexistent", s.src + b"//a/"])
        r = run(ctx, rng, kind, s.repo, str(n), *([] if path is None else [path]), stdin=stdin, **kw)
        ctx.count("restores_done", r.rc == 0)
    else:
        r = run(ctx, rng, kind, s.repo, cmd, stdin=stdin, **kw)
        ctx.count("collections_done" if cmd == "gc" else "integrity_done", r.rc == 0)
    return r


def ensure(s):
    if not os.path.isdir(s.src) or os.path.islink(s.src):
        if os.path.lexists(s.src):
            os.unlink(s.src)
        os.makedirs(s.src, exist_ok=True)
        s.gen.fill(3, 2)


def history(ctx, i, rng):
    s = scen.Scene(ctx, rng, weird=0.4, special=0.06, odd_times=0.4)
    s.gen.fill(rng.randrange(3, 14), 3)
    s.config(cfggen.config(rng, s))
    for k in range(rng.randrange(5, 11)):
        ensure(s)
        if rng.random() < 0.3:
            s.config(cfggen.config(rng, s))
        s.mutate(rng.randrange(0, 5))
        if s.has_meta() and rng.random() < 0.25:
            try:
                m = metafmt.parse(world.read(s.repo + b"/metadata"), strict=False)
            except metafmt.Bad:
                m = None
            if m:
                need = sorted(metafmt.needed_blobs(m))
                if need and rng.random() < 0.5:
                    damage.damage(rng, s.repo, need)
                else:
                    scen.hostile(s, m, 0, rng.randrange(1, 4), victims=False)
        if k % 2 == 0:
            r = run(ctx, rng, "history", s.repo, stdin=b"y\n")
            ctx.count("backups_done", r.rc == 0)
        any_command(ctx, rng, s, "history", **({"user": 1000} if rng.random() < 0.05 else {}))


ARGS = [b"", b" ", b"gc", b"integrity", b"0", b"1", b"-1", b"+1", b"00", b"0x0", b"1e3", b" 0", b"0 ", b"18446744073709551615", b"18446744073709551616",
        b"9223372036854775807", b"9223372036854775808", b"99999999999999999999999999999999", b"-9223372036854775809", b"/", b"//", b".", b"..", b"./", b"/.", b"/..", b"a/../b", b"/tmp/w/top/src",
        b"\xff\xfe", b"%s%n%s%n", b"--help", b"-h", b"-v", b"--version", b"x" * 255, b"x" * 256, b"x" * 4095, b"x" * 4096, b"/" + b"y/" * 3000, b"z" * 100000,
        b"/" * 90000, b"\n", b"GC", b"gc ", b"integrit", b"0\n", b"repo", b"/tmp/w/repo", b"/tmp/w/repo/", b"/tmp/w/repo/config", b"nonexistent", b"top/src", b"1a", b"\xc2\xb2"]


def arguments(ctx, i, rng):
    s = scen.Scene(ctx, rng, big=0)
    s.gen.fill(4, 2)
    s.simple_config()
    if rng.random() < 0.8:
        s.backup(variant=var(ctx, rng))
    for k in range(16):
        n = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5, 30])
        args = [rng.choice(ARGS + [s.repo] * 3) for _ in range(n)]
        if n >= 2 and rng.random() < 0.7:
            args[0] = s.repo
        if n >= 3 and rng.random() < 0.5:
            args[1] = rng.choice([b"0", b"1", b"2"])
        run(ctx, rng, "arguments", *args, stdin=rng.choice([b"y\n", b"n\n", b""]), cwd=rng.choice([scen.BASE, b"/", s.src, s.repo]))
    return {"last": args}


ODD = [b"config", b"metadata", b"lockfile", b"tmp-file", b"0", b"a", b"ff", b"0/00", b"9/ff/x", b"junk", b"a/b/c/d/e/f"]


def repositories(ctx, i, rng):
    """Repositories with things in them which do not belong there."""
    s = scen.Scene(ctx, rng, weird=0.3)
    s.gen.fill(rng.randrange(2, 8), 2)
    s.simple_config(rng.choice([b"copy", b"track", b"mirror"]))
    if rng.random() < 0.7:
        s.backup(variant=var(ctx, rng), expect=None)
    for k in range(8):
        p = s.repo + b"/" + rng.choice(ODD + [b"config", b"metadata", b"tmp-file", world.WEIRD[rng.randrange(len(world.WEIRD))]])
        was = None
        if not os.path.isdir(os.path.dirname(p)):
            try:
                os.makedirs(os.path.dirname(p), exist_ok=True)
            except OSError:
                continue
        if os.path.lexists(p):
            was = os.path.dirname(p) + b"/.was"
            if not os.path.lexists(was):
                os.rename(p, was)
        if not os.path.lexists(p):
            op = rng.choice(["dir", "link", "loop", "dangling", "fifo", "empty", "file", "dirfull", "none", "mode0"])
            if op == "dir":
                os.mkdir(p)
            elif op == "dirfull":
                os.makedirs(p + b"/x/y/z")
                world.write(p + b"/x/file", b"1" * 30)
            elif op == "link":
                os.symlink(rng.choice([s.src, b"config", b".was", scen.BASE + b"/outside"]), p)
            elif op == "loop":
                os.symlink(os.path.basename(p), p)
            elif op == "dangling":
                os.symlink(b"nothing-there", p)
            elif op == "fifo" and os.path.basename(p) not in (b"config", b"metadata", b"lockfile", b"tmp-file"):    # (opening them waits for the other end)
                s.gen.mkother(p)
            elif op in ("empty", "file", "mode0"):
                world.write(p, b"" if op == "empty" else rng.randbytes(rng.choice([1, 8, 50, 5000])))
                if op == "mode0":
                    os.chmod(p, 0)
        ctx.count("odd_repositories")
        for _ in range(3):
            any_command(ctx, rng, s, "odd repository")
        if was and os.path.lexists(was):
            if os.path.lexists(p):
                world.rmtree(p)
            os.rename(was, p)
    for args in ([scen.BASE + b"/nothing"], [s.src + b"/a"], [scen.BASE, b"gc"]):
        run(ctx, rng, "odd repository", *args)


def garble(rng, text):
    b = bytearray(text)
    for _ in range(rng.randrange(1, 5)):
        k = rng.choice(["flip", "del", "dup", "ins", "long", "nul", "crlf", "swap", "token", "deep", "trunc", "bin"])
        j = rng.randrange(len(b) + 1)
        if k == "flip" and j < len(b):
            b[j] ^= 1 << rng.randrange(8)
        elif k == "del":
            del b[j:j + rng.choice([1, 2, 10])]
        elif k == "dup":
            b[j:j] = b[max(0, j - 40):j]
        elif k == "ins":
            b[j:j] = rng.choice([b"\n", b"/", b"[", b"]", b"#", b" ", b"//", b"(", b")", b"\\", b"/..", b"/.", b"\xff", b"\t"]) * rng.choice([1, 1, 2, 3])
        elif k == "long":
            b[j:j] = rng.choice([b"x", b"/", b"/a", b" ", b"//b", b"#", b"[", b"]", b".", b"/x\n", b"\n"]) * rng.choice([300, 2100, 4100, 40000])
        elif k == "nul":
            b[j:j] = b"\0"
        elif k == "crlf":
            b = bytearray(bytes(b).replace(b"\n", b"\r\n"))
        elif k == "swap":
            b = b[j:] + b[:j]
        elif k == "token":
            b[j:j] = b"\n" + rng.choice([b"[copy]", b"[mirror]", b"[track]", b"[ignore]", b"[summarize]", b"[", b"]", b"[]", b"[foo]"]) + b"\n"
        elif k == "deep":
            b[j:j] = b"/tmp/w/top/src" + b"/d" * rng.choice([100, 2000, 2040, 4096, 100000]) + b"\n"
        elif k == "trunc":
            del b[j:]
        elif k == "bin":
            b[j:j] = rng.randbytes(rng.choice([1, 5, 100]))
    # not what is meant here: rules for the real root directory, or expressions which keep regcomp busy
    out, cur = [], None
    for line in bytes(b).split(b"\n"):
        if line[:1] == b"/" and not line.startswith((scen.BASE + b"/top/src", scen.BASE + b"/top/ln")):
            line = scen.BASE + b"/top/src" + line
        if sum(line.count(c) for c in (b"*", b"+", b"?", b"{")) > 4 or line.count(b"(") > 50 or (len(line) > 3000 and line[:1] in b"^$"):
            line = b"#" + line
        out.append(line)
    return b"\n".join(out)


def configs(ctx, i, rng):
    s = scen.Scene(ctx, rng, weird=0.3, big=0)
    s.gen.fill(rng.randrange(2, 8), 2)
    for k in range(14):
        text = cfggen.config(rng, s)
        s.config(garble(rng, text) if rng.random() < 0.85 else rng.randbytes(rng.choice([0, 1, 2, 3, 20, 300])))
        ctx.count("garbled_configs")
        r = run(ctx, rng, "config", s.repo, stdin=rng.choice([b"y\n", b"y\n", b"n\n"]), timeout=120)
        ctx.count("backups_done", r.rc == 0)
        if k % 4 == 3:
            any_command(ctx, rng, s, "config")


def faults(ctx, i, rng):
    """Failing system calls: the paths nobody walks otherwise."""
    s = crash.pending_backup(ctx, rng, size=(2, 7), most=2)
    if s is None:
        return None
    saved = crash.save(s)
    v = var(ctx, rng)
    r, evs = sup.traced(ctx, s.repo, variant=v)
    done = crash.save(s, b"done")
    n = 0
    for cmd, start, args in (("backup", saved, []), ("restore", done, [b"0"]), ("gc", done, [b"gc"]), ("integrity", done, [b"integrity"])):
        if cmd != "backup":
            crash.reset(s, start)
            if r.rc != 0:
                break
            if cmd == "restore":
                s.mutate(3)
            _, evs = sup.traced(ctx, s.repo, *args, variant=v, stdin=b"n\n" if cmd == "restore" else b"y\n")
            if cmd == "restore":
                _, evs = sup.traced(ctx, s.repo, *args, variant=v)
                s.mutate(3)
        for opts, d, e, kind in c09.faults(ctx, evs, rng, 14 if cmd in ("backup", "restore") else 5):
            crash.reset(s, start)
            if cmd == "restore":
                s.mutate(1)
            rr, _ = sup.traced(ctx, s.repo, *args, opts=opts, variant=v)
            note(ctx, "fault", rr)
            ctx.count(v)
            ctx.count("faults")
            n += 1
        crash.reset(s, start)
        for opts, d, e, kind in c09.shortages(ctx, [s.repo] + args, rng, 6, "asanoom"):
            crash.reset(s, start)
            if cmd == "restore":
                s.mutate(1)
            note(ctx, "memory", c09.disturbed(ctx, [s.repo] + args, opts, "asanoom"))
            ctx.count("memory_faults")
    return {"faults": n}


def terminals(ctx, i, rng):
    """Coloured output, odd environments, missing standard streams."""
    s = scen.Scene(ctx, rng, weird=0.5)
    s.gen.fill(rng.randrange(3, 10), 3)
    for k in range(5):
        ensure(s)
        s.config(cfggen.config(rng, s, summarize=0.8))
        s.mutate(rng.randrange(0, 6))
        env = {rng.choice([b"TERM", b"LC_ALL", b"LANG", b"TZ", b"NO_COLOR", b"COLUMNS"]): rng.choice([b"", b"dumb", b"xterm-256color", b"de_DE.UTF-8", b"\xff", b"x" * 5000])} \
            if rng.random() < 0.4 else {}
        ans = rng.choice([b"y\n", b"y\n", b"n\n", b"", b"what\n" * 3 + b"yes\n", b"q" * 5000 + b"\ny\n", rng.randbytes(50).replace(b"y", b"x") + b"\ny\n"])
        args = rng.choice([[], [], [], [b"0"], [b"1"], [b"gc"], [b"integrity"]])
        r = term.run(ctx, [s.repo] + args, stdin=ans, variant=var(ctx, rng), env=env)
        note(ctx, "terminal", r)
        ctx.count("backups_done", r.rc == 0 and not args)
        gone = rng.choice([(0,), (1,), (2,), (0, 1), (1, 2), (0, 1, 2)])
        p = ctx.start([s.repo] + rng.choice([[], [], [b"0"], [b"gc"], [b"integrity"]]), variant=var(ctx, rng), close=gone)
        try:
            out, err = p.communicate(b"y\n", timeout=60)
        except BrokenPipeError:
            out, err = b"", b""
            p.wait()
        r = harness.Run(p.returncode, out, err, (s.repo, b"closed", repr(gone)))
        ctx.count("program_runs")
        note(ctx, "closed", r)
        if b"Sanitizer" in err or b"runtime error:" in err:
            ctx.fail("sanitizer", "sanitizer report without %r" % (gone,), run=r.brief())
        if r.rc not in (0, 1):
            ctx.fail("crash", "ended with status %d without the streams %r" % (r.rc, gone), run=r.brief())
        if s.has_meta():
            scen.audit(ctx, s.repo, s.meta(), exact=False)


def meanwhile(ctx, i, rng):
    """The tree changes while a command runs."""
    s = crash.pending_backup(ctx, rng, size=(3, 9), most=2)
    if s is None:
        return None
    saved = crash.save(s)
    for k in range(3):
        cmd = rng.choice([[], [], [b"0"], [b"gc"], [b"integrity"]])
        ensure(s)
        v = var(ctx, rng)
        c = sup.Control(ctx, [s.repo] + cmd, variant=v)
        n = rng.choice([3, 10, 30, 60])
        changed = 0
        for step in range(400):
            if c.pending is None:
                break
            if step % max(n // 3, 1) == 0 and changed < 4:
                try:
                    ensure(s)
                    s.mutate(2)
                    if rng.random() < 0.3:
                        for d, sub, files in os.walk(s.repo):
                            for f in files:
                                if f not in (b"config", b"lockfile") and rng.random() < 0.1:
                                    world.write(d + b"/" + f, rng.randbytes(rng.randrange(60)))
                except OSError:
                    pass
                changed += 1
            c.step()
        if c.pending is not None:
            c.detach()
        r = c.finish()
        ctx.check_sane(r)
        note(ctx, "meanwhile", r)
        ctx.count("changed_under_way", changed > 0)
        crash.reset(s, saved)


def metadata(ctx, i, rng):
    """Damaged metadata."""
    s = crash.pending_backup(ctx, rng, size=(2, 7), most=3, weird=0.1)
    if s is None or not s.has_meta():
        return None
    good = world.read(s.repo + b"/metadata")
    offs, _ = badmeta.offsets(metafmt.parse(good))
    saved = crash.save(s)
    for k in range(10):
        crash.reset(s, saved)
        kind, data = badmeta.bytewise(rng, good, offs) if rng.random() < 0.5 or not metafmt.parse(good).nodes else badmeta.fieldwise(rng, good)
        if len(data) > 200000:
            continue
        world.write(s.repo + b"/metadata", data)
        ctx.count("damaged_metadata")
        for _ in range(2):
            any_command(ctx, rng, s, "metadata")
    return {"size": len(good)}


def fuzz(ctx, i, rng):
    """libFuzzer on the readers (lib/fuzz); only the sanitizers judge here."""
    runs = FUZZ[ctx.tier][1]
    ctx.seen("nontrivial", ("fuzz", i))
    if i % 2:
        s = crash.pending_backup(ctx, rng, size=(1, 5), most=4, unreadable=False, weird=0.1)
        seeds = [world.read(s.repo + b"/metadata")[:6000]] if s is not None and s.has_meta() else []
        return {"fuzz": runs, "corpus": ctx.fuzz("fuzzmeta", seeds, runs, 1 + rng.randrange(2**31), judge=False)}
    s = scen.Scene(ctx, rng, big=0)
    s.gen.fill(8, 3)
    seeds = [cfggen.config(rng, s)[:1500] for _ in range(4)]
    words = [b"[copy]", b"[mirror]", b"[track]", b"[ignore]", b"[summarize]", b"/a", b"//^a", b"/.", b"/..", b"\xef\xbb\xbf", b"#", b"\n", b"///"]
    return {"fuzz": runs, "corpus": ctx.fuzz("fuzzconfig", seeds, runs, 1 + rng.randrange(2**31), max_len=rng.choice([300, 800, 2000]), words=words, judge=False)}


def extremes(ctx, i, rng):
    """Sizes, lengths, depths and attributes at their limits."""
    s = scen.Scene(ctx, rng, weird=0.9, odd_times=0.9, big=0.25)
    s.gen.fill(4, 2)
    k = rng.randrange(6)
    if k == 0:
        p = s.src
        n = rng.choice([100, 255])
        while len(p) + n + 1 < 4090:
            p += b"/" + b"L" * n
            try:
                os.mkdir(p)
            except OSError:
                break
        rest = 4094 - len(p)
        if rest > 1:
            try:
                world.write(p + b"/" + b"f" * min(rest - 1, 255), b"at the very end" * 3)
            except OSError:
                pass
    elif k == 1:
        os.chdir(s.src)
        for _ in range(rng.choice([500, 1500, 2020])):
            os.mkdir(b"d")
            os.chdir(b"d")
        os.chdir("/tmp")
    elif k == 2:
        for n in (1, 2, 100, 1023, 4094, 4095):
            os.symlink(rng.choice([b"t", b"\xff", b"/", b"."]) * n, s.src + b"/link%d" % n)
    elif k == 3:
        for j, n in enumerate([0, 1, 19, 20, 21, 22, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 65537, 131073, 1000000]):
            world.write(s.src + b"/size%d" % j, rng.randbytes(n))
        with open(s.src + b"/sparse", "wb") as f:
            f.truncate(rng.choice([1 << 20, 20 << 20]))
    elif k == 4:
        for j in range(rng.choice([300, 1200])):
            world.write(s.src + b"/n%d" % j, b"x" * rng.choice([0, 3, 30]))
    else:
        for t in (0, -1, 2**31 - 1, 2**31, -2**31, 2**32, 2**33, -2**33):
            p = s.src + b"/t%d" % t
            world.write(p, b"t")
            try:
                os.chown(p, rng.choice([2**31 - 1, 2**32 - 2, 65535]), rng.choice([2**31 - 1, 2**32 - 2]))
            except OSError:
                pass            # not mapped here
            os.chmod(p, rng.choice([0, 0o7777, 0o4000]))
            os.utime(p, ns=(t * 10**9, t * 10**9))
    s.config(cfggen.config(rng, s) if k not in (0, 1) else b"[%s]\n%s\n[summarize]\n/src/[a-z]*$\n" % (rng.choice([b"copy", b"track"]), s.src))
    r = run(ctx, rng, "extreme", s.repo)
    ctx.count("backups_done", r.rc == 0)
    for cmd in ([b"integrity"], [b"gc"]):
        r = run(ctx, rng, "extreme", s.repo, *cmd)
        ctx.count("collections_done" if cmd[0] == b"gc" else "integrity_done", r.rc == 0)
    s.mutate(5)
    r = run(ctx, rng, "extreme", s.repo)
    ctx.count("backups_done", r.rc == 0)
    world.rmtree(s.src)
    r = run(ctx, rng, "extreme", s.repo, b"0")
    ctx.count("restores_done", r.rc == 0)
    return {"kind": k}


def nested_groups(ctx):
    """An expression with very many nested groups (known finding)."""
    os.makedirs(scen.BASE + b"/r")
    world.write(scen.BASE + b"/r/config", b"[copy]\n/tmp/w/x\n[ignore]\n" + b"(" * 100000 + b"a" + b")" * 100000 + b"\n")
    r = ctx.nb(scen.BASE + b"/r", variant="asan", stdin=b"n\n", crash_ok=True)
    if r.rc not in (0, 1):
        ctx.fail("nested-groups", "an expression with 100000 nested groups ends the program with status %d" % r.rc, run=r.brief())


KINDS = [history, history, history, arguments, repositories, configs, faults, terminals, meanwhile, extremes, history, metadata]


def case(ctx, i, rng):
    if i == 0:
        return nested_groups(ctx)
    if i >= CASES[ctx.tier] - FUZZ[ctx.tier][0]:
        return fuzz(ctx, i, rng)
    return KINDS[i % len(KINDS)](ctx, i, rng)
