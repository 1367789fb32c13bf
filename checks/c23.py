"""C23: size and shape of the input never break a run.

Trees, configurations and histories are scaled up along one dimension each and
taken through backup, verification, collection and restore by an unoptimised and
an optimised build. The monitors: the limits every process gets (8 MiB of stack,
1024 open files) and the results, which are compared completely. Whether stack
use grows with the input is tried with a smaller stack first; only what also
breaks with the ordinary one on a larger input is reported."""
import os, resource, shutil

import harness, metafmt, refmodel, sandbox, scen, world

PROP = "C23"
VARIANTS = ["o0", "o3", "plain"]
CASES = {"quick": 40, "thorough": 400}
LEVEL = "exploration"
RULE = ("one evaluation = one command on one scaled input; non-trivial: at least 1000 items of the scaled kind (200 backups, 300 levels); distinct by "
        "dimension, size and command")
REQUIRED = {"items": 250000, "small_stack_runs": 400, "paths_compared": 60000, "ignored_entries": 50000, "missing_rules": 30000, "levels": 3000, "backups_in_a_row": 500, "stored_files": 10000,
            "bytes_beyond_4gib": 1}
ASSUMPTIONS = ["what works with an eighth of the stack on inputs of this size also works with all of it on larger ones, if usage is linear",
               "trees no deeper than the open files permit (1024)"]

MEM = 3 << 30
NOFILE = 1024


def run(ctx, s, variant, *args, stack=1 << 20, expect=0, ordinary=None, user_limits=None, **kw):
    """ORDINARY: how to make the input larger when the small stack does not do."""
    lim = {"RLIMIT_STACK": (stack, stack), "RLIMIT_NOFILE": (NOFILE, NOFILE), "RLIMIT_AS": (MEM, MEM), **(user_limits or {})}
    r = ctx.nb(s.repo, *args, variant=variant, limits=lim, crash_ok=True, timeout=kw.pop("timeout", 240), **kw)
    ctx.count("evaluations")
    ctx.count("small_stack_runs", stack < 8 << 20)
    if r.rc < 0 and stack < 8 << 20:
        # linear growth breaks the ordinary limit on something larger, a big frame does not
        if ordinary:
            ordinary()
        lim["RLIMIT_STACK"] = (8 << 20, 8 << 20)
        r = ctx.nb(s.repo, *args, variant=variant, limits=lim, crash_ok=True, timeout=400, **kw)
        ctx.count("second_tries")
    if r.rc < 0:
        ctx.fail("broken", "%s ended with signal %d" % (args or "a backup", -r.rc), run={"rc": r.rc, "err": repr(r.err[-500:]), "variant": variant})
    if expect is not None and r.rc != expect:
        ctx.fail("broken", "%s ended with status %d" % (args or "a backup", r.rc), run={"rc": r.rc, "err": repr(r.err[-800:]), "out": repr(r.out[-300:]), "variant": variant})
    return r


def scene(ctx, rng):
    s = scen.Scene(ctx, rng, weird=0, special=0, odd_times=0, big=0)
    return s


def stamp(p, t=1600000000):
    os.utime(p, (t, t))


def recorded(ctx, s, want=None, key="recorded"):
    """The newest backup records exactly the tree (or what of it WANT says)."""
    m = s.meta()
    exp = {p: st for p, (st, _) in metafmt.expected_tree(m, 0).items() if scen.under(p, s.src)}
    have = {p: e for p, e in world.snap(s.src).items() if e.type != world.O and (want is None or want(p))}
    bad = []
    for p in set(exp) ^ set(have):
        bad.append("%r is %s" % (p[-60:], "missing" if p in have else "extra"))
        if len(bad) > 4:
            break
    for p, e in have.items():
        if p in exp:
            ctx.count("paths_compared")
            d = scen.state_ent_diff(exp[p], e)
            if d and len(bad) < 5:
                bad.append("%r: %s" % (p[-60:], ", ".join(d)))
    if bad:
        ctx.fail(key, "the backup differs from the tree: %s" % "; ".join(bad))
    return m


def rest(ctx, s, variant, m, full=True, ordinary=None, **kw):
    """Verification, collection, restore into nothing, and a backup without changes."""
    old = world.snap(s.src)
    r = run(ctx, s, variant, b"integrity", ordinary=ordinary, **kw)
    run(ctx, s, variant, b"gc", ordinary=ordinary, **kw)
    s.audit(exact=True, meta=m)
    want = {p: st for p, (st, _) in metafmt.expected_tree(m, 0).items() if scen.under(p, s.src)}
    world.rmtree(s.top)
    run(ctx, s, variant, b"0", ordinary=ordinary, **kw)
    new = world.snap(s.src)
    bad = [p for p in set(new) ^ set(want)]
    for p in new:
        if p in want and scen.state_ent_diff(want[p], new[p]):
            bad.append(p)
    ctx.count("paths_compared", len(new))
    if bad:
        ctx.fail("restored", "%d paths are not restored, like %r" % (len(bad), bad[0][-80:]))
    r = run(ctx, s, variant, ordinary=ordinary, **kw)
    return r


def fill(d, n, content=None, start=0):
    for k in range(start, n):
        p = d + b"/entry-%d" % k
        with open(p, "wb") as f:
            f.write(b"%d" % k if content is None else content(k))
        stamp(p)


def wide(ctx, rng, v, n):
    """One directory, all recorded."""
    s = scene(ctx, rng)
    fill(s.src, n)
    s.simple_config(rng.choice([b"copy", b"mirror", b"track"]))

    def more():
        fill(s.src, 10 * n, start=n)
    r = run(ctx, s, v, ordinary=more)
    ctx.count("items", n)
    if b"+%d items" % n not in r.out:
        ctx.fail("report", "the report does not count %d items: %r" % (n, r.out[:200]))
    m = recorded(ctx, s)
    rest(ctx, s, v, m)
    # all changed, all listed
    for k in range(n):
        stamp(s.src + b"/entry-%d" % k, 1600000777)
    r = run(ctx, s, v)
    if r.out.count(b"\n@@ /") + r.out.startswith(b"@@ /") < n:
        ctx.fail("report", "%d changes, %d of them reported" % (n, r.out.count(b"@@ /")))
    recorded(ctx, s)
    for k in range(n):
        os.unlink(s.src + b"/entry-%d" % k)
    r = run(ctx, s, v)
    recorded(ctx, s, None) if b"[copy]" not in s.cfg_text else None
    run(ctx, s, v, b"0")
    return {"wide": n}


def ignored(ctx, rng, v, n):
    """One directory, nearly all of it ignored or skipped."""
    s = scene(ctx, rng)
    fill(s.src, n)
    kind = rng.choice(["expression", "special", "policyless", "runs"])
    rules = [b"[track]", s.src]
    if kind == "expression":
        rules += [b"[ignore]", b"/entry-[0-9]*$"]
    elif kind == "special":
        for k in range(n):
            os.unlink(s.src + b"/entry-%d" % k)
            os.mkfifo(s.src + b"/entry-%d" % k)
    elif kind == "policyless":
        rules = [b"[track]", s.src + b"/kept"]
    else:
        rules += [b"[ignore]", b"/entry-[0-9]*[02468]$", b"/entry-[0-9]*[13579]$"]
    for k in (b"kept",):
        world.write(s.src + b"/" + k, b"kept, and long enough for a file")
        stamp(s.src + b"/" + k)
    s.config(rules)

    def more():
        if kind == "special":
            for k in range(n, 10 * n):
                os.mkfifo(s.src + b"/entry-%d" % k)
        else:
            fill(s.src, 10 * n, start=n)
    run(ctx, s, v, ordinary=more)
    ctx.count("items", n)
    ctx.count("ignored_entries", n)
    m = s.meta()
    paths = [p for p in m.paths() if p.startswith(s.src + b"/")]
    if paths != [s.src + b"/kept"]:
        ctx.fail("recorded", "%d paths are recorded instead of one" % len(paths))
    for cmd in (b"integrity", b"gc", b"0"):
        run(ctx, s, v, cmd)
    r = run(ctx, s, v)
    if b"(y/n)" in r.out:
        ctx.fail("recorded", "a repeated backup reports changes", run=r.brief())
    return {"ignored": n, "kind": kind}


def missing(ctx, rng, v, n):
    """A long run of configured paths which do not exist."""
    s = scene(ctx, rng)
    world.write(s.src + b"/kept", b"kept")
    deep = rng.random() < 0.3
    base = s.src if not deep else s.src + b"/nowhere/at/all"
    lines = [b"[%s]" % rng.choice([b"copy", b"mirror", b"track"])] + [base + b"/missing-%d" % k for k in range(n)] + [s.src + b"/kept"]

    def more():
        s.config(lines[:-1] + [base + b"/further-%d" % k for k in range(9 * n)] + lines[-1:])
    s.config(lines)
    r = run(ctx, s, v, ordinary=more)
    ctx.count("items", n)
    ctx.count("missing_rules", n)
    want = n if not deep else 1         # below what is missing nothing is said
    if r.err.count(b"never matched") != want:
        ctx.fail("report", "%d paths are missing, %d are warned about" % (want, r.err.count(b"never matched")))
    if s.src + b"/kept" not in s.meta().paths():
        ctx.fail("recorded", "what comes after the missing paths is not recorded")
    r = run(ctx, s, v)
    return {"missing": n}


def rules(ctx, rng, v, n):
    """Thousands of rules and hundreds of expressions."""
    s = scene(ctx, rng)
    lines, pol = [], {}
    for k in range(n):
        d = s.src + b"/d%d" % (k % 97)
        os.makedirs(d, exist_ok=True)
        p = d + b"/f%d" % k
        world.write(p, b"%d" % k)
        stamp(p)
        x = k % 3
        lines.append([b"[copy]", b"[mirror]", b"[track]"][x])
        lines.append(p)
        pol[p] = x + 1
    lines += [b"[ignore]"] + [b"nothing-%d$" % k for k in range(n // 20)]
    lines += [b"[summarize]"] + [b"nowhere-%d$" % k for k in range(n // 20)]
    s.config(lines)
    r = run(ctx, s, v)
    ctx.count("items", n)
    m = s.meta().paths()
    bad = [p for p, x in pol.items() if p not in m or m[p].policy != x]
    ctx.count("paths_compared", len(pol))
    if bad:
        ctx.fail("recorded", "%d of %d rules are not respected, like the one for %r" % (len(bad), n, bad[0]))
    if r.err.count(b"never matched") != n // 20 * 2:
        ctx.fail("report", "%d warnings instead of %d" % (r.err.count(b"never matched"), n // 20 * 2))
    run(ctx, s, v, b"0")
    return {"rules": n}


def deep(ctx, rng, v, n):
    """Nested directories, as many as the open files permit."""
    s = scene(ctx, rng)
    name = rng.choice([b"d", b"dd", b"ddd"]) if n * 4 < 3900 else b"d"
    os.chdir(s.src)
    for k in range(n):
        with open(b"f", "wb") as f:
            f.write(b"level %d which is long enough" % k)
        stamp(b"f")
        os.mkdir(name)
        os.chdir(name)
    os.chdir("/tmp")
    s.simple_config(rng.choice([b"copy", b"mirror", b"track"]))
    big = dict(stack=8 << 20)
    run(ctx, s, v, **big)
    ctx.count("items", n)
    ctx.count("levels", n)
    m = recorded(ctx, s)
    r = rest(ctx, s, v, m, **big)
    # and away with it
    mirror = b"[mirror]" in s.cfg_text
    bid = b"1" if b"[track]" in s.cfg_text else b"0"
    shutil.rmtree(s.src + b"/" + name)
    r = run(ctx, s, v, **big)
    if mirror:
        return {"deep": n}
    run(ctx, s, v, bid, **big)
    if len(world.snap(s.src)) != 2 * n + 1:
        ctx.fail("restored", "%d paths instead of %d are there" % (len(world.snap(s.src)), 2 * n + 1))
    world.rmtree(s.src + b"/" + name)
    world.write(s.src + b"/" + name, b"a file now")
    run(ctx, s, v, **big)
    run(ctx, s, v, bid, **big)
    return {"deep": n}


def history(ctx, rng, v, n):
    """Many backups, one after the other."""
    s = scene(ctx, rng)
    fill(s.src, 6)
    s.simple_config(b"track")
    snaps = []
    for k in range(n):
        p = s.src + b"/entry-%d" % rng.randrange(6)
        if os.path.lexists(p) and rng.random() < 0.15:
            os.unlink(p)
        else:
            world.write(p, b"version %d of a file which is long enough" % k if k % 3 else b"v%d" % k)
            stamp(p, 1600000000 + k)
        stamp(s.src, 1500000000 + k)
        run(ctx, s, v)
        snaps.insert(0, None if k % 23 else world.snap(s.src))
        ctx.count("backups_in_a_row")
    m = s.meta()
    if len(m.times) != n:
        ctx.fail("recorded", "%d backups instead of %d" % (len(m.times), n))
    s.audit(meta=m)
    for b in [x for x in range(n) if snaps[x]]:
        world.rmtree(s.top)
        run(ctx, s, v, b"%d" % b)
        now = world.snap(s.src)
        bad = [p for p in set(now) | set(snaps[b]) if p not in now or p not in snaps[b] or
               (now[p].type, now[p].mode, now[p].mtime, now[p].digest, now[p].small) != (snaps[b][p].type, snaps[b][p].mode, snaps[b][p].mtime, snaps[b][p].digest, snaps[b][p].small)]
        ctx.count("paths_compared", len(now))
        if bad:
            ctx.fail("restored", "backup %d of %d: %r is not restored" % (b, n, bad[0]))
    run(ctx, s, v, b"integrity")
    run(ctx, s, v, b"gc")
    return {"backups": n}


def stored(ctx, rng, v, n):
    """Many stored files, in many directories."""
    s = scene(ctx, rng)
    for k in range(n // 20):
        os.mkdir(s.src + b"/dir%d" % k)
        # some fill whole blocks
        fill(s.src + b"/dir%d" % k, 20, lambda j: (b"content of entry %d in directory %d" % (j, k if rng.random() < 0.9 else 0)).ljust(
            4096 if j % 4 == 1 else 0))
    s.simple_config(rng.choice([b"copy", b"mirror", b"track"]))
    run(ctx, s, v)
    ctx.count("items", n)
    m = recorded(ctx, s)
    need = s.audit(meta=m)
    ctx.count("stored_files", len(need))
    rest(ctx, s, v, m)
    # damage is found among many
    hurt = rng.sample(sorted(need), 15)
    paths = set()
    for b in hurt:
        paths.update(need[b])
        world.write(s.repo + b"/" + b, b"damaged")
    r = run(ctx, s, v, b"integrity", expect=1)
    missed = [p for p in paths if p not in r.out + r.err]
    if missed:
        ctx.fail("verified", "%d damaged paths of %d are not listed" % (len(missed), len(paths)))
    for b in hurt:
        os.unlink(s.repo + b"/" + b)
    # everything goes, half of it is collected
    for k in range(0, n // 20, 2):
        shutil.rmtree(s.src + b"/dir%d" % k)
    s.simple_config(b"mirror")
    run(ctx, s, v)
    m = s.meta()
    run(ctx, s, v, b"gc")
    have = {p for p in world.snap(s.repo, content=False)}
    extra = {s.repo + b"/" + b for b in need} & have - {s.repo + b"/" + b for b in metafmt.needed_blobs(m)}
    gone = {s.repo + b"/" + b for b in metafmt.needed_blobs(m)} - have - {s.repo + b"/" + b for b in hurt}
    if extra or gone:
        ctx.fail("collected", "%d unneeded files stay, %d needed ones are gone" % (len(extra), len(gone)))
    return {"stored": n}


def chunks(ctx, rng, v, n):
    """Many directories with a few entries each."""
    s = scene(ctx, rng)
    for k in range(n):
        d = s.src + b"/%d/%d" % (k % 61, k)
        os.makedirs(d)
        if k % 3 == 0:
            os.symlink(b"target %d" % k, d + b"/link")
        if k % 5 == 0:
            world.write(d + b"/file", b"%d" % k)
    s.simple_config(rng.choice([b"copy", b"mirror", b"track"]))
    run(ctx, s, v)
    ctx.count("items", n)
    m = recorded(ctx, s)
    rest(ctx, s, v, m)
    # restore over something else in every place
    for k in range(0, n, 2):
        d = s.src + b"/%d/%d" % (k % 61, k)
        shutil.rmtree(d)
        world.write(d, b"in the way")
    run(ctx, s, v, b"0")
    want = {p: st for p, (st, _) in metafmt.expected_tree(m, 0).items() if scen.under(p, s.src)}
    new = world.snap(s.src)
    bad = [p for p in set(new) ^ set(want)] + [p for p in new if p in want and scen.state_ent_diff(want[p], new[p])]
    if bad:
        ctx.fail("restored", "%d paths are not restored, like %r" % (len(bad), bad[0][-80:]))
    return {"directories": n}


def lengths(ctx, rng, v, n):
    """Long names, targets and lines."""
    s = scene(ctx, rng)
    p = s.src
    while len(p) + 256 < 4000:
        p += b"/" + bytes([97 + rng.randrange(26)]) * 255
        os.mkdir(p)
    world.write(p + b"/" + b"f" * min(255, 4094 - len(p)), b"at the end of a long path")
    for k in (1, 255, 1023, 4095):
        os.symlink(b"t" * k, s.src + b"/l%d" % k)
    s.config([b"[track]", s.src, b"# " + b"long comment " * 20000, b"[ignore]", b"/nothing/" + b"x" * 20000 + b"$", b"[copy]", p])
    run(ctx, s, v)
    ctx.count("items", 20)
    m = s.meta()
    rest(ctx, s, v, m)
    return {"length": len(p)}


def huge(ctx, rng, v, n):
    """A file with more than 4 GiB."""
    sandbox.libc.mount(b"tmpfs", harness.ROOT.encode() if isinstance(harness.ROOT, str) else harness.ROOT, b"tmpfs", 32, b"size=14g")
    s = scene(ctx, rng)
    size = (4 << 30) + 12345
    big = s.src + b"/big"
    with open(big, "wb") as f:
        f.truncate(size)
        f.seek(size - 20)
        f.write(b"the end of this file")
    stamp(big)
    world.write(s.src + b"/small", b"\0" * 12345)
    stamp(s.src + b"/small")
    s.simple_config(b"track")
    r = run(ctx, s, v, timeout=300)
    if b"4.0 GiB" not in r.out:
        ctx.fail("report", "the report does not count the size", run=r.brief())
    m = s.meta()
    st = m.paths()[big].history[0][1]
    if st.size != size:
        ctx.fail("recorded", "%d bytes recorded instead of %d" % (st.size, size))
    # the checksums were made by other means (the content is known)
    if st.content.hex() != HUGE_SUM:
        ctx.fail("recorded", "wrong checksum of a file with %d bytes" % size)
    b = s.repo + b"/" + metafmt.blob_name(st)
    if os.stat(b).st_size != size:
        ctx.fail("recorded", "the stored file has %d bytes" % os.stat(b).st_size)
    os.unlink(big)
    run(ctx, s, v, b"0", timeout=300)
    with open(big, "rb") as f:
        f.seek(size - 20)
        tail = f.read()
    if os.stat(big).st_size != size or tail != b"the end of this file":
        ctx.fail("restored", "a file with %d bytes is restored with %d" % (size, os.stat(big).st_size))
    os.unlink(big)
    if ctx.tier != "quick":
        with open(b, "r+b") as f:
            f.seek(size - 1)
            f.write(b"X")
        run(ctx, s, v, b"integrity", expect=1, timeout=300)
    with open(b, "r+b") as f:
        f.truncate(12345)
    run(ctx, s, v, b"integrity", expect=1, timeout=300)
    ctx.count("bytes_beyond_4gib", size - (4 << 30))
    return {"size": size}


# blake2b-160 of the content of huge()
HUGE_SUM = "d518f9a144959a251a7f43c78c3e9af3a571d94e"

KINDS = [(wide, 12000, 150000), (ignored, 25000, 200000), (missing, 15000, 120000), (rules, 3000, 12000), (deep, 900, 980), (history, 250, 1500),
         (stored, 6000, 60000), (chunks, 3000, 40000), (lengths, 1, 1), (ignored, 25000, 200000), (deep, 400, 700), (missing, 15000, 120000)]


def case(ctx, i, rng):
    if i == 0:
        return huge(ctx, rng, "o3", 0)
    f, q, t = KINDS[i % len(KINDS)]
    n = q if ctx.tier == "quick" else rng.randrange(q, t)
    n -= rng.randrange(n // 10 + 1)
    v = ["o0", "o3"][(i // len(KINDS) + i) % 2]
    ctx.seen("nontrivial", (f.__name__, n, v))
    return f(ctx, rng, v, n)
