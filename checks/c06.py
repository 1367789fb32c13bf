"""C06: bad configurations are rejected precisely, layout means nothing, rules
which match nothing are named.

Three kinds of cases: a fault is put on a known line of a valid configuration
(oracle: that line is named, nothing changes); the same rules are written in
several layouts and orders (oracle: the recorded selections are equal and equal
to selection.Selection's reading); warnings are compared with refmodel's
reading of which rules matched what."""
import collections, os
import cfggen, metafmt, refmodel, scen, selection, world

PROP = "C06"
VARIANTS = ["plain", "fuzzconfig"]
OPTIONAL = {"fuzzconfig": ["fuzz_runs", "fuzz_accepted", "fuzz_refused"]}
CASES = {"quick": 2608, "thorough": 60000}
FUZZ = {"quick": (8, 18000), "thorough": (40, 400000)}      # jobs, configurations per job
LEVEL = "exploration"
RULE = ("valid random configurations with one planted fault on a known line, random line soups judged by the reference parser, equal rule "
        "sets in different layouts and orders, and warnings of valid configurations. Non-trivial: a fault was planted, or layouts "
        "differed, or a warning was due; distinct by configuration text.")
REQUIRED = {"faults_rejected": 800, "layouts_compared": 600, "warnings_expected": 500, "fuzz_runs": 140000, "fuzz_accepted": 10000, "fuzz_refused": 50000}

BADRE = [b"(", b"[", b"a{2", b"*(", b"(a", b"[a-", b"a{3,1}", b"[[:foo:]]", b"\\", b"a{99999}", b"[z-a]"]


def bad_line(rng, s, section, rules):
    """(line, kind) which is wrong in the section."""
    kinds = ["policy", "policy", "policycase"]
    if section in (b"copy", b"mirror", b"track"):
        kinds += ["relative", "dots", "redefine", "redefine", "redefine2", "pathregex", "space"]
    elif section in (b"ignore", b"summarize"):
        kinds += ["regex", "regex"]
    else:
        kinds += ["nopolicy", "nopolicy"]
    k = rng.choice(kinds)
    if k == "policy":
        return rng.choice([b"[foo]", b"[]", b"[ copy]", b"[copy ]", b"[copy][", b"[[copy]]", b"[none]", b"[copymirror]", b"[\xff]",
                           b"[track]x]", b"[ignore ]", b"[summarise]", b"[]]"])\
            if rng.random() < 0.93 else b"[" + b"x" * rng.choice([5000, 70000]) + b"]", k
    if k == "policycase":
        return rng.choice([b"[Copy]", b"[COPY]", b"[Mirror]", b"[Track]", b"[Ignore]", b"[copies]", b"[tracks]", b"[cop]", b"[trac]"]), k
    if k == "relative":
        return rng.choice([b"tmp/w/top/src", b"./x", b"~", b"~/x", b"C:\\", b"*", b"[copy", b"copy]", b"\xef\xbb\xbf/x", b"x", b"src/"]), k
    if k == "space":
        return b" " + s.src + b"/a", k
    if k == "dots":
        return rng.choice([s.src + b"/..", s.src + b"/.", s.src + b"/../src", s.src + b"/./a", b"/./tmp/w/top/src", b"/..", b"/.",
                           s.src + b"/../", s.src + b"/a/.//x", s.src + b"/..//a"]), k
    if k in ("redefine", "redefine2"):
        return rng.choice(rules)[1] + b"/" * rng.choice([0, 0, 1, 2, 5]), k
    if k == "pathregex":
        return s.src + b"//" + rng.choice(BADRE), k
    if k == "regex":
        return rng.choice(BADRE), k
    if k == "nopolicy":
        return rng.choice([s.src + b"/a", b"foo", b"copy", b"/", b"[copy", b"copy]", b"/./a", b"("]), k


def sections_of(lines):
    cur, out = None, []
    for l in lines:
        out.append(cur)
        if l in (b"[copy]", b"[mirror]", b"[track]", b"[ignore]", b"[summarize]"):
            cur = l[1:-1]
    return out + [cur]


def fault(ctx, rng, s):
    rules = cfggen.rules(rng, s)
    text = cfggen.layout(rng, rules, cfggen.exprs(rng, cfggen.FULL), cfggen.exprs(rng, cfggen.SUMM))
    bom = text.startswith(b"\xef\xbb\xbf")
    lines = (text[3:] if bom else text).split(b"\n")
    if rng.random() < 0.5:
        # a repository which already has a backup
        s.config(text)
        s.backup(expect=None)
    if rng.random() < 0.06:
        bad, kind, at = text[:rng.randrange(len(text) + 1)], "null", None
        at = rng.randrange(len(text) + 1)
        text = text[:at] + b"\0" + text[at:]
        line = None
    else:
        secs = sections_of(lines)
        pos = rng.randrange(len(lines) + 1)
        if pos == len(lines):
            lines.append(b"")
        bad, kind = bad_line(rng, s, secs[pos], rules)
        lines.insert(pos, bad)
        line = pos + 1
        if kind == "redefine" or kind == "redefine2":
            # the later one of the two is at fault
            where = [i for i, l in enumerate(lines) if i != pos and secs_path(lines, i) and l.rstrip(b"/") == bad.rstrip(b"/")]
            line = max([pos] + where[:1]) + 1
        elif kind == "relative" and pos == 0 and bad.startswith(b"\xef") and not bom:
            return None
        text = (b"\xef\xbb\xbf" if bom else b"") + b"\n".join(lines)
    s.config(text)
    before = world.snap(s.repo)
    r = s.backup(stdin=b"n\n", expect=None)
    if r.rc != 1 or b"(y/n)" in r.out:
        ctx.fail("accepted", "a configuration with a fault (%s, line %s) was accepted" % (kind, line), config=text, run=r.brief())
    first = r.err.split(b"\n")[0]
    if line is not None and b"config: line %d:" % line not in r.err:
        ctx.fail("line", "fault (%s) in line %d is reported as %r" % (kind, line, r.err[:200]), config=text)
    if line is None and b"null-bytes" not in r.err:
        ctx.fail("line", "null-bytes are reported as %r" % r.err[:200], config=text)
    d = world.diff(before, world.snap(s.repo), lambda a, b: world.untouched(a, b) if a.type != world.D else [])
    if d:
        ctx.fail("changed", "a rejected configuration changed the repository: %s" % d)
    ctx.count("faults_rejected")
    ctx.seen("fault_kinds", kind)
    ctx.seen("nontrivial", text)
    return {"fault": kind, "line": line, "error": r.err[:200]}


def secs_path(lines, i):
    return sections_of(lines)[i] in (b"copy", b"mirror", b"track")


def soup(ctx, rng, s):
    """Random lines, judged by the reference parser."""
    rules = cfggen.rules(rng, s)
    pool = [b"[copy]", b"[mirror]", b"[track]", b"[ignore]", b"[summarize]", b"", b" ", b"#", b"# /x", b"a", b"(", b"x.y",
            s.src, s.src + b"/", s.src + b"/a", s.src + b"//a", s.src + b"/a/b", s.src + b"//(", s.src + b"/..", b"[x]", b"[", b"]",
            s.src + b"/...", s.src + b"/.a", s.src + b"/a.", s.src + b"/..a", s.src + b"/a//b/c"] + [p for _, p in rules]
    lines = [rng.choice(pool[:3])] if rng.random() < 0.8 else []
    lines += [rng.choice(pool) for _ in range(rng.randrange(0, 9))]
    text = b"\n".join(lines) + (b"\n" if rng.random() < 0.5 else b"")
    s.config(text)
    try:
        cfg, err = refmodel.parse_config(text), None
    except refmodel.ConfigError as e:
        cfg, err = None, e
    r = s.backup(stdin=b"n\n", expect=None)
    if err is not None:
        if r.rc != 1 or b"config: line %d:" % err.line not in r.err:
            ctx.fail("line", "%s expected, got %r" % (err, r.err[:200]), config=text)
        ctx.count("faults_rejected")
        ctx.seen("nontrivial", text)
    elif b"nb: error: config:" in r.err:
        ctx.fail("rejected", "a valid configuration is rejected: %r" % r.err[:200], config=text)
    else:
        ctx.count("accepted")


def layouts(ctx, rng, s):
    rules = cfggen.rules(rng, s)
    ignore = cfggen.exprs(rng, cfggen.FULL)
    summ = cfggen.exprs(rng, cfggen.SUMM)
    sel = selection.Selection(rules, ignore)
    want, amb, unr = sel.expected()
    seen = {}
    for k in range(3):
        os.mkdir(scen.BASE + b"/repo%d" % k)
    for k in range(3):
        rng.shuffle(rules)
        text = cfggen.layout(rng, rules, ignore, summ, noise=[0, 0.3, 0.6][k])
        if k == 2 and rng.random() < 0.5:
            text = text.replace(b"\n", b"\n\n")
        s.repo = scen.BASE + b"/repo%d" % k
        s.config(text)
        r = s.backup(expect=1 if amb or unr else 0)
        if amb or unr:
            seen[k] = "fails"
        else:
            got = {p: (n.policy, n.history) for p, n, _ in s.meta().walk()} if s.has_meta() else {}
            seen[k] = got
            pol = {p: v[0] for p, v in got.items()}
            if pol != want:
                ctx.fail("meaning", "layout %d selects something else: %r" % (k, sorted(set(pol.items()) ^ set(want.items()))[:6]),
                         config=text, rules=rules)
        if seen[k] != seen[0]:
            ctx.fail("layout", "two layouts of the same rules mean different things", config=text, rules=rules)
        ctx.count("layouts_compared")
        ctx.seen("nontrivial", text)
    ctx.count("evaluations", 2)
    return {"rules": rules, "layouts": 3}


def warnings(ctx, rng, s):
    s.config(cfggen.config(rng, s, missing=0.3, ignore=0.8, summarize=0.8))
    model = refmodel.Model()
    for k in range(2):
        cfg = refmodel.parse_config(s.cfg_text)
        try:
            model.initiate(cfg)
        except refmodel.Dies:
            s.backup(expect=1)
            return None
        _, _, warn, ch = refmodel.expected_backup_output(model, cfg)
        r = s.backup()
        ctx.count("evaluations", k)
        want = collections.Counter(warn)
        got = collections.Counter(x for x in r.err.split(b"\n") if x)
        if want != got:
            ctx.fail("warnings", "warnings differ: unexpected %r, missing %r" % (
                sorted((got - want).elements())[:5], sorted((want - got).elements())[:5]), config=s.cfg_text)
        ctx.count("warnings_expected", len(warn))
        if warn:
            ctx.seen("nontrivial", (s.cfg_text, r.err))
        if ch.any():
            model.finish()
        s.mutate(3)
        s.normalise()
        model = refmodel.Model.from_meta(s.meta()) if s.has_meta() else refmodel.Model()
    return {"config": s.cfg_text, "warnings": warn[:4]}


TOKENS = [b"[copy]", b"[mirror]", b"[track]", b"[ignore]", b"[summarize]"]


def fuzz(ctx, i, rng):
    """In one process: libFuzzer produces the bytes, a second reader of the
    format says which rules they stand for or which line is wrong (lib/fuzz/config.c)."""
    s = scen.Scene(ctx, rng, big=0)
    s.gen.fill(8, 3)
    seeds = [cfggen.config(rng, s)[:1500] for _ in range(4)]
    seeds.append(b"[copy]\n/home/foo\n/home/foo/bar/x\n\n[ignore]\n\\.o$\n# c\n[mirror]\n/home//^a[bc]+\n/home/foo//x//y/z/\n[summarize]\nfoo\n[track]\n/etc\n/\n")
    words = TOKENS + [b"/a", b"/foo", b"//^a", b"//b+", b"/.", b"/..", b"\xef\xbb\xbf", b"#", b"\n", b"///"] + rng.sample(cfggen.EXPR, 4)
    n = ctx.fuzz("fuzzconfig", seeds, FUZZ[ctx.tier][1], 1 + rng.randrange(2**31), max_len=rng.choice([300, 800, 2000]), words=words)
    ctx.seen("nontrivial", ("fuzz", i))
    return {"fuzz": FUZZ[ctx.tier][1], "corpus": n}


def case(ctx, i, rng):
    if i >= CASES[ctx.tier] - FUZZ[ctx.tier][0]:
        return fuzz(ctx, i, rng)
    s = scen.Scene(ctx, rng, big=0)
    s.gen.fill(rng.randrange(2, 9), 2)
    ctx.count("evaluations")
    k = i % 8
    if k < 4:
        return fault(ctx, rng, s)
    if k == 4:
        return soup(ctx, rng, s)
    if k == 5:
        return warnings(ctx, rng, s)
    return layouts(ctx, rng, s)
