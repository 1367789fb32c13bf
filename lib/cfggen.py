"""Random valid configurations for a scene. Expressions only ever apply below
the scene's top directory, so nothing outside the scratch space is selected."""
import os
import world

EXPR = [rb"\.txt$", b"^a", b".*", b"^.$", b"foo", b"(a|b)", b"[a-c]", b"x", b"^[^.]", b"o{2}", b"nomatch", b"^[A-Z]", b"a+b",
        b"^foo\\.?", b"bar|lib", b"^$", b"[[:digit:]]", b"^b$", b"\\*", b"c$", b"^.{2,3}$"]
FULL = [rb"\.pyc$", b"/foo$", b"/a$", b"/(b|c)$", b"/src/a/", b"tmp", b"\\.git", b"nomatch", b"/src/[a-c]+$", b"/[^/]{3}$", b"o", b"x.py",
        b"^/tmp/w/top/src/foo", b"[0-9]$", b"/lib", b"data"]
SUMM = [b"/a$", b"/lib$", b"/src$", b"src/[^/]*$", b"foo", b"nomatch", b"/[a-c]$", b".", b"/tmp/w/top$", b"/data"]


def usable(p):
    """Whether the path can be written as a rule."""
    if b"\n" in p or b"//" in p:
        return False
    return all(x not in (b".", b"..", b"") for x in p.split(b"/")[1:])


def escape(name):
    out = b""
    for c in name:
        b = bytes([c])
        out += b"\\" + b if b in b".[]{}()*+?|^$\\" else b
    return b"^" + out + b"$"


def rules(rng, s, n=None, regexes=0.25, src_always=0.8, missing=0.15, links=0.1):
    """[(policy, path)] without duplicates."""
    existing = [p for p in world.snap(s.src, content=False) if p != s.src and usable(p)]
    existing.sort()
    out, seen = [], set()

    def add(p):
        p = p.rstrip(b"/")
        if p in seen or not p:
            return
        seen.add(p)
        out.append((rng.choice([b"copy", b"mirror", b"track"]), p))
    if rng.random() < src_always:
        add(s.src)
    n = rng.choice([0, 0, 1, 1, 2, 3, 4, 6]) if n is None else n
    for _ in range(n):
        k = rng.random()
        if k < missing:
            base = rng.choice(existing) if existing and rng.random() < 0.5 else s.src
            p = base + b"/" + rng.choice(world.PLAIN)
            if rng.random() < 0.3:
                p += b"/" + rng.choice(world.PLAIN)
        elif k < missing + regexes:
            base = rng.choice(existing + [s.src, s.src, s.src, s.top]) if existing else s.src
            if rng.random() < 0.5:
                base = os.path.dirname(base) if base.startswith(s.src + b"/") else base
            p = base + b"//" + rng.choice(EXPR)
            if rng.random() < 0.3:
                p += b"/" + rng.choice(world.PLAIN)
            elif rng.random() < 0.3:
                p += b"//" + rng.choice(EXPR)
        elif k < missing + regexes + links:
            ln = s.top + b"/" + rng.choice([b"ln", b"ln2"])
            if not os.path.lexists(ln):
                os.symlink(rng.choice([s.src, b"src", b"src/a", b"src/foo"]), ln)
            p = ln + b"/" + rng.choice(world.PLAIN)
        else:
            p = rng.choice(existing) if existing else s.src + b"/a"
        if usable_rule(p):
            add(p)
    if not out:
        add(s.src)
    rng.shuffle(out)
    return out


def usable_rule(p):
    return b"\n" not in p and len(p) < 3000


def layout(rng, rs, ignore=(), summarize=(), noise=0.3):
    """Writes rules in a random but equivalent layout."""
    lines = []

    def junk():
        while rng.random() < noise:
            lines.append(rng.choice([b"", b"   ", b"\t", b"# comment", b"#[copy]", b"#/tmp", b"#", b" \t "]))
    groups = []
    for pol, p in rs:
        if groups and groups[-1][0] == pol and rng.random() < 0.8:
            groups[-1][1].append(p + b"/" * (rng.choice([0, 0, 0, 1, 3]) if noise else 0))
        else:
            groups.append([pol, [p + b"/" * (rng.choice([0, 0, 0, 1, 3]) if noise else 0)]])
    if ignore:
        groups.append([b"ignore", list(ignore)])
    if summarize:
        groups.append([b"summarize", list(summarize)])
    rng.shuffle(groups)
    for name, ps in groups:
        junk()
        lines.append(b"[" + name + b"]")
        for p in ps:
            junk()
            lines.append(p)
    junk()
    text = b"\n".join(lines)
    if rng.random() < 0.7 or not noise:
        text += b"\n"
    if noise and rng.random() < 0.1:
        text = b"\xef\xbb\xbf" + text
    return text


def exprs(rng, pool, p=0.5, most=3):
    if rng.random() > p:
        return []
    return [rng.choice(pool) for _ in range(rng.randrange(1, most + 1))]


def config(rng, s, ignore=0.5, summarize=0.4, **kw):
    return layout(rng, rules(rng, s, **kw), exprs(rng, FULL, ignore), exprs(rng, SUMM, summarize))
