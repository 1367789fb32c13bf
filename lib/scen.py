"""A repository and a source tree to run histories of backups on."""
import collections, os, re, stat

import metafmt, refmodel, term, world
from metafmt import REG, LNK, DIR, NONE

BASE = b"/tmp/w"
PROMPT_B = b"proceed? (y/n) \n"
PROMPT_R = b"restore? (y/n) \n"


def state_ent_diff(s, e, policy=None):
    """How the on-disk entry E differs from the recorded state S."""
    d = []
    t = {world.F: REG, world.L: LNK, world.D: DIR}.get(e.type)
    if t != s.type:
        return ["recorded type %d, on disk %s" % (s.type, e.type)]
    if (s.uid, s.gid) != (e.uid, e.gid):
        d.append("owner %d:%d/%d:%d" % (s.uid, s.gid, e.uid, e.gid))
    if t == LNK:
        if s.target != e.target:
            d.append("target %r/%r" % (s.target[:60], e.target[:60]))
        return d
    if s.mode != e.mode:
        d.append("mode %o/%o" % (s.mode, e.mode))
    if s.mtime != e.mtime:
        d.append("mtime %d/%d" % (s.mtime, e.mtime))
    if t == REG:
        if s.size != e.size:
            d.append("size %d/%d" % (s.size, e.size))
        elif s.size > metafmt.HASH:
            if s.content != e.digest:
                d.append("checksum")
        elif s.content != e.small:
            d.append("inline content %r/%r" % (s.content, e.small))
    return d


def read_meta(ctx, repo, strict=True):
    data = world.read(repo + b"/metadata")
    try:
        m = metafmt.parse(data, strict)
    except metafmt.Bad as e:
        ctx.fail("bad-metadata", "the metadata is not well-formed: %s" % e)
    if strict and metafmt.serialize(m) != data:
        ctx.fail("bad-metadata", "the metadata does not reproduce itself")
    ctx.count("metadata_files_parsed")
    return m


def audit(ctx, repo, meta, exact=True, key="audit"):
    """Every stored file needed is there and intact; nothing else is (exact)."""
    need = metafmt.needed_blobs(meta)
    have = {}
    for p, e in world.snap(repo, content=True).items():
        rel = p[len(repo) + 1:]
        if rel and rel not in (b"config", b"metadata"):
            have[rel] = e
    bad = []
    for b in need:
        e = have.get(b)
        h, _, rest = b.partition(b"x")
        size = int(rest.split(b"x")[0], 16)
        if e is None:
            bad.append("stored file %s is missing" % b.decode())
        elif e.type != world.F or e.size != size or e.digest.hex() != h.replace(b"/", b"").decode():
            bad.append("stored file %s is not intact (%s, %d bytes)" % (b.decode(), e.type, e.size))
    if exact:
        ok = {b"lockfile"}
        for b in need:
            ok |= {b, b[:1], b[:4]}
        for r in have:
            if r not in ok:
                bad.append("unneeded %r" % r)
    ctx.count("stored_files_verified", len(need))
    if bad:
        ctx.fail(key, "repository is not sound: %s" % "; ".join(bad[:6]))
    return need


def parse_report(out):
    """Splits the output of a backup: (report lines, totals, prompted, gc line, rest)."""
    o = {"totals": None, "prompts": 0, "gc": None, "gc_bytes": None, "body": b"", "tail": b""}
    i = out.find(PROMPT_B)
    j = out.find(PROMPT_R)
    cut = min(x for x in (i, j, len(out)) if x >= 0)
    body, tail = out[:cut], out[cut:]
    o["prompts"] = tail.count(b"(y/n)")
    o["tail"] = tail
    m = re.search(rb"\n(Discarding unreferenced data\.\.\. 100\.0% \((.*) deleted\)\n)$", b"\n" + tail)
    if m:
        o["gc"] = m.group(2)
    o["body"] = body
    return o


def lines_multiset(text_lines):
    c = collections.Counter()
    for l in text_lines:
        c.update(l.split(b"\n"))
    return c


def check_backup_report(ctx, run, lines, totals, ch, key="report"):
    """Compares the printed report with the expected lines and totals."""
    rep = parse_report(run.out)
    body = rep["body"]
    if ch.any():
        if rep["prompts"] < 1:
            ctx.fail(key, "changes but no question", run=run.brief(), expected=lines)
        tail = b"\n"
        if totals:
            tail += totals + b"\n\n"
        if not body.endswith(tail):
            ctx.fail(key, "the totals are not %r" % totals, run=run.brief(), expected=lines)
        body = body[:len(body) - len(tail)]
    else:
        if rep["prompts"] or rep["tail"]:
            ctx.fail(key, "a question without a change", run=run.brief(), expected=lines)
    if body and not body.endswith(b"\n"):
        ctx.fail(key, "the report is cut", run=run.brief())
    got = collections.Counter(body[:-1].split(b"\n") if body else [])
    want = lines_multiset(lines)
    if got != want:
        ctx.fail(key, "report differs: unexpected %r, missing %r" % (
            sorted((got - want).elements())[:5], sorted((want - got).elements())[:5]), run=run.brief())
    ctx.count("report_lines_compared", len(lines))
    return rep


def check_restore_report(ctx, run, lines, ch, key="report"):
    rep = parse_report(run.out)
    body = rep["body"]
    if ch.any():
        if rep["prompts"] < 1:
            ctx.fail(key, "changes but no question", run=run.brief(), expected=lines)
        if not body.endswith(b"\n"):
            ctx.fail(key, "no blank line before the question", run=run.brief())
        body = body[:-1]
    elif rep["prompts"] or rep["tail"]:
        ctx.fail(key, "a question without a change", run=run.brief(), expected=lines)
    got = collections.Counter(body[:-1].split(b"\n") if body else [])
    want = lines_multiset(lines)
    if got != want:
        ctx.fail(key, "restore report differs: unexpected %r, missing %r" % (
            sorted((got - want).elements())[:5], sorted((want - got).elements())[:5]), run=run.brief())
    ctx.count("restore_report_lines_compared", len(lines))
    return rep


class Scene:
    def __init__(self, ctx, rng, top=b"top", **gen):
        self.ctx, self.r = ctx, rng
        self.repo = BASE + b"/repo"
        self.top = BASE + b"/" + top
        self.src = self.top + b"/src"
        os.makedirs(self.src)
        os.mkdir(self.repo)
        self.gen = world.Gen(rng, self.src, **gen)
        self.model = refmodel.Model()
        self.cfg_text = None
        self.tty = False        # print to a terminal
        self.aside_n = 0
        self.ids = gen.get("ids", True) and world.IDS or [0]

    # -- configuration
    def config(self, text):
        if isinstance(text, list):
            text = b"\n".join(text) + b"\n"
        self.cfg_text = text
        world.write(self.repo + b"/config", text)

    def simple_config(self, policy=b"track", paths=None, extra=()):
        lines = [b"[" + policy + b"]"] + [p for p in (paths or [self.src])] + list(extra)
        self.config(lines)

    # -- reading
    def has_meta(self):
        return os.path.lexists(self.repo + b"/metadata")

    def meta(self, strict=True):
        return read_meta(self.ctx, self.repo, strict)

    def audit(self, exact=True, meta=None, key="audit"):
        return audit(self.ctx, self.repo, meta or self.meta(), exact, key)

    def source(self, content=True):
        return world.snap(self.src, content=content)

    # -- preparing
    def normalise(self):
        """Makes every content change noticeable: a file whose size and time
        (in seconds) equal the last recorded version of that path while the
        content differs gets another time."""
        if not self.has_meta():
            return
        try:
            m = metafmt.parse(world.read(self.repo + b"/metadata"), strict=False)
        except metafmt.Bad:
            return
        again = True
        while again:        # a file may have several names
            again = False
            for p, n, _ in m.walk():
                s = next((s for _, s in n.history if s.type != NONE), None)
                if s is None or s.type != REG:
                    continue
                try:
                    st = os.lstat(p)
                except OSError:
                    continue
                if not stat.S_ISREG(st.st_mode) or st.st_size != s.size or st.st_mtime_ns // 10**9 != s.mtime:
                    continue
                e = world.entry(p, st)
                if (e.digest if s.size > metafmt.HASH else e.small) != s.content:
                    t = (s.mtime + 1 + self.r.randrange(1000)) * 10**9
                    os.utime(p, ns=(t, t))
                    again = again or st.st_nlink > 1

    def mutate(self, n):
        return [self.gen.mutate() for _ in range(n)]

    # -- running
    def run(self, args, stdin, expect, kw):
        if not self.tty or kw:
            return self.ctx.nb(*args, stdin=stdin, expect=expect, **kw)
        r = term.run(self.ctx, args, stdin=stdin)
        if expect is not None and r.rc != expect:
            self.ctx.fail("unexpected-status", "exit status %d instead of %d" % (r.rc, expect), run=r.brief())
        return r

    def backup(self, stdin=b"y\n", expect=0, **kw):
        r = self.run([kw.pop("repo", self.repo)], stdin, expect, kw)
        self.ctx.count("backups")
        return r

    def restore(self, n, path=None, stdin=b"y\n", expect=0, **kw):
        args = [kw.pop("repo", self.repo), str(n)] + ([path] if path is not None else [])
        r = self.run(args, stdin, expect, kw)
        self.ctx.count("restores")
        return r

    def gc(self, expect=0, **kw):
        r = self.ctx.nb(kw.pop("repo", self.repo), "gc", expect=expect, **kw)
        self.ctx.count("collections")
        return r

    def integrity(self, expect=None, **kw):
        r = self.ctx.nb(kw.pop("repo", self.repo), "integrity", expect=expect, **kw)
        self.ctx.count("integrity_checks")
        return r

    def set_aside(self, path=None):
        """Moves a tree out of the way. Returns where to."""
        path = path or self.top
        self.aside_n += 1
        to = BASE + b"/aside%d" % self.aside_n
        os.rename(path, to)
        return to

    def full_backup(self, stdin=b"y\n", report=True, compare=True, label=None, **kw):
        """Runs a backup next to the reference model and compares report,
        metadata and repository. Returns (run, Change)."""
        self.normalise()
        cfg = refmodel.parse_config(self.cfg_text)
        try:
            self.model.initiate(cfg)
        except refmodel.Dies as e:
            r = self.backup(stdin=stdin, expect=1, **kw)
            self.reload_model()
            self.ctx.count("expected_failures")
            return r, None
        lines, totals, warn, ch = refmodel.expected_backup_output(self.model, cfg)
        r = self.backup(stdin=stdin, **kw)
        if report:
            check_backup_report(self.ctx, r, lines, totals, ch)
        if ch.any() and r.rc == 0:
            self.model.current.label = label
            self.model.finish()
        else:
            self.reload_model()
        if compare and self.has_meta():
            self.compare_model()
        return r, ch

    def reload_model(self):
        labels = [b.label for b in self.model.backups]
        self.model = refmodel.Model.from_meta(self.meta()) if self.has_meta() else refmodel.Model()
        for b, l in zip(self.model.backups, labels):
            b.label = l

    def compare_model(self, key="recorded-state"):
        m = self.meta()
        want, got = self.model.normal(), refmodel.normal_meta(m)
        if want != got:
            bad = []
            for p in sorted(set(want) | set(got)):
                if want.get(p) != got.get(p):
                    bad.append("%r: expected %r, recorded %r" % (p, want.get(p), got.get(p)))
            self.ctx.fail(key, "the repository records something else", differences=bad[:8])
        if len(m.times) != len(self.model.backups):
            self.ctx.fail(key, "%d backups recorded instead of %d" % (len(m.times), len(self.model.backups)))
        self.ctx.count("recorded_paths_compared", len(got))
        return m


def under(p, top):
    return p == top or p.startswith(top.rstrip(b"/") + b"/")


def check_restored(ctx, meta, bid, path, before, after, key="restored", untouched=True):
    """What a restore of PATH (b'' for everything) has to leave behind.
    before/after: snapshots of the whole scratch space."""
    exp = metafmt.expected_tree(meta, bid)
    sel = {p for p in exp if not path or under(p, path)}
    lead = {p for p in exp if path and path.startswith(p + b"/")}
    bad = []
    n = 0
    for p in sorted(sel | lead):
        if p in (b"/tmp",):
            continue
        s, pol = exp[p]
        b, a = before.get(p), after.get(p)
        if a is None:
            bad.append("%r is missing" % p)
            continue
        n += 1
        d = state_ent_diff(s, a)
        if pol == 0 and s.type == DIR:
            if b is not None and b.type == world.D:
                if b.ino != a.ino or (b.mode, b.uid, b.gid) != (a.mode, a.uid, a.gid):
                    bad.append("directory %r, which only leads to something, was changed" % p)
                if a.mtime_ns != b.mtime_ns and a.mtime_ns < b.ctime:
                    bad.append("directory %r, which only leads to something, got an older timestamp" % p)
                ctx.count("leading_directories_compared")
                continue
            d = [x for x in d if not x.startswith("mtime")]
        if p in lead:
            if b is not None and b.type == world.D and a.type == world.D and (b.mode, b.uid, b.gid) == (a.mode, a.uid, a.gid):
                continue
            d = [x for x in d if not x.startswith("mtime")] if b is not None else d
        if d:
            bad.append("%r: %s" % (p, ", ".join(d)))
        elif untouched and b is not None and not state_ent_diff(s, b):
            if b.ino != a.ino or (b.type != world.D and b.ctime != a.ctime and b.nlink == a.nlink):
                bad.append("%r already was as recorded but was touched" % p)
    gone = [p for p in sel | lead if p in before and before[p].type == world.D and exp[p][0].type != DIR]
    for p, b in before.items():
        if p in sel or p in lead:
            continue
        if any(p.startswith(g + b"/") for g in gone):
            if p in after:
                bad.append("%r is still there, inside of what is no directory any more" % p)
            continue
        a = after.get(p)
        if a is None:
            bad.append("%r does not belong to the selection and was removed" % p)
        else:
            d = world.untouched(b, a)
            if p == BASE + b"/repo":
                continue        # the lock file comes and goes
            if d and not (b.type == world.D and any(under(q, p) for q in sel | lead)):
                bad.append("%r does not belong to the selection: %s" % (p, ", ".join(d)))
    for p in after:
        if p not in before and p not in sel and p not in lead:
            bad.append("%r was created" % p)
    ctx.count("restored_paths_verified", n)
    ctx.count("foreign_paths_verified", len(before))
    if bad:
        ctx.fail(key, "restore of %r from backup %d: %s" % (path, bid, "; ".join(bad[:6])))
    return exp


def snap_all(skip=()):
    s = world.snap(BASE, skip=skip)
    return {p: e for p, e in s.items()}


def notice_restore(meta, bid, rng):
    """Makes every content difference to the recorded state noticeable by a restore."""
    again = True
    while again:        # a file may have several names
        again = False
        for p, (s, _) in metafmt.expected_tree(meta, bid).items():
            if s.type != REG:
                continue
            try:
                st = os.lstat(p)
            except OSError:
                continue
            if not stat.S_ISREG(st.st_mode) or st.st_size != s.size or st.st_mtime_ns // 10**9 != s.mtime:
                continue
            e = world.entry(p, st)
            if (e.digest if s.size > metafmt.HASH else e.small) != s.content:
                t = (s.mtime + 1 + rng.randrange(1000)) * 10**9
                os.utime(p, ns=(t, t))
                again = again or st.st_nlink > 1


def unfollow(meta, bid, rng, strong=False):
    """A symlink to a directory in place of a recorded directory is followed by
    design (a configured parent may be one): such links are made dangling.
    STRONG: also those which could lead to a directory created meanwhile."""
    n = 0
    for p, (s, _) in metafmt.expected_tree(meta, bid).items():
        if s.type == DIR and os.path.islink(p) and (strong or os.path.isdir(p)):
            os.unlink(p)
            os.symlink(b"nowhere-%d" % n, p)
            n += 1


def aliased(meta, bid):
    """Whether two recorded paths are the same place at the moment, through links."""
    seen = set()
    for p in metafmt.expected_tree(meta, bid):
        q = os.path.realpath(os.path.dirname(p)) + b"/" + os.path.basename(p)
        if q in seen:
            return True
        seen.add(q)
    return False


def hostile(s, meta, bid, n, victims=True):
    """Replaces recorded paths by what hurts most. Returns descriptions."""
    r, out = s.r, []
    exp = metafmt.expected_tree(meta, bid)
    paths = sorted(p for p in exp if p.startswith(s.src + b"/"))
    vic = BASE + b"/victim"
    if victims and not os.path.lexists(vic):
        os.mkdir(vic)
        world.write(vic + b"/file", b"victim content which must stay\n" * 3)
        os.mkdir(vic + b"/dir")
        world.write(vic + b"/dir/inner", b"inner")
        os.chmod(vic + b"/file", 0o640)
    for k in range(n):
        if not paths:
            break
        p = r.choice(paths)
        if not os.path.isdir(os.path.dirname(p)) or os.path.islink(os.path.dirname(p)):
            continue
        st = exp[p][0]
        op = r.choice(["tovictim", "dangling", "tosibling", "tofifo", "todir", "tofile", "suid", "chown", "remove", "trunc", "hole",
                       "same", "toself", "mode0", "hardlink", "hardlink", "hardvictim", "hardname", "sized"])
        if not os.path.lexists(p) and op not in ("tovictim", "dangling", "todir", "tofile", "tofifo", "hardvictim"):
            continue

        def clear():
            if os.path.lexists(p):
                world.rmtree(p)
        if op == "tovictim":
            clear()
            os.symlink(r.choice([vic + b"/file", vic + b"/dir" if st.type != DIR else vic + b"/file", b"../../victim/file"]), p)
        elif op == "dangling":
            clear()
            os.symlink(vic + b"/new-%d" % k, p)
        elif op == "toself":
            clear()
            os.symlink(os.path.basename(p), p)
        elif op == "tosibling":
            q = r.choice(paths)
            if os.path.lexists(q) and q != p and not os.path.isdir(q):
                clear()
                os.symlink(q, p)
        elif op == "hardlink":
            q = r.choice(paths)
            if os.path.lexists(q) and q != p and not os.path.isdir(q) and not os.path.islink(os.path.dirname(q)) and \
                    not q.startswith(p + b"/"):
                clear()
                os.link(q, p, follow_symlinks=False)
        elif op == "hardvictim" and victims:
            clear()
            os.link(vic + b"/file", p)
        elif op == "hardname" and victims and not os.path.isdir(p):
            os.link(p, vic + b"/name-%d-%d" % (k, len(os.listdir(vic))), follow_symlinks=False)
        elif op == "tofifo":
            clear()
            s.gen.mkother(p)
        elif op == "todir":
            clear()
            os.mkdir(p)
            world.write(p + b"/x", b"y" * 30)
            s.gen.fill_dir(p)
        elif op == "tofile":
            clear()
            world.write(p, r.randbytes(r.randrange(60)))
        elif op == "suid" and os.path.isfile(p) and not os.path.islink(p):
            os.chown(p, r.choice(s.ids), r.choice(s.ids))
            os.chmod(p, r.choice([0o4755, 0o6755, 0o2755, 0o755]))
        elif op == "chown":
            os.lchown(p, r.choice(s.ids), r.choice(s.ids))
            if st.type == REG and os.path.isfile(p) and not os.path.islink(p):
                os.chmod(p, st.mode & 0o7777)
        elif op == "remove":
            clear()
        elif op == "mode0" and not os.path.islink(p):
            os.chmod(p, 0)
        elif op == "sized" and st.type == REG and os.path.isfile(p) and not os.path.islink(p):
            # another size, the same time
            e = world.entry(p)
            os.truncate(p, r.choice([0, e.size + 1, e.size // 2, e.size + 5000]))
            os.utime(p, ns=(e.mtime_ns, e.mtime_ns))
        elif op == "trunc" and os.path.isfile(p) and not os.path.islink(p):
            os.truncate(p, r.randrange(0, 40000))
        elif op == "same" and os.path.isfile(p) and not os.path.islink(p):
            s.gen.r.random()
            data = world.read(p)
            world.write(p, s.gen.similar(data))
            t = s.gen.new_mtime(p)
            os.utime(p, ns=(t, t))
        out.append("%s %r" % (op, p))
    return out
