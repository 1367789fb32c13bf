"""Generation, mutation, recording and comparison of file trees."""
import errno, hashlib, os, random, socket, stat
from collections import namedtuple

F, L, D, O = "file", "link", "dir", "other"

# digest: 20 byte checksum; small: the bytes themselves if there are at most 64
Ent = namedtuple("Ent", "type mode uid gid mtime size digest small target ino ctime nlink mtime_ns")


# positions of the bytes of a checksum which are kept (Ctx.weaken); None: all
KEEP = None


def _kept(h):
    return h if KEEP is None else bytes(c if k in KEEP else 0 for k, c in enumerate(h))


def b2(data):
    return _kept(hashlib.blake2b(data, digest_size=20).digest())


def digest_file(path, size):
    h = hashlib.blake2b(digest_size=20)
    small = b""
    with open(path, "rb", buffering=0) as f:
        while True:
            b = f.read(1 << 20)
            if not b:
                break
            if len(small) < 65:
                small += b[:65 - len(small)]
            h.update(b)
    return _kept(h.digest()), (small if size <= 64 else None)


def entry(path, st=None, content=True):
    st = st or os.lstat(path)
    m = st.st_mode
    digest = small = target = None
    size = st.st_size
    if stat.S_ISREG(m):
        t = F
        if content and not (size > 1 << 24 and st.st_blocks * 512 < size // 64):    # nearly nothing but holes
            digest, small = digest_file(path, size)
    elif stat.S_ISLNK(m):
        t, target = L, os.readlink(path)
    elif stat.S_ISDIR(m):
        t, size = D, 0
    else:
        t, size = O, 0
    return Ent(t, m, st.st_uid, st.st_gid, st.st_mtime_ns // 10**9, size, digest, small, target,
               st.st_ino, st.st_ctime_ns, st.st_nlink, st.st_mtime_ns)


def snap(root, content=True, skip=()):
    """path -> Ent of root and everything below it (not following links)."""
    out = {}
    stack = [root]
    while stack:
        p = stack.pop()
        if p in skip:
            continue
        try:
            e = entry(p, content=content)
        except FileNotFoundError:
            continue
        out[p] = e
        if e.type == D:
            with os.scandir(p) as it:
                for x in it:
                    stack.append(p + b"/" + x.name if p != b"/" else b"/" + x.name)
    return out


def same(a, b, times=True, mode=True, owner=True):
    """Compares what a backup promises to keep. Returns a list of differing aspects."""
    d = []
    if a.type != b.type:
        return ["type %s/%s" % (a.type, b.type)]
    if owner and (a.uid, a.gid) != (b.uid, b.gid):
        d.append("owner %d:%d/%d:%d" % (a.uid, a.gid, b.uid, b.gid))
    if a.type == L:
        if a.target != b.target:
            d.append("target %r/%r" % (a.target, b.target))
        return d
    if mode and a.mode != b.mode:
        d.append("mode %o/%o" % (a.mode, b.mode))
    if times and a.type in (F, D) and a.mtime != b.mtime:
        d.append("mtime %d/%d" % (a.mtime, b.mtime))
    if a.type == F and (a.size, a.digest) != (b.size, b.digest):
        d.append("content (size %d/%d)" % (a.size, b.size))
    return d


def untouched(a, b):
    """Differences which show that a path was modified at all."""
    d = same(a, b)
    if a.ino != b.ino:
        d.append("replaced")
    elif a.ctime != b.ctime and (a.nlink == b.nlink or a.type == D):     # removing another name of it is no change
        d.append("ctime changed")
    return d


def diff(a, b, cmp=same, limit=20):
    """Differences of two snapshots as text lines."""
    out = []
    for p in sorted(set(a) | set(b)):
        if p not in b:
            out.append("missing %r (%s)" % (p, a[p].type))
        elif p not in a:
            out.append("unexpected %r (%s)" % (p, b[p].type))
        else:
            x = cmp(a[p], b[p])
            if x:
                out.append("%r: %s" % (p, ", ".join(x)))
        if len(out) >= limit:
            out.append("...")
            break
    return out


# ---------------------------------------------------------------- generation
PLAIN = [b"a", b"b", b"c", b"ab", b"abc", b"a.txt", b"b.txt", b"x.py", b"x.pyc", b"README", b"data", b"foo", b"foo.txt",
         b"foobar", b"bar", b"lib", b"src", b"tmp", b".git", b".bashrc", b"A", b"Foo", b"1", b"01", b"config", b"metadata"]
WEIRD = [b" ", b"end\r", b"  two  spaces", b"new\nline", b"\xff\xfe", b"\xc3\xa4\xc3\xb6", b"-rf", b"...", b"..a", b"back\\slash",
         b"q\"uote'", b"*", b"[a]", b"(x)", b"$HOME", b"^a$", b"a\x01\x7f", b"%s%n", b"\t", b"#c", b"[copy]", b"a ", b"'",
         b"n" * 255, b"\xe2\x82\xac" * 80, b"lockfile", b"tmp-file", b"y", b"0", b"+", b"|", b"{1}", b"?", b"\r", b"a\rb"]
SIZES = [0, 0, 1, 5, 19, 20, 21, 22, 40, 64, 100, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000]
BIG = [65535, 65536, 65537, 131072, 300000, 1048576 + 3]
MODES = [0o644, 0o600, 0o755, 0o444, 0o000, 0o4755, 0o2755, 0o6711, 0o1644, 0o777, 0o640, 0o7777]
DMODES = [0o755, 0o700, 0o555, 0o1777, 0o2775, 0o711, 0o500, 0o4755, 0o000]
IDS = [0, 0, 0, 1, 1000, 1001, 65534, 65535, 2147483648, 2147483653, 4294967000, 4294967293]
TIMES = [0, 1, -1, -100000, 1700000000, 1600000000, 2**31 - 1, 2**31, 2**32, 2**33, -2**31 - 1, 2**40, -2**40]


class Gen:
    """Random trees below a root directory. Every content or attribute change
    made through it is one which the program can notice (see C04)."""

    def __init__(self, rng, root, weird=0.15, ids=True, special=0.04, big=0.03, odd_times=0.3, modes=True, links=0.15,
                 unreadable=True, hardlinks=0.03):
        self.r, self.root, self.weird, self.ids = rng, root, weird, ids
        self.special, self.big, self.odd_times, self.modes, self.links = special, big, odd_times, modes, links
        self.clock = 1500000000 + rng.randrange(10**8)
        self.contents = []
        self.n = 0
        self.unreadable, self.hardlinks = unreadable, hardlinks
        self.made = []          # files and links, which may get further names
        self.gone = []          # (path, where it was put): things which may come back

    # -- attributes
    def mtime(self):
        self.clock += self.r.randrange(1, 1000)
        t = self.clock
        if self.r.random() < self.odd_times:
            t = self.r.choice(TIMES) + self.r.randrange(1000)
        return t * 10**9 + self.r.choice([0, 0, 1, 500000000, 999999999])

    def new_mtime(self, path):
        """A timestamp which differs in whole seconds."""
        old = os.lstat(path).st_mtime_ns // 10**9
        while True:
            t = self.mtime()
            if t // 10**9 != old:
                return t

    def content(self, size=None):
        r = self.r
        if size is None:
            if self.contents and r.random() < 0.25:
                return r.choice(self.contents)
            size = r.choice(BIG) if r.random() < self.big else r.choice(SIZES)
            if r.random() < 0.3:
                size = r.randrange(0, 300)
        self.n += 1
        k = r.random()
        if k < 0.1:
            data = b"\0" * size
        elif k < 0.3:
            data = (b"%d:" % self.n + b"line of text\n" * (size // 13 + 1))[:size]
        else:
            data = r.randbytes(size)
        if len(data) <= 20000:
            self.contents.append(data)
        return data

    def similar(self, data):
        """Content of the same size, slightly different."""
        if not data:
            return data
        b = bytearray(data)
        i = self.r.choice([0, len(b) - 1, self.r.randrange(len(b))])
        b[i] ^= 1 << self.r.randrange(8)
        self.contents.append(bytes(b))
        return bytes(b)

    def name(self):
        if self.r.random() < self.weird:
            return self.r.choice(WEIRD)
        return self.r.choice(PLAIN)

    def target(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            return self.name()[:200]
        if k < 0.5:
            return b"../" + self.name()[:200]
        if k < 0.65:
            return self.root + b"/" + self.name()[:100]
        if k < 0.75:
            return b"/nonexistent/" + self.name()[:200]
        if k < 0.8:
            return b"x" * r.choice([1, 2, 100, 1000, 4095])
        if k < 0.85:
            return b"."
        return self.name() + b"/" + self.name()

    def stamp(self, path, d=False):
        """Sets random attributes (mtime last)."""
        r = self.r
        link = os.path.islink(path)
        if self.ids and r.random() < 0.4:
            os.lchown(path, r.choice(IDS), r.choice(IDS))
        if not link:
            if self.modes and r.random() < 0.5:
                m = r.choice(DMODES if d else MODES)
                if r.random() < 0.2:
                    m = r.randrange(0o10000)
                if not self.unreadable:
                    m |= 0o700 if d else 0o600
                os.chmod(path, m)
            t = self.mtime()
            os.utime(path, ns=(t, t))

    def mkfile(self, path, data=None):
        data = self.content() if data is None else data
        with open(path, "wb") as f:
            f.write(data)
        self.stamp(path)

    def mklink(self, path, target=None):
        os.symlink(self.target() if target is None else target, path)
        if self.ids and self.r.random() < 0.4:
            os.lchown(path, self.r.choice(IDS), self.r.choice(IDS))

    def mkother(self, path):
        if self.r.random() < 0.7 or len(path) > 100:
            os.mkfifo(path)
        else:
            s = socket.socket(socket.AF_UNIX)
            s.bind(path)
            s.close()

    def make(self, path, depth=0, fan=5, kind=None):
        """Creates one random item (recursively for directories)."""
        k = self.r.random()
        if kind is None:
            kind = O if k < self.special else L if k < self.special + self.links else \
                D if k < self.special + self.links + (0.3 if depth > 0 else 0.05) else F
        if kind in (F, L) and self.made and self.r.random() < self.hardlinks:
            old = self.r.choice(self.made)
            if os.path.lexists(old) and not os.path.isdir(old):
                os.link(old, path, follow_symlinks=False)
                return
        if kind == F:
            self.mkfile(path)
            self.made.append(path)
        elif kind == L:
            self.mklink(path)
            self.made.append(path)
        elif kind == O:
            self.mkother(path)
        else:
            os.mkdir(path)
            if depth > 0:
                for _ in range(self.r.randrange(0, fan + 1)):
                    self.add(path, depth - 1, fan)
            self.stamp(path, d=True)

    def add(self, d, depth=1, fan=4, kind=None):
        for _ in range(10):
            n = self.name()
            p = d + b"/" + n
            if len(p) < 3500 and not os.path.lexists(p):
                self.make(p, depth, fan, kind)
                return p
        return None

    def fill(self, n=12, depth=3):
        """Creates the root with about n top-level items."""
        if not os.path.lexists(self.root):
            os.makedirs(self.root)
        for _ in range(n):
            self.add(self.root, self.r.randrange(depth + 1))

    def fill_dir(self, d, n=3):
        for _ in range(self.r.randrange(n + 1)):
            self.add(d, 1)

    # -- mutation
    def pick(self, kinds=None, below=None):
        """A random existing path below the root (never the root itself)."""
        found = []
        stack = [below or self.root]
        while stack:
            d = stack.pop()
            with os.scandir(d) as it:
                for e in it:
                    if e.is_dir(follow_symlinks=False):
                        stack.append(e.path)
                        t = D
                    elif e.is_symlink():
                        t = L
                    elif e.is_file(follow_symlinks=False):
                        t = F
                    else:
                        t = O
                    if kinds is None or t in kinds:
                        found.append(e.path)
        found.sort()
        return self.r.choice(found) if found else None

    def dirs(self):
        return [self.root] + sorted(p for p, e in snap(self.root, content=False).items() if e.type == D and p != self.root)

    def remove(self, p):
        """Removes P, or puts it aside so that it can come back."""
        if self.root.startswith(b"/tmp/w/") and self.r.random() < 0.6:
            os.makedirs(b"/tmp/w/.gone", exist_ok=True)
            to = b"/tmp/w/.gone/%d" % len(self.gone)
            os.rename(p, to)
            self.gone.append((p, to))
        else:
            rmtree(p)

    def revive(self):
        """Something which was removed or replaced earlier comes back, as it
        was or with changes. Returns its path or None."""
        r = self.r
        ok = [(p, q) for p, q in self.gone[-12:] if os.path.isdir(os.path.dirname(p)) and not os.path.islink(os.path.dirname(p))
              and os.path.lexists(q)]
        if not ok:
            return None
        p, q = r.choice(ok)
        if os.path.lexists(p):
            self.remove(p)
        copy_tree(q, p)
        # whatever it is compared with, the change can be noticed
        for x, e in snap(p, content=False).items():
            if e.type == F:
                if r.random() < 0.3:
                    write(x, self.content())
                t = self.new_mtime(x)
                os.utime(x, ns=(t, t))
            elif e.type != D and e.type != O and r.random() < 0.3:
                os.unlink(x)
                self.make(x, 0, 0, r.choice([F, L]))
            elif e.type == F and r.random() < 0.1:
                os.unlink(x)
        return p

    def mutate(self):
        """One random change. Returns a description."""
        r = self.r
        op = r.choice(["add", "add", "adddir", "remove", "remove", "content", "content", "samesize", "chmod", "chown", "mtime",
                       "retarget", "type", "type", "type", "rename", "readd", "touchdir", "swap", "truncate", "grow", "same",
                       "revive", "revive", "revive", "revive"])
        p = None
        if op == "add":
            p = self.add(r.choice(self.dirs()), 1)
        elif op == "adddir":
            p = self.add(r.choice(self.dirs()), 2, kind=D)
        elif op == "remove":
            p = self.pick()
            if p:
                self.remove(p)
        elif op in ("content", "samesize", "truncate", "grow", "same"):
            p = self.pick((F,))
            if p:
                t = self.new_mtime(p)
                with open(p, "rb") as f:
                    old = f.read()
                if op == "content":
                    new = self.content()
                elif op == "samesize":
                    new = self.similar(old)
                elif op == "truncate":
                    new = old[:r.randrange(len(old) + 1)]
                elif op == "grow":
                    new = old + self.content(r.choice([1, 2, 20, 21, 5000]))
                else:
                    new = old
                with open(p, "wb") as f:
                    f.write(new)
                os.utime(p, ns=(t, t))
        elif op == "revive":
            p = self.revive()
        elif op == "chmod":
            p = self.pick((F, D))
            if p:
                os.chmod(p, r.choice(MODES) if self.unreadable else r.choice(MODES) | 0o700)
        elif op == "chown":
            p = self.pick((F, D, L))
            if p and self.ids:
                os.lchown(p, r.choice(IDS), r.choice(IDS))
        elif op == "mtime":
            p = self.pick((F, D))
            if p:
                t = self.new_mtime(p)
                os.utime(p, ns=(t, t))
        elif op == "touchdir":
            p = r.choice(self.dirs())
            t = self.new_mtime(p)
            os.utime(p, ns=(t, t))
        elif op == "retarget":
            p = self.pick((L,))
            if p:
                os.unlink(p)
                self.mklink(p)
        elif op == "type":
            p = self.pick()
            if p:
                old = entry(p, content=False).type
                self.remove(p)
                self.make(p, 2, 4, r.choice([k for k in (F, L, D, F, L, D, O) if k != old]))
        elif op == "rename":
            p = self.pick()
            d = r.choice(self.dirs())
            if p and not (d == p or d.startswith(p + b"/")):
                q = d + b"/" + self.name()
                if not os.path.lexists(q) and len(q) < 3500 and len(os.path.basename(q)) <= 255:
                    os.rename(p, q)
        elif op == "readd":
            p = self.pick((F,))
            if p:
                e = entry(p)
                with open(p, "rb") as f:
                    data = f.read()
                os.unlink(p)
                with open(p, "wb") as f:
                    f.write(data)
                os.chown(p, e.uid, e.gid)
                os.chmod(p, e.mode & 0o7777)
                os.utime(p, ns=(e.mtime_ns, e.mtime_ns))
        elif op == "swap":
            p, q = self.pick((F,)), self.pick((F,))
            if p and q and p != q:
                t, u = self.new_mtime(p), self.new_mtime(q)
                tmp = self.root + b"/.swap"
                os.rename(p, tmp)
                os.rename(q, p)
                os.rename(tmp, q)
                # make the change noticeable whatever was exchanged
                os.utime(p, ns=(t, t))
                os.utime(q, ns=(u, u))
        return "%s %r" % (op, p)


def rmtree(p):
    """Removes anything, without following links and without recursion limits."""
    st = os.lstat(p)
    if not stat.S_ISDIR(st.st_mode):
        os.unlink(p)
        return
    order, stack = [], [p]
    while stack:
        d = stack.pop()
        order.append(d)
        with os.scandir(d) as it:
            for e in it:
                if e.is_dir(follow_symlinks=False):
                    stack.append(e.path)
                else:
                    os.unlink(e.path)
    for d in reversed(order):
        os.rmdir(d)


def copy_tree(src, dst, names=None):
    """Copies a tree with all recorded attributes. NAMES: shared by copies of trees which share hard links."""
    s = snap(src, content=False)
    names = {} if names is None else names
    for p in sorted(s, key=lambda x: (x.count(b"/"), x)):
        e, q = s[p], dst + p[len(src):]
        if e.type in (F, L) and e.nlink > 1:
            if e.ino in names:
                os.link(names[e.ino], q, follow_symlinks=False)
                continue
            names[e.ino] = q
        if e.type == D:
            os.mkdir(q)
        elif e.type == L:
            os.symlink(e.target, q)
        elif e.type == F:
            with open(p, "rb") as i, open(q, "wb") as o:
                while True:
                    b = i.read(1 << 20)
                    if not b:
                        break
                    o.write(b)
        else:
            os.mknod(q, stat.S_IFMT(e.mode) | 0o600)
    for p in sorted(s, key=lambda x: (-x.count(b"/"), x)):
        e, q = s[p], dst + p[len(src):]
        os.lchown(q, e.uid, e.gid)
        if e.type in (F, D, O):
            os.chmod(q, e.mode & 0o7777)
        if e.type in (F, D):
            os.utime(q, ns=(e.mtime_ns, e.mtime_ns))


def write(path, data):
    with open(path, "wb") as f:
        f.write(data)


def read(path):
    with open(path, "rb") as f:
        return f.read()
