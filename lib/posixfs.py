"""A disk with volatile caches: what may be left of a directory tree after a
power loss during a recorded run.

Kept back until it is synchronised: the data of each file, write by write, and
every change of directory entries. A synchronised directory keeps all changes
made to its own entries; a synchronised file keeps its data but not its name.
A rename within one directory takes effect as a whole. The new name which a
rename to another directory makes never shows up together with the old one, but
only synchronising that other directory makes it durable. Changes of the same
name reach the disk in their order; apart from that any subset of what was kept
back may have reached it."""
import os

import sup, world

O_SYNC = os.O_SYNC | os.O_DSYNC


class Unmodelled(Exception):
    """A call whose effect on the data is not in the log."""


class File:
    __slots__ = ("data", "pending", "pos", "sync")

    def __init__(self, data=b""):
        self.data, self.pending, self.pos, self.sync = data, [], 0, False

    def now(self):
        return apply(self.data, self.pending)


class Dir:
    __slots__ = ("ents",)       # durable entries

    def __init__(self):
        self.ents = {}


def apply(data, writes):
    b = bytearray(data)
    for w in writes:
        if w[0] == "w":
            _, off, d = w
            if len(b) < off:
                b += bytes(off - len(b))
            b[off:off + len(d)] = d
        else:
            n = w[1]
            if n <= len(b):
                del b[n:]
            else:
                b += bytes(n - len(b))
    return bytes(b)


class Op:
    """One change of directory entries: ((dir, name, object or None), ...)."""
    __slots__ = ("sets", "what", "needs")

    def __init__(self, sets, what, needs=None):
        self.sets, self.what, self.needs = sets, what, needs

    def names(self):
        return {(id(d), n) for d, n, _ in self.sets}


class Disk:
    def __init__(self, root):
        """Everything below ROOT as it lies on disk now is durable."""
        self.rootpath = root
        self.ops = []           # kept back, oldest first
        self.byino = {}
        self.root = self._load(root)
        self.links = False

    def _load(self, path):
        st = os.lstat(path)
        d = Dir()
        self.byino[st.st_ino] = d
        for n in os.listdir(path):
            p = path + b"/" + n
            s = os.lstat(p)
            if os.path.islink(p):
                continue
            if os.path.isdir(p):
                d.ents[n] = self._load(p)
            else:
                f = File(world.read(p) if os.path.isfile(p) else b"")
                self.byino[s.st_ino] = f
                d.ents[n] = f
        return d

    # -- the present view, everything applied
    def entries(self, d):
        e = dict(d.ents)
        for op in self.ops:
            for dd, n, o in op.sets:
                if dd is d:
                    if o is None:
                        e.pop(n, None)
                    else:
                        e[n] = o
        return e

    def _get(self, d, n):
        for op in reversed(self.ops):
            for dd, nn, o in op.sets:
                if dd is d and nn == n:
                    return o
        return d.ents.get(n)

    def find(self, path):
        """(directory, name, object) for PATH; directory None if it is outside or missing."""
        if path == self.rootpath:
            return None, None, self.root
        if not path.startswith(self.rootpath + b"/"):
            return None, None, None
        parts = [x for x in path[len(self.rootpath) + 1:].split(b"/") if x not in (b"", b".")]
        d = self.root
        if not parts:
            return None, None, d
        for x in parts[:-1]:
            d = self._get(d, x)
            if not isinstance(d, Dir):
                return None, None, None
        return d, parts[-1], self._get(d, parts[-1])

    # -- events
    def event(self, e):
        """Takes one successful event into account. Returns whether anything changed."""
        if e.ret is None or e.ret < 0:
            return False
        n = e.name
        if n in ("open", "creat"):
            d, name, o = self.find(e.p1)
            if d is None:
                return False
            ch = False
            if o is None and (e.arg & os.O_CREAT or n == "creat"):
                o = File()
                self.ops.append(Op(((d, name, o),), "create %s" % name.decode("latin1")))
                self.byino[e.ino] = o
                ch = True
            if isinstance(o, File):
                if e.arg & os.O_TRUNC and (e.arg & os.O_ACCMODE) != os.O_RDONLY and len(o.now()):
                    self._data(o, ("t", 0))
                    ch = True
                if (e.arg & os.O_ACCMODE) != os.O_RDONLY:
                    o.pos = len(o.now()) if e.arg & os.O_APPEND else 0
                    o.sync = bool(e.arg & O_SYNC)
            return ch
        if n in ("write", "pwrite", "writev"):
            o = self.byino.get(e.ino)
            if not isinstance(o, File):
                return False
            if n == "pwrite":
                self._data(o, ("w", e.arg, e.data[:e.ret]))
            else:
                self._data(o, ("w", o.pos, e.data[:e.ret]))
                o.pos += e.ret
            return True
        if n == "lseek":
            o = self.byino.get(e.ino)
            if isinstance(o, File):
                o.pos = e.ret
            return False
        if n in ("truncate", "ftruncate"):
            o = self.byino.get(e.ino) if n == "ftruncate" else self.find(e.p1)[2]
            if isinstance(o, File):
                self._data(o, ("t", e.arg))
                return True
            return False
        if n in ("copy_file_range", "sendfile", "mmap", "fallocate"):
            if isinstance(self.byino.get(e.ino), File):
                raise Unmodelled(n)
            return False
        if n in ("fsync", "fdatasync"):
            o = self.byino.get(e.ino)
            if isinstance(o, File):
                o.data, o.pending = o.now(), []
            elif isinstance(o, Dir):
                self._sync_dir(o)
            return o is not None
        if n in ("sync", "syncfs"):
            self.sync_all()
            return True
        if n == "rename":
            d1, n1, o1 = self.find(e.p1)
            d2, n2, _ = self.find(e.p2)
            if o1 is None and d2 is None:
                return False
            if d1 is None or d2 is None:
                raise Unmodelled("rename across the border of the repository")
            if d1 is d2:
                self.ops.append(Op(((d1, n1, None), (d2, n2, o1)), "rename to %s" % n2.decode("latin1")))
            else:
                self.ops.append(Op(((d1, n1, None),), "rename from %s" % n1.decode("latin1")))
                self.ops.append(Op(((d2, n2, o1),), "rename to %s" % n2.decode("latin1"), self.ops[-1]))
            return True
        if n == "link":
            _, _, o1 = self.find(e.p1)
            d2, n2, _ = self.find(e.p2)
            if d2 is None:
                return False
            if o1 is None:
                raise Unmodelled("link to something outside of the repository")
            self.ops.append(Op(((d2, n2, o1),), "link"))
            return True
        if n == "mkdir":
            d, name, _ = self.find(e.p1)
            if d is None:
                return False
            o = Dir()
            self.byino[e.ino] = o
            self.ops.append(Op(((d, name, o),), "mkdir %s" % name.decode("latin1")))
            return True
        if n in ("unlink", "rmdir"):
            d, name, o = self.find(e.p1)
            if d is None:
                return False
            self.ops.append(Op(((d, name, None),), "%s %s" % (n, name.decode("latin1"))))
            return True
        return False

    def _data(self, o, w):
        o.pending.append(w)
        if o.sync:
            o.data, o.pending = o.now(), []

    def _commit(self, keep):
        rest = []
        for i, op in enumerate(self.ops):
            if i in keep:
                for d, n, o in op.sets:
                    if o is None:
                        d.ents.pop(n, None)
                    else:
                        d.ents[n] = o
            else:
                rest.append(op)
        self.ops = rest

    def _closure(self, want):
        """WANT and every earlier change which one of them depends on."""
        names, out, needed = set(), set(), []
        for i in range(len(self.ops) - 1, -1, -1):
            op = self.ops[i]
            ns = op.names()
            if i in want or ns & names or any(op is x for x in needed):
                out.add(i)
                names |= ns
                if op.needs is not None:
                    needed.append(op.needs)
        return out

    def _without(self, i):
        """Everything but change I and what depends on it."""
        gone, names, ops = {i}, self.ops[i].names(), [self.ops[i]]
        for j in range(i + 1, len(self.ops)):
            op = self.ops[j]
            if op.names() & names or any(op.needs is x for x in ops):
                gone.add(j)
                names |= op.names()
                ops.append(op)
        return set(range(len(self.ops))) - gone

    def _sync_dir(self, d):
        self._commit(self._closure({i for i, op in enumerate(self.ops) if any(x is d for x, _, _ in op.sets)}))

    def sync_all(self):
        self._commit(set(range(len(self.ops))))
        for o in self.byino.values():
            if isinstance(o, File):
                o.data, o.pending = o.now(), []

    # -- what a power loss leaves behind
    def subsets(self, rng, most):
        """Sets of changes which may have reached the disk, closed under the order of names."""
        n = len(self.ops)
        if n <= 5:
            out = {frozenset(self._closure({i for i in range(n) if m >> i & 1})) for m in range(1 << n)}
        else:
            out = {frozenset(), frozenset(range(n))}
            for i in range(n):
                out.add(frozenset(self._closure({i})))
                out.add(frozenset(range(i)))
                out.add(frozenset(self._without(i)))
            for _ in range(most):
                p = rng.random()
                out.add(frozenset(self._closure({i for i in range(n) if rng.random() < p})))
        out = sorted(out, key=sorted)
        return out if len(out) <= most else rng.sample(out, most)

    def tree(self, subset):
        """path -> File or Dir with SUBSET of the changes applied."""
        ents = {}
        for i in sorted(subset):
            for d, n, o in self.ops[i].sets:
                e = ents.setdefault(id(d), dict(d.ents))
                if o is None:
                    e.pop(n, None)
                else:
                    e[n] = o
        out, stack = {}, [(b"", self.root)]
        while stack:
            p, d = stack.pop()
            for n, o in ents.get(id(d), d.ents).items():
                q = p + b"/" + n if p else n
                out[q] = o
                if isinstance(o, Dir):
                    stack.append((q, o))
        return out


def contents(rng, f):
    """What may be left of the data of a file."""
    if not f.pending:
        return [f.data]
    full = f.now()
    out = [f.data, full]
    k = rng.randrange(len(f.pending) + 1)
    out.append(apply(f.data, f.pending[:k]))
    out.append(apply(f.data, f.pending[k:]) if len(f.pending) > 1 else full[:rng.randrange(len(full) + 1)])
    out.append(bytes(len(full)))
    if len(full) > 1:
        b = bytearray(full)
        i = rng.randrange(len(b))
        b[i:] = bytes(len(b) - i)
        out.append(bytes(b))
        out.append(full[:rng.randrange(len(full))])
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


def materialise(tree, root, rng):
    """Writes one possible outcome below ROOT. Returns the contents chosen."""
    world.rmtree(root)
    os.mkdir(root)
    for p in sorted(tree):
        o = tree[p]
        if isinstance(o, Dir):
            os.mkdir(root + b"/" + p)
        else:
            world.write(root + b"/" + p, rng.choice(contents(rng, o)))
