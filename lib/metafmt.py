"""Independent reader and writer of nano-backup's metadata file."""
import struct
from collections import namedtuple

HASH = 20
NONE, REG, LNK, DIR = 0, 1, 2, 3


class Bad(Exception):
    """The bytes are not a valid metadata file."""


# content: for REG the raw hash (size > 20) or the inline bytes (size <= 20)
State = namedtuple("State", "type uid gid mode mtime size content slot target")


def st_none():
    return State(NONE, None, None, None, None, None, None, None, None)


class Node:
    __slots__ = ("name", "policy", "history", "subnodes")

    def __init__(self, name, policy, history, subnodes):
        self.name, self.policy, self.history, self.subnodes = name, policy, history, subnodes


class Meta:
    def __init__(self):
        self.times, self.config, self.total, self.nodes = [], [], 0, []

    def walk(self):
        """Yields (path, node, parent) for every path."""
        stack = [(b"/" + n.name, n, None) for n in self.nodes]
        while stack:
            p, n, parent = stack.pop()
            yield p, n, parent
            for s in n.subnodes:
                stack.append((p + b"/" + s.name, s, n))

    def paths(self):
        return {p: n for p, n, _ in self.walk()}


class _R:
    def __init__(self, data):
        self.d, self.p = data, 0

    def take(self, n):
        if n < 0 or self.p + n > len(self.d):
            raise Bad("truncated at %d (+%d of %d)" % (self.p, n, len(self.d)))
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def u8(self):
        return self.take(1)[0]

    def u32(self):
        return struct.unpack("<I", self.take(4))[0]

    def u64(self):
        return struct.unpack("<Q", self.take(8))[0]

    def i64(self):
        return struct.unpack("<q", self.take(8))[0]


def _point(r, nbackups):
    bid = r.u64()
    if bid >= nbackups:
        raise Bad("backup id out of range")
    t = r.u8()
    if t == NONE:
        return bid, st_none()
    uid, gid = r.u32(), r.u32()
    if t == REG:
        mode, mtime, size = r.u32(), r.i64(), r.u64()
        slot = None
        if size > HASH:
            content = r.take(HASH)
            slot = r.u8()
        else:
            content = r.take(size)
        return bid, State(REG, uid, gid, mode, mtime, size, content, slot, None)
    if t == LNK:
        n = r.u64()
        return bid, State(LNK, uid, gid, None, None, None, None, None, r.take(n))
    if t == DIR:
        return bid, State(DIR, uid, gid, r.u32(), r.i64(), None, None, None, None)
    raise Bad("state type %d" % t)


def _history(r, nbackups):
    return [_point(r, nbackups) for _ in range(_count(r, 9))]


def _count(r, least):
    n = r.u64()
    if n * least > len(r.d) - r.p:
        raise Bad("count %d too large" % n)
    return n


def parse(data, strict=True):
    """strict: demands what a sane writer guarantees in addition to what is
    needed to make sense of the bytes."""
    r = _R(data)
    m = Meta()
    m.times = [r.i64() for _ in range(_count(r, 8))]
    m.config = _history(r, len(m.times))
    m.total = r.u64()

    count = 0
    top = []
    stack = [(top, _count(r, 8), set())]
    while stack:
        lst, left, names = stack.pop()
        if left == 0:
            continue
        stack.append((lst, left - 1, names))
        ln = r.u64()
        if ln == 0:
            raise Bad("empty name")
        name = r.take(ln)
        if b"\0" in name or b"/" in name or name in (b".", b".."):
            raise Bad("bad name %r" % name)
        if strict and name in names:
            raise Bad("duplicate name %r" % name)
        names.add(name)
        pol = r.u8()
        if strict and pol > 3:
            raise Bad("policy %d" % pol)
        hist = _history(r, len(m.times))
        if strict and not hist:
            raise Bad("no history for %r" % name)
        if strict and [b for b, _ in hist] != sorted({b for b, _ in hist}):
            raise Bad("history of %r out of order" % name)
        if strict and pol != 3 and len(hist) != 1:
            raise Bad("history of untracked %r has %d points" % (name, len(hist)))
        n = Node(name, pol, hist, [])
        lst.append(n)
        count += 1
        stack.append((n.subnodes, _count(r, 8), set()))
    m.nodes = top
    if r.p != len(data):
        raise Bad("trailing bytes")
    if strict and m.total != count:
        raise Bad("path count %d, found %d" % (m.total, count))
    return m


def _ser_history(out, hist):
    out.append(struct.pack("<Q", len(hist)))
    for bid, s in hist:
        out.append(struct.pack("<QB", bid, s.type))
        if s.type == NONE:
            continue
        out.append(struct.pack("<II", s.uid, s.gid))
        if s.type == REG:
            out.append(struct.pack("<IqQ", s.mode, s.mtime, s.size))
            out.append(s.content)
            if s.size > HASH:
                out.append(struct.pack("<B", s.slot))
        elif s.type == LNK:
            out.append(struct.pack("<Q", len(s.target)) + s.target)
        elif s.type == DIR:
            out.append(struct.pack("<Iq", s.mode, s.mtime))


def serialize(m):
    out = [struct.pack("<Q", len(m.times))]
    for t in m.times:
        out.append(struct.pack("<q", t))
    _ser_history(out, m.config)
    out.append(struct.pack("<Q", m.total))

    def nodes(lst):
        out.append(struct.pack("<Q", len(lst)))
        for n in lst:
            out.append(struct.pack("<Q", len(n.name)) + n.name + struct.pack("<B", n.policy))
            _ser_history(out, n.history)
            nodes(n.subnodes)
    nodes(m.nodes)
    return b"".join(out)


def blob_name(s):
    """Path of the stored file of a state, relative to the repository; None if stored inline."""
    if s.type != REG or s.size <= HASH:
        return None
    h = s.content.hex()
    return ("%s/%s/%sx%xx%x" % (h[0], h[1:3], h[3:], s.size, s.slot)).encode()


def needed_blobs(m):
    """Maps each stored file some version needs to the paths needing it."""
    r = {}
    for p, n, _ in m.walk():
        for _, s in n.history:
            b = blob_name(s)
            if b is not None:
                r.setdefault(b, set()).add(p)
    return r


def state_at(node, bid):
    """The state a restore of backup BID uses (None: did not exist)."""
    if node.policy != 3:
        s = node.history[0][1]
        return None if s.type == NONE else s
    for b, s in node.history:
        if b >= bid:
            return None if s.type == NONE else s
    return None


def expected_tree(m, bid):
    """path -> (State, policy) of everything a full restore of backup BID creates."""
    out = {}
    stack = [(b"/" + n.name, n) for n in m.nodes]
    while stack:
        p, n = stack.pop()
        s = state_at(n, bid)
        if s is None:
            continue
        out[p] = (s, n.policy)
        if s.type == DIR:
            for c in n.subnodes:
                stack.append((p + b"/" + c.name, c))
    return out
