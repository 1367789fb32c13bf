"""Breaks metadata, byte by byte and field by field."""
import struct

import metafmt
from metafmt import DIR, LNK, NONE, REG, Node, State

EXTREME = [0, 1, 2, 3, 20, 21, 255, 256, 4095, 4096, 65535, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**40, 2**61, 2**62, 2**63 - 1, 2**63, 2**63 + 1,
           2**64 - 21, 2**64 - 9, 2**64 - 8, 2**64 - 2, 2**64 - 1]


def acceptable(data):
    """The metadata if DATA is a well-formed description, else None."""
    try:
        m = metafmt.parse(data, strict=False)
    except (metafmt.Bad, struct.error, IndexError):
        return None
    for p, n, _ in m.walk():
        if n.policy > 3 or not n.history or len(p) >= 4096:
            return None
        if n.history[0][1].type == NONE and not (n.policy == 3 and len(n.history) > 1 and n.history[1][1].type != NONE):
            return None
    stack = [m.nodes]
    while stack:
        lst = stack.pop()
        if len({n.name for n in lst}) != len(lst):
            return None
        stack.extend(n.subnodes for n in lst)
    return m


def offsets(m):
    """Offsets of all eight byte fields: counts, ids, lengths, sizes, times."""
    out = []
    pos = 0

    def q():
        nonlocal pos
        out.append(pos)
        pos += 8

    def history(h):
        nonlocal pos
        q()
        for _, s in h:
            q()
            pos += 1
            if s.type == NONE:
                continue
            pos += 8
            if s.type == REG:
                pos += 4
                q()
                q()
                pos += 21 if s.size > 20 else s.size
            elif s.type == LNK:
                q()
                pos += len(s.target)
            elif s.type == DIR:
                pos += 4
                q()

    def nodes(lst):
        nonlocal pos
        q()
        for n in lst:
            q()
            pos += len(n.name) + 1
            history(n.history)
            nodes(n.subnodes)
    q()
    for _ in m.times:
        q()
    history(m.config)
    q()
    nodes(m.nodes)
    return out, pos


def bytewise(rng, data, offs):
    """A name and the changed bytes."""
    b = bytearray(data)
    k = rng.choice(["truncate", "truncate", "flip", "flip", "set", "insert", "delete", "double", "field", "field", "field", "field", "trail", "zero",
                    "random", "swap", "empty", "several"])
    n = len(b)
    i = rng.randrange(n) if n else 0
    if k == "truncate":
        del b[rng.choice([i, max(n - 1, 0), max(n - 8, 0), rng.choice(offs), min(rng.choice(offs) + rng.randrange(9), n)]):]
    elif k == "flip":
        b[i] ^= 1 << rng.randrange(8)
    elif k == "set":
        b[i] = rng.choice([0, 1, 2, 3, 4, 46, 47, 127, 128, 255])
    elif k == "insert":
        b[i:i] = rng.randbytes(rng.choice([1, 1, 2, 8, 100]))
    elif k == "delete":
        del b[i:i + rng.choice([1, 1, 2, 8, 100])]
    elif k == "double":
        j = rng.randrange(i, n)
        b[j:j] = b[i:j][:5000]
    elif k == "field":
        o = rng.choice(offs)
        v = struct.unpack_from("<Q", b, o)[0]
        struct.pack_into("<Q", b, o, rng.choice(EXTREME + [(v + 1) % 2**64, (v - 1) % 2**64, v * 2 % 2**64, v ^ (1 << rng.randrange(64)), len(b), len(b) - o,
                                                           max(len(b) - o - 8, 0), len(b) - o - 7, -o - 8, -o - 7, 30 - o, -o + 100]) % 2**64)
        if rng.random() < 0.15:
            del b[o + 8:]
            b += bytes(rng.randrange(97, 123) for _ in range(rng.randrange(4)))
    elif k == "trail":
        b += rng.choice([b"\0", b"\0" * 8, rng.randbytes(3), bytes(data[:40])])
    elif k == "zero":
        j = rng.randrange(i, min(n, i + 64))
        b[i:j] = bytes(j - i)
    elif k == "random":
        b = bytearray(rng.randbytes(rng.choice([0, 1, 7, 8, 9, 50, 2000])))
    elif k == "swap":
        j = rng.randrange(n)
        l = rng.randrange(1, 40)
        x, y = bytes(b[i:i + l]), bytes(b[j:j + l])
        b[i:i + len(y)] = y
        b[j:j + len(x)] = x
    elif k == "empty":
        b = bytearray()
    else:
        for _ in range(rng.randrange(2, 6)):
            b[rng.randrange(n)] = rng.randrange(256)
    return k, bytes(b)


NAMES = [b"", b".", b"..", b"a/b", b"/", b"/etc", b"../x", b"..\0", b"a\0b", b"\0", b"x" * 255, b"x" * 256, b"y" * 4090, b"z" * 5000, b"...", b". ", b"\xff\xfe",
         b"a/../../../../b", b"name/", b"//", b"\n", b".\0."]


def state(rng, m):
    t = rng.choice([REG, LNK, DIR, NONE])
    ids = rng.choice([0, 0, 1000, 2**31, 2**32 - 1])
    if t == REG:
        size = rng.choice([0, 5, 20, 21, 4096, 2**31, 2**40, 2**63 - 1, 2**63, 2**64 - 1])
        return State(REG, ids, 0, rng.choice([0o100644, 0, 0o104755, 2**32 - 1]), rng.choice([0, -1, 2**40, 2**63 - 1, -2**63]), size,
                     rng.randbytes(20 if size > 20 else size), rng.choice([0, 1, 255]) if size > 20 else None, None)
    if t == LNK:
        return State(LNK, ids, 0, None, None, None, None, None, rng.choice([b"", b"a\0b", b"/", b"x" * 5000, b"../../../../tmp/w/victim", b"\0"]))
    if t == DIR:
        return State(DIR, ids, 0, rng.choice([0o40755, 0, 2**32 - 1]), rng.choice([0, -1, 2**63 - 1, -2**63]), None, None, None, None)
    return metafmt.st_none()


def fieldwise(rng, data):
    """The same for a change of the description itself."""
    m = metafmt.parse(data)
    all_ = [(n, lst) for lst in _lists(m.nodes) for n in lst]
    n, lst = rng.choice(all_)
    k = rng.choice(["name", "name", "name", "policy", "history-empty", "history-none", "history-id", "history-add", "history-reverse", "state", "state", "children",
                    "children", "duplicate", "deep", "many", "total", "config", "times", "type", "move", "untracked", "longest"])
    if k == "name":
        n.name = rng.choice(NAMES)
    elif k == "policy":
        n.policy = rng.choice([0, 1, 2, 3, 4, 127, 255])
    elif k == "history-empty":
        n.history = []
    elif k == "history-none":
        n.history = [(0, metafmt.st_none())] * rng.choice([1, 2]) if rng.random() < 0.5 else [(n.history[0][0], metafmt.st_none())] + n.history
        if rng.random() < 0.5:
            n.policy = 3
    elif k == "history-id":
        i = rng.randrange(len(n.history))
        n.history[i] = (rng.choice(EXTREME + [len(m.times), len(m.times) - 1]), n.history[i][1])
    elif k == "history-add":
        n.history = n.history + [(rng.randrange(len(m.times)), state(rng, m)) for _ in range(rng.choice([1, 1, 2, 50]))]
    elif k == "history-reverse":
        n.history = n.history[::-1]
    elif k == "state":
        n.history = [(n.history[0][0], state(rng, m))] + n.history[1:]
    elif k == "children":
        n.subnodes = n.subnodes + [Node(rng.choice([b"child", b"file", b"dir", b"inner"]), rng.choice([0, 1, 2, 3]), [(0, state(rng, m))], [])]
        n.history = [(n.history[0][0], state(rng, m))] + n.history[1:]
    elif k == "duplicate":
        lst.append(n if rng.random() < 0.5 else Node(n.name, n.policy, [(0, state(rng, m))], []))
    elif k == "deep":
        d = rng.choice([100, 1000, 2100, 5000, 30000])
        return k, metafmt.serialize(m)[:-8] + deep(d, rng.choice([1, 1, 2])) if _last_is_empty(m) else metafmt.serialize(m)
    elif k == "many":
        n.subnodes = n.subnodes + [Node(b"m%d" % i, n.policy, [(0, state(rng, m))], []) for i in range(rng.choice([100, 3000]))]
    elif k == "total":
        m.total = rng.choice(EXTREME)
    elif k == "config":
        m.config = [(rng.choice([0, 0, len(m.times), 2**63]), state(rng, m)) for _ in range(rng.choice([1, 2, 5]))]
    elif k == "times":
        m.times = rng.choice([[], m.times[:-1], m.times + [5], [t ^ -2**63 for t in m.times], m.times * 200])
    elif k == "type":
        out = metafmt.serialize(m)
        i = out.rfind(n.name + struct.pack("<BQQ", n.policy, len(n.history), n.history[0][0]))
        if i >= 0:
            out = bytearray(out)
            out[i + len(n.name) + 17] = rng.choice([0, 1, 2, 3, 4, 5, 255])
        return k, bytes(out)
    elif k == "move":
        o, _ = rng.choice(all_)
        n.subnodes, o.subnodes = o.subnodes, n.subnodes
        if _cyclic(m):
            n.subnodes, o.subnodes = o.subnodes, n.subnodes
    elif k == "untracked":
        n.policy = rng.choice([1, 2])
    elif k == "longest":
        n.name = b"q" * (4095 - len(_path(m, n)) + len(n.name) + rng.choice([-1, 0, 1]))
    return k, metafmt.serialize(m)


def _lists(nodes):
    stack = [nodes]
    while stack:
        lst = stack.pop()
        yield lst
        stack.extend(n.subnodes for n in lst)


def _cyclic(m):
    seen, stack = set(), list(m.nodes)
    while stack:
        n = stack.pop()
        if id(n) in seen:
            return True
        seen.add(id(n))
        stack.extend(n.subnodes)
    return False


def _path(m, node):
    stack = [(b"/" + n.name, n) for n in m.nodes]
    while stack:
        p, n = stack.pop()
        if n is node:
            return p
        stack.extend((p + b"/" + c.name, c) for c in n.subnodes)
    return b"/"


def _last_is_empty(m):
    return bool(m.nodes) and len(m.times) > 0


def deep(n, names=1):
    one = struct.pack("<Q", 1) + struct.pack("<Q", names) + b"d" * names + struct.pack("<BQQBIIIq", 0, 1, 0, 3, 0, 0, 0o40755, 0)
    return one * n + struct.pack("<Q", 0)
