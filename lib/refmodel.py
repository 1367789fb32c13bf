"""Executable reference model: configuration, selection, repository update,
change report and restore of nano-backup, evaluated on the real file system."""
import collections, ctypes, os, stat

import metafmt, world
from metafmt import State, REG, LNK, DIR, NONE

# policies
P_NONE, P_COPY, P_MIRROR, P_TRACK = 0, 1, 2, 3
POLICY_NAMES = {b"copy": P_COPY, b"mirror": P_MIRROR, b"track": P_TRACK}

# ------------------------------------------------------------------ regex
_libc = ctypes.CDLL(None)
_libc.regexec.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_void_p, ctypes.c_int]
_libc.regcomp.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int]


class Regex:
    """POSIX extended regular expression."""
    cache = {}

    def __init__(self, expr):
        self.buf = ctypes.create_string_buffer(512)
        self.ok = _libc.regcomp(ctypes.addressof(self.buf), expr, 1 | 8) == 0

    def matches(self, s):
        return _libc.regexec(ctypes.addressof(self.buf), s, 0, None, 0) == 0


def regex(expr):
    if expr not in Regex.cache:
        if len(Regex.cache) > 2000:
            Regex.cache.clear()
        Regex.cache[expr] = Regex(expr)
    return Regex.cache[expr]


# ------------------------------------------------------------------ config
class ConfigError(Exception):
    def __init__(self, line, kind, mentions=b""):
        Exception.__init__(self, "line %s: %s" % (line, kind))
        self.line, self.kind, self.mentions = line, kind, mentions


class Dies(Exception):
    """The program is expected to fail."""


class SNode:
    def __init__(self, name, line):
        self.name, self.line, self.regex = name, line, None
        self.policy, self.inherited, self.policy_line = P_NONE, False, line
        self.subnodes, self.has_regex, self.match = [], False, 0


class Config:
    def __init__(self):
        self.root = SNode(b"/", 0)
        self.ignore, self.summarize = [], []      # [expr, Regex, line, matched]


def split_path(p):
    i = len(p)
    while i > 0 and p[i - 1:i] != b"/":
        i -= 1
    while i > 1 and p[i - 2:i - 1] == b"/":
        i -= 1
    return p[:max(i - 1, 0)], p[i:]


def has_dots(p):
    while p:
        p, tail = split_path(p)
        if tail in (b".", b".."):
            return True
    return False


def parse_config(data):
    c = Config()
    if b"\0" in data:
        raise ConfigError(None, "null-bytes")
    nodes = {b"": c.root}
    if data.startswith(b"\xef\xbb\xbf"):
        data = data[3:]
    lines = data.split(b"\n")
    current = None

    def new_node(path, line_nr):
        head, tail = split_path(path)
        parent = nodes.get(head)
        if parent is None:
            parent = new_node(head, line_nr)
        if len(tail) >= 2 and tail[:1] == b"/":
            n = SNode(tail[1:], line_nr)
            n.regex = regex(tail[1:])
            if not n.regex.ok:
                raise ConfigError(line_nr, "bad regex", tail[1:])
            parent.has_regex = True
        else:
            n = SNode(tail, line_nr)
        n.policy, n.inherited = parent.policy, parent.policy != P_NONE
        parent.subnodes.append(n)
        nodes[path] = n
        return n

    def inherit(n):
        for s in n.subnodes:
            if s.policy == P_NONE or s.inherited:
                s.policy, s.inherited, s.policy_line = n.policy, True, n.policy_line
                inherit(s)

    for nr, line in enumerate(lines, 1):
        if line.strip(b" \t") == b"" or line[:1] == b"#":
            continue
        if line in (b"[copy]", b"[mirror]", b"[track]", b"[ignore]", b"[summarize]"):
            current = line[1:-1]
        elif line[:1] == b"[" and line[-1:] == b"]":
            raise ConfigError(nr, "invalid policy", line[1:-1] if len(line) > 1 else b"")
        elif current is None:
            raise ConfigError(nr, "pattern without policy", line)
        elif current in (b"ignore", b"summarize"):
            r = regex(line)
            if not r.ok:
                raise ConfigError(nr, "bad regex", line)
            (c.ignore if current == b"ignore" else c.summarize).append([line, r, nr, False])
        elif line[:1] == b"/":
            if line.rstrip(b"/").count(b"/") >= 4096:
                raise ConfigError(nr, "too deep", b"")
            if has_dots(line):
                raise ConfigError(nr, "dots", line)
            path = line.rstrip(b"/")
            prev = nodes.get(path)
            if prev is not None and prev.policy != P_NONE and not prev.inherited:
                raise ConfigError(nr, "redefinition", line)
            n = prev if prev is not None else new_node(path, nr)
            n.policy, n.inherited, n.policy_line = POLICY_NAMES[current], False, nr
            inherit(n)
        else:
            raise ConfigError(nr, "invalid path", line)
    return c


def _warnings(c):
    out = []

    def rec(node):
        for n in node.subnodes:
            kind = b"regex" if n.regex else b"string"
            pre = b"config: line %d: %s " % (n.line, kind)
            q = b': "' + n.name + b'"'
            if n.match == 0:
                out.append(pre + b"never matched a " + (b"directory" if n.subnodes else b"file") + q)
            elif n.subnodes:
                if not n.match & 4:
                    out.append(pre + b"matches, but not a directory" + q)
                elif n.match & ~4:
                    out.append(pre + b"matches not only directories" + q)
                    rec(n)
                else:
                    rec(n)
    rec(c.root)
    for lst, what in ((c.ignore, b"path"), (c.summarize, b"directory")):
        for expr, _, nr, matched in lst:
            if not matched:
                out.append(b"config: line %d: regex never matched a %s: \"%s\"" % (nr, what, expr))
    return out


# ---------------------------------------------------------------- hints
H_none, H_unchanged, H_added, H_removed, H_gone = 0, 1, 2, 3, 4
H_r2l, H_r2d, H_l2r, H_l2d, H_d2r, H_d2l, H_o2r, H_o2l, H_o2d = range(5, 14)
H_owner, H_perm, H_time, H_content, H_fresh, H_policy, H_loses = (1 << i for i in range(4, 11))


def nopol(h):
    return h & 0x1FF


class Backup:
    def __init__(self, id, time):
        self.id, self.time, self.refs, self.label = id, time, 0, None


class Point:
    __slots__ = ("backup", "state")

    def __init__(self, backup, state):
        self.backup, self.state = backup, state


class PNode:
    __slots__ = ("path", "hint", "policy", "history", "subnodes")

    def __init__(self, path, policy, history):
        self.path, self.hint, self.policy, self.history, self.subnodes = path, H_none, policy, history, []

    def set(self, h):
        if h <= H_unchanged:
            self.hint = h
        elif h <= H_o2d:
            self.hint = (self.hint & ~0x1FF) | h
        elif h <= H_fresh:
            self.hint = (self.hint & ~0xF) | h
        else:
            self.hint |= h


def content_of(path, size):
    if size > metafmt.HASH:
        return world.digest_file(path, size)[0]
    with open(path, "rb") as f:
        return f.read()


class Change:
    """count/size pairs of a report."""

    def __init__(self):
        self.new, self.removed, self.lost, self.changed = [0, 0], [0, 0], [0, 0], [0, 0]
        self.attrs, self.other, self.parent_ts = 0, False, False

    def add(self, o):
        for a in ("new", "removed", "lost", "changed"):
            x, y = getattr(self, a), getattr(o, a)
            x[0] += y[0]
            x[1] += y[1]
        self.attrs += o.attrs
        self.other |= o.other

    def content(self):
        return self.new[0] > 0 or self.removed[0] > 0 or self.lost[0] > 0 or self.changed[0] > 0

    def any(self):
        return self.content() or self.attrs > 0 or self.other


class Model:
    """The repository: what the metadata must describe."""

    def __init__(self):
        self.nodes, self.backups, self.total = [], [], 0
        self.current = Backup(0, 0)
        self.table = {}

    @staticmethod
    def from_meta(m):
        self = Model()
        self.backups = [Backup(i, t) for i, t in enumerate(m.times)]

        def conv(prefix, lst):
            out = []
            for n in lst:
                p = PNode(prefix + b"/" + n.name, n.policy, [])
                for bid, s in n.history:
                    self.backups[bid].refs += 1
                    p.history.append(Point(self.backups[bid], s))
                p.subnodes = conv(p.path, n.subnodes)
                out.append(p)
            return out
        self.nodes = conv(b"", m.nodes)
        self.total = m.total
        self.reset()
        return self

    def reset(self):
        self.table = {}
        stack = list(self.nodes)
        while stack:
            n = stack.pop()
            n.hint = H_none
            self.table[n.path] = n
            stack.extend(n.subnodes)
        self.current = Backup(0, 0)

    # -- selection and update -----------------------------------------
    def initiate(self, cfg, root=b""):
        """Walks the file system as the configuration demands. Raises Dies."""
        self.cfg = cfg
        self._visit_children(b"", cfg.root, cfg.root.policy, self.nodes)
        self._not_found(cfg.root, cfg.root.policy, self.nodes)

    def _visit_children(self, path, snode, policy, node_list):
        if snode is not None and snode.policy == P_NONE and not snode.has_regex:
            for s in reversed(snode.subnodes):
                p = path + b"/" + s.name
                try:
                    os.lstat(p)
                except FileNotFoundError:
                    continue
                except OSError as e:
                    raise Dies("lstat %r: %s" % (p, e))
                self._found(p, s, s.policy, node_list)
            return
        subs = list(reversed(snode.subnodes)) if snode is not None else []
        try:
            names = os.listdir(path or b"/")
        except OSError as e:
            raise Dies("listdir %r: %s" % (path, e))
        # a fixed order of the entries does not matter for the result, but an
        # ambiguous rule ends the run wherever it is met
        for name in names:
            p = path + b"/" + name
            matched = [s for s in subs if (s.regex.matches(name) if s.regex else s.name == name)]
            if len(matched) > 1:
                raise Dies("ambiguous rules for %r" % p)
            if matched:
                self._found(p, matched[0], matched[0].policy, node_list)
            elif policy == P_NONE:
                continue
            else:
                hit = False
                for ign in reversed(self.cfg.ignore):
                    if ign[1].matches(p):
                        ign[3] = True
                        hit = True
                        break
                if not hit:
                    self._found(p, None, policy, node_list)

    def _state(self, path, st, t):
        if t == REG:
            return State(REG, st.st_uid, st.st_gid, st.st_mode, st.st_mtime_ns // 10**9, st.st_size, None, 0, None)
        if t == LNK:
            return State(LNK, st.st_uid, st.st_gid, None, None, None, None, None, os.readlink(path))
        return State(DIR, st.st_uid, st.st_gid, st.st_mode, st.st_mtime_ns // 10**9, None, None, None, None)

    def _found(self, path, snode, policy, node_list):
        try:
            st = os.stat(path) if snode is not None and snode.subnodes else os.lstat(path)
        except OSError as e:
            raise Dies("stat %r: %s" % (path, e))
        m = st.st_mode
        t = REG if stat.S_ISREG(m) else LNK if stat.S_ISLNK(m) else DIR if stat.S_ISDIR(m) else None
        if snode is not None:
            snode.match |= {REG: 1, LNK: 2, DIR: 4, None: 8}[t]
        if t is None:
            return
        node = self.table.get(path)
        obsolete = False
        if node is None:
            node = PNode(path, policy, [])
            node.hint = H_added
            self._push(node, self._state(path, st, t))
            node_list.insert(0, node)
            self.total += 1
        else:
            obsolete = self._update(node, path, st, t, policy)
        if t == DIR:
            self._visit_children(path, snode, policy, node.subnodes)
        if obsolete:
            self._wipe_unfound(node)
        self._after(node, snode, policy)

    def _push(self, node, state):
        self.current.refs += 1
        node.history.insert(0, Point(self.current, state))

    def _update(self, node, path, st, t, policy):
        obsolete = self._policy_change(node, policy)
        if policy != P_TRACK:
            node.history[0].state = self._changes(node, node.history[0].state, path, st, t, policy)
            if nopol(node.hint) != H_none or policy == P_NONE:
                node.history[0].backup.refs -= 1
                node.history[0].backup = self.current
                self.current.refs += 1
        elif node.history[0].state.type == NONE:
            node.set(H_added)
            self._push(node, self._state(path, st, t))
        else:
            s = self._changes(node, node.history[0].state, path, st, t, policy)
            if nopol(node.hint) != H_none:
                self._push(node, s)
        return obsolete

    def _changes(self, node, old, path, st, t, policy):
        tr = {(REG, LNK): H_r2l, (REG, DIR): H_r2d, (LNK, REG): H_l2r, (LNK, DIR): H_l2d, (DIR, REG): H_d2r,
              (DIR, LNK): H_d2l}.get((old.type, t))
        if tr is not None:
            node.set(tr)
            return self._state(path, st, t) if policy != P_NONE or t == DIR else old
        if nopol(node.hint) != H_none:
            return self._state(path, st, t) if policy != P_NONE or t == DIR else old
        return attribute_changes(node, old, path, st)

    def _policy_change(self, node, policy):
        """Returns whether subnodes which are not found are to be forgotten."""
        if node.policy == policy:
            return False
        obsolete = False
        node.set(H_policy)
        if node.policy == P_TRACK:
            if node.history[0].state.type == NONE:
                node.history[0].backup.refs -= 1
                node.history.pop(0)
            if len(node.history) > 1:
                for pt in node.history[1:]:
                    pt.backup.refs -= 1
                del node.history[1:]
                node.set(H_loses)
            obsolete = node.history[0].state.type != DIR
        node.policy = policy
        return obsolete

    def _wipe_unfound(self, node):
        for s in node.subnodes:
            if s.hint == H_none:
                self._wipe_all(s)

    def _wipe(self, node):
        if nopol(node.hint) == H_gone:
            return
        node.set(H_gone)
        self.total -= 1
        for pt in node.history:
            pt.backup.refs -= 1

    def _wipe_all(self, node):
        self._wipe(node)
        for s in node.subnodes:
            self._wipe_all(s)

    def _mark_removed(self, node, extend):
        if nopol(node.hint) == H_gone:
            return
        if node.history[0].state.type == NONE:
            node.set(H_unchanged)
        else:
            node.set(H_removed)
            extend = extend and node.policy == P_TRACK
            if extend:
                self._push(node, metafmt.st_none())
        for s in node.subnodes:
            self._mark_removed(s, extend)

    def _removed(self, node, policy):
        if self._policy_change(node, policy):
            self._wipe_unfound(node)
        if policy == P_MIRROR:
            self._wipe_all(node)
        elif policy == P_NONE and (not node.subnodes or node.history[0].state.type != DIR):
            self._wipe(node)
        else:
            self._mark_removed(node, True)

    def _not_found(self, snode, policy, subnodes):
        for s in subnodes:
            if s.hint != H_none:
                continue
            name = os.path.basename(s.path)
            match = None
            if snode is not None:
                for x in reversed(snode.subnodes):
                    if x.regex.matches(name) if x.regex else x.name == name:
                        match = x
                        break
            if match is not None:
                self._removed(s, match.policy)
            elif policy == P_NONE or any(i[1].matches(s.path) for i in self.cfg.ignore):
                self._wipe_all(s)
            else:
                self._removed(s, policy)

    def _after(self, node, snode, policy):
        if nopol(node.hint) in (H_d2r, H_d2l):
            for s in node.subnodes:
                if policy in (P_NONE, P_TRACK):
                    self._mark_removed(s, policy == P_TRACK)
                else:
                    self._wipe_all(s)
        elif policy == P_TRACK and node.history[0].state.type == REG:
            for s in node.subnodes:
                self._mark_removed(s, False)
        else:
            self._not_found(snode, policy, node.subnodes)
        if policy == P_NONE:
            if not any(nopol(s.hint) != H_gone for s in node.subnodes):
                self._wipe(node)
        if node.hint == H_none:
            node.set(H_unchanged)

    # -- finishing -----------------------------------------------------
    def finish(self):
        """Fills in contents as a confirmed backup does and renumbers."""
        stack = list(self.nodes)
        while stack:
            n = stack.pop()
            s = n.history[0].state
            if s.type == REG:
                if s.size == 0:
                    if s.content != b"":
                        n.history[0].state = s._replace(content=b"", slot=None)
                elif nopol(n.hint) in (H_added, H_l2r, H_d2r) or n.hint & H_content:
                    n.history[0].state = s._replace(content=content_of(n.path, s.size), slot=0 if s.size > metafmt.HASH else None)
            stack.extend(n.subnodes)

        def prune(lst):
            out = []
            for n in lst:
                if nopol(n.hint) != H_gone:
                    n.subnodes = prune(n.subnodes)
                    out.append(n)
            return out
        self.nodes = prune(self.nodes)
        keep = ([self.current] if self.current.refs > 0 else []) + [b for b in self.backups if b.refs > 0]
        for i, b in enumerate(keep):
            b.id = i
        self.backups = keep
        self.reset()

    def normal(self):
        """path -> (policy, ((backup id, State), ...)), comparable to metadata."""
        out = {}
        stack = list(self.nodes)
        while stack:
            n = stack.pop()
            out[n.path] = (n.policy, tuple((p.backup.id, slotless(p.state)) for p in n.history))
            stack.extend(n.subnodes)
        return out

    # -- report ----------------------------------------------------------
    def report(self, summarize=()):
        """(lines, Change): what a run prints before asking."""
        lines = []
        ch = _recurse(self.nodes, summarize, True, lines)
        return lines, ch


def attribute_changes(node, s, path, st):
    """Sets the hints for what differs and returns the updated state."""
    if (s.uid, s.gid) != (st.st_uid, st.st_gid):
        node.set(H_owner)
        s = s._replace(uid=st.st_uid, gid=st.st_gid)
    if s.type in (REG, DIR):
        if s.mode != st.st_mode:
            node.set(H_perm)
            s = s._replace(mode=st.st_mode)
        t = st.st_mtime_ns // 10**9
        ts = s.mtime != t
        if ts:
            node.set(H_time)
            s = s._replace(mtime=t)
        if s.type == REG:
            if s.size != st.st_size:
                node.set(H_content)
                s = s._replace(size=st.st_size)
            elif ts and s.size > 0:
                c = content_of(path, s.size)
                if c != s.content:
                    node.set(H_content)
                    node.set(H_fresh)
                    s = s._replace(content=c)
    elif s.type == LNK:
        t = os.readlink(path)
        if t != s.target:
            node.set(H_content)
            s = s._replace(target=t)
    return s


def normal_meta(m):
    """The same for parsed metadata; slots of plain builds are compared too."""
    return {p: (n.policy, tuple((i, slotless(s)) for i, s in n.history)) for p, n, _ in m.walk()}


def slotless(s):
    """Without slots if different contents may have the same checksum: C11 is about them."""
    return s if world.KEEP is None or s.slot is None else s._replace(slot=0)


def existing_state(n):
    if n.history[0].state.type == NONE and len(n.history) > 1:
        return n.history[1].state
    return n.history[0].state


def human(size):
    v, i = float(size), 0
    while v > 999.9 and i + 2 < 6:
        v /= 1024.0
        i += 1
    if i == 0:
        return b"%d b" % size
    return b"%d.%d %ciB" % (int(v), int(v * 10.0) % 10, b"bKMGT"[i])


def _detail(d, prefix):
    s = b"%s%d item%s" % (prefix if d[0] > 0 else b"", d[0], b"" if d[0] == 1 else b"s")
    if d[1] > 0:
        s += b", " + prefix + human(d[1])
    return s


def _line(n, sub, summ):
    h = nopol(n.hint)
    ex = existing_state(n)
    p = (b"^" if ex.type == LNK else b"") + n.path + (b"/" if ex.type == DIR else b"")
    if h == H_added:
        s = b"++ " + p
    elif h == H_removed:
        s = b"-- " + p
    elif h == H_gone:
        s = (b"xx " if n.policy == P_MIRROR else b"?? ") + p
    elif H_r2l <= h <= H_o2d:
        s = b"<> " + p
    elif h & H_content:
        s = b"!! " + p
    elif summ and sub.content():
        s = b"!! " + p + b"..."
    elif h != H_none:
        s = b"@@ " + p + (b"..." if summ and sub.attrs > 0 else b"")
    else:
        s = b":: " + p
    d = []
    names = {H_r2l: b"File -> Symlink", H_r2d: b"File -> Directory", H_l2r: b"Symlink -> File", H_l2d: b"Symlink -> Directory",
             H_d2r: b"Directory -> File", H_d2l: b"Directory -> Symlink", H_o2r: b"Other -> File", H_o2l: b"Other -> Symlink",
             H_o2d: b"Other -> Directory"}
    if h in names:
        d.append(names[h])
    if n.hint & H_owner:
        d.append(b"owner")
    if n.hint & H_perm:
        d.append(b"permissions")
    if n.history[0].state.type != LNK and bool(n.hint & H_time) == (not n.hint & H_content) and not sub.parent_ts:
        d.append(b"timestamp" if n.hint & H_time else b"same timestamp")
    if n.hint & H_policy:
        d.append(b"policy changed")
    if n.hint & H_loses:
        d.append(b"looses history")
    if ex.type == DIR:
        if h in (H_added, H_r2d, H_l2d):
            d.append(_detail(sub.new, b"+"))
        elif h == H_removed:
            d.append(_detail(sub.removed, b"-"))
        elif h == H_gone:
            d.append(_detail(sub.lost, b"-"))
        elif summ:
            if sub.new[0]:
                d.append(_detail(sub.new, b"+"))
            gone = [sub.removed[0] + sub.lost[0], sub.removed[1] + sub.lost[1]]
            if gone[0]:
                d.append(_detail(gone, b"-"))
            if sub.changed[0]:
                d.append(b"%d changed" % sub.changed[0])
            if sub.attrs:
                d.append(b"%d metadata change%s" % (sub.attrs, b"" if sub.attrs == 1 else b"s"))
    elif h in (H_d2r, H_d2l):
        d.append(_detail([sub.removed[0] + sub.lost[0], sub.removed[1] + sub.lost[1]], b"-"))
    if d:
        s += b" (" + b", ".join(d) + b")"
    if ex.type == LNK:
        s += b" -> " + ex.target
    return s


def _only_attrs(h):
    return bool(h & (H_owner | H_perm | H_time)) and not h & ~(H_owner | H_perm | H_time)


def _add_node(n, ch, ts_by_sub):
    h = nopol(n.hint)
    s = existing_state(n)
    size = s.size if s.type == REG else 0

    def extra(hint):
        ch.attrs += bool(hint & H_owner) + bool(hint & H_perm)
    if h == H_added:
        ch.new[0] += 1
        ch.new[1] += size
        ch.parent_ts = True
    elif h == H_removed:
        ch.removed[0] += 1
        ch.removed[1] += size
        ch.parent_ts = True
    elif h == H_gone:
        ch.lost[0] += 1
        ch.lost[1] += size
        if n.policy == P_MIRROR and not n.hint & H_policy:
            ch.parent_ts = True
    elif h & H_content:
        ch.changed[0] += 1
        ch.changed[1] += size
        ch.parent_ts = True
        extra(h)
    elif n.hint > H_unchanged and (n.policy != P_NONE or not _only_attrs(n.hint)):
        ch.other = True
        ch.parent_ts |= H_r2l <= h <= H_o2d
        extra(n.hint)
        if n.hint == H_time and not ts_by_sub:
            ch.attrs += 1


def _recurse(nodes, summarize, printing, lines):
    ch = Change()
    for n in nodes:
        summ = False
        if n.policy != P_NONE and existing_state(n).type == DIR:
            for x in reversed(summarize):
                if x[1].matches(n.path):
                    x[3] = True
                    summ = True
                    break
        down = () if summ else summarize
        if printing and summ:
            sub = _recurse(n.subnodes, down, False, lines)
            if n.hint > H_unchanged or sub.any():
                lines.append(_line(n, sub, True))
        elif printing and n.hint > H_unchanged and not (
                n.policy == P_NONE and (n.hint == H_added or _only_attrs(n.hint))):
            sub = _recurse(n.subnodes, down, nopol(n.hint) > H_o2d, lines)
            if not (n.hint == H_time and sub.parent_ts):
                lines.append(_line(n, sub, summ))
        else:
            sub = _recurse(n.subnodes, down, printing, lines)
        _add_node(n, ch, sub.parent_ts)
        ch.add(sub)
    return ch


def totals_line(ch):
    parts = []
    for name, d in ((b"New", ch.new), (b"Removed", ch.removed), (b"Lost", ch.lost)):
        if d[0]:
            parts.append(b"%s: %d (%s)" % (name, d[0], human(d[1])))
    return b", ".join(parts)


def expected_backup_output(model, cfg):
    """(sorted report text pieces, totals line or None, warnings, changes?)"""
    lines, ch = model.report(cfg.summarize)
    return lines, totals_line(ch), _warnings(cfg), ch


# ------------------------------------------------------------------ restore
def restore_report(meta, bid, path):
    """(lines, Change, touched) of a restore, or raises Dies. path b'' means everything."""
    model = Model.from_meta(meta)

    def state_of(n):
        if n.policy != P_TRACK:
            s = n.history[0].state
            return None if s.type == NONE else s
        for p in n.history:
            if p.backup.id >= bid:
                return None if p.state.type == NONE else p.state
        return None

    def check(n, s, could_exist):
        try:
            lst = os.lstat(n.path) if could_exist else None
        except FileNotFoundError:
            lst = None
        except OSError as e:
            raise Dies(str(e))
        if lst is None:
            n.set(H_added)
            return
        st = lst
        if s.type == DIR and stat.S_ISLNK(lst.st_mode):
            try:
                to = os.stat(n.path)
                st = to if stat.S_ISDIR(to.st_mode) else lst
            except OSError:
                pass
        m = st.st_mode
        t = REG if stat.S_ISREG(m) else LNK if stat.S_ISLNK(m) else DIR if stat.S_ISDIR(m) else None
        tr = {(REG, LNK): H_l2r, (REG, DIR): H_d2r, (REG, None): H_o2r, (LNK, REG): H_r2l, (LNK, DIR): H_d2l,
              (LNK, None): H_o2l, (DIR, REG): H_r2d, (DIR, LNK): H_l2d, (DIR, None): H_o2d}.get((s.type, t))
        if tr is not None:
            n.set(tr)
        else:
            attribute_changes(n, s, n.path, st)

    def rec(n, s, could_exist):
        check(n, s, could_exist)
        if s.type != DIR:
            return
        if H_added <= nopol(n.hint) <= H_o2d:
            could_exist = False
        for c in n.subnodes:
            cs = state_of(c)
            if cs is not None:
                rec(c, cs, could_exist)

    def walk(nodes, could_exist):
        for n in nodes:
            if n.path == path:
                s = state_of(n)
                if s is None:
                    raise Dies("did not exist")
                rec(n, s, could_exist)
                return
            if path.startswith(n.path + b"/"):
                s = state_of(n)
                if s is None:
                    raise Dies("did not exist")
                if s.type != DIR:
                    raise Dies("was not a directory")
                check(n, s, could_exist)
                walk(n.subnodes, could_exist and not (H_added <= nopol(n.hint) <= H_o2d))
                return
        raise Dies("not in repository")

    if path == b"":
        for n in model.nodes:
            s = state_of(n)
            if s is not None:
                rec(n, s, True)
    else:
        walk(model.nodes, True)
    lines, ch = model.report(())
    return lines, ch, model
