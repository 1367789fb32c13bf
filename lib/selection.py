"""Declarative reading of a configuration: which paths are selected, and how.

Independent of refmodel's port of the search: rules are sets of element
patterns and every path is decided on its own."""
import os, stat

from refmodel import regex

POLICY = {b"copy": 1, b"mirror": 2, b"track": 3}


class Ambiguous(Exception):
    pass


class Selection:
    def __init__(self, rules, ignore=()):
        """rules: [(policy name, path as written)]"""
        self.rules = {}
        for pol, p in rules:
            self.rules[self.elements(p)] = POLICY[pol]
        self.prefixes = set()
        for r in self.rules:
            for i in range(len(r) + 1):
                self.prefixes.add(r[:i])
        self.kids = {}
        for pre in self.prefixes:
            if pre:
                self.kids.setdefault(pre[:-1], []).append(pre)
        self.ignore = [regex(e) for e in ignore]

    @staticmethod
    def elements(p):
        """/a//b+/c -> ((a), /b+ as expression, c)"""
        out = []
        rest = p.rstrip(b"/")
        i = 0
        while i < len(rest):
            assert rest[i:i + 1] == b"/"
            i += 1
            rx = False
            while rest[i:i + 1] == b"/":
                rx = True
                i += 1
            j = rest.find(b"/", i)
            j = len(rest) if j < 0 else j
            out.append((rx, rest[i:j]))
            i = j
        return tuple(out)

    def policy_of_prefix(self, pre):
        """The policy of the closest rule at or above a rule element."""
        for i in range(len(pre), -1, -1):
            if pre[:i] in self.rules:
                return self.rules[pre[:i]]
        return 0

    def decide(self, path):
        """None if not selected, otherwise (policy, matched by a rule element,
        has configured paths below)."""
        active, policy = (), self.policy_of_prefix(())
        cur = b""
        for name in path.split(b"/")[1:]:
            cur += b"/" + name
            hits = []
            if active is not None:
                for pre in self.kids.get(active, ()):
                    rx, pat = pre[-1]
                    if regex(pat).matches(name) if rx else pat == name:
                        hits.append(pre)
            if len(hits) > 1:
                raise Ambiguous(cur)
            if hits:
                active = hits[0]
                policy = self.policy_of_prefix(active)
                continue
            active = None
            if policy == 0 or any(x.matches(cur) for x in self.ignore):
                return None
        return policy, active is not None, bool(active is not None and self.kids.get(active))

    def expected(self):
        """(path -> policy of everything which exists and is selected, paths
        matched by two rules, configured parents which cannot be followed)."""
        out = {}
        ambiguous, unreachable = [], []

        def children(d, active, policy):
            if active is not None and policy == 0 and not any(k[-1][0] for k in self.kids.get(active, ())):
                return [k[-1][1] for k in self.kids.get(active, ()) if os.path.lexists(d + b"/" + k[-1][1])]
            return os.listdir(d or b"/")
        todo = [(b"", (), self.policy_of_prefix(()))]
        while todo:
            d, active, policy = todo.pop()
            for name in children(d, active, policy):
                p = d + b"/" + name
                try:
                    r = self.decide(p)
                except Ambiguous:
                    ambiguous.append(p)
                    continue
                if r is None:
                    continue
                pol, matched, below = r
                try:
                    st = os.stat(p) if below else os.lstat(p)
                except OSError:
                    unreachable.append(p)
                    continue
                m = st.st_mode
                if stat.S_ISDIR(m):
                    a = None
                    if matched:
                        a = self._active(p)
                    todo.append((p, a, pol))
                elif not (stat.S_ISREG(m) or stat.S_ISLNK(m)):
                    continue
                out[p] = pol
        # directories without a rule of their own are kept only for what they lead to
        for p in sorted(out, key=lambda x: -len(x)):
            if out[p] == 0 and not any(q.startswith(p + b"/") for q in out):
                del out[p]
        return out, ambiguous, unreachable

    def _active(self, path):
        active = ()
        for name in path.split(b"/")[1:]:
            for pre in self.kids.get(active, ()):
                rx, pat = pre[-1]
                if regex(pat).matches(name) if rx else pat == name:
                    active = pre
                    break
        return active
