"""Path facts: which variant a value has, boolean literals, bounds of linear forms."""
from terms import *


class Facts:
    __slots__ = ("var", "bools", "lin", "log")

    def __init__(self):
        self.var = {}
        self.bools = {}
        self.lin = {}
        self.log = []

    def copy(self):
        f = Facts.__new__(Facts)
        f.var = dict(self.var)
        f.bools = dict(self.bools)
        f.lin = dict(self.lin)
        f.log = list(self.log)
        return f

    def variant(self, t):
        if t.op == "agg":
            return t.a[1] or None
        return self.var.get(t)

    def assume_variant(self, t, v, adt=None):
        """returns False on contradiction"""
        k = self.variant(t)
        if k is not None:
            return k == v
        self.var[t] = v
        self.log.append(("v", t, v, adt))
        return True

    def _bounds(self, form):
        b = self.lin.get(form)
        if b is None:
            lo = None
            # unsigned quantities only: a sum of positive terms is >= 0
            if all(c > 0 for _, c in form):
                lo = 0
            b = (lo, None, frozenset())
        return b

    def decide(self, t):
        if t.op == "bool":
            return t.a[0]
        if t.op == "not":
            r = self.decide(t.a[0])
            return None if r is None else not r
        if t.op == "le":
            lo, hi, ex = self._bounds(t.a[0])
            n = t.a[1]
            if hi is not None and hi <= n:
                return True
            if lo is not None and lo > n:
                return False
            return None
        if t.op == "eqn":
            if t in self.bools:
                return self.bools[t]
            lo, hi, ex = self._bounds(t.a[0])
            n = t.a[1]
            if n in ex or (lo is not None and lo > n) or (hi is not None and hi < n):
                return False
            if lo is not None and lo == hi == n:
                return True
            return None
        return self.bools.get(t)

    def assume(self, t, val):
        """assume boolean term t == val; False on contradiction"""
        while t.op == "not":
            t = t.a[0]
            val = not val
        d = self.decide(t)
        if d is not None:
            return d == val
        self.log.append(("b", t, val, None))
        if t.op in ("le", "eqn"):
            lo, hi, ex = self._bounds(t.a[0])
            n = t.a[1]
            if t.op == "le":
                if val:
                    hi = n if hi is None else min(hi, n)
                else:
                    lo = n + 1 if lo is None else max(lo, n + 1)
            else:
                if val:
                    lo = hi = n
                else:
                    ex = ex | {n}
            while lo is not None and lo in ex and (hi is None or lo <= hi):
                lo += 1
            while hi is not None and hi in ex and (lo is None or hi >= lo):
                hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return False
            self.lin[t.a[0]] = (lo, hi, ex)
            if not self._closure_ok():
                return False
        else:
            self.bools[t] = val
            if val and t.op == "app" and t.a[0] == "matches_at":
                # a match lies inside the text
                sq, i, pat = t.a[1]
                n = len(self.log)
                r = self.assume(lt(length(sq), add(i, length(pat))), False)
                del self.log[n:]
                return r
        return True

    # difference-bound closure over forms with one or two unit terms
    def _closure_ok(self):
        edges = {}
        nodes = set()

        def put(a, b, w):  # a - b <= w
            k = (a, b)
            if k not in edges or edges[k] > w:
                edges[k] = w
            nodes.add(a)
            nodes.add(b)

        Z = None
        for form, (lo, hi, ex) in self.lin.items():
            if len(form) == 1 and form[0][1] == 1:
                a, b = form[0][0], Z
            elif len(form) == 2 and sorted(c for _, c in form) == [-1, 1]:
                a = [t for t, c in form if c == 1][0]
                b = [t for t, c in form if c == -1][0]
            else:
                continue
            if hi is not None:
                put(a, b, hi)
            if lo is not None:
                put(b, a, -lo)
        for a in list(nodes):
            if a is not Z:
                put(Z, a, 0)
        if len(nodes) <= 2:
            return True
        # Bellman-Ford for a negative cycle
        dist = {n: 0 for n in nodes}
        es = list(edges.items())
        for i in range(len(nodes) + 1):
            ch = False
            for (a, b), w in es:
                # a <= b + w
                if dist[b] + w < dist[a]:
                    dist[a] = dist[b] + w
                    ch = True
            if not ch:
                return True
        return False
