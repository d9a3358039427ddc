"""Is a difference real?  Before two paths are reported to disagree, values are looked for under
which both are taken and what they deliver differs: every count, length and position gets a small
number, lists are laid out element by element, maps key by key, and whatever the analysis knows
nothing about stays an object of its own.  Two ways of writing the same value come out the same.
"""
import functools
import random

from terms import *
from facts import Facts
from builtins_ import free, substitute

LISTOPS = {"snoc", "cat", "len", "elem", "slice", "withelem"}
LISTAPPS = {"sorted_by", "reversed", "bsearch"}


LONG = 300  # lists longer than this stay objects of their own as long as nothing goes through them
LAID = 20000


class Reject(Exception):
    pass


def el(o, i):
    return mk("el", o, num(i))


class Model:
    def __init__(self, ints, rng, lens, hints=(), strict=False):
        self.strict = strict
        self.hints = hints
        self.ints = ints  # term -> int
        self.rng = rng
        self.val = {}  # unknown value -> int
        self.lens = lens  # unknown value -> length
        self.memo = {}
        self.clash = None
        self.who = {}
        self.true = set()
        self.rank = {}
        self.grew = False
        self.var = {}
        self.boolv = {}

    def pick(self, small):
        if self.hints and self.rng.random() < 0.4:
            return self.rng.choice(self.hints)
        return self.rng.choice(small)

    # ------------------------------------------------------------ values
    def same(self, a, b):
        if a is b:
            return True
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
            return a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]) and all(self.same(x[1], y[1]) for x, y in zip(a.a[2], b.a[2]))
        if a.op == "seq" and b.op == "seq":
            return len(a.a[0]) == len(b.a[0]) and all(self.same(x, y) for x, y in zip(a.a[0], b.a[0]))
        if (a, b) in self.true or (b, a) in self.true:
            return True
        return False

    def size(self, v):
        """how many items, without laying out a long list"""
        if v.op == "slice":
            return v.a[2].a[0] - v.a[1].a[0]
        if v in self.lens:
            return self.lens[v]
        return len(self.items(v))

    def item(self, v, i):
        if v.op == "slice":
            return self.item(v.a[0], v.a[1].a[0] + i)
        if self.lens.get(v, 0) > LONG:
            return self.unknown(el(v, i))
        return self.items(v)[i]

    def part(self, v, i, j):
        if v.op == "slice":
            return self.part(v.a[0], v.a[1].a[0] + i, v.a[1].a[0] + j)
        if self.lens.get(v, 0) > LONG:
            if j - i > LONG:
                return v if j - i == self.lens[v] else mk("slice", v, num(i), num(j))
            return mk("seq", tuple(self.unknown(el(v, k)) for k in range(i, j)))
        return mk("seq", self.items(v)[i:j])

    def items(self, v):
        if v.op == "seq":
            return v.a[0]
        if v.op == "slice":
            if self.size(v) > LAID:
                raise Reject("long")
            return tuple(self.item(v, i) for i in range(self.size(v)))
        if v.op in ("str", "bytes"):
            b = v.a[0] if isinstance(v.a[0], (list, tuple)) else v.a[0].encode()
            return tuple(num(x) if isinstance(x, int) else mk("str", x) for x in b)
        if v.op in ("bool", "agg", "int", "closure"):
            if v.op != "int":
                raise Reject("no list: " + show(v)[:80])
        n = self.lens.get(v)
        if n is None:
            n = self.lens[v] = self.pick((0, 1, 1, 2, 2, 3))
            self.grew = True
        if n > LAID:
            raise Reject("long")
        return tuple(self.unknown(el(v, i)) for i in range(n))

    def unknown(self, v):
        """an object of its own, unless it is known to be a number or a list"""
        n = self.val.get(v)
        if n is not None:
            return num(n)
        if v in self.boolv:
            return boolt(self.boolv[v])
        if v in self.lens and self.lens[v] <= LONG:
            return mk("seq", self.items(v))
        return v

    def number(self, v):
        if v.op in ("int", "bool"):
            return int(v.a[0])
        if v in self.boolv:
            return int(self.boolv[v])
        if v.op in ("agg", "seq", "bool", "str", "bytes", "closure"):
            raise Reject("no number: " + show(v)[:80])
        n = self.val.get(v)
        if n is None:
            n = self.val[v] = self.pick((0, 1, 1, 2, 2, 3, 4))
            self.grew = True
        return n

    # ------------------------------------------------------------ terms
    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._ev(t)
            n = self.ints.get(t)
            if n is not None and r.op not in ("int",):
                # a term that has been given a number
                if r.op in ("agg", "seq", "bool", "closure"):
                    pass
                else:
                    m = self.val.get(r)
                    if m is None:
                        self.val[r] = n
                        self.who[r] = t
                    elif m != n:
                        self.clash = (t, self.who.get(r))
                        raise Reject("one value, two numbers")
                    r = num(n)
            elif n is not None and r.a[0] != n:
                self.clash = (t, r.a[0])
                raise Reject("two numbers")
            self.memo[t] = r
        return r

    def args(self, a):
        if isinstance(a, T):
            return self.ev(a)
        if isinstance(a, tuple):
            return tuple(self.args(x) for x in a)
        return a

    def _ev(self, t):
        o, a = t.op, t.a
        if o in ("int", "bool", "str", "bytes", "text", "const", "fnref"):
            return t
        if o in ("in", "el"):
            return self.unknown(t)
        if o == "lin":
            return num(a[0] + sum(c * self.number(self.ev(x)) for x, c in a[1]))
        if o == "le":
            return boolt(sum(c * self.number(self.ev(x)) for x, c in a[0]) <= a[1])
        if o == "eqn":
            f = a[0]
            if a[1] == 0 and len(f) == 2 and sorted(c for _, c in f) == [-1, 1]:
                x, y = self.ev(f[0][0]), self.ev(f[1][0])
                if x is y:
                    return TRUE
                if x.op in ("agg", "seq", "str", "bytes") or y.op in ("agg", "seq", "str", "bytes"):
                    return self.equal(x, y)
                return boolt(self.number(x) == self.number(y))
            return boolt(sum(c * self.number(self.ev(x)) for x, c in f) == a[1])
        if o == "not":
            x = self.ev(a[0])
            return neg(x)
        if o == "eq":
            return self.equal(self.ev(a[0]), self.ev(a[1]))
        if o == "agg":
            return agg(a[0], a[1], tuple((n, self.ev(v)) for n, v in a[2]))
        if o == "fld":
            b = self.ev(a[0])
            if b.op == "with":
                r = fld(b, *a[1:])
                return self.unknown(r) if r.op == "fld" else r
            r = fld(b, *a[1:])
            return self.unknown(r) if r.op == "fld" else r
        if o == "with":
            b, v = self.ev(a[0]), self.ev(a[2])
            return withpath(b, a[1], v)
        if o == "seq":
            return mk("seq", tuple(self.ev(x) for x in a[0]))
        if o == "snoc":
            return mk("seq", self.items(self.ev(a[0])) + (self.ev(a[1]),))
        if o == "cat":
            return mk("seq", self.items(self.ev(a[0])) + self.items(self.ev(a[1])))
        if o == "len":
            return num(self.size(self.ev(a[0])))
        if o == "elem":
            l = self.ev(a[0])
            i = self.number(self.ev(a[1]))
            if not 0 <= i < self.size(l):
                raise Reject("outside the list")
            return self.item(l, i)
        if o == "slice":
            l = self.ev(a[0])
            i, j = self.number(self.ev(a[1])), self.number(self.ev(a[2]))
            if not 0 <= i <= j <= self.size(l):
                raise Reject("outside the list")
            return self.part(l, i, j)
        if o == "withelem":
            l = self.items(self.ev(a[0]))
            i = self.number(self.ev(a[1]))
            if not 0 <= i < len(l):
                raise Reject("outside the list")
            return mk("seq", l[:i] + (self.ev(a[2]),) + l[i + 1:])
        if o == "app":
            return self.apply(a[0], a[1])
        if o == "closure":
            return mk("closure", a[0], tuple(self.ev(x) for x in a[1]))
        if o == "ev":
            return self.unknown(mk("ev", a[0], tuple(self.ev(x) for x in a[1])))
        if o == "post":
            return self.unknown(mk("post", self.ev(a[0]), a[1]))
        if o == "erased":
            return t
        if o == "lamcase":
            return t
        return self.unknown(mk(o, *self.args(a)))

    def equal(self, x, y):
        if self.same(x, y):
            return TRUE
        con = ("int", "bool", "str", "bytes")
        if x.op in con and y.op in con:
            return FALSE
        if x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0]:
            if x.a[1] != y.a[1]:
                return FALSE
            rs = [self.equal(p[1], q[1]) for p, q in zip(x.a[2], y.a[2])]
            if FALSE in rs:
                return FALSE
            if all(r is TRUE for r in rs):
                return TRUE
        if x.op == "seq" and y.op == "seq" and len(x.a[0]) != len(y.a[0]):
            return FALSE
        if x.op == "seq" and y.op == "seq":
            rs = [self.equal(p, q) for p, q in zip(x.a[0], y.a[0])]
            if FALSE in rs:
                return FALSE
        a, b = (x, y) if x.id < y.id else (y, x)
        return self.unknown(mk("eq", a, b))

    def kept(self, m, k):
        """does the condition a map's entries were kept by hold for this one?"""
        b = self.case(m.a[1][1], (k, self.mapget(m.a[1][0], k)))
        return self.truth(self.ev(b))

    def case(self, l, args):
        """what a function value delivers for these arguments"""
        sub = {inp(f"λ{i}"): x for i, x in enumerate(args)}
        at = lambda t: substitute(t, sub)
        if l.op == "app" and l.a[0] == "λ":
            return at(l.a[1][0])
        if l.op == "lamcase":
            for log, v in l.a[0]:
                good = True
                for x in log:
                    if x[0] == "v":
                        y = self.ev(at(x[1]))
                        if y.op != "agg":
                            raise Reject("case")
                        good = y.a[1] == x[2].a[0]
                    else:
                        good = self.truth(self.ev(at(x[1]))) == x[2].a[0]
                    if not good:
                        break
                if good:
                    return at(v)
        raise Reject("case")

    def haskey(self, m, k):
        while m.op == "app" and m.a[0] in ("mapput", "mapdel", "mapkeep"):
            if m.a[0] == "mapkeep":
                r = self.haskey(m.a[1][0], k)
                if r is FALSE:
                    return FALSE
                if not self.kept(m, k):
                    return FALSE
            elif self.same(m.a[1][1], k):
                return boolt(m.a[0] == "mapput")
            m = m.a[1][0]
        if m.op == "app" and m.a[0] == "mapnew":
            return FALSE
        return None, m

    def apply(self, n, args):
        if n == "λ":
            return mk("app", n, args)
        v = tuple(self.ev(x) for x in args)
        if n == "txt":
            return app("txt", v[0])
        if n == "haskey":
            r = self.haskey(v[0], v[1])
            if r is TRUE or r is FALSE:
                return r
            m = r[1]
            ks = mk("app", "mapkeys", (m,))
            if ks in self.lens and any(self.same(x, v[1]) for x in self.items(ks)):
                return TRUE
            return self.unknown(mk("app", "haskey", (m, v[1])))
        if n == "mapget":
            return self.mapget(v[0], v[1])
        if n in ("mapkeys", "maplen", "mapitems", "mapvalues"):
            ks = self.keys(v[0])
            if n == "maplen":
                return num(len(ks))
            if n == "mapkeys":
                return mk("seq", ks)
            vs = [self.apply("mapget", (v[0], k)) if v[0] in self.memo else self.mapget(v[0], k) for k in ks]
            if n == "mapvalues":
                return mk("seq", tuple(vs))
            return mk("seq", tuple(mk("agg", "tuple", "", (("0", k), ("1", x))) for k, x in zip(ks, vs)))
        if n == "cmp":
            x, y = v
            if x.op == "int" and y.op == "int":
                return agg("Ordering", "Less" if x.a[0] < y.a[0] else "Greater" if x.a[0] > y.a[0] else "Equal", ())
            if x is y:
                return agg("Ordering", "Equal", ())
            if not (x.op == "agg" and y.op == "agg" and x.a[:2] != y.a[:2]):
                p, q = self.key(x), self.key(y)
                if p != q:
                    return agg("Ordering", "Less" if p < q else "Greater", ())
        if n == "wrap":
            return wrap(num(self.number(v[0])), v[1].a[0])
        if n == "mul" and v[0].op == "int" and v[1].op == "int":
            return num(v[0].a[0] * v[1].a[0])
        if n.startswith("bin") and len(v) == 2:
            x, y = v
            if n in ("binBitAnd", "binBitOr", "binBitXor") and (x.op == "bool" or y.op == "bool"):
                x, y = self.truth(x), self.truth(y)
                return boolt({"binBitAnd": x and y, "binBitOr": x or y, "binBitXor": x != y}[n])
            if x.op == "int" and y.op == "int":
                p, q = x.a[0], y.a[0]
                if n == "binMul":
                    return num(p * q)
                if n == "binDiv" and q:
                    return num(p // q)
                if n == "binRem" and q:
                    return num(p % q)
                if n in ("binBitAnd", "binBitOr", "binBitXor"):
                    return num({"binBitAnd": p & q, "binBitOr": p | q, "binBitXor": p ^ q}[n])
        if n == "bsearch" and self.strict:
            r = self.search(v[0], args[1], v[2])
            if r is not None:
                return r
        if n == "reversed":
            return mk("seq", tuple(reversed(self.items(v[0]))))
        if n == "sorted_by":
            l = self.items(v[0])
            if len(l) <= 1:
                return mk("seq", l)
            lam = args[1]
            if lam.op == "app" and lam.a[0] == "λ":
                ks = []
                for x in l:
                    b = substitute(lam.a[1][0], {inp("λ0"): x})
                    if free(lam.a[1][0], {inp("λ1")}):
                        break
                    ks.append(self.key(self.ev(b)))
                else:
                    return mk("seq", tuple(x for _, x in sorted(zip(ks, l), key=lambda p: p[0])))
            if lam.op in ("app", "lamcase"):
                return mk("seq", tuple(sorted(l, key=functools.cmp_to_key(lambda x, y: self.order(self.case(lam, (x, y)))))))
        return self.unknown(mk("app", n, v))

    def search(self, l, lam, k):
        """where k stands in a list sorted by a key"""
        if not (lam.op == "app" and lam.a[0] == "λ"):
            return None
        ks = [self.ev(substitute(lam.a[1][0], {inp("λ0"): x})) for x in self.items(l)]
        if k is UNIT:
            at = [self.order(x) for x in ks]
        else:
            at = []
            for x, y in zip(ks, ks[1:]):
                if not self.key(x) < self.key(y):
                    raise Reject("not sorted")
            for x in ks:
                e = self.ev(eq(x, k)) if x.op != "int" or k.op != "int" else boolt(x.a[0] == k.a[0])
                if self.truth(e):
                    at.append(0)
                else:
                    p, q = self.key(x), self.key(k)
                    if p == q:
                        raise Reject("not sorted")
                    at.append(-1 if p < q else 1)
        if sorted(at) != at or at.count(0) > 1:
            raise Reject("not sorted")
        if 0 in at:
            return agg("Result", "Ok", (("0", num(at.index(0))),))
        return agg("Result", "Err", (("0", num(at.count(-1))),))

    def order(self, b):
        v = self.ev(b)
        if v.op == "agg" and v.a[0] == "Ordering":
            return {"Less": -1, "Equal": 0, "Greater": 1}[v.a[1]]
        raise Reject("order")

    def mapget(self, m, k):
        while m.op == "app" and m.a[0] in ("mapput", "mapdel", "mapkeep"):
            if m.a[0] == "mapput" and self.same(m.a[1][1], k):
                return m.a[1][2]
            m = m.a[1][0]
        return self.unknown(mk("app", "mapget", (m, k)))

    def level(self, x, y, fs, d=0):
        """x and y, an object held against a record taken apart into its fields"""
        if x is y or d > 12:
            return x, y
        if x.op == "agg" and y.op == "agg":
            if x.a[:2] != y.a[:2] or [n for n, _ in x.a[2]] != [n for n, _ in y.a[2]]:
                return x, y
            ps = [(n, *self.level(v, w, fs, d + 1)) for (n, v), (_, w) in zip(x.a[2], y.a[2])]
            return (mk("agg", x.a[0], x.a[1], tuple((n, v) for n, v, _ in ps)), mk("agg", x.a[0], x.a[1], tuple((n, w) for n, _, w in ps)))
        if x.op == "seq" and y.op == "seq" and len(x.a[0]) == len(y.a[0]):
            ps = [self.level(v, w, fs, d + 1) for v, w in zip(x.a[0], y.a[0])]
            return mk("seq", tuple(p[0] for p in ps)), mk("seq", tuple(p[1] for p in ps))
        if y.op == "agg" and x.op not in ("seq", "int", "bool", "str", "bytes", "closure"):
            b, a = self.level(y, x, fs, d)
            return a, b
        if x.op == "agg" and x.a[2] and y.op not in ("seq", "int", "bool", "str", "bytes", "closure"):
            if x.a[1] and fs.variant(y) != x.a[1]:
                return x, y
            adt = x.a[0] if x.a[0] != "tuple" else ""
            fs_ = []
            for n, v in x.a[2]:
                f = fld(y, adt, x.a[1], n)
                fs_.append((n, self.unknown(f) if f.op == "fld" else f))
            return self.level(x, mk("agg", x.a[0], x.a[1], tuple(fs_)), fs, d + 1)
        return x, y

    def truth(self, x):
        if x.op == "bool":
            return x.a[0]
        b = self.boolv.get(x)
        if b is None:
            b = self.boolv[x] = self.rng.random() < 0.5
            self.grew = True
        return b

    def key(self, v):
        if v.op == "int":
            return (0, v.a[0])
        if v.op == "agg":
            return (1, v.a[1], tuple(self.key(x) for _, x in v.a[2]))
        if v.op == "seq":
            return (2, tuple(self.key(x) for x in v.a[0]))
        r = self.rank.get(v)
        if r is None:
            r = self.rank[v] = self.rng.random()
        return (0, r * 5)

    def keys(self, m):
        if m.op == "app" and m.a[0] == "mapnew":
            return ()
        if m.op == "app" and m.a[0] == "mapput":
            ks = self.keys(m.a[1][0])
            k = m.a[1][1]
            return ks if any(self.same(k, x) for x in ks) else ks + (k,)
        if m.op == "app" and m.a[0] == "mapdel":
            return tuple(x for x in self.keys(m.a[1][0]) if not self.same(x, m.a[1][1]))
        if m.op == "app" and m.a[0] == "mapkeep":
            return tuple(x for x in self.keys(m.a[1][0]) if self.kept(m, x))
        return self.items(mk("app", "mapkeys", (m,)))


def forms(t, out, seen):
    """the counted quantities in a term"""
    for x in subterms(t, seen):
        pass


def quantities(ts):
    out = set()
    seen = set()
    for t in ts:
        if isinstance(t, T):
            subterms(t, seen)
    for x in seen:
        if x.op == "lin":
            out.update(y for y, _ in x.a[1])
        elif x.op in ("le", "eqn"):
            out.update(y for y, _ in x.a[0])
        elif x.op == "elem":
            if x.a[1].op not in ("int", "lin"):
                out.add(x.a[1])
        elif x.op == "slice":
            for y in x.a[1:]:
                if y.op not in ("int", "lin"):
                    out.add(y)
    return [x for x in out if x.op not in ("agg", "seq", "bool", "closure", "str", "bytes")]


def constraints(facts):
    cs = []
    for k, t, val, adt in facts.log:
        if k != "b":
            continue
        while t.op == "not":
            t, val = t.a[0], not val
        if t.op == "le":
            cs.append(("le" if val else "gt", t.a[0], t.a[1]))
        elif t.op == "eqn":
            cs.append(("eq" if val else "ne", t.a[0], t.a[1]))
    # bounds implied by what was assumed without being recorded
    for form, (lo, hi, ex) in facts.lin.items():
        if lo is not None and not (lo == 0 and all(c > 0 for _, c in form)):
            cs.append(("gt", form, lo - 1))
        if hi is not None:
            cs.append(("le", form, hi))
    return cs


def solve(vars_, cs, rng, extra, big):
    A = {v: rng.choice((0, 0, 1, 1, 2, 2, 3, 4) if not big else (0, 1, 2, 3, 4, 5, 6, 7, 9)) for v in vars_}
    allc = cs + extra
    for _ in range(1500):
        bad = []
        for c in allc:
            k, form, n = c
            s = sum(q * A[v] for v, q in form)
            if k == "le" and s > n:
                bad.append((c, n - s))
            elif k == "gt" and s <= n:
                bad.append((c, n + 1 - s))
            elif k == "eq" and s != n:
                bad.append((c, n - s))
            elif k == "ne" and s == n:
                bad.append((c, rng.choice((1, -1, 2))))
        if not bad:
            return A
        (k, form, n), d = rng.choice(bad)
        if k in ("le", "gt") and abs(d) > 40:  # not always as little as needed
            d += rng.choice((0, 1, 2)) * (1 if k == "gt" else -1)
        v, q = rng.choice(form)
        # move v so that the sum changes by d
        step = d // q if d % q == 0 else (d // q + 1)
        nv = A[v] + step
        if nv < 0:
            nv = 0
        if nv > 1 << 20:
            nv = rng.randint(0, 6)
        A[v] = nv
    return None


def limits(seen):
    """the small constants that numbers are compared with"""
    out, todo, done = set(), list(seen), set()
    while todo:
        x = todo.pop()
        if x in done:
            continue
        done.add(x)
        if x.op in ("le", "eqn"):
            out.update(n for n in (x.a[1] - 1, x.a[1], x.a[1] + 1) if 4 < n <= LONG)
        elif x.op == "lamcase":
            for log, v in x.a[0]:
                for l in log:
                    subterms(l[1], done2 := set())
                    todo.extend(done2)
                if isinstance(v, T):
                    subterms(v, done2 := set())
                    todo.extend(done2)
    return tuple(sorted(out))


def evaluate(facts, terms, A, lens, rng, strict=False, hints=()):
    """facts and terms under the numbers A; raises Reject"""
    val, boolv = {}, {}
    for turn in range(6):
        m = Model(A, rng, lens, hints, strict)
        m.val.update({k: v for k, v in val.items()})
        m.boolv.update(boolv)
        fs = Facts()
        try:
            for k, t, v, adt in facts.log:
                x = m.ev(t)
                if k == "v":
                    if x.op == "int" and False:
                        pass
                    if not fs.assume_variant(x, v, adt):
                        raise Reject("variant")
                else:
                    if x.op not in ("bool",):
                        b = x
                        w = v
                        while b.op == "not":
                            b, w = b.a[0], not w
                        if b not in m.boolv and b.op != "int":
                            m.boolv[b] = w
                            m.grew = True
                    if not fs.assume(x, v):
                        raise Reject("fact")
                    if v and x.op == "eq":
                        m.true.add(x.a)
            out = [m.ev(t) if isinstance(t, T) else t for t in terms]
        except Reject:
            if m.clash:
                e = Reject("clash")
                e.clash = m.clash
                raise e
            if m.grew and turn < 5:
                val, boolv = {k: v for k, v in m.val.items() if k not in m.who}, m.boolv
                continue
            raise
        if not m.grew:
            return fs, out, m
        val, boolv = {k: v for k, v in m.val.items() if k not in m.who}, m.boolv
    raise Reject("does not settle")


def find(facts, got, want, equal, also=(), tries=60, seed=0, strict=False):
    """a reading of the unknowns under which the facts hold and got differs from want; got/want None:
    only the facts.  equal(x, y, facts) compares values."""
    rng = random.Random(seed)
    tries = tries * 5 if strict else tries
    terms = [t for t in (got, want) if t is not None] + list(also)
    qs = quantities([t for _, t, _, _ in facts.log] + terms)
    qs.sort(key=lambda t: t.id)
    cs = constraints(facts)
    wraps = []
    seen = set()
    for t in [t for _, t, _, _ in facts.log] + terms:
        subterms(t, seen)
    for t in seen:
        if t.op == "app" and t.a[0] == "wrap":
            k, d = as_lin(t.a[1][0])
            n = NARROW[t.a[1][1].a[0]] - (t.a[1][1].a[0][0] == "i")
            if d:
                wraps.append(("gt", tuple(sorted(d.items(), key=lambda p: p[0].id)), (1 << n) - 1 - k))
    hints = limits(seen)
    wraps.sort(key=lambda c: (c[2], [(t.id, q) for t, q in c[1]]))
    vs = sorted(set(qs) | {v for _, f, _ in wraps for v, _ in f} | {v for _, f, _ in cs for v, _ in f}, key=lambda t: t.id)
    extra = []
    why = {}
    for i in range(tries):
        far = [rng.choice(wraps)] if wraps and i % 2 else []
        A = solve(vs, cs + far, rng, extra if i % 4 else [], i % 5 == 4)
        if A is None:
            extra = []
            why["unsolved"] = why.get("unsolved", 0) + 1
            continue
        # lengths that have been given a number
        lens = {}
        try:
            for _ in range(20):
                n0 = dict(lens)
                m = Model(A, rng, dict(lens), (), strict)
                for v in vs:
                    if v.op == "len":
                        try:
                            b = v.a[0]
                            if b.op == "app" and b.a[0] == "mapkeys":
                                b = m.ev(b.a[1][0])
                                if b.op == "app" and b.a[0] in ("mapput", "mapnew", "mapdel", "mapkeep"):
                                    continue
                                b = mk("app", "mapkeys", (b,))
                            else:
                                b = m.ev(b)
                        except Reject:
                            continue
                        if b.op not in ("seq", "agg", "bool", "str", "bytes"):
                            if b in lens and lens[b] != A[v]:
                                raise Reject("length")
                            lens[b] = A[v]
                if lens == n0:
                    break
            fs, out, m = evaluate(facts, terms, A, dict(lens), rng, strict, hints if i % 3 == 2 else ())
        except Reject as x:
            why[str(x)] = why.get(str(x), 0) + 1
            cl = getattr(x, "clash", None)
            if cl is not None:
                t, o = cl
                if isinstance(o, int):
                    extra = extra[-6:] + [("eq", ((t, 1),), o)]
                elif o is not None and o in A and t in A:
                    extra = extra[-6:] + [("eq", ((t, 1), (o, -1)), 0)]
            continue
        except RecursionError:
            return None, {"deep": 1}
        if got is not None and want is not None:
            out = list(m.level(out[0], out[1], fs))
        if got is None or want is None or not equal(out[0], out[1], fs):
            return (A, fs, out), why
        why["equal"] = why.get("equal", 0) + 1
    return None, why
