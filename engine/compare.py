"""Are two summary graphs the same relation?

Nodes of both graphs are paired as they are reached together; loop-carried variables of a pair fall
into classes of equal value (optimistic partition, refined to a fixpoint).  For every two segments of
a pair whose facts do not contradict each other, both must end the same way with equal observables.
"""
import random
import time

import witness

from terms import *
from facts import Facts
from terms import pieces
from engine import Unsupported


def searches(v):
    """does a binary search decide how this ends?"""
    if v is None:
        return False
    seen = set()
    for t in [e[1] for e in v.facts.log] + [v.ret]:
        if isinstance(t, T):
            subterms(t, seen)
    return any(x.op == "app" and x.a[0] == "bsearch" for x in seen)


class VSeg:
    __slots__ = ("kind", "facts", "target", "ret", "store", "arr", "why", "flags", "trail", "depth", "raw", "frozen")


class Mismatch:
    def __init__(self, what, a, b, facts, got=None, want=None):
        self.what = what
        self.a = a
        self.b = b
        self.facts = facts
        self.got = got
        self.want = want

    def describe(self):
        out = ["at variance: " + self.what]
        if self.got is not None:
            out.append("  found   : " + show(self.got)[:1500])
            out.append("  required: " + show(self.want)[:1500])
        out.append("  on the path where:")
        for k, t, v, *_ in self.facts.log:
            s = show(t)[:400]
            out.append("    " + (f"{s} is {v}" if k == "v" else (s if v else "not " + s)))
        if self.a is not None:
            out.append("  call chain: " + " > ".join(f"{i}@{l}" for i, l in self.a.trail))
        return "\n".join(out)


def obs_default(seg):
    """observables of a returning segment: its value and what it leaves behind"""
    o = {"value": seg.ret}
    for k, v in seg.store.items():
        if k[0] == "x":
            o["state of " + str(k[1])] = v
    return o


def named(t):
    """the values a text names, without the words between them"""
    def bare(x):
        while x.op == "app" and x.a[0] in ("dbg", "disp", "cut") and x.a[1]:
            x = x.a[1][0]
        return x

    return seqt([bare(x) for x in pieces(t) if x.op != "str"])


class Frozen:
    """a finished path kept while the other side goes on"""

    def __init__(self, fid, seg):
        self.id = fid
        self.seg = seg


class Pair:
    def __init__(self, key, na, nb):
        self.key = key
        self.na = na
        self.nb = nb
        self.arr = {}  # edge -> {phi: value}
        self.efacts = {}  # edge -> facts on it
        self.val = {}
        self.inv = []  # facts that hold on every arrival
        self.rounds = 0
        self.frozen_inv = False


class Comparator:
    def __init__(self, eng_a, eng_b, obs=obs_default, max_pairs=400, unroll=3, ignore_panic=False, erase=(), inv=False, seconds=None, extra=None, given=None):
        self.use_inv = inv
        self.confirm = False
        self.pinmemo = {}
        self.unconfirmed = []
        self.tried = 0
        self.seconds = seconds
        self.ea, self.eb = eng_a, eng_b
        self.obs = obs
        self.pairs = {}
        self.closures = {}
        self.reps = {}
        self.rep_of = {}
        self.root_facts = ()
        self.work = []
        self.erase = erase
        self.extra = extra  # fields the code may have beyond the required ones
        self.unroll = unroll
        self.max_pairs = max_pairs
        self.ignore_panic = ignore_panic
        self.given = given  # what callers keep to, where only aborts are looked for
        self.names = getattr(obs, "__name__", "") == "_names"  # of messages: what they name
        self.panics_only = obs == "panics"  # only: does the code abort where it must not?
        self.compared = 0
        self.contradictory = 0
        self.obligations = 0

    # ------------------------------------------------------------ substitution
    def canon(self, seg, sub, node, extra_log=(), depth=0):
        memo = {}
        erase = self.erase

        def f(t):
            if t.op == "phi":
                return sub.get(t)
            if erase and t.op == "agg" and t.a[0] in erase:
                return mk("erased", t.a[0], *([named(T_(aggget(t, "message")))] if self.names else []))
            if t.op == "closure":
                return self.representative(mk("closure", t.a[0], tuple(T_(c) for c in t.a[1])))
            if t.op == "app" and t.a[0] == "cellnew" and t.a[1]:
                # a cell made here: empty, or with what was put in since
                x = seg.store.get(("cell", t))
                if x is not None and x.op == "agg" and x.a[1] == "Some":
                    return mk("app", "cellwith", (T_(self.deref(aggget(x, "0"), seg.store)),))
                return mk("app", "cellnew", ())
            return None

        T_ = lambda t: transform(t, f, memo)
        v = VSeg()
        v.raw = seg
        v.kind = seg.kind
        v.depth = depth
        v.frozen = None
        fs = Facts()
        ok = True
        for k, t, val, adt in list(extra_log) + [(k, T_(t), val, adt) for k, t, val, adt in seg.facts.log]:
            if k == "v":
                if not fs.assume_variant(t, val, adt):
                    ok = False
                    break
            else:
                if not fs.assume(t, val):
                    ok = False
                    break
        if not ok:
            return None
        v.facts = fs
        v.target = seg.target
        v.why = seg.why
        v.flags = seg.flags
        v.trail = seg.trail
        v.ret = T_(seg.ret) if seg.ret is not None else None
        v.store = {}
        if seg.kind == "ret":
            for k, x in seg.store.items():
                if k[0] == "x" or k[0] == "cell" and not (k[1].op == "app" and k[1].a[0] == "cellnew"):
                    kk = k if k[0] == "x" else ("cell", T_(k[1]))
                    v.store[kk] = T_(self.deref(x, seg.store))
        v.arr = None
        if seg.kind == "goto":
            t = seg.target
            v.arr = {}
            own = {}
            n = t
            while n is not None:
                for (key, path), phi in n.phis.items():
                    own[phi] = (n, key, path)
                n = n.parent
            for phi, (n, key, path) in own.items():
                if n is t:
                    if seg.vals is not None:
                        x = seg.vals[phi]
                    else:
                        x = path_get(seg.store[key], path)
                    v.arr[phi] = T_(self.deref(x, seg.store))
                else:
                    v.arr[phi] = sub.get(phi, phi)
        return v

    def deref(self, x, store):
        """values never mention locations"""
        def rd(t):
            key, proj = t.a
            v = store.get(key)
            if v is None:
                return None
            for e in proj:
                v = self.ea.getproj(v, e)
            return v
        for _ in range(4):
            if not any(t.op == "loc" for t in subterms(x)):
                return x
            y = transform(x, lambda t: rd(t) if t.op == "loc" else None, {})
            if y is x:
                return x
            x = y
        return x

    def expand(self, v):
        """the segments that continue a goto"""
        out = []
        for s in v.target.segs:
            c = self.canon(s, v.arr, v.target, v.facts.log, v.depth + 1)
            if c is not None:
                out.append(c)
        return out

    # ------------------------------------------------------------ main loop
    def run(self, ra, rb):
        p = Pair((ra.id, rb.id), ra, rb)
        p.val = {}
        p.inv = list(self.root_facts)
        self.pairs[p.key] = p
        self.work = [p]
        self.mism = {}
        rounds = 0
        t0 = time.time()
        while self.work:
            rounds += 1
            if rounds > 3000 or len(self.pairs) > self.max_pairs or (self.seconds and time.time() - t0 > self.seconds):
                return [Mismatch("the comparison did not stabilise", None, None, Facts())]
            p = self.work.pop(0)
            self.process(p)
        out = []
        for k in sorted(self.mism, key=str):
            out.extend(self.mism[k])
        return out

    def process(self, p):
        sa, sb = self.segs_of(p, p.na), self.segs_of(p, p.nb)
        self.mism[p.key] = []
        self.edges_now = {}
        # a side that only walks on to its next loop does not make the other one move
        wa, wb = self.use_inv and self.walks(p, sa), self.use_inv and self.walks(p, sb)
        if wa and not wb and not isinstance(p.nb, Frozen):
            self.arrive(p, sa[0], self.stay(p, p.nb), ("sa",), sa[0].facts)
            return
        if wb and not wa and not isinstance(p.na, Frozen):
            self.arrive(p, self.stay(p, p.na), sb[0], ("sb",), sb[0].facts)
            return
        for i, a in enumerate(sa):
            for j, b in enumerate(sb):
                self.match(p, a, b, (i, j))

    def walks(self, p, segs):
        return len(segs) == 1 and segs[0].kind == "goto" and len(segs[0].facts.log) <= len(p.inv)

    def stay(self, p, n):
        v = VSeg()
        v.kind = "goto"
        v.target = n
        v.arr = {}
        m = n
        while m is not None:
            for phi in m.phis.values():
                v.arr[phi] = p.val.get(phi, phi)
            m = m.parent
        return v

    def segs_of(self, p, n):
        if isinstance(n, Frozen):
            return [n.seg]
        return [c for c in (self.canon(s, p.val, n, p.inv) for s in n.segs) if c is not None]

    def freeze(self, p, loop, done, fs, eid, left):
        """one side has finished while the other goes round a loop: that loop must have no effect
        that matters, so every way out of it is held against the finished side"""
        if done.frozen is None:
            fid = ("done", p.key, eid, left)
            v = VSeg()
            for n in VSeg.__slots__:
                setattr(v, n, getattr(done, n))
            v.facts = fs
            v.frozen = fid
            fr = Frozen(fid, v)
        else:
            fr = Frozen(done.frozen, done)
        key = (loop.target.id, fr.id) if left else (fr.id, loop.target.id)
        q = self.pairs.get(key)
        new = q is None
        if new:
            q = Pair(key, loop.target if left else fr, fr if left else loop.target)
            self.pairs[key] = q
        elif done.frozen is None:
            if left:
                q.nb = fr
            else:
                q.na = fr
        e = (p.key, eid)
        if q.arr.get(e) == loop.arr and not (new or done.frozen is None):
            return
        q.arr[e] = dict(loop.arr)
        old = q.val
        self.partition(q, frozen=True)
        if new or q.val != old or done.frozen is None:
            if q not in self.work:
                self.work.append(q)

    def union(self, a, b):
        fs = a.facts.copy()
        for k, t, v, adt in b.facts.log:
            if k == "v":
                if not fs.assume_variant(t, v, adt):
                    return None
            else:
                if not fs.assume(t, v):
                    return None
        return self.saturate(fs)

    def saturate(self, fs):
        """propagate equalities with enum constants and booleans hidden in facts"""
        for k, t, v, adt in list(fs.log):
            if k == "b" and t.op == "eq" and v:
                for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                    if y.op == "agg" and y.a[1]:
                        if not fs.assume_variant(x, y.a[1], y.a[0]):
                            return None
        return fs

    def pinned(self, fs):
        """the facts with every count they fix replaced by its number, and what was replaced;
        None if they contradict each other then"""
        subs = []
        for turn in range(4):
            pins = {}
            for form, (lo, hi, _) in fs.lin.items():
                if lo is not None and lo == hi and len(form) == 1 and lo % form[0][1] == 0:
                    pins[form[0][0]] = lo // form[0][1]
            if not pins:
                return fs, subs
            key = frozenset(pins.items())
            memo = self.pinmemo.setdefault(key, {})
            sub = lambda t, pins=pins: num(pins[t]) if t in pins else None
            subs.append((sub, memo))
            out = Facts()
            changed = False
            for t, n in pins.items():
                u = within(t, sub, memo)
                if u is not t:
                    changed = True
                if not out.assume(eq(u, num(n)), True):
                    return None
            for k, t, v, adt in fs.log:
                u = transform(t, sub, memo)
                if u is not t and not (u.op == "bool" and k == "b"):
                    changed = True
                if k == "v":
                    if not out.assume_variant(u, v, adt):
                        return None
                elif not out.assume(u, v):
                    return None
            out = self.saturate(out)
            if out is None:
                return None
            fs = out
            if not changed:
                break
        return fs, subs

    def match(self, p, a, b, eid):
        fs = self.union(a, b)
        self.compared += 1
        if fs is None:
            self.contradictory += 1
            return
        if b.kind == "panic" and b.why == "unwrap":
            return  # the specification takes it that this does not happen
        if a.kind != "goto" and b.kind != "goto":
            self.obligations += 1
            if self.panics_only:
                if a.kind == "panic" and b.kind != "panic":
                    if self.given is not None:
                        fs = self.given(fs)
                        if fs is None:
                            return
                    self.fail(p, f"the code panics ({a.why}) where it must {self.word(b, True)}", a, b, fs)
                return
            if a.kind != b.kind:
                if a.kind == "panic" and self.ignore_panic or b.kind == "panic" and self.ignore_panic:
                    return
                self.fail(p, f"the code {self.word(a)} where it must {self.word(b, True)}", a, b, fs)
                return
            if a.kind == "panic":
                return
            oa, ob = self.obs(a), self.obs(b)
            for k in ob:
                if k in oa:
                    if not self.equal(oa[k], ob[k], fs):
                        self.fail(p, k, a, b, fs, oa[k], ob[k])
                        return
            self.cells(p, a, b, fs)
            return
        if a.kind == "goto" and b.kind == "goto":
            self.arrive(p, a, b, eid, fs)
            return
        # one side is at a loop, the other has finished: follow the loop
        if a.kind == "goto":
            if a.depth >= self.unroll or b.frozen is not None:
                self.freeze(p, a, b, fs, eid, True)
                return
            for i, x in enumerate(self.expand(a)):
                self.match(p, x, b, eid + (("a", i),))
        else:
            if b.depth >= self.unroll or a.frozen is not None:
                self.freeze(p, b, a, fs, eid, False)
                return
            for i, x in enumerate(self.expand(b)):
                self.match(p, a, x, eid + (("b", i),))

    def word(self, s, inf=False):
        if s.kind == "panic":
            return "panic" if inf else "panics"
        if s.kind == "ret":
            v = s.ret
            t = ("return " if inf else "returns ") + show(v)[:200]
            return t
        return "loop" if inf else "loops"

    def cells(self, p, a, b, fs):
        ka = {k for k in a.store if k[0] == "cell"}
        kb = {k for k in b.store if k[0] == "cell"}
        for k in kb | ka:
            init = mk("app", "cellget", (k[1],))
            x, y = a.store.get(k, init), b.store.get(k, init)
            if not self.equal(x, y, fs):
                self.fail(p, "contents of the cell " + show(k[1]), a, b, fs, x, y)

    def fail(self, p, what, a, b, fs, got=None, want=None):
        if self.confirm:
            pin = self.pinned(fs)
            if pin is None:
                return
            if pin[1]:
                fs = pin[0]
                for sub in pin[1]:
                    got, want = [transform(t, *sub) if isinstance(t, T) else t for t in (got, want)]
                if isinstance(got, T) and got is want:
                    return
            # only a difference that values can be given for
            self.tried += 1
            also = [x.ret for x in (a, b) if x is not None and x.kind == "ret"] if got is None else []
            w, why = witness.find(fs, got, want, self.equal, also=also, tries=60 if self.tried < 40 else 12, seed=self.tried, strict=searches(a) != searches(b))
            if w is None:
                self.unconfirmed.append((what, why, Mismatch(what, a, b, fs, got, want)))
                return
        self.mism[p.key].append(Mismatch(what, a, b, fs, got, want))

    def arrive(self, p, a, b, eid, fs):
        key = (a.target.id, b.target.id)
        q = self.pairs.get(key)
        new = q is None
        if new:
            q = Pair(key, a.target, b.target)
            self.pairs[key] = q
        arr = dict(a.arr)
        arr.update(b.arr)
        if self.use_inv:
            # a truth value settled on the way is what it was settled to
            for ph, x in arr.items():
                if x.op not in ("bool", "int", "agg", "lin"):
                    d = fs.decide(x)
                    if d is not None:
                        arr[ph] = TRUE if d else FALSE
        e = (p.key, eid)
        flog = tuple(fs.log)
        if q.arr.get(e) == arr and q.efacts[e][0] == flog:
            return
        q.arr[e] = arr
        q.efacts[e] = (flog, fs)
        old, oldinv = q.val, q.inv
        self.partition(q)
        if self.use_inv and not q.frozen_inv:
            q.rounds += 1
            if q.rounds > 40:
                q.frozen_inv = True
                q.inv = []
            else:
                self.invariants(q)
        if new or q.val != old or q.inv != oldinv:
            if q not in self.work:
                self.work.append(q)

    def invariants(self, q):
        """facts of any arrival, put in terms of the loop's own variables, that every arrival has"""
        edges = sorted(q.arr, key=str)
        reps = {}
        for ph, v in q.val.items():
            if v.op == "par" and v.a[0] == q.key:
                reps.setdefault(v, ph)
        # the edge with the fewest facts bounds what can hold on all of them; going round adds its own
        cands = {}
        for e in edges:
            inv = {}
            for v, ph in reps.items():
                x = q.arr[e][ph]
                if x.op in ("int", "bool", "str"):
                    continue
                if x.op == "lin":
                    if len(x.a[1]) == 1 and x.a[1][0][1] == 1:
                        inv.setdefault(x.a[1][0][0], add(v, num(x.a[0]), -1))
                    continue
                inv.setdefault(x, v)
            memo = {}
            for k, t, val, adt in q.efacts[e][0]:
                t2 = transform(t, lambda x: inv.get(x), memo)
                if (k, t2, val) not in cands and self.own(t2, q.key):
                    cands[(k, t2, val)] = adt
            if len(cands) > 200:
                break
        out = []
        subs = [{v: q.arr[e][ph] for v, ph in reps.items()} for e in edges]
        memos = [{} for _ in edges]
        for (k, t, val), adt in cands.items():
            ok = True
            for e, sub, memo in zip(edges, subs, memos):
                x = transform(t, lambda y: sub.get(y), memo)
                if not self.entails(q.efacts[e][1], k, x, val):
                    ok = False
                    break
            if ok:
                out.append((k, t, val, adt))
        q.inv = out

    def own(self, t, key):
        return all(x.op != "phi" and (x.op != "par" or x.a[0] == key) for x in subterms(t))

    def entails(self, fs, k, t, val):
        if k == "v":
            return fs.variant(t) == val
        d = fs.decide(t)
        if d is not None:
            return d is val
        if t.op not in ("le", "eqn"):
            return False
        return not fs.copy().assume(t, not val)

    def partition(self, q, frozen=False):
        edges = sorted(q.arr, key=str)
        phis = sorted({ph for e in edges for ph in q.arr[e]}, key=lambda t: t.id)
        sig = {}
        for ph in phis:
            s = tuple(q.arr[e].get(ph) for e in edges)
            sig.setdefault(s, []).append(ph)
        val = {}
        for s, phs in sig.items():
            c = s[0]
            if all(x is c for x in s) and c is not None and (frozen or closed(c)):
                v = c
            else:
                v = mk("par", q.key, phs[0].id, phs[0].a[2])
            for ph in phs:
                val[ph] = v
        q.val = val

    # ------------------------------------------------------------ loops peeled
    def peel(self, ra, rb, turns=(1, 2, 3, 4), budget=30000, seconds=20):
        """The mismatches that also show when the first turns of every loop are laid out one after
        another instead of being matched turn by turn: a difference in how the turns are arranged
        goes away, a difference in what comes out stays.  Both sides are followed together, and a
        pair of beginnings that contradict each other is not followed any further.
        Returns (mismatches, complete)."""
        p = Pair((ra.id, rb.id), ra, rb)
        self.mism = {p.key: []}
        self.confirm = True
        t0 = time.time()
        n = 0
        for most in turns:
            cut = False
            memo = {}

            def start(root):
                out = []
                for s in root.segs:
                    c = self.canon(s, {}, root)
                    if c is not None:
                        out.append((c, (c.target.id,) if c.kind == "goto" else ()))
                return out

            def further(v, path):
                k = (id(v), path)
                r = memo.get(k)
                if r is None:
                    r = [(c, path + (c.target.id,) if c.kind == "goto" else path) for c in self.expand(v)]
                    memo[k] = r
                    memo[("keep", id(v))] = v
                return r

            work = [(a, pa, b, pb) for a, pa in start(ra) for b, pb in start(rb)]
            work.reverse()
            while work:
                a, pa, b, pb = work.pop()
                n += 1
                if n > budget or time.time() - t0 > seconds:
                    return self.mism[p.key], False
                if a.kind != "goto" and b.kind != "goto":
                    self.match(p, a, b, ())
                    if len(self.mism[p.key]) >= 3:
                        return self.mism[p.key], not cut
                    continue
                fs = self.union(a, b)
                if fs is None or self.pinned(fs) is None:
                    continue
                left = a.kind == "goto" and (b.kind != "goto" or len(pa) <= len(pb))
                v, path = (a, pa) if left else (b, pb)
                if path.count(path[-1]) > most:
                    cut = True
                    continue
                if left:
                    work.extend((x, px, b, pb) for x, px in further(a, pa))
                else:
                    work.extend((a, pa, x, px) for x, px in further(b, pb))
            if self.mism[p.key] or not cut:
                break
        return self.mism[p.key], not cut

    def walk(self, ra, rb, most=18, walks=60, seconds=15):
        """Long runs through the loops: both sides are followed together along one way picked at
        random (the same way round as often as possible), so that a difference that only the
        tenth turn shows is reached without laying out everything before it."""
        p = Pair((ra.id, rb.id), ra, rb)
        self.mism = {p.key: []}
        self.confirm = True
        rng = random.Random(1)
        t0 = time.time()
        before = len(self.unconfirmed)
        for w in range(walks):
            prio = {}
            limit = rng.choice((3, 6, most, most))

            def rank(c):
                k = id(c[0].raw)
                if k not in prio:
                    # going round is preferred over leaving, as long as there are turns left
                    prio[k] = rng.random() + (1 if c[0].kind == "goto" else 0)
                return prio[k] + (rng.random() if rng.random() < 0.1 else 0)

            def start(root):
                out = []
                for s in root.segs:
                    c = self.canon(s, {}, root)
                    if c is not None:
                        out.append((c, (c.target.id,) if c.kind == "goto" else ()))
                return out

            work = [(a, b) for a in start(ra) for b in start(rb)]
            work.sort(key=lambda q: rank(q[0]) + rank(q[1]))
            steps = 0
            while work and steps < 160:
                if time.time() - t0 > seconds:
                    return self.mism[p.key], False
                steps += 1
                (a, pa), (b, pb) = work.pop()
                if a.kind != "goto" and b.kind != "goto":
                    self.match(p, a, b, ())
                    if self.mism[p.key]:
                        return self.mism[p.key], False
                    if len(self.unconfirmed) > before + 30:
                        return [], False
                    break
                fs = self.union(a, b)
                if fs is None or self.pinned(fs) is None:
                    continue
                left = a.kind == "goto" and (b.kind != "goto" or len(pa) <= len(pb))
                v, path = (a, pa) if left else (b, pb)
                nxt = [(c, path + (c.target.id,) if c.kind == "goto" else path) for c in self.expand(v)]
                if path.count(path[-1]) >= limit:
                    nxt = [c for c in nxt if c[0].kind != "goto" or c[1][-1] != path[-1]] or nxt
                nxt.sort(key=rank)
                work.extend((c, (b, pb)) if left else ((a, pa), c) for c in nxt)
        return self.mism[p.key], False

    # ------------------------------------------------------------ equality under facts
    def tells(self, x, y, fs, d):
        """wording is free: a text has to contain at least what the required one contains"""
        a, b = ingredients(x), ingredients(y)
        return all(any(self.speaks(p, q, fs, d) if q.op == "app" and q.a[0] == "about" else self.equal(p, q, fs, d) for p in a) for q in b)

    def speaks(self, p, q, fs, d):
        """is p made from what stands at the place of the text that q names?"""
        if p.op == "agg" or p.op in ("app", "ev") and "position" in str(p.a[0]).lower():
            return False
        v, i = q.a[1]
        for t in subterms(p):
            if t.op in ("slice", "elem") and self.equal(t.a[0], v, fs, d + 1) and self.equal(t.a[1], i, fs, d + 1):
                return True
            if v.op == "seq" and i.op == "int" and i.a[0] < len(v.a[0]) and t is v.a[0][i.a[0]]:
                return True
            if t.op in ("app", "ev") and isinstance(t.a[1], tuple) and len(t.a[1]) >= 2 and any(self.equal(x, v, fs, d + 1) and self.equal(y, i, fs, d + 1) for x, y in zip(t.a[1], t.a[1][1:]) if isinstance(x, T) and isinstance(y, T)):
                return True
        return False

    def equal(self, x, y, fs, d=0):
        if x is y:
            return True
        if d > 40:
            return False
        dx, dy = None, None
        if x.op in ("bool", "not", "le", "eqn", "eq") or y.op in ("bool", "not", "le", "eqn", "eq"):
            dx, dy = fs.decide(x), fs.decide(y)
            if dx is not None and dx is dy:
                return True
            if dx is not None and dy is not None:
                return False
        if x.op == "not" and y.op == "not":
            return self.equal(x.a[0], y.a[0], fs, d + 1)
        if is_text(x) or is_text(y):
            px, py = pieces(x), pieces(y)
            if not (px == (x,) and py == (y,)) and len(px) == len(py) and all(self.equal(p, q, fs, d + 1) for p, q in zip(px, py)):
                return True
        if x.op == "agg" or y.op == "agg":
            if x.op != "agg":
                x, y = y, x
            adt, vn = x.a[0], x.a[1]
            if y.op == "agg":
                if (adt, vn) != y.a[:2]:
                    return False
                if self.extra and len(x.a[2]) != len(y.a[2]):
                    nx, ny = {n for n, _ in x.a[2]}, {n for n, _ in y.a[2]}
                    x = mk("agg", adt, vn, tuple(p for p in x.a[2] if p[0] in ny or not self.extra(p[0])))
                    y = mk("agg", adt, vn, tuple(p for p in y.a[2] if p[0] in nx or not self.extra(p[0])))
                if len(x.a[2]) != len(y.a[2]):
                    return False
                return all(
                    n1 == n2 and (self.tells(v1, v2, fs, d + 1) if (adt, n1) in WORDING or vn == "Err" and (is_text(v1) or is_text(v2)) else self.equal(v1, v2, fs, d + 1))
                    for (n1, v1), (n2, v2) in zip(x.a[2], y.a[2])
                )
            if vn and fs.variant(y) != vn:
                return False
            if not x.a[2]:
                return True  # unit or a variant without fields
            return all(self.equal(v, fld(y, adt if adt != "tuple" else "", vn, n), fs, d + 1) for n, v in x.a[2])
        if x.op in ("lin", "int") or y.op in ("lin", "int") or (x.op not in NOTNUM and y.op not in NOTNUM):
            e = eq(x, y)
            if e is TRUE or fs.decide(e) is True:
                return True
            if e.op == "eqn" and self.sandwich(e, fs):
                return True
        vx, vy = fs.variant(x), fs.variant(y)
        if vx is not None and vx == vy and ENUMZ(vx):
            return True
        if dx is None and x.op in ("fld", "app", "phi", "par", "in") and y.op in ("fld", "app", "phi", "par", "in"):
            dx = fs.decide(x)
            if dx is not None and dx is fs.decide(y):
                return True
        if x.op == "with" or y.op == "with":
            bx, wx = unwith(x)
            by, wy = unwith(y)
            if bx is by or self.equal(bx, by, fs, d + 1):
                for pth in set(wx) | set(wy):
                    gx = wx.get(pth)
                    gy = wy.get(pth)
                    adt = None
                    if gx is None or gy is None:
                        # read the untouched field from the base: any adt name works, find it in the other
                        g = gx if gx is not None else gy
                        base = by if gx is not None else bx
                        cand = [t for t in subterms(g) if t.op == "fld" and t.a[2] == pth[0] and t.a[3] == pth[1]]
                        if not any(t.a[0] is base and self.equal(t, g, fs, d + 1) for t in cand) and not self.field_is(base, pth, g, fs):
                            return False
                    elif not self.equal(gx, gy, fs, d + 1):
                        return False
                return True
        if x.op != y.op:
            return False
        if x.op in ("phi", "par", "in", "str", "bytes", "int", "undef", "const"):
            return False
        if x.op == "closure" and y.op == "closure":
            if len(x.a[1]) == len(y.a[1]) and x.a[0] == y.a[0] and all(self.equal(p, q, fs, d + 1) for p, q in zip(x.a[1], y.a[1])):
                return True
            return self.same_function(x, y, fs)
        return self.eqargs(x.a, y.a, fs, d + 1)

    def field_is(self, base, pth, g, fs):
        for adt in [k for k in ADT_NFIELDS]:
            t = mk("fld", base, adt, pth[0], pth[1])
            if t is g:
                return True
            e = eq(t, g)
            if fs.decide(e) is True or (e.op == "eqn" and self.sandwich(e, fs)):
                return True
        return False

    def sandwich(self, e, fs):
        """a == b from a <= b and b <= a"""
        f1 = fs.copy()
        form, n = e.a
        t1 = mk("le", form, n - 1)
        t2 = mk("le", form, n)
        lt_possible = f1.assume(t1, True)
        f2 = fs.copy()
        gt_possible = f2.assume(t2, False)
        return not lt_possible and not gt_possible

    def representative(self, t):
        """one closure for all that do the same with the same captures"""
        l = self.reps.setdefault(t.a[1], [])
        for x in l:
            if x is t:
                return self.rep_of.get(x, x)
        for x in l:
            if self.same_function(x, t, Facts()):
                l.append(t)
                self.rep_of[t] = self.rep_of.get(x, x)
                return self.rep_of[t]
        l.append(t)
        return t

    def same_function(self, x, y, fs):
        """two closures that do the same with the same arguments"""
        k = (x, y)
        if k in self.closures:
            return self.closures[k]
        self.closures[k] = False
        try:
            a, b = self.ea.summarize_closure(x), self.eb.summarize_closure(y)
        except (Unsupported, KeyError):
            return False

        def obs(seg):
            o = {"value": seg.ret}
            for n, v in seg.store.items():
                if n[0] == "x" and n[1] != "λ1":
                    o[str(n[1])] = v
            return o

        c = Comparator(self.ea, self.eb, obs, max_pairs=100, erase=self.erase, extra=self.extra, ignore_panic=self.ignore_panic)
        c.closures = self.closures
        c.root_facts = fs.log
        r = not c.run(a, b)
        self.compared += c.compared
        self.obligations += c.obligations
        if r:
            self.closures[k] = True
        else:
            del self.closures[k]
        return r

    def eqargs(self, a, b, fs, d):
        if isinstance(a, T) and isinstance(b, T):
            return self.equal(a, b, fs, d)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eqargs(x, y, fs, d) for x, y in zip(a, b))
        return a == b


NOTNUM = {"agg", "str", "bool", "closure", "seq", "not", "le", "eqn", "eq", "bytes", "with", "snoc", "cat", "slice", "text", "withelem", "post"}


WORDING = {("ParseError", "message")}


def is_text(t):
    return t.op in ("text", "str") or t.op == "app" and t.a[0] in ("txt", "text")


def ingredients(t, out=None):
    """the values written into a text"""
    out = [] if out is None else out
    if isinstance(t, tuple):
        for x in t:
            ingredients(x, out)
    elif not isinstance(t, T) or t.op in ("text", "str") or t.op == "app" and t.a[0] == "text":
        pass
    elif t.op == "app" and t.a[0] in ("disp", "dbg"):
        out.extend(t.a[1])
    elif t.op in ("cat", "seq", "snoc") or t.op == "app" and t.a[0] == "txt":
        ingredients(t.a, out)
    else:
        out.append(t)
    return out


def ENUMZ(v):
    return all(n == 0 for (a, vn), n in ENUMF.items() if vn == v) and (v == "None" or any(vn == v for (_, vn) in ENUMF)) or v in ("Less", "Equal", "Greater")


def unwith(t):
    w = {}
    while t.op == "with":
        w.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    return t, w


def closed(t):
    return not any(x.op in ("phi", "par") for x in subterms(t))


def path_get(v, path):
    for n in path:
        if v.op == "agg":
            v = aggget(v, n)
        else:
            v = v.a[1][n]
    return v
