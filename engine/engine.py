"""Path-sensitive abstract interpretation of MIR into summary graphs.

A function is summarised by a graph whose nodes are its entry and the loop heads met on the way
(in it or in what is inlined into it) and whose edges are loop-free path segments: the facts the
path rests on, the value every live variable has at its end, and the history of every mutable
object handed in.  At a loop head every variable the loop changes is replaced by an unknown of its
own (a fixpoint over the change set), so a segment stands for that path of every iteration.
"""
import json
import re
import sys
from terms import *
from facts import Facts

sys.setrecursionlimit(20000)


class Fork(Exception):
    pass


class Unsupported(Exception):
    pass


def last(path):
    p = strip_generics(path)
    return p.split("::")[-1]


def strip_generics(p):
    p = p.replace("<impl [T]>", "slice").replace("<impl str>", "str")
    out = []
    depth = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            depth += 1
        elif c == ">" and i > 0 and p[i - 1] != "-":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    return s.strip(":")


def key2(path):
    seg = [x for x in strip_generics(path).split("::") if x]
    return "::".join(seg[-2:]), (seg[-1] if seg else "")


def adt_name(h):
    return h.split("::")[-1] if h else ""


class Fn:
    __slots__ = ("ns", "id", "raw", "blocks", "argc", "locals", "heads", "live", "refd", "name", "file", "line", "spread", "owner", "joins")

    def __init__(self, ns, raw, body=None, owner=None):
        b = body or raw
        self.ns = ns
        self.id = raw["id"]
        self.raw = raw
        self.blocks = b["blocks"]
        self.argc = b["argc"]
        self.locals = b["locals"]
        self.spread = b["spread"]
        self.name = raw["name"]
        self.file = raw["file"]
        self.line = raw["line"]
        self.heads = None
        self.live = None
        self.owner = owner
        self.joins = {}

    # ---- loop heads and liveness, on demand
    def succs(self, i):
        t = self.blocks[i]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        if k == "drop":
            return [t[2]]
        return []

    def prepare(self):
        if self.heads is not None:
            return
        heads = set()
        color = {}
        stack = [(0, iter(self.succs(0)))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                if color.get(s) == 1:
                    heads.add(s)
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                color[n] = 2
                stack.pop()
        self.heads = heads
        reach = [b for b in color]
        use, de = {}, {}
        refd = set()

        def pl(p, u, d, write):
            l, pr = p
            for e in pr:
                if e[0] == "i":
                    u(e[1])
            if write and not pr:
                d(l)
            else:
                u(l)

        def op(o, u):
            if o[0] in ("c", "m"):
                pl(o[1], u, None, False)

        for b in reach:
            uses, defs = set(), set()

            def u(l):
                if l not in defs:
                    uses.add(l)

            def d(l):
                defs.add(l)

            for s in self.blocks[b]["s"]:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k == "use":
                        op(r[1], u)
                    elif k == "ref":
                        pl(r[2], u, None, False)
                        if r[1] != "fake" and not any(e[0].startswith("*") for e in r[2][1]):
                            refd.add(r[2][0])
                    elif k == "bin":
                        op(r[2], u)
                        op(r[3], u)
                    elif k in ("un", "cast"):
                        op(r[2], u)
                    elif k == "discr":
                        pl(r[1], u, None, False)
                    elif k == "agg":
                        for o in r[2]:
                            op(o, u)
                    elif k == "rep":
                        op(r[1], u)
                    pl(s[1], u, d, True)
                elif s[0] == "setd":
                    pl(s[1], u, None, False)
            t = self.blocks[b]["t"]
            if t[0] == "switch":
                op(t[1], u)
            elif t[0] == "call":
                op(t[1], u)
                for o in t[2]:
                    op(o, u)
                pl(t[3], u, d, True)
            elif t[0] == "assert":
                op(t[1], u)
            elif t[0] == "ret":
                u(0)
            use[b], de[b] = uses, defs
        livein = {b: set() for b in reach}
        ch = True
        while ch:
            ch = False
            for b in reach:
                o = set()
                for s in self.succs(b):
                    o |= livein[s]
                n = use[b] | (o - de[b])
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        self.live = livein
        self.refd = refd


class Program:
    """facts of the analysed crate (namespace r) and of the model crate (namespace m)"""

    @staticmethod
    def shape(ty):
        """a type without lifetimes and module names"""
        return re.sub(r"'\w+ ?|(\w+::)+", "", ty)

    def __init__(self, repo_facts, model_facts):
        self.fns = {}
        self.impls = {}
        self.adts = {}
        self.newtypes = {"Box", "Rc", "Arc", "MaybeUninit", "ManuallyDrop", "Unique", "NonNull", "Cow"}
        known = {adt_name(a["path"]) for a in model_facts["adts"]}
        for ns, d in (("m", model_facts), ("r", repo_facts)):
            for f in d["fns"]:
                if "blocks" in f and "::ext::" not in f["id"]:
                    self.fns[(ns, f["id"])] = Fn(ns, f)
            for im in d["impls"]:
                if im["trait"]:
                    tr = last(im["trait"])
                    for it in im["items"]:
                        nm = last(it) if not it.endswith(">") else it
                        self.impls.setdefault((tr, adt_name(im["head"].split(":", 1)[-1]), it.rsplit("::", 1)[-1]), []).append((ns, it))
            for a in d["adts"]:
                n = adt_name(a["path"])
                for vn, fs in a["variants"]:
                    ENUMF[(n, vn)] = len(fs)
                if not a["enum"] and len(a["variants"]) == 1:
                    fs = a["variants"][0][1]
                    ADT_NFIELDS[n] = len(fs)
                    if len(fs) == 1 and (fs[0][0] == "0" or n not in known):
                        self.newtypes.add(n)
                if ns == "r":
                    self.adts[n] = a
        self.model = {}
        for (ns, i), f in self.fns.items():
            if ns == "m" and "::{closure" not in i:
                self.model.setdefault(f.name, f)

    def own_trait(self, name):
        """declared by the crate itself: its methods are what the grammar is made of"""
        if not hasattr(self, "_traits"):
            self._traits = {last(f.raw["intrait"]) for f in self.fns.values() if "intrait" in f.raw}
            self._traits |= {last(b["t"][1][1]["fn"]["trait"]) for f in self.fns.values() for b in f.blocks
                             if b["t"][0] == "call" and b["t"][1][0] == "k" and b["t"][1][1].get("fn", {}).get("trait")
                             and not b["t"][1][1]["fn"]["trait"].startswith(("std::", "core::", "alloc::"))}
        return name in self._traits

    def silent_fns(self):
        """Functions whose calls leave nothing behind but output: they return (), are handed nothing to
        write to, and neither they nor what they call touches shared state (a memo cell filled on
        first use apart)."""
        if not hasattr(self, "_silent"):
            ok, bad = {}, set()
            for k, f in self.fns.items():
                if k[0] != "r":
                    continue
                calls = set()
                clean = True
                for i in range(1, f.argc + 1):
                    if f.raw["kind"] != "Closure" and re.search(r"&('\w+ )?mut ", f.locals[i][0]) and "Formatter" not in f.locals[i][0]:
                        clean = False
                for b in f.blocks:
                    for s in b["s"]:
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                            calls.add(("r", s[2][1][1]))
                    t = b["t"]
                    if t[0] != "call":
                        continue
                    if t[1][0] != "k" or "fn" not in t[1][1]:
                        clean = False  # a function value
                        continue
                    c = t[1][1]["fn"]
                    nm = key2(c["path"])[0] if "path" in c else ""
                    tr = last(c["trait"]) if "trait" in c else ""
                    if tr in ("Fn", "FnMut", "FnOnce"):
                        pass  # closures made here are looked at themselves
                    if c.get("local"):
                        calls.add(("r", c["local"]))
                    elif re.search(r"(Cell|RefCell|OnceCell|Mutex|RwLock|Atomic\w*)::(set|replace|swap|take|borrow_mut|get_mut|try_borrow_mut|store|fetch_\w+|lock|write|update|into_inner|try_insert)$", nm):
                        clean = False
                if clean:
                    ok[k] = calls
                else:
                    bad.add(k)
            ch = True
            while ch:
                ch = False
                for k in list(ok):
                    if any(c in bad or c not in ok and c in self.fns for c in ok[k]):
                        del ok[k]
                        bad.add(k)
                        ch = True
            self.pure = {k[1] for k in ok if not self.fns[k].locals[0][0].startswith("!")}
            self._silent = {k for k in ok if self.fns[k].raw["kind"] != "Closure" and self.fns[k].locals[0][0] == "()"}
        return self._silent

    def find(self, **kw):
        """functions of the analysed crate by head/trait/name"""
        out = []
        for (ns, i), f in self.fns.items():
            if ns != kw.get("ns", "r"):
                continue
            r = f.raw
            if r["kind"] == "Closure":
                continue
            if "name" in kw and f.name != kw["name"]:
                continue
            if "head" in kw and adt_name(r.get("head", "").split(":", 1)[-1]) != kw["head"]:
                continue
            if "trait" in kw and (adt_name(r.get("trait") or "") or None) != kw["trait"]:
                continue
            if "self_has" in kw and kw["self_has"] not in r.get("self", ""):
                continue
            if "file" in kw and not f.file.endswith(kw["file"]):
                continue
            out.append(f)
        return out


class Frame:
    __slots__ = ("fn", "fid", "block", "dest", "after")

    def __init__(self, fn, fid, block, dest=None, after=None):
        self.fn = fn
        self.fid = fid
        self.block = block
        self.dest = dest
        self.after = after

    def at(self, block):
        return Frame(self.fn, self.fid, block, self.dest, self.after)


class State:
    __slots__ = ("frames", "store", "facts", "loops", "flags", "trail", "origin")

    def copy(self):
        s = State()
        s.frames = list(self.frames)
        s.store = dict(self.store)
        s.facts = self.facts.copy()
        s.loops = self.loops
        s.flags = self.flags
        s.trail = self.trail
        s.origin = self.origin
        return s


class Seg:
    """one loop-free path segment"""

    __slots__ = ("facts", "kind", "target", "store", "ret", "flags", "trail", "vals", "why")

    def __init__(self, kind, st, target=None, ret=None, vals=None, why=None):
        self.kind = kind
        self.facts = st.facts
        self.target = target
        self.store = st.store
        self.ret = ret
        self.flags = st.flags
        self.trail = st.trail
        self.vals = vals
        self.why = why


class Node:
    _c = [0]

    def __init__(self, parent, where):
        Node._c[0] += 1
        self.id = Node._c[0]
        self.parent = parent
        self.where = where
        self.segs = []
        self.phis = {}  # (key, path) -> phi term

    def scope_phis(self):
        out = []
        n = self
        while n is not None:
            out.extend(n.phis.values())
            n = n.parent
        return out


class Budget(Exception):
    pass


class Engine:
    def __init__(self, prog, opaque=(), model=True, max_steps=400000):
        self.p = prog
        self.opaque = opaque  # predicate-free set of fn ids (analysed crate) kept as events
        self.fid = 0
        self.steps = 0
        self.max_steps = max_steps
        self.unknown = {}
        self.visited_fns = set()
        self.calls_seen = 0
        self.rec_depth = 0  # calls of a function by itself that are followed; deeper ones end the path
        self.rec_cut = False
        self.lamlevel = 0
        self.inits = {}
        self.exact_cells = ()
        self.ignore_panic = False
        self.quiet = set()  # functions that only log
        self.checks = False  # follow what happens when an access is out of bounds
        self.called = set()  # functions kept abstract
        self.foreign = set()  # library functions met that have no model
        import builtins_ as B

        self.B = B

    # ------------------------------------------------------------------ store access
    def newfid(self):
        self.fid += 1
        return self.fid

    def rd(self, st, key):
        v = st.store.get(key)
        if v is None:
            v = mk("undef", str(key))
        return v

    def getproj(self, v, e, st=None):
        k = e[0]
        if k == "f":
            adt = e[3]
            if adt in self.p.newtypes:
                return v
            return fld(v, adt, e[4] if len(e) > 4 else "", e[2])
        if k == "i":
            return elem(v, e[1])
        if k == "mv":
            return app("mapget", v, e[1])
        raise Unsupported("proj " + str(e))

    def setproj(self, v, e, val):
        k = e[0]
        if k == "f":
            adt = e[3]
            if adt in self.p.newtypes:
                return val
            return setfld(v, adt, e[4] if len(e) > 4 else "", e[2], val)
        if k == "i":
            return setelem(v, e[1], val)
        if k == "mv":
            return app("mapput", v, e[1], val)
        raise Unsupported("setproj " + str(e))

    def read_loc(self, st, loc):
        key, proj = loc.a
        v = self.rd(st, key)
        for e in proj:
            v = self.getproj(v, e)
        return v

    def write_loc(self, st, loc, val):
        key, proj = loc.a
        st.store[key] = self._upd(self.rd(st, key), proj, val)

    def _upd(self, v, proj, val):
        if not proj:
            return val
        e = proj[0]
        inner = self.getproj(v, e)
        return self.setproj(v, e, self._upd(inner, proj[1:], val))

    def val(self, st, t):
        """look through locations"""
        while t.op == "loc":
            t = self.read_loc(st, t)
        return t

    def place_loc(self, st, place):
        """location denoted by a place"""
        fr = st.frames[-1]
        loc = mk("loc", (fr.fid, place[0]), ())
        variant = ""
        for e in place[1]:
            k = e[0]
            if k[0] == "*":
                v = self.read_loc(st, loc)
                if v.op == "loc":
                    loc = v
                elif k == "*m":
                    raise Unsupported("what a mutable reference refers to is not known in " + fr.fn.id)
                # otherwise an erased reference or box: stay
                continue
            if k == "v":
                variant = e[2]
                continue
            # a location stored in an aggregate (boxes): look through before projecting
            v = self.read_loc(st, loc)
            if v.op == "loc":
                loc = v
            if k == "f":
                adt = adt_name(e[3])
                if adt in self.p.newtypes:
                    variant = ""
                    continue
                pe = ("f", e[1], e[2], adt, variant if variant != adt else "")
                variant = ""
            elif k == "i":
                pe = ("i", self.val(st, self.rd(st, (fr.fid, e[1]))))
            elif k == "ci":
                if e[3]:
                    pe = ("i", add(length(v), num(e[1]), -1))
                else:
                    pe = ("i", num(e[1]))
            elif k == "ss":
                v = self.val(st, v)
                lo = num(e[1])
                hi = add(length(v), num(e[2]), -1) if e[3] else num(e[2])
                key = ("tmp", self.newfid())
                st.store[key] = slice_(v, lo, hi)
                loc = mk("loc", key, ())
                continue
            else:
                raise Unsupported("place " + str(e))
            loc = mk("loc", loc.a[0], loc.a[1] + (pe,))
        return loc

    def read_place(self, st, place):
        fr = st.frames[-1]
        v = self.rd(st, (fr.fid, place[0]))
        variant = ""
        for e in place[1]:
            k = e[0]
            if k[0] == "*":
                if v.op == "loc":
                    v = self.read_loc(st, v)
                continue
            if k == "v":
                variant = e[2]
                continue
            if k == "f" and adt_name(e[3]) in self.p.newtypes:
                variant = ""
                continue
            if v.op == "loc":
                v = self.val(st, v)
            if k == "f":
                adt = adt_name(e[3])
                v = fld(v, adt, variant, e[2])
                variant = ""
            elif k == "i":
                v = elem(v, self.val(st, self.rd(st, (fr.fid, e[1]))))
            elif k == "ci":
                v = elem(v, add(length(v), num(e[1]), -1) if e[3] else num(e[1]))
            elif k == "ss":
                lo = num(e[1])
                hi = add(length(v), num(e[2]), -1) if e[3] else num(e[2])
                v = slice_(v, lo, hi)
            else:
                raise Unsupported("place " + str(e))
        return v

    # ------------------------------------------------------------------ operands, rvalues
    def const(self, st, k):
        fn = st.frames[-1].fn
        if "fn" in k:
            return mk("fnref", fn.ns, json.dumps(k["fn"], sort_keys=True))
        if "closure" in k:
            return mk("closure", (fn.ns, k["closure"]), ())
        if "promoted" in k:
            return self.promoted(st, fn, k["promoted"])
        if "bool" in k:
            return boolt(k["bool"])
        if "int" in k:
            return num(k["int"])
        if "str" in k:
            return mk("str", k["str"])
        if "bytes" in k:
            return mk("bytes", k["bytes"])
        if k["ty"] == "()":
            return UNIT
        d = k["dbg"]
        m = re.match(r"^([\w:<>' ,]*?)(\w+)::(\w+)$", d)
        return mk("const", k["ty"], d)

    def promoted(self, st, fn, pr):
        owner, idx = pr
        f = self.p.fns.get((fn.ns, owner))
        if f is None or idx >= len(f.raw["promoted"]):
            return mk("const", "promoted", str(pr))
        b = Fn(fn.ns, f.raw, f.raw["promoted"][idx], owner=f)
        s2 = State()
        fid = self.newfid()
        s2.frames = [Frame(b, fid, 0)]
        s2.store = {}
        s2.facts = Facts()
        s2.loops = ()
        s2.flags = frozenset()
        s2.trail = ()
        s2.origin = None
        segs = self.run([s2], None)
        if len(segs) == 1 and segs[0].kind == "ret":
            v = segs[0].ret
            # a promoted is behind a reference
            if v.op == "loc":
                key, proj = v.a
                x = segs[0].store.get(key)
                for e in proj:
                    x = self.getproj(x, e)
                v = x
            return v
        return mk("const", "promoted", str(pr))

    def operand(self, st, o):
        if o[0] in ("c", "m"):
            return self.read_place(st, o[1])
        if o[0] == "k":
            return self.const(st, o[1])
        if o[0] == "rc":
            return FALSE
        raise Unsupported("operand " + str(o))

    def rvalue(self, st, r):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k == "ref":
            if r[1] in ("shared", "fake"):
                # a shared reference is its referent (nothing can change it while it is used);
                # a shared reference to a mutable reference stays that reference's value
                return self.read_place(st, r[2])
            return self.place_loc(st, r[2])
        if k == "cast":
            v = self.operand(st, r[2])
            if r[1].startswith("IntToInt") and len(r) > 4 and WIDTH.get(r[3], 64) < WIDTH.get(r[4], 64):
                return wrap(self.val(st, v), r[3])
            return v
        if k == "bin":
            a = self.val(st, self.operand(st, r[2]))
            b = self.val(st, self.operand(st, r[3]))
            v = self.binop(st, r[1], a, b)
            if len(r) > 4 and r[1][:3] == "Add" and r[4] in NARROW:
                if v.op == "agg":
                    return mk("agg", "tuple", "", (("0", wrap(v.a[2][0][1], r[4])), ("1", FALSE)))
                return wrap(v, r[4])
            return v
        if k == "un":
            a = self.val(st, self.operand(st, r[2]))
            if r[1] == "Not":
                return self.decided(st, neg(a))
            if r[1] == "PtrMetadata":
                return length(a)
            return app("un" + r[1], a)
        if k == "discr":
            v = self.val(st, self.read_place(st, r[1]))
            return mk("discr", v, adt_name(r[2].split(":", 1)[-1]), tuple((d, n) for d, n, _ in r[3]))
        if k == "agg":
            vs = [self.operand(st, o) for o in r[2]]
            kind = r[1]
            if kind[0] == "array":
                return seqt(vs)
            if kind[0] == "tuple":
                return mk("agg", "tuple", "", tuple(sorted((str(i), v) for i, v in enumerate(vs))))
            if kind[0] == "adt":
                n = adt_name(kind[1])
                if n in self.p.newtypes and len(vs) == 1:
                    return vs[0]
                return agg(n, kind[2], tuple(zip(kind[3], vs)))
            if kind[0] == "closure":
                return mk("closure", (st.frames[-1].fn.ns, kind[1]), tuple(vs))
            raise Unsupported("agg " + str(kind))
        if k == "rep":
            return app("repeat", self.operand(st, r[1]), mk("str", r[2]))
        raise Unsupported("rvalue " + str(k))

    def decided(self, st, t):
        d = st.facts.decide(t)
        return t if d is None else boolt(d)

    def binop(self, st, op, a, b):
        if op in ("Eq", "Ne"):
            r = eq(a, b)
            return self.decided(st, r if op == "Eq" else neg(r))
        if op == "Lt":
            return self.decided(st, lt(a, b))
        if op == "Gt":
            return self.decided(st, lt(b, a))
        if op == "Le":
            return self.decided(st, neg(lt(b, a)))
        if op == "Ge":
            return self.decided(st, neg(lt(a, b)))
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return add(a, b, -1)
        if op in ("AddWithOverflow", "SubWithOverflow"):
            s = add(a, b) if op[0] == "A" else add(a, b, -1)
            return mk("agg", "tuple", "", (("0", s), ("1", FALSE)))
        if op == "MulWithOverflow":
            return mk("agg", "tuple", "", (("0", app("mul", a, b)), ("1", FALSE)))
        if op in ("BitAnd", "BitOr", "BitXor"):
            a, b = self.decided(st, a), self.decided(st, b)
            if op == "BitXor" and a.op == "bool" and b.op == "bool":
                return boolt(a.a[0] != b.a[0])
        if op == "BitAnd" and (a.op == "bool" or b.op == "bool"):
            x, y = (a, b) if a.op == "bool" else (b, a)
            return y if x.a[0] else FALSE
        if op == "BitOr" and (a.op == "bool" or b.op == "bool"):
            x, y = (a, b) if a.op == "bool" else (b, a)
            return TRUE if x.a[0] else y
        return app("bin" + op, a, b)

    # ------------------------------------------------------------------ running
    def summarize(self, fn, args=None):
        """returns the entry node; args default to inputs named by position"""
        root = Node(None, fn.id)
        st = State()
        fid = self.newfid()
        st.frames = [Frame(fn, fid, 0)]
        st.store = {}
        st.facts = Facts()
        st.loops = ()
        st.flags = frozenset()
        st.trail = ()
        st.origin = root
        vals = self.input_args(st, fn) if args is None else args
        for i, v in enumerate(vals):
            st.store[(fid, i + 1)] = v
        root.segs = self.run([st], root)
        return root

    def input_args(self, st, fn):
        out = []
        for i in range(1, fn.argc + 1):
            ty = fn.locals[i][0]
            nm = f"a{i}" if i > 1 or fn.raw.get("head") is None else "self"
            if ty.startswith("&mut ") or re.match(r"^&'\w+ mut ", ty):
                st.store[("x", nm)] = inp(nm)
                out.append(mk("loc", ("x", nm), ()))
            else:
                out.append(inp(nm))
        return out

    def summarize_closure(self, f):
        """the body of a closure value over inputs λ1, λ2, …"""
        fn = self.p.fns[tuple(f.a[0])]
        root = Node(None, fn.id)
        st = State()
        fid = self.newfid()
        st.frames = [Frame(fn, fid, 0)]
        st.store = {}
        st.facts = Facts()
        st.loops = ()
        st.flags = frozenset()
        st.trail = ()
        st.origin = root
        for i in range(1, fn.argc + 1):
            ty = fn.locals[i][0]
            v = f if i == 1 else inp(f"λ{i}")
            if ty.startswith("&mut ") or re.match(r"^&'\w+ mut ", ty):
                st.store[("x", f"λ{i}")] = v
                v = mk("loc", ("x", f"λ{i}"), ())
            st.store[(fid, i)] = v
        root.segs = self.run([st], root)
        return root

    def run(self, states, origin):
        segs = []
        work = list(states)
        while work:
            st = work.pop()
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget(f"more than {self.max_steps} abstract steps")
            r = self.step(st, origin, segs)
            if r:
                work.extend(reversed(r))
        return segs

    def enter_head(self, st, origin, segs):
        """st stands at a loop head of its top frame: close a back edge or open a loop"""
        fr = st.frames[-1]
        for fid, blk, node in reversed(st.loops):
            if fid == fr.fid and blk == fr.block:
                segs.append(Seg("goto", st, target=node))
                return True
        return False

    def prune(self, st):
        """drop what no frame can read again"""
        fids = {f.fid: f for f in st.frames}
        live = {}
        for i, f in enumerate(st.frames):
            f.fn.prepare()
            s = set(f.fn.live.get(f.block, set())) | f.fn.refd
            live[f.fid] = s
        keep = {}
        for k, v in st.store.items():
            if isinstance(k[0], int):
                if k[0] in live and k[1] in live[k[0]]:
                    keep[k] = v
            else:
                keep[k] = v
        # heap cells and temporaries only if still referenced
        roots = set()
        for k, v in keep.items():
            if k[0] not in ("h", "tmp"):
                for t in subterms(v):
                    if t.op == "loc":
                        roots.add(t.a[0])
        ch = True
        while ch:
            ch = False
            for k in list(roots):
                if k in keep and k[0] in ("h", "tmp"):
                    for t in subterms(keep[k]):
                        if t.op == "loc" and t.a[0] not in roots:
                            roots.add(t.a[0])
                            ch = True
        st.store = {k: v for k, v in keep.items() if k[0] not in ("h", "tmp") or k in roots}

    def open_loop(self, st, origin):
        fr = st.frames[-1]
        self.prune(st)
        node = Node(origin, (fr.fn.id, fr.block, fr.fn.file, fr.fn.line))
        loops = st.loops + ((fr.fid, fr.block, node),)
        widened = dict(st.store)
        for it in range(30):
            node.phis = {}
            for k, v in widened.items():
                self.collect_phis(node, k, (), v)
            s = st.copy()
            s.store = dict(widened)
            s.loops = loops
            s.origin = node
            s.frames[-1] = fr.at(fr.block)
            node.segs = self.run_from_head(s, node)
            backs = []
            self.back_stores(node, node, backs, set())
            changed = False
            for b in backs:
                for k in list(widened):
                    nv = b.get(k)
                    if nv is None:
                        continue
                    w = self.widen(node, k, (), widened[k], nv)
                    if w is not widened[k]:
                        widened[k] = w
                        changed = True
                for k, v in b.items():
                    if k not in widened and k[0] in ("cell", "x"):
                        # a cell first touched inside the loop: it started out as its initial value
                        init = self.B.cell_init(k) if k[0] == "cell" else None
                        if init is not None:
                            w = self.widen(node, k, (), init, v)
                            widened[k] = w
                            st.store[k] = init
                            changed = True
            if not changed:
                break
        else:
            raise Budget("loop does not stabilise at " + str(node.where))
        vals = {}
        for (k, path), phi in node.phis.items():
            vals[phi] = self.path_get(st.store[k], path)
        return node, vals

    def copied(self, st, node):
        """a loop that only moves the rest of a list to the end of another: its effect in one piece"""
        backs = [s for s in node.segs if s.kind == "goto" and s.target is node]
        if len(backs) != 1 or len(node.phis) != 2:
            return False
        b = backs[0]
        ph = {v: k for k, v in node.phis.items()}
        now = {p: self.path_get(b.store[k], path) if k in b.store else None for p, (k, path) in ph.items()}
        for f, v in (tuple(ph), tuple(ph)[::-1]):
            if now[f] is not add(f, num(1)):
                continue
            x = now[v]
            if x is None or x.op != "snoc" or x.a[0] is not v or x.a[1].op != "elem" or x.a[1].a[1] is not f:
                continue
            src = x.a[1].a[0]
            if any(t.op == "phi" and t.a[0] == node.id for t in subterms(src)):
                continue
            log = b.facts.log[len(st.facts.log):]
            if len(log) != 1 or log[0][0] != "b":
                continue
            back = length(src)
            c = lt(f, back)
            t, val = log[0][1], log[0][2]
            if (t, val) != (c, True) and (c.op != "not" or (t, val) != (c.a[0], False)):
                continue
            (kf, pf), (kv, pv) = ph[f], ph[v]
            f0, v0 = self.path_get(st.store[kf], pf), self.path_get(st.store[kv], pv)
            if f0.op != "int" or f0.a[0] != 0:
                continue
            if not pv and "Vec<" not in self.type_of(st, kv):
                continue  # a text is built: what stands between the pieces is free
            st.store[kv] = self.path_set(st.store[kv], pv, cat(v0, src))
            st.store[kf] = self.path_set(st.store[kf], pf, back)
            return True
        return False

    def type_of(self, st, k):
        if isinstance(k[0], int):
            for f in st.frames:
                if f.fid == k[0]:
                    return f.fn.locals[k[1]][0]
        if k[0] == "x":
            f = st.frames[0].fn
            m = re.match(r"a(\d+)$|self$|λ(\d+)$", k[1])
            if m:
                return f.locals[int(m.group(1) or m.group(2) or 1)][0]
        return ""

    def path_set(self, v, path, x):
        if not path:
            return x
        if v.op == "agg":
            return mk("agg", v.a[0], v.a[1], tuple((n, self.path_set(y, path[1:], x) if n == path[0] else y) for n, y in v.a[2]))
        return mk("closure", v.a[0], tuple(self.path_set(y, path[1:], x) if n == path[0] else y for n, y in enumerate(v.a[1])))

    def run_from_head(self, s, node):
        # the first step must not be taken for a back edge
        segs = []
        r = self.step(s, node, segs, at_head=True)
        work = list(reversed(r or []))
        while work:
            x = work.pop()
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget(f"more than {self.max_steps} abstract steps")
            r = self.step(x, node, segs)
            if r:
                work.extend(reversed(r))
        return segs

    def back_stores(self, node, target, out, seen):
        if node.id in seen:
            return
        seen.add(node.id)
        for s in node.segs:
            if s.kind == "goto":
                if s.target is target:
                    out.append(s.store)
                else:
                    self.back_stores(s.target, target, out, seen)

    def collect_phis(self, node, k, path, v):
        if v.op == "phi" and v.a[0] == node.id:
            node.phis[(k, path)] = v
        elif v.op == "agg":
            for n, x in v.a[2]:
                self.collect_phis(node, k, path + (n,), x)
        elif v.op == "closure":
            for n, x in enumerate(v.a[1]):
                self.collect_phis(node, k, path + (n,), x)

    def path_get(self, v, path):
        for n in path:
            if v.op == "agg":
                v = aggget(v, n)
            else:
                v = v.a[1][n]
        return v

    def widen(self, node, k, path, old, new):
        if old is new:
            return old
        if old.op == "phi" and old.a[0] == node.id:
            return old
        if old.op == "agg" and new.op == "agg" and old.a[0] == new.a[0] and old.a[1] == new.a[1] and len(old.a[2]) == len(new.a[2]):
            fs = tuple((n, self.widen(node, k, path + (n,), v, nv)) for (n, v), (_, nv) in zip(old.a[2], new.a[2]))
            return mk("agg", old.a[0], old.a[1], fs)
        if old.op == "closure" and new.op == "closure" and old.a[0] == new.a[0]:
            return mk("closure", old.a[0], tuple(self.widen(node, k, path + (i,), v, nv) for i, (v, nv) in enumerate(zip(old.a[1], new.a[1]))))
        if old.op == "loc" or new.op == "loc":
            raise Unsupported("mutable reference that changes in a loop at " + str(node.where))
        nm = str(k[1]) if not isinstance(k[1], T) else "cell"
        return mk("phi", node.id, (k, path), nm + "".join("." + str(p) for p in path))

    def step(self, st, origin, segs, at_head=False):
        """run one block of the top frame; returns successor states"""
        fr = st.frames[-1]
        fn = fr.fn
        if not at_head:
            fn.prepare()
            if fr.block in fn.heads:
                if self.enter_head(st, origin, segs):
                    return []
                if self.quiet:
                    j = self.idle_loop(fn, fr.block)
                    if j is not None:
                        st.frames[-1] = fr.at(j)
                        return [st]
                node, vals = self.open_loop(st, origin)
                if self.copied(st, node):
                    return self.step(st, origin, segs, at_head=True)
                segs.append(Seg("goto", st, target=node, vals=vals))
                return []
        b = fn.blocks[fr.block]
        if self.bit_logic(fn, fr.block):
            orig = st.copy()
            try:
                return self.block(st, fr, fn, b, segs)
            except Fork as x:
                out = []
                for val in (True, False):
                    s = orig.copy() if val else orig
                    if s.facts.assume(x.args[0], val):
                        out.extend(self.step(s, origin, segs, at_head=True))
                return out
        return self.block(st, fr, fn, b, segs)

    def bit_logic(self, fn, i):
        """the block combines truth values without branching"""
        k = ("bits", i)
        if k not in fn.joins:
            fn.joins[k] = any(s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("BitAnd", "BitOr", "BitXor") and not s[1][1] and fn.locals[s[1][0]][0] == "bool"
                              or s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("BitAnd", "BitOr", "BitXor") and s[1][1] and self.bool_operand(fn, s[2]) for s in fn.blocks[i]["s"])
        return fn.joins[k]

    def bool_operand(self, fn, r):
        return any(o[0] in ("c", "m") and not o[1][1] and fn.locals[o[1][0]][0] == "bool" for o in r[2:4])

    def block(self, st, fr, fn, b, segs):
        for s in b["s"]:
            if s[0] == "=":
                if s[2][0] == "bin" and s[2][1] in ("BitAnd", "BitOr", "BitXor") and self.bit_logic(fn, fr.block):
                    for o in s[2][2:4]:
                        x = self.val(st, self.operand(st, o))
                        while x.op == "not":
                            x = x.a[0]
                        if st.facts.decide(x) is None and x.op != "int":
                            raise Fork(x)
                v = self.rvalue(st, s[2])
                self.assign(st, s[1], v)
            elif s[0] == "dead":
                pass
            elif s[0] == "setd":
                raise Unsupported("set discriminant")
            else:
                raise Unsupported("statement " + s[0])
        t = b["t"]
        k = t[0]
        if k == "goto":
            st.frames[-1] = fr.at(t[1])
            return [st]
        if k == "drop":
            st.frames[-1] = fr.at(t[2])
            return [st]
        if k == "ret":
            return self.do_return(st, segs)
        if k == "switch":
            return self.do_switch(st, t)
        if k == "assert":
            st.frames[-1] = fr.at(t[4])
            what = t[3][0] if isinstance(t[3], list) else t[3]
            c, want = self.val(st, self.operand(st, t[1])), t[2]
            if what not in ("bounds", "overflow"):
                return [st]  # the compiler's own checks on pointers
            if what == "overflow" and t[3][1] == "Sub":
                c, want = lt(self.val(st, self.operand(st, t[3][2])), self.val(st, self.operand(st, t[3][3]))), False
            d = st.facts.decide(c)
            if d is None:
                if self.checks and what in ("bounds", "overflow"):
                    bad = st.copy()
                    if bad.facts.assume(c, not want):
                        segs.append(Seg("panic", bad, why=what))
                if not st.facts.assume(c, want):
                    return []
            elif d != want:
                segs.append(Seg("panic", st, why="assert"))
                return []
            return [st]
        if k == "call":
            return self.do_call(st, t, segs)
        if k in ("unreachable", "resume"):
            return []
        raise Unsupported("terminator " + k)

    def assign(self, st, place, v):
        fr = st.frames[-1]
        if not place[1]:
            st.store[(fr.fid, place[0])] = v
        else:
            self.write_loc(st, self.place_loc(st, place), v)

    def do_return(self, st, segs):
        fr = st.frames.pop()
        v = self.rd(st, (fr.fid, 0))
        v = self.freeze_frame(st, v, fr.fid)
        if not st.frames:
            segs.append(Seg("ret", st, ret=v))
            return []
        st.loops = tuple(l for l in st.loops if l[0] != fr.fid)
        # forget the frame
        for k in [k for k in st.store if k[0] == fr.fid]:
            del st.store[k]
        after = fr.after
        if after is not None:
            return after(self, st, v)
        st.frames[-1] = st.frames[-1].at(st.frames[-1].block)
        self.assign(st, fr.dest, v)
        return [st]

    def freeze_frame(self, st, v, fid):
        """a reference to a local of the returning frame can only be an erased box or promoted value"""
        if v.op == "loc" and v.a[0][0] == fid:
            return self.freeze_frame(st, self.read_loc(st, v), fid)
        return v

    def harmless(self, c):
        """writing out, or making what is written out"""
        p = strip_generics(c.get("path", ""))
        return p.endswith(("io::_print", "io::_eprint")) or re.search(r"(^|::)(Argument|Arguments)(::|$)", p) is not None or (not c.get("trait") and p.startswith(("core::fmt::", "std::fmt::", "alloc::fmt::")) and not re.search(r"(^|::)(Formatter|Debug[A-Z]\w+)::", p))

    # ---- branches that only decide what is logged
    def skip(self, fn, b, depth=0):
        """(next block, locals assigned) when block b has no effect but on locals, else None"""
        blk = fn.blocks[b]
        asg = set()
        if b in fn.heads:
            return None
        for s in blk["s"]:
            if s[0] == "dead":
                continue
            if s[0] != "=" or s[1][1]:
                return None
            asg.add(s[1][0])
        t = blk["t"]
        if t[0] == "goto":
            return t[1], asg
        if t[0] == "drop":
            return t[2], asg
        if t[0] == "assert":
            return t[4], asg
        if t[0] == "call" and t[4] is not None and t[1][0] == "k" and "fn" in t[1][1] and not t[3][1]:
            c = t[1][1]["fn"]
            if c.get("local") in self.p.pure or self.harmless(c):
                return t[4], asg | {t[3][0]}
            return None
        if t[0] == "switch" and depth < 6:
            j = self.join(fn, b, depth + 1)
            if j is not None:
                return j[0], asg | j[1]
        return None

    def join(self, fn, b, depth=0):
        """(block, locals assigned on the way) where all branches of the switch ending b meet again
        having done nothing, else None"""
        memo = fn.joins
        if b in memo:
            return memo[b]
        memo[b] = None
        t = fn.blocks[b]["t"]
        chains = []
        for x in [x for _, x in t[2]] + [t[3]]:
            if fn.blocks[x]["t"][0] == "unreachable":
                continue
            ch = [(x, set())]
            while len(ch) < 60:
                n = self.skip(fn, ch[-1][0], depth)
                if n is None or any(n[0] == y for y, _ in ch):
                    break
                ch.append((n[0], ch[-1][1] | n[1]))
            chains.append(dict(ch))
        if len(chains) < 2:
            return None
        for x in chains[0]:
            if all(x in c for c in chains):
                asg = set().union(*(c[x] for c in chains))
                if not asg & fn.live[x]:
                    memo[b] = (x, asg)
                    return memo[b]
        return None

    def idle_loop(self, fn, head):
        """block after the loop at head, when that loop can do nothing but stop the program: it only
        writes to locals nobody reads afterwards and calls nothing that could write elsewhere"""
        memo = fn.joins
        if ("loop", head) in memo:
            return memo[("loop", head)]
        memo[("loop", head)] = None
        reach, st = {head}, [head]
        while st:
            for x in fn.succs(st.pop()):
                if x not in reach:
                    reach.add(x)
                    st.append(x)
        body = {head}
        ch = True
        while ch:
            ch = False
            for b in reach - body:
                if any(x in body for x in fn.succs(b)):
                    body.add(b)
                    ch = True
        if not any(head in fn.succs(b) for b in body):
            return None
        # a block that reaches the head without being part of the loop cannot be: all were reached from it
        exits = {x for b in body for x in fn.succs(b) if x not in body}
        exits = {x for x in exits if not self.stops(fn, x)}
        if len(exits) != 1:
            return None
        out = exits.pop()
        wrote, refs = set(), {}
        for b in body:
            for s in fn.blocks[b]["s"]:
                if s[0] == "dead":
                    continue
                if s[0] != "=" or any(e[0].startswith("*") for e in s[1][1]):
                    return None
                wrote.add(s[1][0])
                r = s[2]
                if r[0] == "ref" and r[1] not in ("shared", "fake"):
                    if any(e[0].startswith("*") for e in r[2][1]):
                        # a reborrow of something borrowed in here
                        refs.setdefault(s[1][0], set()).add(("re", r[2][0]))
                    else:
                        wrote.add(r[2][0])
                        refs.setdefault(s[1][0], set()).add(("own", r[2][0]))
        for b in body:
            t = fn.blocks[b]["t"]
            if t[0] in ("goto", "switch", "assert", "drop"):
                continue
            if t[0] != "call" or t[3][1] or t[1][0] != "k" or "fn" not in t[1][1]:
                return None
            c = t[1][1]["fn"]
            wrote.add(t[3][0])
            if c.get("local"):
                if c["local"] not in self.p.pure:
                    return None
            else:
                tr = last(c["trait"]) if "trait" in c else None
                if tr in ("Fn", "FnMut", "FnOnce") or tr is not None and self.p.own_trait(tr):
                    return None
                if not strip_generics(c["path"]).startswith(("std::", "core::", "alloc::")) and not (tr and c["trait"].startswith(("std::", "core::", "alloc::"))):
                    return None
            for a in t[2]:
                if a[0] in ("c", "m") and "&mut " in re.sub(r"&'\w+ mut ", "&mut ", fn.locals[a[1][0]][0]):
                    if not self.borrowed_here(refs, a[1][0], set()) and not (fn.locals[a[1][0]][0].find("&") > 0 and a[1][0] in wrote):
                        return None
        if wrote & set(fn.live[out]):
            return None
        memo[("loop", head)] = out
        return out

    def borrowed_here(self, refs, l, seen):
        if l in seen or l not in refs:
            return False
        seen.add(l)
        return all(k == "own" or self.borrowed_here(refs, y, seen) for k, y in refs[l])

    def stops(self, fn, b):
        """nothing but the end of the program comes after b"""
        seen, st = {b}, [b]
        while st:
            x = st.pop()
            t = fn.blocks[x]["t"]
            if t[0] == "ret":
                return False
            for y in fn.succs(x):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return True

    def do_switch(self, st, t):
        fr = st.frames[-1]
        if self.quiet:
            j = self.join(fr.fn, fr.block)
            if j is not None:
                st.frames[-1] = fr.at(j[0])
                return [st]
        c = self.operand(st, t[1])
        if c.op == "loc":
            c = self.val(st, c)
        if c.op == "discr":
            v, adt, table = c.a
            known = st.facts.variant(v)
            byd = {d: n for d, n in table}
            if not table:
                raise Unsupported("discriminant without table " + str(c)[:200])
            targets = {}
            used = set()
            for d, b in t[2]:
                n = byd.get(d)
                if n is None:
                    continue
                targets[n] = b
                used.add(n)
            oth = t[3]
            dead = fr.fn.blocks[oth]["t"][0] == "unreachable"
            for d, n in table:
                if n not in used and not dead:
                    targets[n] = oth
            if known is not None:
                if known not in targets:
                    return []
                st.frames[-1] = fr.at(targets[known])
                return [st]
            out = []
            items = [(n, targets[n]) for d, n in table if n in targets]
            for i, (n, b) in enumerate(items):
                s = st.copy() if i < len(items) - 1 else st
                if not s.facts.assume_variant(v, n, adt):
                    continue
                if not self.B.on_variant(self, s, v, n):
                    continue
                s.frames[-1] = fr.at(b)
                out.append(s)
            return out
        if c.op in ("bool", "not", "le", "eqn", "eq") or (c.op != "int" and t[5]):
            zero = None
            one = None
            for d, b in t[2]:
                if d == 0:
                    zero = b
                else:
                    one = b
            if zero is None:
                zero = t[3]
            if one is None:
                one = t[3]
            d = st.facts.decide(c)
            if d is not None:
                st.frames[-1] = fr.at(one if d else zero)
                return [st]
            out = []
            s2 = st.copy()
            if st.facts.assume(c, True):
                st.frames[-1] = fr.at(one)
                out.append(st)
            if s2.facts.assume(c, False):
                s2.frames[-1] = fr.at(zero)
                out.append(s2)
            return out
        # integers
        if c.op == "int":
            for d, b in t[2]:
                if d == c.a[0]:
                    st.frames[-1] = fr.at(b)
                    return [st]
            st.frames[-1] = fr.at(t[3])
            return [st]
        out = []
        rest = st.copy()
        for d, b in t[2]:
            s = st.copy()
            if s.facts.assume(eq(c, num(d)), True):
                s.frames[-1] = fr.at(b)
                out.append(s)
            if not rest.facts.assume(eq(c, num(d)), False):
                return out
        rest.frames[-1] = fr.at(t[3])
        out.append(rest)
        return out

    # ------------------------------------------------------------------ calls
    def do_call(self, st, t, segs):
        fr = st.frames[-1]
        self.calls_seen += 1
        f = self.operand(st, t[1])
        args = [self.operand(st, a) for a in t[2]]
        dest, target = t[3], t[4]
        dty = fr.fn.locals[dest[0]] if not dest[1] else ["?", "?"]
        ctx = Ctx(self, dest, target, dty, segs, t)
        if target is not None:
            st.frames[-1] = fr.at(target)
        return self.call_value(st, f, args, ctx)

    def finish(self, st, ctx, v):
        if ctx.target is None and ctx.after is None:
            return []
        if ctx.after is not None:
            return ctx.after(self, st, v)
        self.assign(st, ctx.dest, v)
        return [st]

    def call_value(self, st, f, args, ctx):
        f = self.val(st, f) if f.op == "loc" else f
        if f.op == "fnref":
            return self.call_fn(st, f.a[0], json.loads(f.a[1]), args, ctx)
        if f.op == "closure":
            ns, cid = f.a[0]
            fn = self.p.fns.get((ns, cid))
            return self.push(st, fn, [f] + list(args), ctx)
        return self.uninterpreted(st, "callback", [f] + list(args), ctx)

    def call_closure(self, st, f, args, ctx):
        """call a function value with a list of arguments"""
        fv = self.val(st, f)
        if fv.op == "fnref":
            return self.call_fn(st, fv.a[0], json.loads(fv.a[1]), args, ctx)
        if fv.op == "closure":
            ns, cid = fv.a[0]
            fn = self.p.fns.get((ns, cid))
            env = f if (f.op == "loc" and fn.locals[1][0].startswith("&")) else fv
            return self.push(st, fn, [env] + list(args), ctx, closure=True)
        return self.uninterpreted(st, "callback", [fv] + list(args), ctx)

    def push(self, st, fn, args, ctx, closure=False):
        if fn is None:
            raise Unsupported("missing body")
        # recursion is kept as an event
        n = sum(1 for x in st.frames if x.fn is fn)
        if n and self.rec_depth and not fn.file.endswith("std_model.rs"):
            if n > self.rec_depth:
                self.rec_cut = True
                return []
        elif n and not (fn.file.endswith("std_model.rs") and n < 5):
            if fn is st.frames[0].fn:
                return self.uninterpreted(st, "rec:root", args, ctx)
            # a helper may be called anything; what it is handed tells helpers apart
            nm = "rec:" + ",".join(re.sub(r"[A-Za-z_]\w*", lambda m: m.group(0) if m.group(0) in ADT_NFIELDS else "_", re.sub(r"'\w+ ?|(\w+::)+", "", fn.locals[i][0])) for i in range(1, fn.argc + 1))
            self.foreign.add(nm)
            return self.uninterpreted(st, nm, args, ctx)
        fn.prepare()
        if fn.ns == "r":
            self.visited_fns.add(fn.id)
        fid = self.newfid()
        st.frames.append(Frame(fn, fid, 0, ctx.dest, ctx.after))
        if len(args) != fn.argc:
            if fn.spread is not None or closure or fn.raw["kind"] == "Closure":
                # rust-call ABI: (env, (args...)) -> env, args...
                flat = list(args[:1])
                for a in args[1:]:
                    if a.op == "agg" and a.a[0] == "tuple":
                        flat.extend(v for _, v in sorted(a.a[2], key=lambda p: int(p[0])))
                    else:
                        flat.append(a)
                args = flat
            if len(args) != fn.argc:
                raise Unsupported(f"arity of {fn.id}: {len(args)} != {fn.argc}")
        for i, v in enumerate(args):
            st.store[(fid, i + 1)] = v
        if fn.ns == "r":
            st.trail = st.trail[-12:] + ((fn.id, ctx.t[6] if ctx.t else 0),)
        return [st]

    def call_fn(self, st, ns, c, args, ctx):
        if "ctor" in c:
            adt, variant = c["ctor"]
            n = adt_name(adt)
            if n in self.p.newtypes and len(args) == 1:
                return self.finish(st, ctx, args[0])
            return self.finish(st, ctx, agg(n, variant, tuple((str(i), a) for i, a in enumerate(args))))
        k2, k1 = key2(c["path"])
        trait = last(c["trait"]) if "trait" in c else None
        # calls of function values
        if trait in ("Fn", "FnMut", "FnOnce"):
            tup = args[1]
            tup = self.val(st, tup)
            if tup.op == "agg":
                l = [v for _, v in sorted(tup.a[2], key=lambda p: int(p[0]))]
            else:
                raise Unsupported("call with a symbolic argument tuple")
            return self.call_closure(st, args[0], l, ctx)
        local = c.get("local")
        if ns == "m" and local is not None and "prim::" in local:
            return self.B.prim(self, st, last(local), args, ctx)
        if local is not None and (ns, local) in self.p.fns:
            fn = self.p.fns[(ns, local)]
            if (ns, local) in self.quiet:
                return self.finish(st, ctx, UNIT)
            if not self.is_opaque(fn, st):
                if "intrait" in fn.raw and args:
                    # a default method may be overridden by the receiver's own type
                    o = self.dispatch(st, trait or last(fn.raw["intrait"]), k1, args, c, ns)
                    if o is not None:
                        fn = o
                return self.push(st, fn, args, ctx)
            return self.uninterpreted(st, fn.name, args, ctx)
        if trait is not None and args:
            fn = self.dispatch(st, trait, k1, args, c, ns)
            if fn is not None:
                return self.push(st, fn, args, ctx)
        # std model
        tk = (trait + "::" + k1) if trait else k2
        r = self.B.builtin(self, st, tk, c, args, ctx)
        if r is not None:
            return r
        m = self.p.model.get(tk.replace("::", "_"))
        if m is not None and self.B.model_applies(self, st, tk, args):
            return self.push(st, m, args, ctx)
        if local is None and not (trait is not None and self.p.own_trait(trait)):
            self.foreign.add(tk)
        return self.uninterpreted(st, tk, args, ctx)

    def is_opaque(self, fn, st):
        """calls kept as events: they are compared on their own"""
        if not self.opaque or fn is st.frames[0].fn:
            return False
        r = fn.raw
        return (adt_name(r.get("head", "").split(":", 1)[-1]), fn.name) in self.opaque

    def dispatch(self, st, trait, name, args, c, ns="r"):
        v = self.val(st, args[0])
        n = None
        if v.op == "agg":
            n = v.a[0]
        if n is None:
            return None
        l = self.p.impls.get((trait, n, name))
        if not l:
            return None
        if len(l) > 1:
            l = [x for x in l if x[0] == ns] or l[:1]
        return self.p.fns.get(l[0])

    def uninterpreted(self, st, name, args, ctx):
        """an unknown call: a value determined by its arguments; what it may write gets a new version"""
        locs = []
        vals = []
        self.called.add(name)
        for a in args:
            vals.append(self.deep(st, a, locs))
        if not locs:
            return self.finish(st, ctx, app(name, *vals))
        ev = mk("ev", name, tuple(vals))
        for i, l in enumerate(locs):
            self.write_loc(st, l, mk("post", ev, i))
        return self.finish(st, ctx, ev)

    def deep(self, st, a, locs):
        if a.op == "loc":
            if a not in locs:
                locs.append(a)
            return self.deep(st, self.read_loc(st, a), locs)
        if a.op == "agg":
            return mk("agg", a.a[0], a.a[1], tuple((n, self.deep(st, v, locs)) for n, v in a.a[2]))
        if a.op == "closure":
            return mk("closure", a.a[0], tuple(self.deep(st, v, locs) for v in a.a[1]))
        return a

    def panic(self, st, ctx, why):
        ctx.segs.append(Seg("panic", st, why=why))
        return []


class Ctx:
    __slots__ = ("dest", "target", "dty", "segs", "t", "after")

    def __init__(self, eng, dest, target, dty, segs, t, after=None):
        self.dest = dest
        self.target = target
        self.dty = dty
        self.segs = segs
        self.t = t
        self.after = after

    def then(self, after):
        """same call, but its value goes to a python continuation after(engine, state, value)"""
        c = Ctx(None, self.dest, self.target, self.dty, self.segs, self.t, after)
        return c
