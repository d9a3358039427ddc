"""Value-provenance terms: hash-consed, normalised on construction."""


class T:
    __slots__ = ("op", "a", "id", "_s")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        t._s = None
        _tab[k] = t
    return t


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("agg", "tuple", "", ())


def boolt(b):
    return TRUE if b else FALSE


def inp(name):
    return mk("in", name)


def app(name, *args):
    f = _SIMP.get(name)
    if f is not None:
        r = f(*args)
        if r is not None:
            return r
    return mk("app", name, args)


def agg(adt, variant, fields):
    """fields: tuple of (name, term) in declaration order"""
    fields = tuple(sorted(fields))
    # eta: S{f: x.f, ...} == x for structs read back whole
    if fields and adt != "tuple" and (variant == "" or variant == adt):
        b = None
        for n, t in fields:
            if t.op == "fld" and t.a[1] == adt and t.a[2] == "" and t.a[3] == n and (b is None or b is t.a[0]):
                b = t.a[0]
            else:
                b = None
                break
        if b is not None and len(fields) >= ADT_NFIELDS.get(adt, 99):
            return b
    if fields and variant and variant != adt:
        # eta: V{f: x@V.f, ...} == x
        b = None
        for n, t in fields:
            if t.op == "fld" and t.a[1] == adt and t.a[2] == variant and t.a[3] == n and (b is None or b is t.a[0]):
                b = t.a[0]
            elif t.op == "app" and t.a[0] == "cellval" and adt == "Option":
                b = mk("app", "cellget", t.a[1])
            else:
                b = None
                break
        if b is not None and len(fields) == ENUMF.get((adt, variant), 1 if adt in ("Option", "Result") else -1):
            return b
    return mk("agg", adt, "" if variant == adt else variant, fields)


ADT_NFIELDS = {}
ENUMF = {}


def aggget(t, name):
    for n, v in t.a[2]:
        if n == name:
            return v
    return None


def fld(base, adt, variant, name):
    """adt: last path segment ('' for tuples/closures)"""
    if variant == adt:
        variant = ""
    if base.op == "agg":
        v = aggget(base, name)
        if v is not None:
            return v
    if base.op == "closure":
        return base.a[1][int(name)]
    if base.op == "with":
        b, path, val = base.a
        if path == (variant, name):
            return val
        return fld(b, adt, variant, name)
    if base.op == "app" and base.a[0] == "cellget" and variant == "Some":
        return mk("app", "cellval", base.a[1])
    return mk("fld", base, adt, variant, name)


def withpath(b, path, v):
    """one field of b overwritten"""
    if b.op == "agg" and (not path[0] or path[0] == b.a[1]) and any(n == path[1] for n, _ in b.a[2]):
        return setfld(b, b.a[0], b.a[1], path[1], v)
    return mk("with", b, path, v)


def setfld(base, adt, variant, name, val):
    if variant == adt:
        variant = ""
    if base.op == "agg":
        return mk("agg", base.a[0], base.a[1], tuple(sorted([(n, v) for n, v in base.a[2] if n != name] + [(name, val)])))
    if base.op == "closure":
        l = list(base.a[1])
        l[int(name)] = val
        return mk("closure", base.a[0], tuple(l))
    if fld(base, adt, variant, name) is val:
        return base
    # flatten: with(with(b,p,..),p,..)
    chain = {}
    b = base
    while b.op == "with":
        chain.setdefault(b.a[1], b.a[2])
        b = b.a[0]
    chain[(variant, name)] = val
    # a struct whose every field was overwritten is an aggregate
    if variant == "" and len(chain) >= ADT_NFIELDS.get(adt, 99) and all(p[0] == "" for p in chain):
        return agg(adt, "", tuple((p[1], v) for p, v in chain.items()))
    for p in sorted(chain):
        v = chain[p]
        if mk("fld", b, adt, p[0], p[1]) is not v:
            b = mk("with", b, p, v)
    return b


# ---------------------------------------------------------------- linear integers
def as_lin(t):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def from_lin(k, d):
    items = tuple(sorted(((t, c) for t, c in d.items() if c != 0), key=lambda p: p[0].id))
    if not items:
        return mk("int", k)
    if k == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", k, items)


def add(a, b, s=1):
    k1, d1 = as_lin(a)
    k2, d2 = as_lin(b)
    d = dict(d1)
    for t, c in d2.items():
        d[t] = d.get(t, 0) + s * c
    return from_lin(k1 + s * k2, d)


def num(n):
    return mk("int", n)


# the types so narrow that a count can leave them
NARROW = {"u8": 8, "i8": 8, "u16": 16, "i16": 16}
WIDTH = dict(NARROW, bool=1, char=32, u32=32, i32=32)


def wrap(t, ty):
    """what is left of a number in a narrower type"""
    if ty not in NARROW:
        return t
    n = 1 << NARROW[ty]
    if t.op == "int":
        k = t.a[0] % n
        return num(k - n if ty[0] == "i" and k >= n // 2 else k)
    if t.op == "bool" or t.op == "app" and t.a[0] == "wrap" and NARROW[t.a[1][1].a[0]] <= NARROW[ty]:
        return t
    return app("wrap", t, mk("str", ty))


def neg(b):
    if b.op == "bool":
        return boolt(not b.a[0])
    if b.op == "not":
        return b.a[0]
    return mk("not", b)


def _form(a, b):
    d = add(a, b, -1)
    k, m = as_lin(d)
    return k, m


def lt(a, b):
    """a < b as a normalised literal  form <= n"""
    k, m = _form(a, b)  # sum + k < 0   <=> sum <= -k-1
    items = sorted(m.items(), key=lambda p: p[0].id)
    items = [(t, c) for t, c in items if c]
    if not items:
        return boolt(k < 0)
    if len(items) == 1 and _filled(items[0][0]):
        c = items[0][1]
        if c > 0 and -k - 1 < c:
            return FALSE
        if c < 0 and k < -c:
            return TRUE
    if items[0][1] > 0:
        return mk("le", tuple(items), -k - 1)
    # -s' + k < 0  <=> s' > k <=> not (s' <= k)
    return neg(mk("le", tuple((t, -c) for t, c in items), k))


def _filled(t):
    """the number of keys of a map something has been put into"""
    if t.op != "len":
        return False
    s = t.a[0]
    return s.op == "app" and s.a[0] == "mapkeys" and s.a[1][0].op == "app" and s.a[1][0].a[0] == "mapput"


_NONNUM = {"agg", "slice", "str", "bool", "closure", "seq", "unit", "not", "le", "eqn", "bytes"}


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "bool" or b.op == "bool":
        if b.op == "bool":
            a, b = b, a
        if b.op == "bool":
            return boolt(a.a[0] == b.a[0])
        return b if a.a[0] else neg(b)
    if a.op in ("str", "bytes") and b.op in ("str", "bytes"):
        return boolt(a.a[0] == b.a[0])
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        rs = [eq(x[1], y[1]) for x, y in zip(a.a[2], b.a[2])]
        if any(r is FALSE for r in rs):
            return FALSE
        rs = [r for r in rs if r is not TRUE]
        if not rs:
            return TRUE
        if len(rs) == 1:
            return rs[0]
    if a.op == "slice" or b.op == "slice":
        for x, y in ((a, b), (b, a)):
            if x.op == "slice" and y.op != "slice" and add(x.a[2], x.a[1], -1) is length(y):
                return app("matches_at", x.a[0], x.a[1], y)
    if a.op in _NONNUM or b.op in _NONNUM:
        x, y = (a, b) if a.id < b.id else (b, a)
        return mk("eq", x, y)
    k, m = _form(a, b)
    items = [(t, c) for t, c in sorted(m.items(), key=lambda p: p[0].id) if c]
    if not items:
        return boolt(k == 0)
    if items[0][1] < 0:
        items = [(t, -c) for t, c in items]
        k = -k
    # sum + k == 0 -> sum == -k
    return mk("eqn", tuple(items), -k)


# ---------------------------------------------------------------- sequences
EMPTY = mk("seq", ())


def seqt(items):
    return mk("seq", tuple(items))


def snoc(s, x):
    if s.op == "seq":
        return seqt(s.a[0] + (x,))
    if s.op == "slice" and s.a[1].op == "int" and s.a[1].a[0] == 0 and s.a[2] is add(length(s.a[0]), num(1), -1):
        return setelem(s.a[0], s.a[2], x)  # the last one replaced
    return mk("snoc", s, x)


def cat(s, t):
    if t.op == "seq" and not t.a[0]:
        return s
    if s.op == "seq" and not s.a[0]:
        return t
    if t.op == "seq":
        for x in t.a[0]:
            s = snoc(s, x)
        return s
    if t.op == "snoc":
        return snoc(cat(s, t.a[0]), t.a[1])
    if t.op == "cat":
        return cat(cat(s, t.a[0]), t.a[1])
    return mk("cat", s, t)


def length(s):
    if s.op == "seq":
        return num(len(s.a[0]))
    if s.op == "snoc":
        return add(length(s.a[0]), num(1))
    if s.op == "cat":
        return add(length(s.a[0]), length(s.a[1]))
    if s.op == "slice":
        return add(s.a[2], s.a[1], -1)
    if s.op in ("str", "bytes"):
        return num(len(s.a[0].encode()))
    if s.op == "rev":
        return length(s.a[0])
    if s.op == "app" and s.a[0] in ("sorted", "sorted_by", "reversed"):
        return length(s.a[1][0])
    if s.op == "withelem":
        return length(s.a[0])
    if s.op == "app" and s.a[0] in ("mapitems", "mapvalues"):
        return length(app("mapkeys", s.a[1][0]))
    return mk("len", s)


def elem(s, i):
    if s.op == "seq" and i.op == "int" and 0 <= i.a[0] < len(s.a[0]):
        return s.a[0][i.a[0]]
    if s.op == "slice":
        return elem(s.a[0], add(s.a[1], i))
    if s.op == "snoc" and eq(i, length(s.a[0])) is TRUE:
        return s.a[1]
    if s.op == "withelem":
        if eq(s.a[1], i) is TRUE:
            return s.a[2]
        if eq(s.a[1], i) is FALSE:
            return elem(s.a[0], i)
    if s.op == "app" and s.a[0] in ("mapitems", "mapvalues"):
        k = elem(app("mapkeys", s.a[1][0]), i)
        v = app("mapget", s.a[1][0], k)
        return v if s.a[0] == "mapvalues" else mk("agg", "tuple", "", (("0", k), ("1", v)))
    return mk("elem", s, i)


def slice_(s, a, b):
    if a.op == "int" and a.a[0] == 0 and b is length(s):
        return s
    if s.op == "slice":
        return slice_(s.a[0], add(s.a[1], a), add(s.a[1], b))
    if s.op == "seq" and a.op == "int" and b.op == "int":
        return seqt(s.a[0][a.a[0]:b.a[0]])
    return mk("slice", s, a, b)


def setelem(s, i, v):
    if s.op == "seq" and i.op == "int" and 0 <= i.a[0] < len(s.a[0]):
        l = list(s.a[0])
        l[i.a[0]] = v
        return seqt(l)
    if elem(s, i) is v:
        return s
    if s.op == "withelem" and s.a[1] is i:
        s = s.a[0]
        if mk("elem", s, i) is v:
            return s
    return mk("withelem", s, i, v)


# ---------------------------------------------------------------- maps and sets (as history terms)
def _haskey(m, k):
    if k.op == "elem" and k.a[0].op == "app" and k.a[0].a[0] == "mapkeys" and k.a[0].a[1][0] is m:
        return TRUE
    if m.op == "app" and m.a[0] == "mapnew":
        return FALSE
    if m.op == "app" and m.a[0] == "mapput":
        e = eq(m.a[1][1], k)
        if e is TRUE:
            return TRUE
        if e is FALSE:
            return app("haskey", m.a[1][0], k)
    if m.op == "app" and m.a[0] == "mapdel":
        e = eq(m.a[1][1], k)
        if e is TRUE:
            return FALSE
        if e is FALSE:
            return app("haskey", m.a[1][0], k)
    return None


def _mapget(m, k):
    if m.op == "app" and m.a[0] == "mapput":
        e = eq(m.a[1][1], k)
        if e is TRUE:
            return m.a[1][2]
        if e is FALSE:
            return app("mapget", m.a[1][0], k)
    if m.op == "app" and m.a[0] == "mapdel" and eq(m.a[1][1], k) is FALSE:
        return app("mapget", m.a[1][0], k)
    return None


def _mapdel(m, k):
    if m.op == "app" and m.a[0] == "mapnew" or app("haskey", m, k) is FALSE:
        return m
    if m.op == "app" and m.a[0] == "mapput" and eq(m.a[1][1], k) is TRUE:
        return app("mapdel", m.a[1][0], k)
    return None


def _mapput(m, k, v):
    if m.op == "app" and m.a[0] == "mapput" and m.a[1][1] is k:
        return app("mapput", m.a[1][0], k, v)
    return None


def _maplen(m):
    return length(app("mapkeys", m))


def _mapkeys(m):
    if m.op == "app" and m.a[0] == "mapnew":
        return EMPTY
    if m.op == "app" and m.a[0] == "mapput":
        ks = app("mapkeys", m.a[1][0])
        k = m.a[1][1]
        if ks is EMPTY:
            return seqt([k])
        if k.op == "elem" and k.a[0] is ks or app("haskey", m.a[1][0], k) is TRUE:
            return ks  # a value is replaced
    return None


def _mapseq(m):
    if m.op == "app" and m.a[0] == "mapnew":
        return EMPTY
    return None


def _sorted(s, key):
    n = length(s)
    if n.op == "int" and n.a[0] <= 1:
        return s
    return None


def _char(c):
    if c.op == "int" and 0 <= c.a[0] < 0x110000:
        return mk("str", chr(c.a[0]))
    return None


def pieces(t):
    """a text as the sequence of the values in it and the visible characters between them"""
    o = t.op
    if o == "app":
        n = t.a[0]
        if n == "txt":
            return t.a[1][0].a[0]
        if n == "disp":
            return pieces(t.a[1][0])
        if n == "text":
            return ()
        return (t,)
    if o == "seq":
        return tuple(y for x in t.a[0] for y in pieces(x))
    if o in ("snoc", "cat"):
        return pieces(t.a[0]) + pieces(t.a[1])
    if o == "str":
        return tuple(t if len(t.a[0]) == 1 else mk("str", c) for c in t.a[0] if not c.isspace())
    if o == "text":
        return ()
    return (t,)


def _txt(s):
    """a text, always as one flat sequence of pieces"""
    l = pieces(s)
    if len(l) == 1 and l[0].op not in _NONNUM and l[0].op not in ("lin", "int"):
        return l[0]
    return mk("app", "txt", (mk("seq", l),))


_SIMP = {"char": _char, "txt": _txt, "haskey": _haskey, "mapget": _mapget, "mapput": _mapput, "mapdel": _mapdel, "mapkeep": lambda m, f: m if m.op == "app" and m.a[0] == "mapnew" else None, "maplen": _maplen, "mapkeys": _mapkeys, "mapitems": _mapseq, "mapvalues": _mapseq, "sorted_by": _sorted, "wrap": lambda t, ty: (lambda r: None if r.op == "app" and r.a[0] == "wrap" and r.a[1][0] is t else r)(wrap(t, ty.a[0])) if t.op in ("int", "bool") else None}


# ---------------------------------------------------------------- traversal
def rebuild(op, a):
    """rebuild a node through the normalising constructors"""
    if op == "fld":
        return fld(*a)
    if op == "agg":
        return agg(a[0], a[1], a[2])
    if op == "lin":
        k = a[0]
        r = num(k)
        for t, c in a[1]:
            for _ in range(abs(c)):
                r = add(r, t, 1 if c > 0 else -1)
        return r
    if op == "le":
        r = num(0)
        for t, c in a[0]:
            for _ in range(abs(c)):
                r = add(r, t, 1 if c > 0 else -1)
        return lt(r, num(a[1] + 1))
    if op == "eqn":
        r = num(0)
        for t, c in a[0]:
            for _ in range(abs(c)):
                r = add(r, t, 1 if c > 0 else -1)
        return eq(r, num(a[1]))
    if op == "eq":
        return eq(*a)
    if op == "not":
        return neg(*a)
    if op == "app":
        return app(a[0], *a[1])
    if op == "seq":
        return seqt(a[0])
    if op == "snoc":
        return snoc(*a)
    if op == "cat":
        return cat(*a)
    if op == "len":
        return length(*a)
    if op == "elem":
        return elem(*a)
    if op == "slice":
        return slice_(*a)
    if op == "withelem":
        return setelem(*a)
    if op == "with":
        b, path, v = a
        return withpath(b, path, v)
    return mk(op, *a)


def _mapargs(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_mapargs(x, f) for x in a)
    return a


def transform(t, f, memo):
    """bottom-up rewrite: f(term) -> term or None, applied before descending"""
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        na = _mapargs(t.a, lambda x: transform(x, f, memo))
        if na == t.a:
            r = t
        else:
            r = rebuild(t.op, na)
    memo[t] = r
    return r


def within(t, f, memo):
    """what a term is made of, rewritten; the term itself is kept"""
    na = _mapargs(t.a, lambda x: transform(x, f, memo))
    return t if na == t.a else rebuild(t.op, na)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        todo = [x.a]
        while todo:
            y = todo.pop()
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                todo.extend(y)
    return seen


# ---------------------------------------------------------------- printing
def show(t, depth=9):
    if not isinstance(t, T):
        return str(t)
    if depth == 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.a
    if o == "in":
        return a[0]
    if o in ("int", "bool"):
        return str(a[0])
    if o in ("str", "bytes"):
        return repr(a[0])
    if o == "fld":
        v = f"@{a[2]}" if a[2] else ""
        return f"{show(a[0], d)}{v}.{a[3]}"
    if o == "agg":
        nm = a[0] if not a[1] else a[1]
        if nm == "tuple":
            return "(" + ", ".join(show(v, d) for _, v in a[2]) + ")"
        return nm + "{" + ", ".join(f"{n}: {show(v, d)}" for n, v in a[2]) + "}" if a[2] else nm
    if o == "lin":
        s = " + ".join((show(x, d) if c == 1 else f"{c}*{show(x, d)}") for x, c in a[1])
        return f"({s} + {a[0]})" if a[0] else f"({s})"
    if o == "le":
        return "(" + " + ".join((show(x, d) if c == 1 else f"{c}*{show(x, d)}") for x, c in a[0]) + f" <= {a[1]})"
    if o == "eqn":
        return "(" + " + ".join((show(x, d) if c == 1 else f"{c}*{show(x, d)}") for x, c in a[0]) + f" == {a[1]})"
    if o == "eq":
        return f"({show(a[0], d)} == {show(a[1], d)})"
    if o == "not":
        return f"!{show(a[0], d)}"
    if o in ("app", "ev"):
        return f"{a[0]}(" + ", ".join(show(x, d) for x in a[1]) + ")"
    if o == "post":
        return f"post{a[1]}[{show(a[0], d)}]"
    if o == "seq":
        return "[" + ", ".join(show(x, d) for x in a[0]) + "]"
    if o == "snoc":
        return f"{show(a[0], d)}.push({show(a[1], d)})"
    if o == "cat":
        return f"{show(a[0], d)} ++ {show(a[1], d)}"
    if o == "len":
        return f"|{show(a[0], d)}|"
    if o == "elem":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "slice":
        return f"{show(a[0], d)}[{show(a[1], d)}..{show(a[2], d)}]"
    if o == "phi":
        return f"φ{a[0]}:{a[2]}" if len(a) > 2 else f"φ{a}"
    if o == "closure":
        return f"λ{a[0]}(" + ",".join(show(x, d) for x in a[1]) + ")"
    if o == "loc":
        return f"&mut {a}"
    return f"{o}{tuple(show(x, d) if isinstance(x, T) else x for x in a)}"
