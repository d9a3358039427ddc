"""What the analysis knows about the standard library: transfer functions on value terms."""
import re
import ast
from terms import *

TEXT = mk("text")
NONE = agg("Option", "None", ())


def some(v):
    return agg("Option", "Some", (("0", v),))


def ok(v):
    return agg("Result", "Ok", (("0", v),))


def err(v):
    return agg("Result", "Err", (("0", v),))


def payload(v, adt, variant):
    return fld(v, adt, variant, "0")


def branch(eng, st, cond, yes, no):
    """fork on a boolean term; yes/no: state -> states"""
    d = st.facts.decide(cond)
    if d is not None:
        return yes(st) if d else no(st)
    out = []
    s2 = st.copy()
    if assume(st, cond, True):
        out += yes(st)
    if assume(s2, cond, False):
        out += no(s2)
    return out


def assume(st, cond, val):
    return st.facts.assume(cond, val)


def variants(eng, st, v, adt, cases):
    """fork on the variant of v; cases: {variant: state -> states}"""
    k = st.facts.variant(v)
    if k is not None:
        return cases[k](st) if k in cases else []
    out = []
    items = list(cases.items())
    for i, (n, f) in enumerate(items):
        s = st.copy() if i < len(items) - 1 else st
        if s.facts.assume_variant(v, n, adt):
            out += f(s)
    return out


def on_variant(eng, st, term, variant):
    if term.op == "app" and term.a[0] == "cmp":
        a, b = term.a[1]
        if variant == "Less":
            return st.facts.assume(lt(a, b), True)
        if variant == "Greater":
            return st.facts.assume(lt(b, a), True)
        return st.facts.assume(eq(a, b), True)
    return True


def cell_init(key):
    return app("cellget", key[1])


def model_applies(eng, st, key, args):
    return True


def writes_text(ty):
    ty = ty.split("&mut ")[-1]
    return ty == "std::string::String" or ty.startswith("std::fmt::Formatter") or ty.startswith("dyn ") or ty.startswith("(dyn ")


def letters(meth, t):
    return app("char", t) if meth in ("write_char", "push") else t


def joined(*x):
    """the text the given texts and values make, one after the other"""
    return app("txt", mk("seq", x))


def template(t):
    """the literals and the places of the arguments of a format string; see core::fmt::rt"""
    if t.op != "const" or not str(t.a[1]).startswith('b"'):
        return None
    b = ast.literal_eval(t.a[1])
    out, i, n = [], 0, 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x <= 0x80:
            k = x
            if x == 0x80:
                k = b[i] | b[i + 1] << 8
                i += 2
            out.append(b[i:i + k].decode())
            i += k
            continue
        cut = False
        if x & 1:
            i += 4
        if x & 2:
            i += 2
        if x & 4:
            i += 2
            cut = True
        if x & 8:
            n = b[i] | b[i + 1] << 8
            i += 2
        if x & 32:
            cut = True
        out.append((n, cut))
        n += 1
    return out


def formatted(t, args):
    """what a format string and its arguments make"""
    l = template(t)
    if l is None:
        return app("txt", args)
    n = len(args.a[0]) if args.op == "seq" else len(args.a[2]) if args.op == "agg" else None
    if n is None:
        return app("txt", args)
    a = args.a[0] if args.op == "seq" else [y for _, y in args.a[2]]
    out = []
    for x in l:
        if isinstance(x, str):
            out.append(mk("str", x))
        elif x[0] >= n:
            return app("txt", args)
        else:
            out.append(app("cut", a[x[0]]) if x[1] else a[x[0]])
    return joined(*out)


def debugged(eng, st, ty, meth, args):
    """what a formatter is told is written to it; its builders are the formatter they were made from"""
    V = lambda a: eng.val(st, a)
    l = base_loc(eng, st, args[0])
    w = lambda *x: eng.write_loc(st, l, joined(V(l), *x))
    ok = agg("Result", "Ok", (("0", UNIT),))
    S = lambda x: mk("str", x)
    if ty == "Formatter":
        if meth in ("write_fmt", "write_str", "write_char", "pad"):
            w(letters(meth, V(args[1])))
            return ok
        if meth in ("debug_struct", "debug_tuple"):
            w(V(args[1]), S("{" if meth == "debug_struct" else "("))
            return args[0]
    elif meth == "field":
        if ty == "DebugStruct":
            w(V(args[1]), S(":"))
        w(app("dbg", V(args[-1])), S(","))
        return args[0]
    elif meth == "finish":
        w(S("}" if ty == "DebugStruct" else ")"))
        return ok
    return None


def boundary(l):
    """|x| key(x) < k, or <= k: (key, k, whether k itself is below the boundary)"""
    if not (l.op == "app" and l.a[0] == "λ"):
        return None
    b, val = l.a[1][0], True
    if b.op == "not":
        b, val = b.a[0], False
    if b.op != "le":
        return None
    x = inp("λ0")
    sign = 1 if val else -1
    key, k = num(0), num(b.a[1] if val else -b.a[1] - 1)
    for t, q in b.a[0]:
        if free(t, {x}):
            key = add(key, t, q * sign) if abs(q) == 1 else None
            if key is None:
                return None
        else:
            k = add(k, from_lin(0, {t: -q * sign}))
    if key.op in ("int", "lin"):
        return None
    # key <= k
    n, rest = as_lin(k)
    if n == -1 and rest:
        return app("λ", key), add(k, num(1)), False
    return app("λ", key), k, True


def lam(eng, st, f, n):
    """a function value as a term over its parameters, independent of how it is written"""
    from facts import Facts
    from engine import State, Ctx, Frame, Unsupported, Fn

    fv = eng.val(st, f)
    level = eng.lamlevel
    outer = {inp(f"λ{'′' * k}{i}") for k in range(level) for i in range(3)}
    pars = [inp(f"λ{'′' * level}{i}") for i in range(n)]
    s = State()
    fr = st.frames[-1]
    s.frames = [Frame(fr.fn, fr.fid, fr.block)]
    s.store = dict(st.store)
    s.facts = Facts()
    s.loops = ()
    s.flags = frozenset()
    s.trail = ()
    s.origin = None
    res = []

    def after(e, stt, v):
        res.append((tuple(stt.facts.log), e.val(stt, v)))
        return []

    segs = []
    c = Ctx(eng, None, None, ["?", "?"], segs, None, after)
    was, eng.checks = eng.checks, False  # what it does within the bounds
    eng.lamlevel += 1
    try:
        work = list(eng.call_closure(s, fv, pars, c))
        while work:
            x = work.pop()
            eng.steps += 1
            work.extend(eng.step(x, None, segs))
    finally:
        eng.checks = was
        eng.lamlevel = level
    if segs and not eng.ignore_panic:
        return app("λ?", fv)
    if level:
        if any(free(t, outer) for log, v in res for t in [a[1] for a in log] + [v]):
            return app("λ?", fv)
        m = {p: inp(f"λ{i}") for i, p in enumerate(pars)}
        at = lambda t: transform(t, lambda x: m.get(x), {})
        res = [(tuple((a[0], at(a[1])) + tuple(a[2:]) for a in log), at(v)) for log, v in res]
    res.sort(key=lambda p: str(p))
    if len(res) == 1:
        return app("λ", res[0][1])  # the one thing it delivers, where it delivers anything
    return mk("lamcase", tuple((tuple(("v", a[1], mk("str", a[2])) if a[0] == "v" else (("b", a[1], boolt(a[2]))) for a in log), v) for log, v in res))


def free(t, names):
    """are any of the names used in t outside the function values in it?"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x in names:
                return True
            if not (x.op == "lamcase" or x.op == "app" and x.a[0] == "λ"):
                st.extend(x.a)
    return False


def substitute(t, m):
    """names of parameters replaced; what belongs to function values inside stays theirs"""
    return transform(t, lambda x: x if x.op == "lamcase" or x.op == "app" and x.a[0] == "λ" else m.get(x), {})


def apply_lam(l, args):
    if l.op != "app" or l.a[0] != "λ":
        return None
    return substitute(l.a[1][0], {inp(f"λ{i}"): a for i, a in enumerate(args)})


def key_of_cmp(l):
    """λ(a,b). cmp(k(a),k(b))  ->  λ(a). k(a)"""
    if l.op == "app" and l.a[0] == "λ":
        r = l.a[1][0]
        if r.op == "app" and r.a[0] == "cmp":
            x, y = r.a[1]
            l0, l1 = inp("λ0"), inp("λ1")
            if not free(x, {l1}) and substitute(x, {l0: l1}) is y:
                return app("λ", x)
    return l


IDENT = {
    "Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut",
    "Rc::new", "Box::new", "hint::must_use", "String::as_str", "String::as_bytes", "str::as_bytes", "String::into_bytes",
    "String::into_boxed_str", "Vec::as_slice", "Vec::as_mut_slice", "Vec::into_boxed_slice", "slice::into_vec",
    "str::as_str", "Rc::clone", "convert::identity", "Arc::new", "slice::as_slice", "String::from_utf8_lossy", "Rc::as_ref",
    "Iterator::by_ref", "Box::leak", "Vec::leak", "str::from_utf8_unchecked", "Cow::into_owned", "Box::pin", "hint::black_box", "Rc::from", "Vec::from",
}
IDENT_VAL = {
    "Clone::clone", "ToOwned::to_owned", "slice::to_vec", "Option::cloned", "Option::copied", "Option::as_ref", "Option::as_deref",
    "Iterator::cloned", "Iterator::copied", "Result::as_ref", "Option::cloned", "String::from", "str::to_owned", "str::to_string", "Iterator::fuse",
    "Result::as_deref", "Result::copied", "Result::cloned", "Iterator::peekable_",
}
# room, not contents
NOTHING = {a + "::" + b for a in ("Vec", "String", "HashMap", "HashSet", "VecDeque") for b in ("reserve", "reserve_exact", "shrink_to_fit", "shrink_to")}
NEW_SEQ = {"VecDeque::new", "VecDeque::with_capacity", "Vec::new", "Vec::with_capacity", "String::new", "String::with_capacity"}
MAP_TY = ("HashMap", "HashSet", "BTreeMap", "BTreeSet")


def is_loc(a):
    return a.op == "loc"


def slice_iter(seq, eng=None):
    return agg("SliceIter", "", (("seq", seq), ("front", num(0)), ("back", length(seq))))


def left_of(v):
    """how many elements an iterator still has"""
    if v.op != "agg":
        return None
    n, g = v.a[0], lambda x: aggget(v, x)
    if n in ("SliceIter", "SliceIterMut"):
        return add(g("back"), g("front"), -1)
    if n == "Range":
        return add(g("end"), g("start"), -1)
    if n in ("Map", "Rev", "Enumerate", "Inspect"):
        return left_of(g("it"))
    return None


def map_items(ty, what, m):
    """what a map or set yields, in the order it does: by key where the keys are kept sorted"""
    order = ty.startswith("BTree")
    if what == "keys":
        k = app("mapkeys", m)
        return app("sorted_by", k, app("λ", inp("λ0"))) if order else k
    i = app("mapitems", m)
    if order:
        i = app("sorted_by", i, app("λ", fld(inp("λ0"), "", "", "0")))
    if what == "values":
        return None if order else app("mapvalues", m)
    return i


def as_list(v):
    """what an iterator will yield, as a list, when that can be said in one piece"""
    if v.op != "agg":
        return v if v.op in ("seq", "snoc", "cat", "slice", "withelem") else None
    n = v.a[0]
    if n == "SliceIter":
        return slice_(aggget(v, "seq"), aggget(v, "front"), aggget(v, "back"))
    if n == "Option" and v.a[1]:
        return EMPTY if v.a[1] == "None" else seqt([aggget(v, "0")])
    if n == "OptionIter":
        return as_list(aggget(v, "item"))
    if n == "Chain":
        a, b = as_list(aggget(v, "a")), as_list(aggget(v, "b"))
        if a is None or b is None or aggget(v, "first") is not TRUE:
            return None
        return cat(a, b)
    if n == "Rev":
        x = as_list(aggget(v, "it"))
        return None if x is None else x if x.op == "seq" and len(x.a[0]) < 2 else app("reversed", x)
    return None


VALUES = mk("str", "values")


def map_iter_mut(eng, st, l, what):
    """every key of the map in turn, with the place of its value: the keys stay as they are"""
    return agg("MapIterMut", "", (("map", l), ("keys", app("mapkeys", eng.val(st, l))), ("front", num(0)), ("what", mk("str", what))))


def head_ty(c):
    h = c.get("head", "")
    return h.split(":", 1)[-1].split("::")[-1]


def prim(eng, st, name, args, ctx):
    if name == "panic":
        return eng.panic(st, ctx, "unwrap")
    if name == "about":
        return eng.finish(st, ctx, app("about", *[eng.val(st, a) for a in args]))
    if name in ("shortest", "configured"):
        return eng.finish(st, ctx, app("Regex::" + name, *[eng.val(st, a) for a in args]))
    raise Exception("prim " + name)


def plus(loc, e):
    return mk("loc", loc.a[0], loc.a[1] + (e,))


def base_loc(eng, st, a):
    """the location a mutable reference finally denotes"""
    while a.op == "loc":
        v = eng.read_loc(st, a)
        if v.op != "loc":
            return a
        a = v
    return None


def builtin(eng, st, key, c, args, ctx):
    F = lambda s, v: eng.finish(s, ctx, v)
    V = lambda a: eng.val(st, a)
    if key in IDENT:
        return F(st, args[0])
    if key in IDENT_VAL:
        return F(st, V(args[0]))
    ty, _, meth = key.rpartition("::")

    # ------------------------------------------------ formatting is text
    if ty in ("Argument", "Arguments", "fmt") or key in ("ToString::to_string", "slice::join", "slice::concat"):
        if key == "ToString::to_string":
            h = c.get("self", "").lstrip("&")
            if h.startswith("'"):
                h = h.split(" ", 1)[-1]
            if h in ("str", "std::string::String"):
                return F(st, V(args[0]))
            v = V(args[0])
            return F(st, joined(app("char", v) if h == "char" else v))
        if ty == "Argument":
            v = V(args[0])
            if meth == "new_display" and "".join(c.get("targs") or ()).lstrip("&") == "char":
                v = app("char", v)
            return F(st, app("dbg" if meth == "new_debug" else "disp", v))
        if key == "Arguments::new":
            return F(st, formatted(V(args[0]), V(args[1])))
        if key in ("Arguments::from_str", "Arguments::new_const"):
            return F(st, joined(V(args[0])))
        if key == "fmt::format":
            return F(st, V(args[0]))
        if key in ("slice::join", "slice::concat"):
            m = eng.p.model.get("text_join")
            return eng.push(st, m, [args[0], args[1] if len(args) > 1 else mk("str", "")], ctx)
        return F(st, TEXT)
    if ty in ("Formatter", "DebugStruct", "DebugTuple"):
        r = debugged(eng, st, ty, meth, args)
        if r is not None:
            return F(st, r)
    if key in ("Write::write_fmt", "Write::write_str", "Write::write_char") and writes_text(c.get("self", "")):
        # a text is the sequence of the values written into it; what a writer refuses is not followed
        l = base_loc(eng, st, args[0])
        eng.write_loc(st, l, joined(V(l), letters(meth, V(args[1]))))
        return F(st, agg("Result", "Ok", (("0", UNIT),)))
    if key in ("rt::panic_fmt", "panicking::panic", "panicking::panic_fmt", "panicking::assert_failed", "panicking::panic_display", "rt::begin_panic",
               "panicking::unreachable_display", "option::unwrap_failed", "panicking::panic_explicit", "option::expect_failed", "result::unwrap_failed"):
        return eng.panic(st, ctx, key)
    if key in ("io::_print", "io::_eprint", "stdio::_print", "stdio::_eprint"):
        st.flags = st.flags | {"print"}
        return F(st, UNIT)

    if key in ("io::stdout", "io::stderr", "stdio::stdout", "stdio::stderr"):
        st.flags = st.flags | {"print"}  # and what follows is told by the writes themselves

    # ------------------------------------------------ comparison, arithmetic
    if key in ("PartialEq::eq", "PartialEq::ne"):
        a, b = V(args[0]), V(args[1])
        r = match_eq(a, b)
        if meth == "ne":
            r = neg(r)
        return F(st, eng.decided(st, r))
    if key in ("PartialOrd::lt", "PartialOrd::gt", "PartialOrd::le", "PartialOrd::ge"):
        return F(st, eng.binop(st, meth.capitalize(), V(args[0]), V(args[1])))
    if key in ("Ord::cmp", "PartialOrd::partial_cmp"):
        a, b = V(args[0]), V(args[1])
        r = app("cmp", a, b)
        if eq(a, b) is TRUE:
            r = agg("Ordering", "Equal", ())
        return F(st, r if meth == "cmp" else some(r))
    if key in ("cmp::max", "cmp::min", "Ord::max", "Ord::min"):
        a, b = V(args[0]), V(args[1])
        c1 = lt(b, a)
        if meth == "max":
            return branch(eng, st, c1, lambda s: F(s, a), lambda s: F(s, b))
        return branch(eng, st, c1, lambda s: F(s, b), lambda s: F(s, a))
    if key == "Add::add" and c.get("self", "").endswith("String"):
        return F(st, joined(V(args[0]), V(args[1])))
    if key == "AddAssign::add_assign" and c.get("self", "").endswith("String"):
        l = base_loc(eng, st, args[0])
        eng.write_loc(st, l, joined(V(l), V(args[1])))
        return F(st, UNIT)
    if key in ("Add::add", "Sub::sub"):
        return F(st, add(V(args[0]), V(args[1]), 1 if meth == "add" else -1))
    if key in ("AddAssign::add_assign", "SubAssign::sub_assign"):
        l = base_loc(eng, st, args[0])
        eng.write_loc(st, l, add(V(l), V(args[1]), 1 if meth[0] == "a" else -1))
        return F(st, UNIT)
    if meth in ("saturating_sub", "checked_sub") and ty in ("num", "usize"):
        a, b = V(args[0]), V(args[1])
        if meth == "saturating_sub":
            return branch(eng, st, lt(a, b), lambda s: F(s, num(0)), lambda s: F(s, add(a, b, -1)))
        return branch(eng, st, lt(a, b), lambda s: F(s, NONE), lambda s: F(s, some(add(a, b, -1))))
    if meth in ("wrapping_add", "wrapping_sub", "saturating_add", "unchecked_add", "unchecked_sub") and ty in ("num", "usize"):
        n = add(V(args[0]), V(args[1]), 1 if "add" in meth else -1)
        return F(st, wrap(n, c.get("self", "")) if meth == "wrapping_add" else n)
    if meth == "checked_add" and ty in ("num", "usize"):
        return F(st, some(add(V(args[0]), V(args[1]))))
    if key == "Not::not":
        return F(st, eng.decided(st, neg(V(args[0]))))

    # ------------------------------------------------ ?
    if key == "Try::branch":
        v = V(args[0])
        h = head_ty(c) if c.get("head") else ""
        if v.op == "agg":
            h = v.a[0]
        cont = lambda n: (lambda s: F(s, agg("ControlFlow", "Continue", (("0", payload(v, h, n)),))))
        if h == "Option":
            return variants(eng, st, v, h, {"Some": cont("Some"), "None": lambda s: F(s, agg("ControlFlow", "Break", (("0", NONE),)))})
        return variants(eng, st, v, h, {"Ok": cont("Ok"), "Err": lambda s: F(s, agg("ControlFlow", "Break", (("0", err(payload(v, h, "Err"))),)))})
    if key == "FromResidual::from_residual":
        v = V(args[0])
        if v.op == "agg" and v.a[0] == "Result" and v.a[1] == "Err":
            e = aggget(v, "0")
            m = re.match(r"std::result::Result<.*, ([\w:]+)>$", c.get("self", ""))
            src = [t for t in c.get("targs", [])[1:]]
            sm = re.match(r"std::result::Result<std::convert::Infallible, ([\w:]+)>$", src[0]) if src else None
            if m and sm and m.group(1) != sm.group(1):
                f = eng.p.impls.get(("From", m.group(1).split("::")[-1], "from"))
                if f:
                    for x in f:
                        fn = eng.p.fns.get(x)
                        if fn and sm.group(1) in fn.locals[1][0]:
                            return eng.push(st, fn, [e], ctx.then(lambda en, s, r: en.finish(s, ctx, err(r))))
                return F(st, err(app("From::from", e)))
        return F(st, v)
    if key in ("Into::into", "From::from"):
        # a conversion of the library's own: the one into this type from the argument's
        ns = st.frames[-1].fn.ns
        ta = c.get("targs") or ["", ""]
        tgt, src = (ta[1], ta[0]) if key == "Into::into" else (ta[0], ta[1])
        tgt = re.sub(r"<.*", "", tgt).split("::")[-1]
        l = [eng.p.fns[x] for x in eng.p.impls.get(("From", tgt, "from")) or () if x in eng.p.fns and x[0] == ns]
        if len(l) > 1:
            l = [f for f in l if eng.p.shape(f.locals[1][0]) == eng.p.shape(src)]
        if len(l) == 1:
            if eng.is_opaque(l[0], st):
                return eng.uninterpreted(st, l[0].name, args, ctx)
            return eng.push(st, l[0], [args[0]], ctx)
        return F(st, args[0])

    # ------------------------------------------------ sequences
    if key in NEW_SEQ and ty == "String":
        return F(st, joined())
    if key in NEW_SEQ:
        return F(st, EMPTY)
    if key in ("VecDeque::push_back", "Vec::push", "String::push_str", "String::push", "Vec::push_within_capacity"):
        l = base_loc(eng, st, args[0])
        if ty == "String":
            eng.write_loc(st, l, joined(V(l), letters(meth, V(args[1]))))
        else:
            eng.write_loc(st, l, snoc(V(l), args[1] if args[1].op == "closure" else V(args[1])))
        return F(st, UNIT)
    if key in NOTHING:
        return F(st, UNIT)
    if key == "mem::swap":
        l, l2 = base_loc(eng, st, args[0]), base_loc(eng, st, args[1])
        if l is None or l2 is None:
            return None
        v, v2 = V(l), V(l2)
        eng.write_loc(st, l, v2)
        eng.write_loc(st, l2, v)
        return F(st, UNIT)
    if key in ("VecDeque::push_front", "VecDeque::pop_front"):
        l = base_loc(eng, st, args[0])
        v = V(l)
        if meth == "push_front":
            eng.write_loc(st, l, cat(seqt([V(args[1])]), v))
            return F(st, UNIT)

        def headless(s):
            eng.write_loc(s, l, slice_(v, num(1), length(v)))
            return F(s, some(elem(v, num(0))))

        return branch(eng, st, eq(length(v), num(0)), lambda s: F(s, NONE), headless)
    if key == "Vec::extend_from_within":
        l = base_loc(eng, st, args[0])
        v, i = V(l), V(args[1])
        r = range_of(v, i) if i.op == "agg" else None
        if r is None:
            return None

        def doubled(s):
            eng.write_loc(s, l, cat(v, slice_(v, *r)))
            return F(s, UNIT)

        return within(eng, st, ctx, ((lt(r[1], r[0]), False), (lt(length(v), r[1]), False)), doubled)
    if key in ("slice::rotate_left", "slice::rotate_right"):
        l = base_loc(eng, st, args[0])
        v, k = V(l), V(args[1])
        n = length(v)

        def turned(s):
            at = k if meth == "rotate_left" else add(n, k, -1)
            eng.write_loc(s, l, cat(slice_(v, at, n), slice_(v, num(0), at)))
            return F(s, UNIT)

        return within(eng, st, ctx, ((lt(n, k), False),), turned)
    if meth == "abs_diff" and ty in ("num", "usize"):
        a, b = V(args[0]), V(args[1])
        return branch(eng, st, lt(a, b), lambda s: F(s, add(b, a, -1)), lambda s: F(s, add(a, b, -1)))
    if key == "Ord::clamp":
        x, a, b = V(args[0]), V(args[1]), V(args[2])
        if b is not None:
            return within(eng, st, ctx, ((lt(b, a), False),), lambda s0: branch(eng, s0, lt(x, a), lambda s: F(s, a), lambda s: branch(eng, s, lt(b, x), lambda s2: F(s2, b), lambda s2: F(s2, x))))
    if key in ("Vec::extend_from_slice", "Extend::extend", "Vec::append"):
        l = base_loc(eng, st, args[0])
        src = V(args[1])
        cur = V(l)
        seq = None
        sty = c.get("targs", ["", "", ""])[-1]
        if key == "Vec::append":
            seq = src
            eng.write_loc(st, l, cat(cur, seq))
            eng.write_loc(st, base_loc(eng, st, args[1]), EMPTY)
            return F(st, UNIT)
        ismap = any(("::" + t + "<") in c.get("self", "") for t in MAP_TY)
        if not ismap:
            seq = as_list(src) if src.op == "agg" else src
            if seq is not None and seq.op == "app" and seq.a[0] == "reversed":
                seq = None
        if seq is not None:
            eng.write_loc(st, l, cat(cur, seq))
            return F(st, UNIT)
        if "String" in c.get("self", ""):
            return None
        m = eng.p.model.get("HashMap_extend" if ismap and "Map<" in c.get("self", "") else "Map_extend" if ismap else "Vec_extend")
        return eng.push(st, m, [args[0], src], ctx)
    if key in ("Vec::len", "slice::len", "str::len", "String::len", "VecDeque::len"):
        return F(st, length(V(args[0])))
    if key in ("Vec::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty", "VecDeque::is_empty"):
        return F(st, eng.decided(st, eq(length(V(args[0])), num(0))))
    if key in ("slice::first", "slice::last", "Vec::first", "Vec::last", "VecDeque::front", "VecDeque::back"):
        v = V(args[0])
        n = length(v)
        i = num(0) if meth in ("first", "front") else add(n, num(1), -1)
        return branch(eng, st, eq(n, num(0)), lambda s: F(s, NONE), lambda s: F(s, some(elem(v, i))))
    if key in ("slice::first_mut", "slice::last_mut"):
        l = base_loc(eng, st, args[0])
        n = length(V(l))
        i = num(0) if meth == "first_mut" else add(n, num(1), -1)
        return branch(eng, st, eq(n, num(0)), lambda s: F(s, NONE), lambda s: F(s, some(plus(l, ("i", i)))))
    if key in ("slice::get", "slice::get_unchecked", "slice::get_mut", "str::get"):
        v, i = V(args[0]), V(args[1])
        if i.op == "agg":
            r = range_of(v, i)
            if r is None:
                return None
            if meth == "get_unchecked":
                return F(st, slice_(v, *r))
            lo, hi = r
            return branch(eng, st, lt(hi, lo), lambda s: F(s, NONE),
                          lambda s: branch(eng, s, lt(length(v), hi), lambda s2: F(s2, NONE), lambda s2: F(s2, some(slice_(v, lo, hi)))))
        if meth == "get_unchecked":
            return F(st, elem(v, i))
        l = base_loc(eng, st, args[0]) if meth == "get_mut" else None
        return branch(eng, st, lt(i, length(v)), lambda s: F(s, some(plus(l, ("i", i)) if l is not None else elem(v, i))), lambda s: F(s, NONE))
    if key in ("slice::split_first", "slice::split_last"):
        v = V(args[0])
        n = length(v)
        if meth == "split_first":
            r = mk("agg", "tuple", "", (("0", elem(v, num(0))), ("1", slice_(v, num(1), n))))
        else:
            r = mk("agg", "tuple", "", (("0", elem(v, add(n, num(1), -1))), ("1", slice_(v, num(0), add(n, num(1), -1)))))
        return branch(eng, st, eq(n, num(0)), lambda s: F(s, NONE), lambda s: F(s, some(r)))
    if key in ("Vec::pop", "VecDeque::pop_back"):
        l = base_loc(eng, st, args[0])
        v = V(l)
        n = length(v)

        def popped(s):
            x = elem(v, add(n, num(1), -1))
            eng.write_loc(s, l, v.a[0] if v.op == "snoc" else slice_(v, num(0), add(n, num(1), -1)))
            return F(s, some(x))

        return branch(eng, st, eq(n, num(0)), lambda s: F(s, NONE), popped)
    if key == "Vec::insert":
        l = base_loc(eng, st, args[0])
        v, i, x = V(l), V(args[1]), V(args[2])

        def inserted(s):
            eng.write_loc(s, l, cat(snoc(slice_(v, num(0), i), x), slice_(v, i, length(v))))
            return F(s, UNIT)

        return within(eng, st, ctx, ((lt(length(v), i), False),), inserted)
    if key == "Vec::remove":
        l = base_loc(eng, st, args[0])
        v, i = V(l), V(args[1])

        def removed(s):
            eng.write_loc(s, l, cat(slice_(v, num(0), i), slice_(v, add(i, num(1)), length(v))))
            return F(s, elem(v, i))

        return within(eng, st, ctx, ((lt(i, length(v)), True), (lt(i, num(0)), False)), removed)
    if key in ("Vec::clear", "String::clear"):
        eng.write_loc(st, base_loc(eng, st, args[0]), joined() if ty == "String" else EMPTY)
        return F(st, UNIT)
    if key == "Vec::truncate":
        l = base_loc(eng, st, args[0])
        v, n = V(l), V(args[1])

        def trunc(s):
            eng.write_loc(s, l, slice_(v, num(0), n))
            return F(s, UNIT)

        return branch(eng, st, lt(n, length(v)), trunc, lambda s: F(s, UNIT))
    if key in ("Index::index", "IndexMut::index_mut", "SliceIndex::index"):
        mut = meth == "index_mut"
        l = base_loc(eng, st, args[0]) if mut else None
        v, i = V(args[0]), V(args[1])
        if any(("::" + t + "<") in c.get("self", "") for t in MAP_TY):
            return F(st, app("mapget", v, i))
        if i.op == "agg" and (i.a[0].startswith("Range") or i.a[0] == "RangeFull"):
            r = range_of(v, i)
            if r is None:
                return None
            lo, hi = r
            return within(eng, st, ctx, ((lt(hi, lo), False), (lt(length(v), hi), False), (lt(lo, num(0)), False)), lambda s: F(s, slice_(v, lo, hi)))
        # the access succeeds only inside the sequence
        return within(eng, st, ctx, ((lt(i, length(v)), True), (lt(i, num(0)), False)), lambda s: F(s, plus(l, ("i", i)) if mut else elem(v, i)))
    if key == "RangeInclusive::new":
        return F(st, agg("Range", "", (("start", V(args[0])), ("end", add(V(args[1]), num(1))))))
    if meth == "contains" and ty in ("Range", "RangeInclusive", "RangeFrom", "RangeTo"):
        v, x = V(args[0]), V(args[1])
        if v.op == "agg":
            lo, hi = aggget(v, "start"), aggget(v, "end")
            if lo is None or hi is None:
                return F(st, eng.decided(st, neg(lt(x, lo)) if hi is None else lt(x, hi)))
            return branch(eng, st, lt(x, lo), lambda s: F(s, FALSE), lambda s: F(s, eng.decided(s, lt(x, hi))))
    if key == "ExactSizeIterator::len":
        n = left_of(V(args[0]))
        return None if n is None else F(st, n)
    if key in ("slice::ends_with", "str::ends_with"):
        v, t = V(args[0]), V(args[1])
        n = add(length(v), length(t), -1)
        return branch(eng, st, lt(n, num(0)), lambda s: F(s, FALSE), lambda s: F(s, eng.decided(s, app("matches_at", v, n, t))))
    if key in ("slice::strip_prefix", "str::strip_prefix"):
        v, t = V(args[0]), V(args[1])
        return branch(eng, st, starts(v, t), lambda s: F(s, some(slice_(v, length(t), length(v)))), lambda s: F(s, NONE))
    if key in ("slice::split_at", "str::split_at"):
        v, n = V(args[0]), V(args[1])
        return within(eng, st, ctx, ((lt(length(v), n), False),), lambda s: F(s, mk("agg", "tuple", "", (("0", slice_(v, num(0), n)), ("1", slice_(v, n, length(v)))))))
    if key == "Vec::split_off":
        l = base_loc(eng, st, args[0])
        v, n = V(l), V(args[1])

        def off(s):
            eng.write_loc(s, l, slice_(v, num(0), n))
            return F(s, slice_(v, n, length(v)))

        return within(eng, st, ctx, ((lt(length(v), n), False),), off)
    if key == "Vec::append":
        l, l2 = base_loc(eng, st, args[0]), base_loc(eng, st, args[1])
        if l is None or l2 is None:
            return None
        eng.write_loc(st, l, cat(V(l), V(l2)))
        eng.write_loc(st, l2, EMPTY)
        return F(st, UNIT)
    if key in ("slice::swap",):
        l = base_loc(eng, st, args[0])
        v, i, j = V(l), V(args[1]), V(args[2])

        def swapped(s):
            eng.write_loc(s, l, setelem(setelem(v, i, elem(v, j)), j, elem(v, i)))
            return F(s, UNIT)

        return within(eng, st, ctx, ((lt(i, length(v)), True), (lt(j, length(v)), True)), swapped)
    if key == "Vec::drain":
        l = base_loc(eng, st, args[0])
        v, i = V(l), V(args[1])
        r = range_of(v, i) if i.op == "agg" else None
        if r is None:
            return None
        lo, hi = r

        def drained(s):
            eng.write_loc(s, l, cat(slice_(v, num(0), lo), slice_(v, hi, length(v))))
            return F(s, slice_iter(slice_(v, lo, hi)))

        return within(eng, st, ctx, ((lt(hi, lo), False), (lt(length(v), hi), False)), drained)
    if key in ("slice::starts_with", "str::starts_with"):
        return F(st, eng.decided(st, starts(V(args[0]), V(args[1]))))
    if key in ("slice::binary_search", "slice::binary_search_by_key", "slice::binary_search_by"):
        v = V(args[0])
        if meth == "binary_search":
            k, l = V(args[1]), app("λ", inp("λ0"))
        elif meth == "binary_search_by_key":
            k, l = V(args[1]), lam(eng, st, args[2], 1)
        else:
            l = lam(eng, st, args[1], 1)
            k = UNIT
            # |x| key(x).cmp(k)
            if l.op == "app" and l.a[0] == "λ" and l.a[1][0].op == "app" and l.a[1][0].a[0] == "cmp":
                x, y = l.a[1][0].a[1]
                if not free(y, {inp("λ0")}):
                    k, l = y, app("λ", x)
        r = app("bsearch", v, l, k)

        def found(s):
            i = payload(r, "Result", "Ok")
            if not s.facts.assume(lt(i, length(v)), True):
                return []
            kv = apply_lam(l, [elem(v, i)])
            if kv is not None and k is not UNIT:
                e = match_eq(kv, k)
                if not s.facts.assume(e, True):
                    return []
            return F(s, ok(i))

        return variants(eng, st, r, "Result", {"Ok": found, "Err": lambda s: F(s, err(payload(r, "Result", "Err")))})
    if key in ("slice::partition_point", "VecDeque::partition_point"):
        w = boundary(lam(eng, st, args[1], 1))
        if w is not None:
            l, k, incl = w
            r = app("bsearch", V(args[0]), l, k)
            at = lambda what, more: lambda s: F(s, add(payload(r, "Result", what), num(more)))
            return variants(eng, st, r, "Result", {"Ok": at("Ok", 1 if incl else 0), "Err": at("Err", 0)})
    if key in ("slice::sort_by", "slice::sort_by_key", "slice::sort", "slice::sort_unstable", "slice::sort_unstable_by", "slice::sort_unstable_by_key", "slice::sort_by_cached_key"):
        l = base_loc(eng, st, args[0])
        v = V(l)
        if meth in ("sort", "sort_unstable"):
            k = app("λ", inp("λ0"))
        elif "key" in meth:
            k = lam(eng, st, args[1], 1)
        else:
            k = key_of_cmp(lam(eng, st, args[1], 2))
        eng.write_loc(st, l, app("sorted_by", v, k))
        return F(st, UNIT)
    if key == "slice::reverse":
        l = base_loc(eng, st, args[0])
        eng.write_loc(st, l, app("reversed", V(l)))
        return F(st, UNIT)
    if key in ("slice::iter", "Vec::iter", "str::bytes", "Vec::drain_all", "HashMap::iter", "HashSet::iter", "HashMap::into_iter", "VecDeque::iter", "HashMap::keys", "HashMap::values", "HashMap::into_values", "HashMap::into_keys", "BTreeMap::iter", "BTreeSet::iter", "BTreeMap::keys", "BTreeMap::into_keys"):
        v = V(args[0])
        if ty in MAP_TY:
            v = map_items(ty, "keys" if "keys" in meth or "Set" in ty else "values" if "values" in meth else "items", v)
        return F(st, slice_iter(v))
    if key in ("slice::iter_mut",):
        l = base_loc(eng, st, args[0])
        return F(st, agg("SliceIterMut", "", (("seq", l), ("front", num(0)), ("back", length(V(l))))))
    if key in ("str::chars", "str::char_indices"):
        v = V(args[0])
        r = app(meth, v)
        empty = st.facts.decide(eq(length(v), num(0)))
        if empty is not None:
            st.facts.assume(eq(length(r), num(0)), empty)  # what has bytes has characters
        return F(st, slice_iter(r))
    if key == "IntoIterator::into_iter":
        v = V(args[0])
        if v.op == "agg" and ("Iterator", v.a[0], "next") in eng.p.impls or (v.op == "agg" and v.a[0] in ("Range", "RangeFrom", "SliceIterMut", "MapIterMut")):
            return F(st, args[0] if args[0].op == "loc" else v)
        if v.op == "agg" and v.a[0] == "Option" or head_ty(c) == "Option":
            return F(st, agg("OptionIter", "", (("item", v),)))
        s = c.get("self", "")
        if s.startswith("&mut ") or re.match(r"&'\w+ mut ", s):
            l = base_loc(eng, st, args[0])
            if l is not None and any(x in s for x in MAP_TY):
                return F(st, map_iter_mut(eng, st, l, "items"))
            if l is not None:
                return F(st, agg("SliceIterMut", "", (("seq", l), ("front", num(0)), ("back", length(V(l))))))
        if head_ty(c) in MAP_TY:
            return F(st, slice_iter(map_items(head_ty(c), "keys" if "Set" in head_ty(c) else "items", v)))
        if any(x in c.get("head", "") for x in ("Vec", "prim:[", "VecDeque")) or v.op in ("seq", "snoc", "cat", "slice"):
            return F(st, slice_iter(v))
        return F(st, v)
    if key == "Iterator::next" or key == "DoubleEndedIterator::next_back":
        l = base_loc(eng, st, args[0])
        v = V(args[0])
        if v.op == "agg" and v.a[0] == "SliceIterMut":
            fr, bk, sq = aggget(v, "front"), aggget(v, "back"), aggget(v, "seq")

            def nxt(s):
                if meth == "next":
                    eng.write_loc(s, l, setfld(v, "SliceIterMut", "", "front", add(fr, num(1))))
                    return F(s, some(plus(sq, ("i", fr))))
                b = add(bk, num(1), -1)
                eng.write_loc(s, l, setfld(v, "SliceIterMut", "", "back", b))
                return F(s, some(plus(sq, ("i", b))))

            return branch(eng, st, lt(fr, bk), nxt, lambda s: F(s, NONE))
        if v.op == "agg" and v.a[0] == "MapIterMut" and meth == "next":
            fr, ks, m = aggget(v, "front"), aggget(v, "keys"), aggget(v, "map")

            def nxm(s):
                eng.write_loc(s, l, setfld(v, "MapIterMut", "", "front", add(fr, num(1))))
                k = elem(ks, fr)
                at = plus(m, ("mv", k))
                return F(s, some(at if aggget(v, "what") is VALUES else mk("agg", "tuple", "", (("0", k), ("1", at)))))

            return branch(eng, st, lt(fr, length(ks)), nxm, lambda s: F(s, NONE))
        if v.op == "agg" and v.a[0] == "Range":
            a, b = aggget(v, "start"), aggget(v, "end")

            def nx(s):
                if meth == "next":
                    eng.write_loc(s, l, setfld(v, "Range", "", "start", add(a, num(1))))
                    return F(s, some(a))
                b1 = add(b, num(1), -1)
                eng.write_loc(s, l, setfld(v, "Range", "", "end", b1))
                return F(s, some(b1))

            return branch(eng, st, lt(a, b), nx, lambda s: F(s, NONE))
        if v.op == "agg" and v.a[0] == "RangeFrom":
            a = aggget(v, "start")
            eng.write_loc(st, l, setfld(v, "RangeFrom", "", "start", add(a, num(1))))
            return F(st, some(a))
        return None
    if key in ("Iterator::try_fold", "Iterator::try_for_each"):
        r = (c.get("targs") or [""])[-1]
        what = "_option" if r.startswith("std::option::Option") else "_flow" if r.startswith("std::ops::ControlFlow") else ""
        return eng.push(st, eng.p.model["Iterator_" + meth + what], args, ctx)
    if key == "Iterator::collect":
        v = V(args[0])
        tgt = c.get("targs", ["", ""])[-1]
        if tgt.startswith("std::vec::Vec") or tgt.startswith("std::collections::VecDeque") or tgt.startswith("std::boxed::Box<["):
            sq = as_list(v)
            if sq is not None:
                return F(st, sq)
            m = "Iterator_collect_vec"
        elif tgt.startswith("std::result::Result<std::vec::Vec"):
            m = "Iterator_collect_result"
        elif tgt.startswith("std::result::Result<std::collections::HashMap"):
            m = "Iterator_collect_result_map"
        elif tgt.startswith("std::result::Result<std::collections::HashSet"):
            m = "Iterator_collect_result_set"
        elif tgt.startswith("std::option::Option<std::vec::Vec"):
            m = "Iterator_collect_option"
        elif "HashMap" in tgt.split("<")[0]:
            m = "Iterator_collect_map"
        elif "HashSet" in tgt.split("<")[0]:
            m = "Iterator_collect_set"
        elif tgt == "std::string::String":
            m = "Iterator_collect_string"
        elif tgt.startswith("std::result::Result<()"):
            m = "Iterator_collect_unit_result"
        else:
            return None
        return eng.push(st, eng.p.model[m], [v], ctx)
    if key == "Box::new_uninit":
        return F(st, mk("loc", ("h", eng.newfid()), ()))
    if key in ("boxed::box_assume_init_into_vec_unsafe",):
        return F(st, V(args[0]))
    if key == "mem::take" or key == "Option::take":
        l = base_loc(eng, st, args[0])
        v = V(l)
        d = default_of(ctx.dty, v) if key == "mem::take" else NONE
        if d is None:
            return None
        eng.write_loc(st, l, d)
        return F(st, v)
    if key in ("mem::replace", "Option::replace"):
        l = base_loc(eng, st, args[0])
        v = V(l)
        x = V(args[1])
        eng.write_loc(st, l, some(x) if ty == "Option" else x)
        return F(st, v)
    if key == "Option::insert":
        l = base_loc(eng, st, args[0])
        eng.write_loc(st, l, some(V(args[1])))
        return F(st, plus(l, ("f", 0, "0", "Option", "Some")))
    if key == "Option::as_mut":
        l = base_loc(eng, st, args[0])
        return variants(eng, st, V(l), "Option", {"Some": lambda s: F(s, some(plus(l, ("f", 0, "0", "Option", "Some")))), "None": lambda s: F(s, NONE)})
    if key in ("Option::unwrap_or_default", "Result::unwrap_or_default"):
        d = default_of(ctx.dty, None)
        return None if d is None else eng.push(st, eng.p.model[ty + "_unwrap_or"], [args[0], d], ctx)
    if key == "Default::default":
        d = default_of(ctx.dty, None)
        if d is not None:
            return F(st, d)
        return None
    if key in ("mem::drop", "mem::forget"):
        return F(st, UNIT)

    if key in PURE_TEXT:
        return F(st, app(key, *[V(a) for a in args]))
    if key in ("str::lines", "str::split_whitespace", "str::split_ascii_whitespace", "str::split", "str::split_terminator"):
        return F(st, slice_iter(app(key, *[V(a) for a in args])))
    if key in ("str::from_utf8", "String::from_utf8"):
        v = V(args[0])
        return branch(eng, st, app("utf8", v), lambda s: F(s, ok(v)), lambda s: F(s, err(app("utf8err", v))))
    if key == "str::is_char_boundary":
        v, i = V(args[0]), V(args[1])
        return F(st, eng.decided(st, app("boundary", v, i)))
    if key == "Match::as_bytes":
        v = V(args[0])
        if v.op == "fld" and v.a[2] == "Some" and v.a[0].op == "app" and str(v.a[0].a[0]).endswith("::find") and len(v.a[0].a[1]) > 1:
            return F(st, slice_(v.a[0].a[1][1], num(0), app("Match::end", v)))
    if key in ("str::replace", "str::replacen"):
        # a pattern may be given as a character or as a text
        return F(st, app(key, V(args[0]), *[app("char", V(a)) for a in args[1:2]], *[V(a) for a in args[2:]]))

    # ------------------------------------------------ maps and sets
    if ty in MAP_TY:
        if meth in ("new", "with_capacity"):
            return F(st, app("mapnew"))
        m = V(args[0])
        if meth == "len":
            return F(st, app("maplen", m))
        if meth == "is_empty":
            return F(st, eq(app("maplen", m), num(0)))
        if meth in ("contains_key", "contains"):
            return F(st, eng.decided(st, app("haskey", m, V(args[1]))))
        if meth == "get":
            k = V(args[1])
            return branch(eng, st, app("haskey", m, k), lambda s: F(s, some(app("mapget", m, k))), lambda s: F(s, NONE))
        if meth == "insert":
            l = base_loc(eng, st, args[0])
            k = V(args[1])
            h = app("haskey", m, k)
            if ty.endswith("Set"):
                # inserting a present element changes nothing
                def put(s):
                    eng.write_loc(s, l, app("mapput", m, k, UNIT))
                    return F(s, TRUE)
                return branch(eng, st, h, lambda s: F(s, FALSE), put)
            nv = V(args[2])

            def putm(s, r):
                eng.write_loc(s, l, app("mapput", m, k, nv))
                return F(s, r)
            return branch(eng, st, h, lambda s: putm(s, some(app("mapget", m, k))), lambda s: putm(s, NONE))
        if meth == "remove":
            l = base_loc(eng, st, args[0])
            k = V(args[1])
            isset = ty.endswith("Set")

            def gone(s):
                x = TRUE if isset else some(app("mapget", m, k))
                r = app("mapdel", m, k)
                while r.op == "app" and r.a[0] == "mapdel" and s.facts.decide(app("haskey", r.a[1][0], r.a[1][1])) is False:
                    r = r.a[1][0]
                eng.write_loc(s, l, r)
                return F(s, x)

            return branch(eng, st, app("haskey", m, k), gone, lambda s: F(s, FALSE if isset else NONE))
        if meth == "clear":
            eng.write_loc(st, base_loc(eng, st, args[0]), app("mapnew"))
            return F(st, UNIT)
        if meth == "drain":
            eng.write_loc(st, base_loc(eng, st, args[0]), app("mapnew"))
            return F(st, slice_iter(map_items(ty, "keys" if ty.endswith("Set") else "items", m)))
        if meth == "retain":
            l = base_loc(eng, st, args[0])
            f = lam(eng, st, args[1], 1 if ty.endswith("Set") else 2)
            if not (f.op == "lamcase" or f.op == "app" and f.a[0] == "λ"):
                return None
            eng.write_loc(st, l, app("mapkeep", m, f))
            return F(st, UNIT)
        if meth in ("get_mut",):
            l = base_loc(eng, st, args[0])
            k = V(args[1])
            return branch(eng, st, app("haskey", m, k), lambda s: F(s, some(plus(l, ("mv", k)))), lambda s: F(s, NONE))
        if meth in ("iter_mut", "values_mut"):
            return F(st, map_iter_mut(eng, st, base_loc(eng, st, args[0]), "values" if meth == "values_mut" else "items"))
        if meth == "entry":
            l = base_loc(eng, st, args[0])
            return F(st, agg("MapEntry", "", (("key", V(args[1])), ("map", l))))
    if ty == "Entry":
        e = V(args[0])
        if e.op == "agg" and e.a[0] == "MapEntry":
            l, k = aggget(e, "map"), aggget(e, "key")
            m = eng.read_loc(st, l)
            h = app("haskey", m, k)
            pl = plus(l, ("mv", k))

            def put(en, s, v):
                en.write_loc(s, l, app("mapput", en.read_loc(s, l), k, en.val(s, v)))
                return en.finish(s, ctx, pl)

            if meth == "or_insert_with":
                return branch(eng, st, h, lambda s: F(s, pl), lambda s: eng.call_closure(s, args[1], [], ctx.then(put)))
            if meth == "and_modify":
                return branch(eng, st, h, lambda s: eng.call_closure(s, args[1], [pl], ctx.then(lambda en, s2, r: en.finish(s2, ctx, e))), lambda s: F(s, e))
            if meth == "or_insert":
                return branch(eng, st, h, lambda s: F(s, pl), lambda s: put(eng, s, args[1]))
            if meth == "or_default":
                inner = ctx.dty[0].replace("&mut ", "", 1)
                d = default_of([inner, ctx.dty[1]], None)
                if d is not None:
                    return branch(eng, st, h, lambda s: F(s, pl), lambda s: put(eng, s, d))
    if ty == "OnceCell":
        return oncecell(eng, st, meth, args, ctx)
    return None


# functions of a text alone: what they deliver is told apart by what they are given
PURE_TEXT = {"str::trim", "str::trim_start", "str::trim_end", "str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase",
             "str::eq_ignore_ascii_case", "slice::eq_ignore_ascii_case", "slice::to_ascii_lowercase", "slice::to_ascii_uppercase", "str::trim_matches",
             "str::trim_start_matches", "str::trim_end_matches", "str::repeat", "slice::trim_ascii", "slice::trim_ascii_start", "slice::trim_ascii_end",
             "str::escape_debug", "str::escape_default", "u8::is_ascii_whitespace", "u8::is_ascii_alphabetic", "u8::is_ascii_digit", "u8::is_ascii_alphanumeric",
             "u8::is_ascii_punctuation", "u8::to_ascii_lowercase", "u8::to_ascii_uppercase", "u8::is_ascii", "str::is_ascii", "slice::is_ascii",
             "char::is_whitespace", "char::is_alphabetic", "char::is_alphanumeric", "char::is_ascii_whitespace", "char::len_utf8", "str::find", "str::rfind", "str::split_once", "str::rsplit_once", "str::parse", "char::is_alphanumeric", "char::is_control",
             "usize::is_power_of_two", "num::is_power_of_two", "num::div_ceil", "num::next_multiple_of", "num::count_ones", "num::leading_zeros", "num::trailing_zeros", "num::pow"}


def oncecell(eng, st, meth, args, ctx):
    F = lambda s, v: eng.finish(s, ctx, v)
    if meth in ("new", "default"):
        # which cell it is: told by the way to where it is made
        return F(st, app("cellnew", mk("str", "/".join("%s@%s" % (f.fn.name, f.block) for f in st.frames))))
    if meth in ("with_value", "from"):
        return F(st, app("cellwith", eng.val(st, args[0])))
    cell = eng.val(st, args[0])
    key = ("cell", cell)
    cur = st.store.get(key)
    if cur is None:
        if cell.op == "app" and cell.a[0] == "cellnew":
            cur = NONE
        else:
            cur = app("cellget", cell)
    if meth == "get":
        return F(st, cur)
    if meth == "set":
        v = eng.val(st, args[1])

        def put(s):
            s.store[key] = some(v)
            return F(s, ok(UNIT))

        return variants(eng, st, cur, "Option", {"Some": lambda s: F(s, err(v)), "None": put})
    if meth == "get_or_init":
        name = cell.a[3] if cell.op == "fld" else "?"
        fv = eng.val(st, args[1])
        if fv.op == "closure":
            eng.inits.setdefault(name, set()).add(fv.a[0])
        if name in eng.exact_cells or eng.exact_cells == "all":
            def put(en, s, v):
                s.store[key] = some(en.val(s, v))
                return en.finish(s, ctx, en.val(s, v))
            return variants(eng, st, cur, "Option", {"Some": lambda s: F(s, payload(cur, "Option", "Some")), "None": lambda s: eng.call_closure(s, args[1], [], ctx.then(put))})
        if cur.op == "agg":
            if cur.a[1] == "Some":
                return F(st, aggget(cur, "0"))
        v = app("cellval", cell)
        return F(st, v)
    return None


def default_of(dty, old):
    t = dty[0]
    if re.match(r"&('\w+ )?str$", t):
        return mk("str", "")
    if t.startswith("std::string::String") or t == "String":
        return joined()
    if t.startswith("std::vec::Vec"):
        return EMPTY
    if re.match(r"(std::collections::)?(hash_\w+::)?Hash(Map|Set)<", t):
        return app("mapnew")
    if t in ("usize", "u32", "u64", "i32", "i64", "u8"):
        return num(0)
    if t == "bool":
        return FALSE
    if t.startswith("std::option::Option"):
        return NONE
    if t == "()":
        return UNIT
    return None


def range_of(v, i):
    k = i.a[0]
    g = lambda n: aggget(i, n)
    if k == "Range":
        return g("start"), g("end")
    if k == "RangeFrom":
        return g("start"), length(v)
    if k == "RangeTo":
        return num(0), g("end")
    if k == "RangeFull":
        return num(0), length(v)
    if k == "RangeInclusive" and g("start") is not None:
        return g("start"), add(g("end"), num(1))
    if k == "RangeToInclusive":
        return num(0), add(g("end"), num(1))
    return None


def starts(s, t):
    if s.op == "slice" and s.a[2] is length(s.a[0]):
        return app("matches_at", s.a[0], s.a[1], t)
    if s.op == "slice":
        return app("starts_with", s, t)
    return app("matches_at", s, num(0), t)


def match_eq(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "slice" and y.op != "slice" and add(x.a[2], x.a[1], -1) is length(y):
            return app("matches_at", x.a[0], x.a[1], y)
    return eq(a, b)


def within(eng, st, ctx, conds, then):
    """an access that succeeds only where the conditions hold; going on, they are known to"""
    out = []
    for t, v in conds:
        if eng.checks and st.facts.decide(t) is None:
            bad = st.copy()
            if bad.facts.assume(t, not v):
                out += eng.panic(bad, ctx, "index")
        if not st.facts.assume(t, v):
            return out + eng.panic(st, ctx, "index")
    return out + then(st)
