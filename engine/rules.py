"""Analyses over the whole crate: effects, memo discipline, unsafe code, output, zero-width
productions and compile-fail witnesses.

Each rule gets the programs by build mode and the directory of the facts and answers with
(findings, coverage).  A finding names the construct: function, file, line and what is wrong with it."""
import os
import re
import subprocess
import tempfile
import shutil
from collections import namedtuple

from engine import Engine, adt_name, key2, Unsupported, Budget
from terms import show, num, subterms

Finding = namedtuple("Finding", "what fn file line detail key")

ADVANCE = {"advance_fltr_ptr", "advance_token_ptr", "advance_ptr"}
PARSE_TRAITS = {"IProduction": ADVANCE, "ILexeme": {"consume"}, "ITokenization": {"tokenize"}}
PARSE_FNS = {"DefaultParser": {"parse", "parse_stream", "tokenize", "tokenize_n_parse"}, "LexerlessParser": {"parse"}}
# what lives no longer than one parse
PER_PARSE = {"Code", "Cache", "TokenStream", "TokenPtr", "FltrPtr", "Lex", "SuccessData", "ASTNode", "ProductionError", "ParseError", "Position"}
CELLS = {"OnceCell", "OnceLock", "LazyCell", "LazyLock", "Lazy", "Cell", "RefCell", "UnsafeCell", "Mutex", "RwLock", "LocalKey",
         "AtomicBool", "AtomicUsize", "AtomicU8", "AtomicU16", "AtomicU32", "AtomicU64", "AtomicI32", "AtomicI64", "AtomicIsize", "AtomicPtr"}
READS = {"new", "get", "default", "borrow", "try_borrow", "load", "fmt", "clone", "into_inner", "from", "with_value", "is_some", "is_none", "eq"}


def fns_of(p):
    return [f for (ns, _), f in p.fns.items() if ns == "r"]


def impl_of(f):
    r = f.raw
    return adt_name(r.get("head", "").split(":", 1)[-1]), adt_name(r.get("trait") or r.get("intrait") or "")


def operands(b):
    """all operands of a block"""
    for s in b["s"]:
        if s[0] != "=":
            continue
        r = s[2]
        k = r[0]
        if k in ("use", "rep"):
            yield r[1]
        elif k == "cast":
            yield r[2]
        elif k == "bin":
            yield r[2]
            yield r[3]
        elif k == "un":
            yield r[2]
        elif k == "agg":
            for o in r[2]:
                yield o
    t = b["t"]
    if t[0] == "call":
        yield t[1]
        for o in t[2]:
            yield o
    elif t[0] in ("switch", "assert"):
        yield t[1]


class Calls:
    """call graph: direct calls, calls through traits to every implementation in the crate,
    closures and functions handed on"""

    def __init__(self, p):
        self.p = p
        self.by_id = {f.id: f for f in fns_of(p)}
        self.impls = {}
        for f in self.by_id.values():
            _, tr = impl_of(f)
            if tr and f.raw["kind"] != "Closure":
                self.impls.setdefault((tr, f.name), []).append(f.id)
        self.edges = {i: self.out(f) for i, f in self.by_id.items()}

    def targets(self, c):
        out = set()
        if c.get("local"):
            out.add(c["local"])
        if c.get("rkind") == "item" and c.get("local"):
            return out
        if c.get("trait"):
            out.update(self.impls.get((adt_name(c["trait"]), c["name"]), ()))
        return out

    def out(self, f):
        res = set()
        if not f.blocks:
            return res
        for b in f.blocks:
            if b.get("cleanup"):
                continue
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                    res.add(s[2][1][1])
            for o in operands(b):
                if o[0] == "k":
                    if "fn" in o[1]:
                        res |= self.targets(o[1]["fn"])
                    elif "closure" in o[1]:
                        res.add(o[1]["closure"])
        return {r for r in res if r in self.by_id}

    def reach(self, roots, stop=lambda f: False):
        seen, w = {r: None for r in roots}, list(roots)
        while w:
            x = w.pop()
            for y in sorted(self.edges.get(x, ())):
                if y not in seen and not stop(self.by_id[y]):
                    seen[y] = x
                    w.append(y)
        return seen


def chain(seen, i):
    out = []
    while i is not None and len(out) < 12:
        out.append(i)
        i = seen.get(i)
    return " < ".join(out)


def parse_roots(p):
    out = []
    for f in fns_of(p):
        if f.raw["kind"] == "Closure":
            continue
        t, tr = impl_of(f)
        if f.name in PARSE_TRAITS.get(tr, ()) or not tr and f.name in PARSE_FNS.get(t, ()):
            out.append(f.id)
    return sorted(out)


def types_in(s):
    return set(re.findall(r"[A-Za-z_]\w*", s))


def example(f):
    return "/examples/" in f.file or "/tests/" in f.file


INPUT_TYPES = {"Code", "Cache", "TokenStream", "TokenPtr", "FltrPtr", "Lex", "SuccessData", "ASTNode", "ProductionError", "ParseError", "Position"}


def sees_input(f, by_id, depth=0):
    """can a function get at anything of the current input through its parameters or captures?"""
    if f.raw["kind"] == "Closure":
        caps = captured(f, by_id)
        params = [f.locals[i][0] for i in range(2, f.argc + 1)]
    else:
        caps, params = [], [f.locals[i][0] for i in range(1, f.argc + 1)]
        t, tr = impl_of(f)
        if t in PER_PARSE:
            return t
    for s in caps + params:
        x = types_in(s) & INPUT_TYPES
        if x:
            return sorted(x)[0]
        if re.search(r"(^|[&( <])(usize|u8|\[u8\]|str)\b", re.sub(r"'\w+ ", "", s)) and not "HashMap" in s and not "dyn IProduction" in s:
            if s in caps:
                return s
            if "str" not in s:
                return s
    return None


def captured(f, by_id):
    parent = by_id.get(f.raw["parent"])
    out = []
    for g in by_id.values():
        for b in g.blocks or []:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure" and s[2][1][1] == f.id:
                    for o in s[2][2]:
                        if o[0] in ("c", "m") and not o[1][1]:
                            out.append(g.locals[o[1][0]][0])
                        else:
                            out.append("?")
    return out


def cell_ops(f):
    """(block, callee, kind of cell) of the calls that work on interior mutability"""
    for b in f.blocks or []:
        if b.get("cleanup"):
            continue
        t = b["t"]
        if t[0] != "call" or t[1][0] != "k" or "fn" not in t[1][1]:
            continue
        c = t[1][1]["fn"]
        h = adt_name(c.get("head", "").split(":", 1)[-1])
        segs = [x for x in re.split(r"::|[<>]", c["path"]) if x]
        kind = h if h in CELLS else next((x for x in segs if x in CELLS), None)
        if kind:
            yield b, c, kind


def cell_field(f, b):
    """field the cell of a call lives in: (owner, name)"""
    a = b["t"][2]
    if not a or a[0][0] not in ("c", "m"):
        return None
    l, pr = a[0][1]
    for _ in range(8):
        for e in reversed(pr):
            if e[0] == "f":
                return adt_name(e[3]), e[2]
        d = [s for bb in f.blocks for s in bb["s"] if s[0] == "=" and s[1] == [l, []]]
        if len(d) != 1:
            return None
        r = d[0][2]
        if r[0] == "ref":
            l, pr = r[2]
        elif r[0] in ("use", "cast"):
            o = r[1] if r[0] == "use" else r[2]
            if o[0] not in ("c", "m"):
                return None
            l, pr = o[1]
        else:
            return None
    return None


def purity(programs, dir):
    """nothing that is reachable while tokenizing or parsing changes what outlives it, except
    set-once cells filled by code that has no access to the input"""
    out, cov = [], {}
    for mode, p in programs.items():
        cg = Calls(p)
        roots = parse_roots(p)
        seen = cg.reach(roots)
        nops = 0
        for i in sorted(seen):
            f = cg.by_id[i]
            if example(f):
                continue
            for b, c, kind in cell_ops(f):
                if c["name"] in READS:
                    continue
                nops += 1
                t = b["t"]
                w = cell_field(f, b)
                if w and w[0] in PER_PARSE:
                    continue  # kept with the input itself
                if kind in ("OnceCell", "OnceLock") and c["name"] in ("set", "get_or_init", "get_or_try_init"):
                    # the value must come from code that cannot see the input
                    bad = None
                    if c["name"] == "set":
                        bad = sees_input(f, cg.by_id)
                    else:
                        o = t[2][1] if len(t[2]) > 1 else None
                        bad = initialiser(f, o, cg)
                    if bad is None:
                        continue
                    why = f"a set-once cell that outlives the parse is filled with what may depend on the input ({bad})"
                else:
                    why = f"{kind}::{c['name']} changes what outlives the parse"
                out.append(Finding(why, i, t[5], t[6], "reached while parsing: " + chain(seen, i), f"{i}|{kind}::{c['name']}|{w}"))
            for s, what in statics(f):
                out.append(Finding(what, i, f.file, s, "reached while parsing: " + chain(seen, i), f"{i}|static"))
        cov[mode] = {"entry_points": len(roots), "reachable_functions": len(seen), "cell_writes_judged": nops}
    return out, cov


def initialiser(f, o, cg):
    """None, or how the function that fills a cell can see the input"""
    if o is None:
        return "?"
    cl = None
    if o[0] == "k":
        c = o[1]
        if "closure" in c:
            cl = c["closure"]
        elif "fn" in c and c["fn"].get("local"):
            cl = c["fn"]["local"]
        else:
            return None  # a library function without arguments
    else:
        l = o[1][0]
        for _ in range(6):
            d = [s for bb in f.blocks for s in bb["s"] if s[0] == "=" and s[1] == [l, []]]
            if len(d) != 1:
                break
            r = d[0][2]
            if r[0] == "agg" and r[1][0] == "closure":
                cl = r[1][1]
                break
            if r[0] == "use" and r[1][0] in ("c", "m") and not r[1][1][1]:
                l = r[1][1][0]
            elif r[0] == "use" and r[1][0] == "k" and "closure" in r[1][1]:
                cl = r[1][1]["closure"]
                break
            else:
                break
    if cl is None or cl not in cg.by_id:
        return "an initialiser that is handed in" if sees_input(f, cg.by_id) else None
    return sees_input(cg.by_id[cl], cg.by_id)


MUTABLE = re.compile(r"\*mut |Cell<|Cell\b|Mutex|RwLock|Atomic|LocalKey|OnceLock|Lazy")


def statics(f):
    """uses of statics that can change"""
    for b in f.blocks or []:
        for o in operands(b):
            if o[0] == "k" and "fn" not in o[1] and re.search(r"alloc|static", o[1].get("dbg", "")) and MUTABLE.search(o[1].get("ty", "")):
                yield f.line, "a mutable static is used: " + o[1]["ty"]


def memo_fresh(programs, dir):
    """the record of a parse is kept by nothing that outlives the parse"""
    out, n, k = [], 0, 0
    p = programs["off"]
    adts = {adt_name(a["path"]): a for a in p.raw["adts"]}
    holders = {"Cache"}
    changed = True
    while changed:
        changed = False
        for name, a in adts.items():
            for vn, fs in a["variants"]:
                for fd in fs:
                    n += 1
                    if name not in holders and types_in(fd[1]) & holders and name not in ("Cache",):
                        holders.add(name)
                        changed = True
    for name in sorted(holders - {"Cache"}):
        a = adts[name]
        out.append(Finding(f"the type {name} keeps the record of a parse", name, a.get("file", "src"), a.get("line", 0), "fields: " + "; ".join(f"{fd[0]}: {fd[1]}" for v in a["variants"] for fd in v[1]), f"holder|{name}"))
    # a captured record would outlive the parse as well: only parse functions may create one
    cg = Calls(p)
    roots = set()
    for f in fns_of(p):
        t, tr = impl_of(f)
        if t in PARSE_FNS and (not tr and f.name in PARSE_FNS[t]) or f.name in PARSE_TRAITS.get(tr, ()):
            roots.add(f.id)
    reach = cg.reach(sorted(roots))
    for f in fns_of(p):
        for b in f.blocks or []:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and adt_name(s[2][1][1]) == "Cache":
                    k += 1
                    if impl_of(f)[0] != "Cache" and f.id not in reach:
                        out.append(Finding("a record of a parse is created outside a parse", f.id, f.file, f.line, "", f"{f.id}|creates"))
    return out, {"fields_examined": n, "creations_examined": k}


# ---------------------------------------------------------------- zero-width productions
def zero_width(programs, dir):
    """a production that can succeed without moving, whatever its parts do, is possibly empty for
    the search for left recursion"""
    p = programs["off"]
    out, done = [], []
    for f in fns_of(p):
        t, tr = impl_of(f)
        if tr != "IProduction" or f.name not in ADVANCE or not f.raw.get("head"):
            continue
        n = next((g for g in fns_of(p) if impl_of(g) == (t, tr) and g.name == "obtain_nullability"), None)
        if n is None:
            continue
        try:
            from runner import EXACT, OPAQUE

            def summ(x):
                e = Engine(p)
                e.exact_cells = EXACT
                e.opaque = OPAQUE
                return e.summarize(x)

            stays = None
            for s in summ(f).segs:
                v = s.ret
                if s.kind != "ret" or v is None or v.op != "agg" or v.a[1] != "Ok":
                    continue
                if any("consumed_index" in show(x) for _, x, *_ in s.facts.log):
                    continue  # only when a part of it does not move either
                d = dict(v.a[2])["0"]
                if d.op == "agg" and d.a[0] == "SuccessData":
                    c = dict(d.a[2]).get("consumed_index")
                    if c is not None and c.op in ("arg", "in") or c is not None and is_position(c):
                        stays = s
            always = True
            any_ret = False
            for s in summ(n).segs:
                if s.kind != "ret" or s.ret is None:
                    always = always and s.kind == "panic"
                    continue
                any_ret = True
                v = s.ret
                if s.facts.variant(v) == "Err":
                    continue
                if v.op == "agg" and v.a[0] == "Result":
                    v = dict(v.a[2])["0"]
                if not (v.op == "bool" and v.a[0] is True):
                    always = False
            done.append(f"{t}::{f.name}")
            if stays is not None and not (always and any_ret):
                out.append(Finding(f"{t} can succeed without moving, but is not held to be possibly empty when left recursion is looked for",
                                   f.id, f.file, f.line, "on the path where: " + "; ".join((show(x) if b is True else f"{show(x)} is {b}")[:160] for _, x, b, *_ in stays.facts.log[:6]), f"{t}|{f.name}"))
        except (Unsupported, Budget):
            pass
    return out, {"productions": sorted(done)}


def is_position(c):
    return c.op == "var" or c.op == "param"


# ---------------------------------------------------------------- unsafe code
def unsafe(programs, dir):
    """no unsafe code but the reading of configured texts, in functions that no input reaches"""
    out, nf, trusted = [], 0, set()
    for mode, p in programs.items():
        cg = Calls(p)
        for f in fns_of(p):
            nf += 1
            if f.raw.get("unsafe") is True:
                out.append(Finding("an unsafe function", f.id, f.file, f.line, "", f"{f.id}|fn"))
            lines = f.raw.get("unsafe_blocks") or []
            if not lines or f.raw["kind"] == "Closure" and not f.blocks:
                continue
            ops = []
            for b in f.blocks or []:
                t = b["t"]
                if b.get("cleanup"):
                    continue
                if t[0] == "call" and t[-1] is not True:
                    ty = t[1][1].get("ty", "") if t[1][0] == "k" else f.locals[t[1][1][0]][0]
                    if "unsafe fn(" in ty or "unsafe extern" in ty or t[1][0] == "k" and re.search(r"_unchecked(_mut)?$|::transmute|::ptr::|from_raw", t[1][1].get("fn", {}).get("path", "")):
                        ops.append((t[1][1]["fn"]["path"] if t[1][0] == "k" and "fn" in t[1][1] else ty, t[6]))
            root = cg.by_id.get(f.raw["parent"], f)
            see = sees_input(root, cg.by_id)  # what a closure is given comes from what its function has
            if ops and see is None and all(o[0].endswith("from_utf8_unchecked") for o in ops):
                trusted.add(f.id)
                continue
            if not ops and any(g.id != f.id and g.raw["parent"] == f.id and g.raw.get("unsafe_blocks") for g in cg.by_id.values()):
                continue  # the block is inside a closure, which is judged itself
            out.append(Finding("unsafe code " + (f"in reach of the input ({see})" if see else "beyond the reading of configured texts") + (": " + ", ".join(o[0] for o in ops) if ops else ""),
                               f.id, f.file, ops[0][1] if ops else lines[0], "", f"{f.id}|" + ",".join(sorted(o[0] for o in ops))))
        for s in p.raw.get("statics", ()):
            if s[2]:
                out.append(Finding("a mutable static", s[0], s[3], s[4], s[1], f"static|{s[0]}"))
    return dedup(out), {"functions": nf, "configured_texts_read_unchecked_in": sorted(trusted)}


def places(r):
    out = []
    for x in r:
        if isinstance(x, list) and len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list):
            out.append(x[1])
        elif isinstance(x, list) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            out.append(x)
    return out


def dedup(l):
    seen, out = set(), []
    for x in l:
        if x.key not in seen:
            seen.add(x.key)
            out.append(x)
    return out


# ---------------------------------------------------------------- output
PRINTERS = re.compile(r"(^|::)(_print|_eprint|stdout|stderr|dbg)$")


def print_sites(f):
    out = []
    for i, b in enumerate(f.blocks or ()):
        t = b["t"]
        if b.get("cleanup") or t[0] != "call" or t[1][0] != "k" or "fn" not in t[1][1]:
            continue
        if PRINTERS.search(t[1][1]["fn"]["path"]):
            out.append(i)
    return out


def prints(programs, dir):
    """without debug assertions nothing is printed; with them only where a log level was set"""
    out, cov = [], {}
    for mode, p in programs.items():
        n, paths = 0, 0
        cg = Calls(p) if mode == "on" else None
        for f in fns_of(p):
            if example(f):
                continue
            sites = print_sites(f)
            n += len(sites)
            if not sites or f.name in ("print", "fmt"):
                continue  # printing is what is asked for
            for i in sites if mode == "off" else ():
                t = f.blocks[i]["t"]
                out.append(Finding("a release build writes to the standard streams unasked", f.id, t[5], t[6], "", f"{f.id}|print"))
            if mode == "on":
                bad, k = unasked(p, cg, f, frozenset())
                paths += k
                if bad is not None:
                    t = f.blocks[sites[0]]["t"]
                    out.append(Finding("a debug build writes to the standard streams though no log level is set", f.id, t[5], t[6], bad, f"{f.id}|unguarded"))
        cov[mode] = {"print_calls": n}
        if mode == "on":
            cov[mode]["printing_paths"] = paths
    return dedup(out), cov


def unasked(p, cg, f, seen):
    """a way through the function that prints though no log level is known to be set there; where
    the function does not look at the level itself, those who call it have to"""
    from runner import EXACT, OPAQUE

    e = Engine(p)
    e.exact_cells, e.opaque, e.ignore_panic = EXACT, OPAQUE, True
    try:
        root = e.summarize(f)
    except (Unsupported, Budget, RecursionError) as x:
        for i in print_sites(f):
            if not guarded(f, i):
                return "without looking at a log level", 1
        return None, 1
    w, met, n, bad = [root], {root.id}, 0, None
    while w:
        x = w.pop()
        for s in x.segs:
            if s.target is not None and s.target.id not in met:
                met.add(s.target.id)
                w.append(s.target)
            if "print" not in s.flags:
                continue
            n += 1
            if any(l[0] == "v" and l[3] == "Log" and l[2] != "None" for l in s.facts.log):
                continue
            bad = "where " + ("; ".join(f"{show(l[1])[:80]} is {l[2]}" for l in s.facts.log[:6]) or "nothing was looked at")
    if bad is None:
        return None, n
    # a helper, or a closure: whoever runs it
    up = [g for g in fns_of(p) if g is not f and f.id in direct(g)]
    if not up or f.raw.get("pub") or f.id in seen or len(seen) > 3:
        return bad, n
    for g in up:
        b, k = unasked(p, cg, g, seen | {f.id})
        n += k
        if b is not None:
            return bad, n
    return None, n


def direct(f):
    """the functions this one itself calls, and the closures it makes"""
    out = set()
    for b in f.blocks or ():
        if b.get("cleanup"):
            continue
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                out.add(s[2][1][1])
        for o in operands(b):
            if o[0] == "k":
                out.add(o[1]["fn"].get("local") if "fn" in o[1] else o[1].get("closure"))
    return out


def guarded(f, site):
    """every way to the block passes a branch on a value got from a log cell, a debugger or a level"""
    f.prepare()
    tested = set()
    levels = level_locals(f)
    for i, b in enumerate(f.blocks):
        t = b["t"]
        if t[0] == "switch":
            o = t[1]
            if o[0] in ("c", "m") and o[1][0] in levels:
                tested.add(i)
    # can the block be reached without crossing one of them?
    seen, w = {0}, [0]
    while w:
        x = w.pop()
        if x == site:
            return False
        if x in tested:
            continue
        for y in f.succs(x):
            if y not in seen:
                seen.add(y)
                w.append(y)
    return True


def level_locals(f):
    """locals whose value comes from a log level"""
    lv = set()
    for i, l in enumerate(f.locals):
        if re.search(r"\bLog<", l[0]) and i > 0:
            lv.add(i)
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                src = [pl[0] for pl in places(s[2])]
                if s[2][0] in ("discr", "ref"):
                    src += [x[0] for x in s[2] if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int)]
                if s[1][0] not in lv and any(x in lv for x in src) and s[1][0] != 0:
                    lv.add(s[1][0])
                    ch = True
            t = b["t"]
            if t[0] == "call" and t[3][0] not in lv:
                if any(o[0] in ("c", "m") and o[1][0] in lv for o in t[2]):
                    lv.add(t[3][0])
                    ch = True
    return lv


# ---------------------------------------------------------------- compile-fail witnesses
PRELUDE = """#![allow(unused, dead_code)]
extern crate lang_pt;
use lang_pt::{TokenStream, FltrPtr, TokenPtr, TokenImpl};
"""
# (what may not be written, program, errors it must be refused with) ; the twin that differs in the
# marked expression only must compile
WITNESSES = [
    ("a position among all tokens where one among the structural tokens is asked for",
     "fn w<T: TokenImpl>(s: &TokenStream<T>, a: TokenPtr, b: FltrPtr) { let _ = s.get_token_ptr(%s); }", "a", "b", {"E0308"}),
    ("a position among the structural tokens where one among all tokens is asked for",
     "fn w<T: TokenImpl>(s: &TokenStream<T>, a: TokenPtr, b: FltrPtr) { let _ = s.find_filter_ptr(%s); }", "b", "a", {"E0308"}),
    ("comparing positions of the two views for order", "fn w(a: TokenPtr, b: FltrPtr, c: TokenPtr, d: FltrPtr) -> bool { %s }", "a < b", "a < c", {"E0308", "E0277", "E0369"}),
    ("comparing positions of the two views for order, the other way", "fn w(a: TokenPtr, b: FltrPtr, c: TokenPtr, d: FltrPtr) -> bool { %s }", "b < a", "b < d", {"E0308", "E0277", "E0369"}),
    ("comparing positions of the two views for equality", "fn w(a: TokenPtr, b: FltrPtr, c: TokenPtr, d: FltrPtr) -> bool { %s }", "a == b", "a == c", {"E0308", "E0277", "E0369"}),
    ("comparing positions of the two views for equality, the other way", "fn w(a: TokenPtr, b: FltrPtr, c: TokenPtr, d: FltrPtr) -> bool { %s }", "b == a", "b == d", {"E0308", "E0277", "E0369"}),
    ("adding positions of the two views", "fn w(a: TokenPtr, b: FltrPtr) { let _ = %s; }", "a + b", "a + 1", {"E0308", "E0277", "E0369"}),
    ("adding positions of the two views, the other way", "fn w(a: TokenPtr, b: FltrPtr) { let _ = %s; }", "b + a", "b + 1", {"E0308", "E0277", "E0369"}),
    ("taking the difference of positions of the two views", "fn w(a: TokenPtr, b: FltrPtr) { let _ = %s; }", "a - b", "a + 1", {"E0308", "E0277", "E0369"}),
    ("taking the difference of positions of the two views, the other way", "fn w(a: TokenPtr, b: FltrPtr) { let _ = %s; }", "b - a", "b + 1", {"E0308", "E0277", "E0369"}),
    ("turning a position among all tokens into one among the structural tokens", "fn w(a: TokenPtr, b: FltrPtr) -> FltrPtr { %s }", "a.into()", "b.into()", {"E0277"}),
    ("turning a position among the structural tokens into one among all tokens", "fn w(a: TokenPtr, b: FltrPtr) -> TokenPtr { %s }", "b.into()", "a.into()", {"E0277"}),
    ("making a position among the structural tokens out of a number", "fn w(n: usize, b: FltrPtr) -> FltrPtr { %s }", "FltrPtr::from(n)", "FltrPtr::from(b)", {"E0308", "E0277"}),
    ("writing down a position among the structural tokens", "fn w(n: usize, b: FltrPtr) -> FltrPtr { %s }", "FltrPtr(n)", "b", {"E0423", "E0603", "E0425"}),
    ("writing down a position among all tokens", "fn w(n: usize, b: TokenPtr) -> TokenPtr { %s }", "TokenPtr(n)", "b", {"E0423", "E0603", "E0425"}),
    ("adding a position to a number", "fn w(n: usize, b: FltrPtr) { let _ = %s; }", "n + b", "b + n", {"E0308", "E0277"}),
    ("comparing a position among the structural tokens with a number", "fn w(n: usize, b: FltrPtr, c: FltrPtr) -> bool { %s }", "b == n", "b == c", {"E0308", "E0277", "E0369"}),
    ("indexing a stream with a number", "fn w<T: TokenImpl>(s: &TokenStream<T>, n: usize, b: FltrPtr) { let _ = &s[%s]; }", "n", "b", {"E0277", "E0308"}),
    ("ordering a position and a number", "fn w(n: usize, b: FltrPtr, c: FltrPtr) -> bool { %s }", "b < n", "b < c", {"E0308", "E0277", "E0369"}),
    ("a production starting at a position of the wrong view",
     "fn w<P: lang_pt::IProduction>(p: &P, c: &lang_pt::Code, s: &TokenStream<P::Token>, k: &mut lang_pt::Cache<FltrPtr, P::Node>, a: TokenPtr, b: FltrPtr) { let _ = p.advance_fltr_ptr(c, %s, s, k); }", "a", "b", {"E0308"}),
    ("a production over all tokens starting at a position of the structural view",
     "fn w<P: lang_pt::IProduction>(p: &P, c: &lang_pt::Code, s: &TokenStream<P::Token>, k: &mut lang_pt::Cache<FltrPtr, P::Node>, a: TokenPtr, b: FltrPtr) { let _ = p.advance_token_ptr(c, %s, s, k); }", "b", "a", {"E0308"}),
]


def witness(programs, dir):
    lib, deps = [], set()
    for d, _, fs in os.walk(os.path.join(dir, "target_off", "debug")):
        for x in fs:
            if re.match(r"liblang_pt-.*\.rmeta$", x):
                lib.append(os.path.join(d, x))
            elif x.endswith((".rmeta", ".rlib", ".so")):
                deps.add(d)
    out, cov = [], {"witnesses": 0, "refused": 0, "controls_accepted": 0, "controls_refused": []}
    if not lib:
        raise RuntimeError("the crate's metadata was not found")
    lib = max(lib, key=os.path.getmtime)
    tmp = tempfile.mkdtemp(prefix="witness")
    try:
        def rustc(name, src):
            fn = os.path.join(tmp, name + ".rs")
            open(fn, "w").write(PRELUDE + src + "\n")
            r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "-A", "warnings",
                                "--extern", f"lang_pt={lib}", *[y for d in sorted(deps) for y in ("-L", f"dependency={d}")], "--out-dir", tmp, "--error-format", "short", fn],
                               capture_output=True, text=True)
            return r.returncode, set(re.findall(r"\[(E\d+)\]", r.stderr)), r.stderr

        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda w: (rustc(f"w{w[0]}", w[1][1] % w[1][2]), rustc(f"c{w[0]}", w[1][1] % w[1][3])), enumerate(WITNESSES)))
        for (what, src, bad, good, errs), ((rc, codes, err), (grc, gcodes, gerr)) in zip(WITNESSES, rs):
            cov["witnesses"] += 1
            if grc == 0:
                cov["controls_accepted"] += 1
            else:
                cov["controls_refused"].append(f"{what}: {gerr.strip()[:200]}")
            if grc != 0:
                pass  # the interface changed: the witness shows nothing either way
            elif rc == 0:
                out.append(Finding(f"a program that mixes the two views compiles: {what}", "witness", "src/wrapper_index.rs", 0, src % bad, f"witness|{what}"))
            elif codes & errs:
                cov["refused"] += 1
            else:
                cov["controls_refused"].append(f"{what}: refused for another reason: {err.strip()[:200]}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out, cov


# ---------------------------------------------------------------- parsers are validated
PARSERS = ("DefaultParser", "LexerlessParser")


def sealed(programs, dir):
    """a parser cannot be had, nor its grammar be exchanged, without validating the grammar it keeps:
    its fields are private, every function in reach of a user that hands out a new one has had the
    root it keeps validated, and nothing replaces root or tokenizer of an existing one"""
    from runner import EXACT, OPAQUE

    out, makers, writes = [], [], 0
    for mode, p in programs.items():
        for a in p.raw["adts"]:
            if adt_name(a["path"]) in PARSERS:
                for v in a["variants"]:
                    for fd in v[1]:
                        if fd[2]:
                            out.append(Finding(f"the field {fd[0]} of {a['path']} is public: a parser can be had without validation", a["path"], a["file"], a["line"], "", f"{adt_name(a['path'])}|{fd[0]}|public"))
        for f in fns_of(p):
            t, tr = impl_of(f)
            for b in f.blocks or []:
                for s in b["s"]:
                    if s[0] != "=":
                        continue
                    writes += 1
                    l = [s[1]] if s[1][1] else []
                    if s[2][0] == "ref" and s[2][1] == "mut":
                        l.append(s[2][2])
                    for pl in l:
                        if any(e[0] == "f" and e[2] in ("root", "tokenizer") and adt_name(e[3]) in PARSERS for e in pl[1]):
                            out.append(Finding("the grammar or the tokenizer of a parser is exchanged after validation", f.id, f.file, s[-1] if isinstance(s[-1], int) else f.line, "", f"{f.id}|writes"))
            if f.raw["kind"] == "Closure" or not f.blocks or not (tr or f.raw.get("pub")):
                continue
            if not any(x in f.locals[0][0] for x in PARSERS):
                continue
            e = Engine(p)
            e.exact_cells = EXACT
            e.opaque = OPAQUE
            try:
                segs = e.summarize(f).segs
            except (Unsupported, Budget):
                continue
            makers.append(f"{f.id} [{mode}]")
            for s in segs:
                if s.kind != "ret" or s.ret is None:
                    continue
                for x in subterms(s.ret):
                    if x.op != "agg" or x.a[0] not in PARSERS:
                        continue
                    root = dict(x.a[2]).get("root")
                    valid = root is not None and root.op == "fld"  # a copy of an existing parser's
                    for y in (z for v in [*s.store.values(), *(l[1] for l in s.facts.log)] for z in subterms(v)):
                        valid = valid or y.op == "ev" and y.a[0] == "IProduction::validate" and y.a[1][:1] == (root,) and s.facts.variant(y) == "Ok"
                    if not valid:
                        out.append(Finding(f"a {x.a[0]} is handed out although its grammar was not validated", f.id, f.file, f.line, show(s.ret)[:300], f"{f.id}|unvalidated"))
    return dedup(out), {"functions_that_hand_out_parsers": makers, "assignments_examined": writes}


RULES = {"sealed": sealed, "purity": purity, "memo_fresh": memo_fresh, "zero_width": zero_width, "unsafe": unsafe, "prints": prints, "witness": witness}
