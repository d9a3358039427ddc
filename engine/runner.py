"""Holding the crate's functions against their specification, one obligation per function."""
import json
import multiprocessing as mp
import os
import re
import signal
import time
import traceback

from engine import Engine, Program, Unsupported, Budget, adt_name
import contracts
from compare import Comparator, obs_default
from pairing import Pairing
from terms import T, subterms, show

# memo cells whose contents are worked out on first use: compared by what they hold, not when
EXACT = {"first_set", "suffix_first_set", "null_suffix_index", "null_hidden", "line_breaks"}
# compared on their own and kept as events where they are called
OPAQUE = {("Code", "obtain_position"), ("Cache", "create_error"), ("TokenStream", "from")}
OPAQUE_ON = {("Log", "order"), ("Log", "clone")}
ERASE = ("ImplementationError",)
SKIP = {"assert_receiver_is_total_eq", "assert_fields_are_eq"}
DERIVED = {"clone", "eq", "cmp", "partial_cmp", "hash"}


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def aligned(facts, model):
    """private fields may be called anything: give fields that the specification knows under another
    name, at the same place among the unknown ones of its struct, that name"""
    want = {}
    for a in model["adts"]:
        if not a["enum"] and len(a["variants"]) == 1:
            want[adt_name(a["path"])] = [f[0] for f in a["variants"][0][1]]
    ren = {}
    known = {adt_name(a["path"]) for a in model["adts"]}
    plain = {}  # structs of the code's own: what counts is what is in them
    for a in facts["adts"]:
        n = adt_name(a["path"])
        if not a["enum"] and len(a["variants"]) == 1 and n not in known and a["variants"][0][1]:
            plain[a["path"]] = {f[0]: i for i, f in enumerate(a["variants"][0][1])}
        if a["enum"] or len(a["variants"]) != 1 or n not in want:
            continue
        have = [f[0] for f in a["variants"][0][1]]
        x = [f[0] for f in a["variants"][0][1] if f[0] not in want[n] and not f[2] and not f[0].startswith("debug")]
        y = [f for f in want[n] if f not in have]
        if x and len(x) == len(y):
            for p, q in zip(x, y):
                ren[(n, p)] = q
    if not ren and not plain:
        return facts, {}
    single = lambda p: len(plain[p]) == 1

    def walk(v):
        if isinstance(v, list):
            if len(v) >= 4 and v[0] == "f" and isinstance(v[2], str) and isinstance(v[3], str):
                q = ren.get((adt_name(v[3]), v[2]))
                if q:
                    v[2] = q
                elif v[3] in plain and v[2] in plain[v[3]] and not single(v[3]):
                    v[2], v[3] = str(plain[v[3]][v[2]]), ""
            elif len(v) == 4 and v[0] == "adt" and isinstance(v[3], list):
                n = adt_name(v[1])
                if v[1] in plain and not single(v[1]):
                    v[:] = ["tuple"]
                    return
                v[3] = [ren.get((n, f), f) if isinstance(f, str) else f for f in v[3]]
            for x in v:
                if isinstance(x, (list, dict)):
                    walk(x)
        elif isinstance(v, dict):
            for x in v.values():
                if isinstance(x, (list, dict)):
                    walk(x)

    for f in facts["fns"]:
        walk(f.get("blocks"))
        walk(f.get("promoted"))
    for a in facts["adts"]:
        n = adt_name(a["path"])
        for vn, fs in a["variants"]:
            for f in fs:
                f[0] = ren.get((n, f[0]), f[0])
    return facts, ren


def load(dir, mode):
    d = json.load(open(f"{dir}/facts_{mode}.json"))
    m = json.load(open(f"{dir}/facts_model.json"))
    d, ren = aligned(d, m)
    p = Program(d, m)
    p.renamed = ren
    p.raw = d
    p.mode = mode
    return p


def skip(k):
    return k[2] in SKIP or k[2] == "fmt" and k[1] != "Display" and k[0] != "ASTNode"


def label(k):
    t, tr, n = k
    return f"{t}::{n}" if not tr else (f"<{t} as {tr}>::{n}" if t else f"{tr}::{n}")


# does something in the debug build only
DEBUG_ONLY = {"DefaultParser::add_debug_production", "LexerlessParser::add_debug_production"}

# a grammar that asks for this is refused by the debug build
REFUSED = {("<Cacheable as IProduction>::advance_token_ptr", "on")}


class Result:
    """outcome of one obligation"""

    __slots__ = ("name", "mode", "status", "detail", "file", "line", "fn", "stats", "seconds", "what")

    def __init__(self, **k):
        for n in self.__slots__:
            setattr(self, n, k.get(n))


def engines(p, mode):
    ea, eb = Engine(p), Engine(p)
    ea.exact_cells = eb.exact_cells = EXACT
    ea.opaque = eb.opaque = OPAQUE | (OPAQUE_ON if mode == "on" else set())
    if mode == "on":
        ea.quiet = p.silent_fns()
        ea.ignore_panic = True
    return ea, eb


def unknown_calls(t, names, out):
    for x in subterms(t):
        n = x.a[0] if x.op in ("app", "ev") else None
        if n in names:
            out.add(n)


def about_recursion(m):
    ts = [e[1] for e in m.facts.log] + [m.got, m.want, m.a.ret if m.a else None, m.b.ret if m.b else None]
    seen = set()
    for t in ts:
        if isinstance(t, T):
            subterms(t, seen)
    return any(x.op in ("app", "ev") and str(x.a[0]).startswith("rec:") or x.op == "lamcase" and False for x in seen)


def unrolled(p, f, s, mode, kw):
    for depth in (1, 2, 5):
        ea, eb = engines(p, mode)
        if depth > 2:
            ea.max_steps = eb.max_steps = 20000
        ea.checks = kw.get("obs") == "panics"
        ea.rec_depth = eb.rec_depth = depth
        try:
            a, b = ea.summarize(f), eb.summarize(s)
        except (Unsupported, Budget):
            return []
        cp = Comparator(ea, eb, **kw)
        pm, complete = cp.peel(a, b, turns=(1, 2, 3, 4, 5) if depth < 3 else (1, 2, 3), seconds=20 if depth < 3 else 8)
        if depth > 2 and not pm and not complete:
            pm, _ = cp.walk(a, b)
        names = ea.foreign - eb.foreign - eb.called
        seen = set()
        for x in pm[:1]:
            for t in [e[1] for e in x.facts.log] + [x.got, x.want, x.a.ret if x.a else None]:
                if isinstance(t, T):
                    unknown_calls(t, names, seen)
        if pm and not seen:
            return pm
    return []


def compare(p, f, s, name, mode="off", obs=None, seconds=20):
    t0 = time.time()
    on = mode == "on"
    if obs == "panics" and (name, mode) in REFUSED or not on and name in DEBUG_ONLY:
        return Result(name=name, mode=mode, file=f.file, line=f.line, fn=f.id, stats={}, status="ok", seconds=0.0)
    r = Result(name=name, mode=mode, file=f.file, line=f.line, fn=f.id, stats={})
    kw = dict(erase=ERASE, ignore_panic=on, extra=lambda n: n.startswith("debug"))
    if obs:
        kw["obs"] = obs
    if obs == "panics":
        kw["given"] = lambda fs: contracts.close(fs, f)
    try:
        ea, eb = engines(p, mode)
        ea.checks = obs == "panics"
        a = ea.summarize(f)
        b = eb.summarize(s)
        c = Comparator(ea, eb, **kw)
        m = c.run(a, b)
        how = "simulation"
        if m:
            c2 = Comparator(ea, eb, inv=True, seconds=seconds, max_pairs=2000, **kw)
            m2 = c2.run(a, b)
            if not m2:
                m, c, how = [], c2, "simulation with pair invariants"
        r.stats = {"segments": nsegs(a), "spec_segments": nsegs(b), "loop_pairs": len(c.pairs), "compared": c.compared, "obligations": c.obligations, "steps": ea.steps, "functions": sorted(ea.visited_fns), "how": how}
        if not m:
            r.status = "ok"
        else:
            cp = Comparator(ea, eb, **kw)
            pm, complete = cp.peel(a, b)
            if not pm and not complete:
                pm, _ = cp.walk(a, b)
            unc = cp.unconfirmed
            foreign = set()
            if pm:
                names = ea.foreign - eb.foreign - eb.called
                if names:
                    for x in pm[:1]:
                        for fs in (x.facts,):
                            for e in fs.log:
                                unknown_calls(e[1], names, foreign)
                        for t in (x.got, x.want, x.a.ret if x.a else None):
                            if isinstance(t, T):
                                unknown_calls(t, names, foreign)
            if pm and any(about_recursion(x) for x in pm):
                # what a call of itself delivers is known only from its own first turns
                pm, foreign = unrolled(p, f, s, mode, kw), set()
                if not pm:
                    r.status = "undecided"
                    r.detail = "the recursion is arranged differently; followed into itself, the two agree as far as they were followed"
                    r.seconds = time.time() - t0
                    return r
            if pm and not foreign:
                r.status = "violation"
                r.what = pm[0].what
                r.detail = "\n".join(x.describe() for x in pm[:2])
            else:
                r.status = "undecided"
                r.detail = ("rests on library calls without a model: " + ", ".join(sorted(foreign))) if foreign else (
                    f"seemingly at variance ({unc[0][0]}), but no values were found for which it shows: {unc[0][1]}\n" + unc[0][2].describe() if unc else
                    "the loops could not be matched turn by turn (" + m[0].what + "); laid out, their first turns agree" + ("" if complete else " as far as they were followed"))
    except (Unsupported, Budget) as x:
        r.status = "undecided"
        r.detail = f"{type(x).__name__}: {str(x)[:300]}"
    except Timeout:
        r.status = "undecided"
        r.detail = "out of time"
    except RecursionError:
        r.status = "undecided"
        r.detail = "terms nested too deeply"
    except Exception as x:
        r.status = "undecided"
        r.detail = "internal: " + "".join(traceback.format_exception_only(type(x), x))[:300] + traceback.format_exc()[-400:]
    r.seconds = time.time() - t0
    return r


def nsegs(root):
    seen, w, n = set(), [root], 0
    while w:
        x = w.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        n += len(x.segs)
        w.extend(s.target for s in x.segs if s.target is not None)
    return n


_ctx = {}


def _task(t):
    mode, k, i, obsname, limit, seconds = t
    p, R = _ctx[mode]
    f, s = R.pair(k)[i]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return compare(p, f, s, label(k), mode, OBS.get(obsname), seconds)
    except Timeout:
        return Result(name=label(k), mode=mode, file=f.file, line=f.line, fn=f.id, stats={}, status="undecided", detail="out of time", seconds=limit)
    finally:
        signal.alarm(0)


def run(programs, keys, obsname=None, limit=120, seconds=20, procs=None):
    """keys: the (type, trait, name) to be held against their specification.
    returns (results, functions of the specification without a counterpart)"""
    tasks, gone = [], {}
    for mode, p in programs.items():
        R = Pairing(p)
        _ctx[mode] = (p, R)
        for k in keys:
            l = R.pair(k)
            for i, (f, s) in enumerate(l):
                if f is None:
                    gone[k, i] = gone.get((k, i), 0) + 1
                elif k[1] or f.raw.get("pub") or (k[0], k[2]) in OPAQUE:
                    tasks.append((mode, k, i, obsname, limit, seconds if mode == "off" else min(seconds, 6)))
    tasks.sort(key=lambda t: (("advance" not in t[1][2], t[1][0] not in ("Union", "Suffixes"), t[0] != "on")))
    out = []
    ctx = mp.get_context("fork")
    with ctx.Pool(procs or min(8, os.cpu_count() or 2)) as pool:
        for r in pool.imap_unordered(_task, tasks, chunksize=1):
            out.append(r)
    out.sort(key=lambda r: (r.file, r.line, r.name, r.mode))
    return out, [(k, label(k)) for (k, _), n in gone.items() if n == len(programs)]


# ---------------------------------------------------------------- projections of the outcome
def _validation(seg):
    """only the errors that end the parse"""
    v = seg.ret
    o = {}
    if v is not None and v.op == "agg" and v.a[0] == "Result":
        if v.a[1] == "Ok":
            o["value (validation errors)"] = _NONE
        else:
            x = dict(v.a[2]).get("0")
            k = seg.facts.variant(x) if x is not None else None
            o["value (validation errors)"] = _NONE if k == "Unparsed" else v
    else:
        o["value (validation errors)"] = v
    return o


def _names(seg):
    """what the message of a refusal names"""
    v = seg.ret
    return {"value (the error)": v if v is not None and not (v.op == "agg" and v.a[0] == "Result" and v.a[1] == "Ok") else _NONE}


def _cache(seg):
    return {k: v for k, v in obs_default(seg).items() if k != "value"}


from terms import UNIT as _NONE  # noqa: E402

OBS = {None: None, "validation": _validation, "state": _cache, "panics": "panics", "names": _names}
