"""What everyone who hands out positions keeps to, taken as given when the question is only whether
an access can leave its bounds:

- the retained positions of a stream are increasing positions of its tokens;
- a position handed to a production, or returned by one, lies in the stream (or the input);
- a lexeme's token starts where the lexeme was asked;
- a list of positions that is searched is in increasing order, so the search tells which are smaller.

Each is the subject of other obligations (S01, T01, E03, and the position every production returns)."""
from terms import *

PTR = {"IProduction::advance_fltr_ptr": "filtered_stream", "IProduction::advance_token_ptr": "original_stream"}


def _stream(x, name):
    return fld(x, "TokenStream", "", name)


def _start(name, code, at, stream):
    if name in PTR:
        return lt(at, length(_stream(stream, PTR[name])))
    return neg(lt(length(fld(code, "Code", "", "value")), at))


def close(fs, fn=None):
    """the facts with the contracts of the values they speak of; None if they cannot hold together"""
    fs = fs.copy()
    terms = []
    seen = set()
    for e in list(fs.log):
        for x in subterms(e[1]):
            if x not in seen:
                seen.add(x)
                terms.append(x)
    add_ = []
    if fn is not None and "IProduction" in fn.id and fn.name.startswith("advance_"):
        name = "IProduction::" + fn.name
        add_.append(_start(name, inp("a2"), inp("a3"), inp("a4")))
    for x in terms:
        if x.op == "elem" and x.a[0].op == "fld" and x.a[0].a[3] == "filtered_stream":
            s, i = x.a[0].a[0], x.a[1]
            n = length(_stream(s, "original_stream"))
            nxt = add(i, num(1))
            if fs.decide(lt(nxt, length(x.a[0]))):
                y = elem(x.a[0], nxt)
                add_ += [lt(x, y), lt(y, n)]
            add_ += [lt(x, n), neg(lt(x, num(0)))]
        elif x.op == "fld" and x.a[2] == "Some" and x.a[0].op in ("ev", "app") and x.a[0].a[0] == "ILexeme::consume":
            add_.append(eq(fld(x, "Lex", "", "start"), x.a[0].a[1][2]))
        elif x.op == "fld" and x.a[3] == "consumed_index":
            e = x.a[0]
            if e.op == "fld" and e.a[2] == "Ok":
                e = e.a[0]
                if e.op in ("ev", "app") and str(e.a[0]).startswith("IProduction::advance_"):
                    args = e.a[1]
                    if e.a[0] in PTR:
                        add_.append(_start(e.a[0], args[1], x, args[3]))
                    elif e.a[0] == "IProduction::advance_ptr":
                        add_.append(_start(e.a[0], args[1], x, None))
        elif x.op == "app" and x.a[0] == "bsearch":
            v, key, k = x.a[1]
            if key is app("λ", inp("λ0")):
                kind = fs.variant(x)
                if kind in ("Ok", "Err"):
                    i = fld(x, "Result", kind, "0")
                    if fs.decide(eq(i, num(0))) is False:
                        add_.append(lt(elem(v, add(i, num(-1))), k))
    for t in add_:
        if not fs.assume(t, True):
            return None
    return fs
