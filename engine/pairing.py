"""Which function of the crate answers to which specification."""
import re
from engine import adt_name

PRIMS = {"usize", "u8", "bool", "str", "String", "Vec", "Option", "Result", "HashMap", "HashSet", "Rc", "Box", "dyn", "mut", "i8", "i16", "isize", "u16", "u32", "u64"}


def norm(ty, known):
    ty = re.sub(r"'\w+ ?", "", ty)
    ty = re.sub(r"(\w+::)+", "", ty)
    return re.sub(r"[A-Za-z_]\w*", lambda m: m.group(0) if m.group(0) in known or m.group(0) in PRIMS else "_", ty).replace(" ", "")


def signature(f, known):
    r = f.raw
    return tuple(norm(f.locals[i][0], known) for i in range(1, f.argc + 1))


def key(f):
    r = f.raw
    return (adt_name(r.get("head", "").split(":", 1)[-1]), adt_name(r.get("trait") or ""), f.name)


class Pairing:
    def __init__(self, prog, spec_skip=("std_model.rs",)):
        known = set(prog.adts) | {a for (a, v) in __import__("terms").ENUMF}
        known |= {"TokenPtr", "FltrPtr", "CacheKey"}
        self.known = known
        self.spec = {}
        self.repo = {}
        for (ns, i), f in prog.fns.items():
            if f.raw["kind"] == "Closure" or f.file.endswith(spec_skip):
                continue
            (self.spec if ns == "m" else self.repo).setdefault(key(f), []).append(f)

    def pair(self, k):
        """[(repo fn or None, spec fn)] for a (type, trait, name)"""
        out = []
        l = self.repo.get(k, [])
        for s in self.spec.get(k, []):
            c = l
            if len(l) > 1:
                c = [f for f in l if signature(f, self.known) == signature(s, self.known)]
            out.append((c[0] if len(c) == 1 else None, s))
        return out
