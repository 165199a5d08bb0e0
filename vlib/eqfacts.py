"""What a path of an equality function that answers `true` has established about the two objects."""
import re
from . import model, symx
from .symx import K0, K1, contains, subst, undyn

THIS, RHS = ("root", "this"), ("root", "rhs")
CMPNAME = re.compile(r"(equal|operator==|same|identical|eq$|matches)", re.I)


class EqPath:
    def __init__(self, facts, ev, st):
        self.facts, self.ev, self.st = facts, ev, st
        self.same = {}          # term over THIS -> index of the fact that established it
        self.overread = []      # (container term, node)
        self.kinds = set()
        self.truth = {}


def analyse(prog, facts, ev, booleans, st=None):
    p = EqPath(facts, ev, st)
    p.truth = dict(facts)

    def pair(a, b, i):
        a, b = undyn(a), undyn(b)
        if a == ("typeid", THIS) and b == ("typeid", RHS) or a == ("typeid", RHS) and b == ("typeid", THIS):
            p.kinds.add("dynamic")
            return
        for x, y in ((a, b), (b, a)):
            if x == ("typeid", RHS) and y[0] == "typeidc":
                p.kinds.add(y[1])
        if a[0] in ("tup", "list") and b[0] == a[0] and len(a) == len(b):
            for x, y in zip(a[1:], b[1:]):
                pair(x, y, i)
            return
        for x, y in ((a, b), (b, a)):
            if contains(x, THIS) and not contains(x, RHS) and subst(x, {THIS: RHS}) == y:
                p.same.setdefault(x, i)
            elif x == THIS and y == RHS:
                p.same.setdefault(x, i)
    for i, (t, v) in enumerate(facts):
        if v and t[0] == "op" and t[1] == "==":
            pair(t[2], t[3], i)
        elif v and t[0] == "call" and CMPNAME.search(t[1]):
            ops = ([t[2]] if t[2] is not None else []) + list(t[3])
            for x in range(len(ops)):
                for y in range(x + 1, len(ops)):
                    pair(ops[x], ops[y], i)
        elif v and t[0] == "nn" and t[1][0] == "dyn" and t[1][2] == RHS:
            p.kinds.add("isa:" + t[1][1])
        if t[0] == "nn":
            x = t[1]
            if contains(x, THIS) and not contains(x, RHS):
                o = ("nn", subst(x, {THIS: RHS}))
                if p.truth.get(o) == v and (not v or (x[0] == "fld" and x[2] in booleans)):
                    p.same.setdefault(x, i)
        if t[0] == "op" and t[1] == "==" and v and t[3][0] == "k" and contains(t[2], THIS):
            if p.truth.get(("op", "==", subst(t[2], {THIS: RHS}), t[3])):
                p.same.setdefault(t[2], i)
        # a field tested against the constant the other one is known to have
        if t[0] == "op" and t[1] == "==" and t[3] in (K0, K1) and contains(t[2], THIS) and t[2][0] == "fld" \
                and t[2][2] in booleans:
            pass
    # containers
    loops = {}
    for e in ev:
        if e[0] == "loop":
            loops[e[1]] = set(loops.get(e[1], ())) | set(e[2])
        if e[0] == "brk":
            loops[e[1]] = set()
    elems = {}
    for t, i in list(p.same.items()):
        b, part = t, None
        if t[0] == "fld" and t[1][0] == "elem":
            b, part = t[1], t[2]
        if b[0] == "elem":
            elems.setdefault((b[1], b[2]), {}).setdefault(part, i)
    for (base, L), parts in elems.items():
        if not contains(base, THIS):
            continue
        cov = loops.get(L, set())
        obase = subst(base, {THIS: RHS})
        if base not in cov and obase not in cov:
            continue
        first = min(parts.values())
        ssz = p.same.get(("size", base))
        both = base in cov and obase in cov
        if ssz is None or ssz > first:
            if not both:
                p.overread.append(base)
        full = None in parts or ("first" in parts and "second" in parts)
        if full:
            p.same.setdefault(("elems", base), first)
            if ssz is not None:
                p.same.setdefault(base, max(ssz, first))
    for e in ev:
        if e[0] == "elemread":
            base = e[1][1]
            ssz = p.same.get(("size", base if contains(base, THIS) else subst(base, {RHS: THIS})))
            if ssz is None:
                p.overread.append(base)
    return p


def covers(p, t):
    """Is the value of term t (over THIS) known to be the same in both objects?"""
    while True:
        if t in p.same:
            return True
        if isinstance(t, tuple) and t and t[0] in ("fld", "elem", "size", "nn", "dyn"):
            t = t[2] if t[0] == "dyn" else t[1]
            if not isinstance(t, tuple):
                return False
            continue
        if isinstance(t, tuple) and t and t[0] == "call" and t[2] is not None:
            t = t[2]
            continue
        return False


def covers_rec(prog, p, t, ty, depth=0):
    """covers(), or every field of a record-typed value is covered."""
    if covers(p, t):
        return True
    if depth > 3 or t[0] not in ("fld", "root"):
        return False
    rec = prog.records.get(ty.replace("const ", ""))
    if rec is None:
        return False
    fields = prog.all_fields(rec)
    return bool(fields) and all(covers_rec(prog, p, ("fld", t, f.n), f.t, depth + 1) for f in fields)


def effective(prog, rec, name):
    """The Fn a call of virtual method `name` on an object of exactly class rec runs (None if undefined)."""
    for m in rec.methods:
        if m.n == name and m.u in prog.fns and not m.get("pure") and not m.get("impl"):
            return prog.fns[m.u]
    for m in rec.methods:
        if m.n == name and not m.get("pure") and not m.get("impl") and name != "operator==":
            return None
    for b in rec.bases:
        br = prog.rec_by_u.get(b.u)
        if br is not None:
            f = effective(prog, br, name)
            if f is not None:
                return f
    return None


def true_paths(prog, F, booleans, interp=None):
    I = interp or symx.Interp(prog)
    try:
        outs = I.run(F, {F.params[0]: RHS})
    except symx.TooComplex:
        raise model.AnalysisBroken("%s is too complex to enumerate" % F.q)
    res = []
    for k, v, s in outs:
        if k != "ret":
            continue
        for tv, s2 in I.branch(v, s):
            if tv:
                res.append(analyse(prog, s2.facts, s2.ev, booleans, s2))
    return res
