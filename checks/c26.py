"""C26: implicit conversions keep the operands' values.

The typing functions are summarised path by path for every pair of type kinds (and every operator); sizes, precisions,
scales, units, nullability and dictionary ids stay symbolic.  Each path's result is a term over the operands' parameters;
the term is then compared with what the result must be able to hold, over every combination of parameters for which the
path's conditions can be true."""
import itertools
from vlib import model, symx

TUS = ["Analyzer/Analyzer.cpp", "IR/Type.cpp", "IR/Context.cpp", "IR/Expr.cpp"]
NS = "hdk::ir::"
L, R = ("root", "L"), ("root", "R")
NL, NR = ("root", "&NL"), ("root", "&NR")
NEWL, NEWR = ("root", "the left operand's new type"), ("root", "the right operand's new type")
LE, RE, EXE = ("root", "left"), ("root", "right"), ("root", "executor")
GETTERS = {"id", "size", "nullable", "precision", "scale", "unit", "dictId", "maxLength"}


class Unknown(Exception):
    pass


class Interp(symx.Interp):
    """Pointers to pointers (results handed back through parameters) are places of their own."""

    def ev(self, n, s):
        if n is not None and n.k == "UnaryOperator" and n.op == "*" and n.t.rstrip(" const").rstrip().endswith("*"):
            r = []
            for t, x in super().ev(n.c[0], s):
                d = ("deref", t)
                r.append((x.heap.get(d, d), x))
            return r
        if n is not None and n.k == "UnaryOperator" and n.op == "-":
            r = []
            for t, x in super().ev(n.c[0], s):
                r.append((("k", str(-int(t[1]))) if t[0] == "k" and t[1].lstrip("-").isdigit() else ("op", "neg", t), x))
            return r
        return super().ev(n, s)

    def place(self, n, s):
        m = symx.strip(n)
        if m is not None and m.k == "UnaryOperator" and m.op == "*":
            ts = super().ev(m.c[0], s)
            if ts:
                return ("deref", ts[0][0])
        return super().place(n, s)


class EInterp(Interp):
    """For the functions that build expressions: the typing functions are calls, their results symbols."""

    def opaquecall(self, n, fn, obj, args, s):
        r = super().opaquecall(n, fn, obj, args, s)
        if fn.q.split("::")[-1] == "analyze_type_info" and len(args) == 5:
            for a, v in ((args[3], NEWL), (args[4], NEWR)):
                m = symx.strip(a)
                if m is not None and m.k == "UnaryOperator" and m.op == "&":
                    m = symx.strip(m.c[0])
                if m is None or m.k != "DeclRefExpr":
                    raise model.AnalysisBroken("the operands' new types do not go to local variables")
                r = [(t, x.bind(m.d, v)) for t, x in r]
        return r


class Shape(tuple):
    """(kind, size, precision, scale, unit, nullable, dict, length)"""
    F = ("id", "size", "precision", "scale", "unit", "nullable", "dictId", "maxLength")

    def __new__(cls, **kw):
        return tuple.__new__(cls, [kw.get(f, 0) for f in cls.F])

    def __getattr__(self, f):
        try:
            return self[self.F.index(f)]
        except ValueError:
            raise AttributeError(f)

    def but(self, **kw):
        d = dict(zip(self.F, self))
        d.update(kw)
        return Shape(**d)


class Model:
    def __init__(self, C, env):
        self.C, self.env = C, env

    def ev(self, t):
        k = t[0]
        if t in self.env:
            return self.env[t]
        if k == "k":
            v = t[1]
            if v in ("true", "false"):
                return int(v == "true")
            try:
                return int(v)
            except ValueError:
                pass
            try:
                return float(v)
            except ValueError:
                raise Unknown(t)
        if k == "dyn":
            return self.ev(t[2])
        if k == "nn":
            v = self.ev(t[1])
            return 1 if isinstance(v, Shape) else int(v != 0)
        if k == "fld":
            a = self.C.getter.get(t[2])
            v = self.ev(t[1])
            if a is None or not isinstance(v, Shape):
                raise Unknown(t)
            return getattr(v, a)
        if k == "op":
            if t[1] == "neg":
                return -self.ev(t[2])
            if t[1] == "!":
                return int(not self.ev(t[2]))
            a, b = self.ev(t[2]), self.ev(t[3])
            if isinstance(a, float) or isinstance(b, float):
                a, b = float(a), float(b)       # the language converts before it compares
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "==": lambda: int(a == b),
                        "!=": lambda: int(a != b), "<": lambda: int(a < b), "<=": lambda: int(a <= b),
                        ">": lambda: int(a > b), ">=": lambda: int(a >= b), "&&": lambda: int(bool(a and b)),
                        "||": lambda: int(bool(a or b)), "|": lambda: a | b, "&": lambda: a & b}[t[1]]()
            except KeyError:
                raise Unknown(t)
        if k == "call":
            return self.call(t)
        raise Unknown(t)

    def call(self, t):
        nm = t[1].split("::")[-1]
        if nm in ("max", "min") and len(t[3]) == 2:
            a, b = (self.ev(x) for x in t[3])
            return max(a, b) if nm == "max" else min(a, b)
        if nm in GETTERS and not t[3]:
            return getattr(self.ev(t[2]), nm)
        if nm == "withNullable":
            return self.ev(t[2]).but(nullable=int(bool(self.ev(t[3][0]))))
        if nm == "equal":
            a, b = self.ev(t[2]), self.ev(t[3][0])
            return int(a == b)
        if nm == "ctx":
            raise Unknown(t)
        return self.factory(nm, [x for x in t[3]])

    def factory(self, nm, args):
        I = self.C.ids
        e = lambda i: self.ev(args[i])
        n = len(args)
        if nm in ("int8", "int16", "int32", "int64") and n == 1:
            return Shape(id=I["kInteger"], size=int(nm[3:]) // 8, nullable=e(0))
        if nm == "integer" and n == 2:
            return Shape(id=I["kInteger"], size=e(0), nullable=e(1))
        if nm in ("fp32", "fp64") and n == 1:
            return Shape(id=I["kFloatingPoint"], size=int(nm[2:]) // 8, nullable=e(0))
        if nm == "boolean" and n == 1:
            return Shape(id=I["kBoolean"], size=1, nullable=e(0))
        if nm == "decimal" and n == 4:
            return Shape(id=I["kDecimal"], size=e(0), precision=e(1), scale=e(2), nullable=e(3))
        if nm == "decimal64" and n == 3:
            return Shape(id=I["kDecimal"], size=8, precision=e(0), scale=e(1), nullable=e(2))
        if nm == "varChar" and n == 2:
            return Shape(id=I["kVarChar"], maxLength=e(0), nullable=e(1))
        if nm == "text" and n == 1:
            return Shape(id=I["kText"], nullable=e(0))
        if nm == "extDict" and n == 3:
            el = self.ev(args[0])
            return Shape(id=I["kExtDictionary"], dictId=e(1), size=e(2), nullable=el.nullable)
        for base, kind in (("date", "kDate"), ("time", "kTime"), ("interval", "kInterval")):
            if nm == base and n == 3:
                return Shape(id=I[kind], size=e(0), unit=e(1), nullable=e(2))
            if nm[:len(base)] == base and nm[len(base):] in ("16", "32", "64") and n == 2:
                return Shape(id=I[kind], size=int(nm[len(base):]) // 8, unit=e(0), nullable=e(1))
        if nm == "timestamp" and n == 2:
            return Shape(id=I["kTimestamp"], size=8, unit=e(0), nullable=e(1))
        raise Unknown(nm)


class Checker:
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        en = dict((e, dict(prog.enums[e])) for e in prog.enums)
        self.ids = {n: int(v) for n, v in en[NS + "Type::Id"].items()} if NS + "Type::Id" in en else None
        if self.ids is None:
            raise model.AnalysisBroken("no hdk::ir::Type::Id")
        self.unit = {n: int(v) for n, v in en[NS + "TimeUnit"].items()}
        self.op = {n: int(v) for n, v in en[NS + "OpType"].items()}
        self.opname = {v: n for n, v in self.op.items()}
        self.kname = {v: n[1:] for n, v in self.ids.items()}
        # the fields behind the accessors
        self.getter = {}
        for F in prog.fns.values():
            if F.q.split("::")[-1] in GETTERS and not F.params and F.root is not None and F.q.startswith(NS) and "Type::" in F.q:
                for k, v, s in symx.Interp(prog).run(F, {}):
                    if k == "ret" and v[0] == "fld" and v[1] == ("root", "this"):
                        self.getter[v[2]] = F.q.split("::")[-1]
        if not {"id", "size", "nullable", "precision", "scale", "unit", "dictId"} <= set(self.getter.values()):
            raise model.AnalysisBroken("type accessors not found: " + str(self.getter))
        self.typefield = None
        for F in prog.fns.values():
            if F.q == NS + "Expr::type" and not F.params and F.root is not None:
                self.typefield = next((v[2] for k, v, s in symx.Interp(prog).run(F, {}) if k == "ret" and v[0] == "fld"), None)
        if self.typefield is None:
            raise model.AnalysisBroken("no Expr::type")
        self.idf = next(f for f, a in self.getter.items() if a == "id")

    def fn(self, name, nparams):
        fs = [F for F in self.prog.fns.values() if F.q.split("::")[-1] == name and F.q.startswith("Analyzer::") and
              len(F.params) == nparams and F.root is not None]
        if len(fs) != 1:
            raise model.AnalysisBroken("no Analyzer::%s with %d parameters" % (name, nparams))
        return fs[0]

    @staticmethod
    def opaque(fn, n, obj):
        return fn.q.startswith(NS + "Context::") or fn.n in ("withNullable", "toString", "ctx", "equal", "canonicalize",
                                                             "cast", "decompress", "containsAgg")

    # ---- operand shapes --------------------------------------------------
    def shapes(self, kind):
        I, U = self.ids, self.unit
        o = []
        if kind == "kInteger":
            o = [dict(size=z) for z in (1, 2, 4, 8)]
        elif kind == "kFloatingPoint":
            o = [dict(size=z) for z in (4, 8)]
        elif kind == "kDecimal":
            o = [dict(size=8, precision=p, scale=c) for p, c in
                 ((19, 0), (19, 19), (10, 2), (5, 4), (18, 17), (12, 6), (9, 0), (4, 2), (1, 0))]
        elif kind == "kBoolean":
            o = [dict(size=1)]
        elif kind == "kVarChar":
            o = [dict(maxLength=z) for z in (1, 5, 9)]
        elif kind == "kText":
            o = [{}]
        elif kind == "kDate":
            o = [dict(size=z, unit=U["kDay"]) for z in (2, 4)] + [dict(size=8, unit=U[u]) for u in
                                                                  ("kSecond", "kMilli", "kMicro", "kNano")]
        elif kind == "kTime":
            o = [dict(size=8, unit=U[u]) for u in ("kSecond", "kMilli", "kMicro", "kNano")] + [dict(size=4, unit=U["kSecond"])]
        elif kind == "kTimestamp":
            o = [dict(size=8, unit=U[u]) for u in ("kSecond", "kMilli", "kMicro", "kNano")]
        elif kind == "kInterval":
            o = [dict(size=z, unit=U[u]) for z in (4, 8) for u in ("kDay", "kSecond", "kMilli", "kMicro", "kNano")]
        elif kind == "kExtDictionary":
            o = [dict(size=4, dictId=d) for d in (-3, -2, 0, 2, 3)]
        return [Shape(id=I[kind], nullable=n, **d) for d in o for n in (0, 1)]

    # ---- summaries -------------------------------------------------------
    def paths(self, F, kl, kr, env):
        st = symx.St().store(("fld", L, self.idf), ("k", str(self.ids[kl]))) \
                      .store(("fld", R, self.idf), ("k", str(self.ids[kr])))
        try:
            return Interp(self.prog, max_paths=40000, opaque=self.opaque, max_depth=8).run(F, env, st)
        except symx.TooComplex:
            raise model.AnalysisBroken("%s is too complex to enumerate" % F.q)

    def cases(self, F, outs, kl, kr, ml=None):
        """(left shape, right shape, path kind, evaluate) for every path and every parameters its conditions allow"""
        for a in self.shapes(kl):
            for b in self.shapes(kr):
                m = Model(self, dict(ml or {}, **{}))
                m.env = dict(ml or {})
                m.env[L], m.env[R] = a, b
                live = []
                for k, v, s in outs:
                    ok, sure = True, True
                    for f, tv in s.facts:
                        try:
                            if bool(m.ev(f)) != tv:
                                ok = False
                                break
                        except Unknown:
                            sure = False
                    if ok:
                        live.append((k, v, s, sure))
                yield a, b, m, live

    def value(self, F, m, t):
        try:
            return m.ev(t)
        except Unknown as u:
            raise model.AnalysisBroken("%s: cannot tell the type %s (%s)" % (F.q, symx.show(t)[:120], str(u)[:80]))

    def say(self, s):
        if not isinstance(s, Shape):
            return str(s)
        k = self.kname.get(s.id, "?")
        un = {v: n[1:] for n, v in self.unit.items()}
        extra = {"Decimal": "(%d,%d)" % (s.precision, s.scale), "Integer": str(s.size * 8), "FloatingPoint": str(s.size * 8),
                 "ExtDictionary": "(dict %d)" % s.dictId, "VarChar": "(%d)" % s.maxLength}.get(k, "")
        if k in ("Date", "Time", "Timestamp", "Interval"):
            extra = "%d(%s)" % (s.size * 8, un.get(s.unit, "?"))
        return k + extra + ("" if s.nullable else " not null")

    # ---- what a type must be able to hold ------------------------------------
    DIGITS = {1: 3, 2: 5, 4: 10, 8: 19}

    def holds(self, c, a):
        """None, or why type c cannot hold every value of type a"""
        I = self.ids
        if a.nullable and not c.nullable:
            return "drops NULLs"
        k, ck = a.id, c.id
        fp, dec, integer = I["kFloatingPoint"], I["kDecimal"], I["kInteger"]
        if k == fp:
            return None if ck == fp and c.size >= a.size else "narrows the floating-point values"
        if k == integer:
            if ck == fp:
                return None
            if ck == integer:
                return None if c.size >= a.size else "narrows the integers"
            if ck == dec:
                return None if c.size >= 8 and c.precision >= min(19, self.DIGITS[a.size] + c.scale) else \
                    "leaves too few digits for the integers"
            return "is no number"
        if k == dec:
            if ck == fp:
                return None
            if ck == dec:
                if c.scale < a.scale:
                    return "drops decimal places"
                return None if c.precision >= min(19, a.precision) and c.size >= a.size else "leaves too few digits"
            return "drops decimal places"
        if k == I["kBoolean"]:
            return None if ck == k else "is not boolean"
        if k == I["kInterval"]:
            return None if ck == k and c.unit >= a.unit and c.size >= a.size else "coarsens the interval"
        if k in (I["kTimestamp"], I["kTime"]):
            return None if ck == k and c.unit >= a.unit and c.size >= a.size else "coarsens or changes the time"
        if k == I["kDate"]:
            if ck == I["kTimestamp"]:
                return None
            return None if ck == k and (c == a or (c.size == 8 and c.unit >= self.unit["kSecond"])) else "changes the date"
        if k == I["kVarChar"]:
            return None if (ck == k and c.maxLength >= a.maxLength) or ck in (I["kText"], I["kExtDictionary"]) else \
                "shortens the string"
        if k == I["kText"]:
            return None if ck in (k, I["kExtDictionary"]) else "shortens the string"
        return None

    NUM = ("kInteger", "kFloatingPoint", "kDecimal")

    # ---- common types -----------------------------------------------------
    def numeric(self):
        F = self.fn("common_numeric_type", 2)
        for kl in self.NUM + ("kBoolean", "kInterval"):
            for kr in self.NUM + ("kBoolean", "kInterval"):
                must = (kl in self.NUM and kr in self.NUM) or kl == kr
                self.common(F, kl, kr, must, {F.params[0]: L, F.params[1]: R}, {F.params[0]: R, F.params[1]: L})

    def common(self, F, kl, kr, must, env, rev, exact=True):
        one = self.paths(F, kl, kr, env)
        two = self.paths(F, kl, kr, rev)
        self.ctx.count("pairs of kinds")
        self.ctx.count("paths", len(one) + len(two))
        key = "%s:%s:%s" % (F.q.split("::")[-1], kl[1:], kr[1:])
        for (a, b, m, l1), (_, _, _, l2) in zip(self.cases(F, one, kl, kr), self.cases(F, two, kl, kr)):
            self.ctx.count("operand pairs")
            rets = [self.value(F, m, v) for k, v, s, sure in l1 if k == "ret"]
            if must and (not rets or any(k == "throw" and sure for k, v, s, sure in l1)):
                self.ctx.report(key + ":error", F.loc(), "%s has no common type for %s and %s" % (F.q, self.say(a), self.say(b)))
                continue
            for c in rets:
                if not isinstance(c, Shape):
                    self.ctx.report(key + ":none", F.loc(), "%s gives no type for %s and %s" % (F.q, self.say(a), self.say(b)))
                    continue
                if exact and kl != kr and "kInterval" in (kl, kr):
                    # an interval scaled by an integer stays that interval
                    iv = a if kl == "kInterval" else b
                    if c.but(nullable=0) != iv.but(nullable=0) or c.nullable < max(a.nullable, b.nullable):
                        self.ctx.report(key, F.loc(), "%s gives %s for %s and %s" % (F.q, self.say(c), self.say(a), self.say(b)))
                    continue
                for x in (a, b):
                    w = self.holds(c, x)
                    if w:
                        self.ctx.report(key, F.loc(), "%s gives %s for %s and %s: it %s" %
                                        (F.q, self.say(c), self.say(a), self.say(b), w))
            back = set(self.value(F, m, v) for k, v, s, sure in l2 if k == "ret")
            if exact and set(rets) != back:
                self.ctx.report(key + ":order", F.loc(), "%s depends on the order of its operands: %s and %s give %s one way and %s "
                                "the other" % (F.q, self.say(a), self.say(b), [self.say(x) for x in rets], [self.say(x) for x in back]))

    def strings(self):
        kinds = ("kText", "kVarChar", "kExtDictionary")
        for np in (2, 3):
            F = self.fn("common_string_type", np)
            for kl in kinds:
                for kr in kinds:
                    ex = {F.params[2]: ("k", "0")} if np == 3 else {}
                    if np == 3:
                        ex = {F.params[2]: ("root", "dicts")}
                    self.strcommon(F, kl, kr, dict(ex, **{}), np)

    def strcommon(self, F, kl, kr, ex, np):
        env = dict(ex)
        env[F.params[0]], env[F.params[1]] = L, R
        outs = self.paths(F, kl, kr, env)
        self.ctx.count("pairs of kinds")
        self.ctx.count("paths", len(outs))
        D = self.ids["kExtDictionary"]
        key = "%s/%d:%s:%s" % (F.q.split("::")[-1], np, kl[1:], kr[1:])
        for a, b, m, live in self.cases(F, outs, kl, kr):
            self.ctx.count("operand pairs")
            rets = [self.value(F, m, v) for k, v, s, sure in live if k == "ret"]
            if not rets:
                self.ctx.report(key + ":error", F.loc(), "%s has no common type for %s and %s" % (F.q, self.say(a), self.say(b)))
            for c in rets:
                w = None
                if c.nullable < max(a.nullable, b.nullable) and not (np == 3 and a.id == b.id == D and c in (a, b)):
                    w = "drops NULLs"
                elif c.id == D:
                    # ids stay ids only of a dictionary both operands can be translated into
                    if not (a.id == b.id == D):
                        w = "is a dictionary only one of them has"
                    elif abs(a.dictId) == abs(b.dictId):
                        if c.dictId not in (a.dictId, b.dictId):
                            w = "is a dictionary neither of them has"
                    elif np == 2:
                        w = "mixes two dictionaries"
                    elif c.dictId not in (a.dictId, b.dictId):
                        w = "is a dictionary neither of them has"
                    elif c.size < 4:
                        w = "narrows the string ids"
                elif a.id != D and b.id != D:
                    w = self.holds(c, a) or self.holds(c, b)
                elif c.id != self.ids["kText"]:
                    w = "is no text"
                if w:
                    self.ctx.report(key, F.loc(), "%s gives %s for %s and %s: it %s" %
                                    (F.q, self.say(c), self.say(a), self.say(b), w))

    # ---- operators ----------------------------------------------------------
    CMP = ("kEq", "kBwEq", "kNe", "kLt", "kGt", "kLe", "kGe")
    ARI = ("kMinus", "kPlus", "kMul", "kDiv", "kMod")
    BIT = ("kBwAnd", "kBwOr", "kBwXor")
    LOG = ("kAnd", "kOr")
    KINDS = NUM + ("kBoolean", "kDate", "kTime", "kTimestamp", "kInterval", "kText", "kVarChar", "kExtDictionary")

    def operators(self):
        F = self.fn("analyze_type_info", 5)
        p = F.params
        for o in self.CMP + self.ARI + self.BIT + self.LOG:
            for kl in self.KINDS:
                for kr in self.KINDS:
                    outs = self.paths(F, kl, kr, {p[0]: ("k", str(self.op[o])), p[1]: L, p[2]: R, p[3]: NL, p[4]: NR})
                    self.ctx.count("operator and kinds")
                    self.ctx.count("paths", len(outs))
                    if all(k == "throw" for k, v, s in outs) and not self.required(o, kl, kr):
                        self.ctx.count("rejected combinations")
                        continue
                    self.operator(F, o, kl, kr, outs)

    def required(self, o, kl, kr):
        num = kl in self.NUM and kr in self.NUM
        if o in self.CMP:
            s = ("kText", "kVarChar", "kExtDictionary")
            return num or (kl == kr and kl != "kInterval") or (kl in s and kr in s) or {kl, kr} == {"kDate", "kTimestamp"}
        if o == "kMod" or o in self.BIT:
            return kl == kr == "kInteger"
        if o in self.ARI:
            return num
        return kl == kr == "kBoolean"

    def allowed(self, o, kl, kr):
        if self.required(o, kl, kr):
            return True
        if o in self.CMP:
            return kl == kr
        if o in ("kPlus", "kMinus"):
            return {kl, kr} <= {"kInterval", "kInteger"} or (o == "kMinus" and kr == "kInterval" and kl in ("kDate", "kTimestamp"))
        if o == "kMul":
            return {kl, kr} == {"kInterval", "kInteger"}
        if o == "kDiv":
            return (kl, kr) == ("kInterval", "kInteger")
        return False

    def operator(self, F, o, kl, kr, outs):
        I = self.ids
        key = "%s:%s:%s:%s" % (F.q.split("::")[-1], o, kl[1:], kr[1:])
        for a, b, m, live in self.cases(F, outs, kl, kr):
            self.ctx.count("operand pairs")
            seen = False
            for k, v, s, sure in live:
                if k != "ret":
                    if self.required(o, kl, kr) and sure:
                        self.ctx.report(key + ":error", F.loc(), "%s rejects %s of %s and %s" % (F.q, o, self.say(a), self.say(b)))
                        seen = True
                    continue
                seen = True
                if not self.allowed(o, kl, kr):
                    self.ctx.report(key + ":accepts", F.loc(), "%s accepts %s of %s and %s" % (F.q, o, self.say(a), self.say(b)))
                    continue
                r = self.value(F, m, v)
                nl = self.value(F, m, s.heap.get(("deref", NL), ("deref", NL)))
                nr = self.value(F, m, s.heap.get(("deref", NR), ("deref", NR)))
                w = self.judge(o, kl, kr, a, b, r, nl, nr)
                if w:
                    self.ctx.report(key, F.loc(), "%s of %s and %s is computed on %s and %s as %s: %s" %
                                    (o, self.say(a), self.say(b), self.say(nl), self.say(nr), self.say(r), w))
            if not seen and self.required(o, kl, kr):
                self.ctx.report(key + ":error", F.loc(), "%s rejects %s of %s and %s" % (F.q, o, self.say(a), self.say(b)))

    def judge(self, o, kl, kr, a, b, r, nl, nr):
        I = self.ids
        if r.nullable != max(a.nullable, b.nullable):
            return "the result is%s nullable" % ("" if r.nullable else " not")
        both = nl.but(nullable=0) == nr.but(nullable=0)
        num = kl in self.NUM and kr in self.NUM
        lw, rw = self.holds(nl, a), self.holds(nr, b)
        if o in self.LOG or o in self.CMP:
            if r.id != I["kBoolean"]:
                return "the result is not boolean"
            if o in self.LOG:
                return None if nl.id == nr.id == I["kBoolean"] else "the operands are not boolean"
            if kl in ("kText", "kVarChar", "kExtDictionary"):
                return None if (nl, nr) == (a, b) else "the strings are converted here"
            if not both:
                return "the operands are compared in different types"
            if lw or rw:
                return "the type of the %s operand %s" % (("left", lw) if lw else ("right", rw))
            return None
        if "kInterval" in (kl, kr):
            if kl in ("kDate", "kTimestamp"):
                return None if (nl, nr) == (a, b) and r.but(nullable=0) == a.but(nullable=0) else "the operands are converted"
            return None if r.id == I["kInterval"] and self.holds(r.but(nullable=1), a if kl == "kInterval" else b) is None \
                else "the result is not the interval"
        if r.id == I["kDecimal"] and o == "kMul":
            if (nl.id, nr.id) != (I["kDecimal"], I["kDecimal"]):
                return "the operands are not decimals"
            sl, sr = (x.scale if x.id == I["kDecimal"] else 0 for x in (a, b))
            if nl.scale != sl or nr.scale != sr:
                return "an operand is rescaled before multiplying"
            if r.scale != sl + sr:
                return "the product has the wrong number of decimal places"
            pl, pr = (x.precision if x.id == I["kDecimal"] else 0 for x in (a, b))
            if r.precision < max(pl, pr) or r.size < 8:
                return "the product has too few digits"
            return None if nl.nullable >= a.nullable and nr.nullable >= b.nullable else "an operand drops NULLs"
        if lw or rw:
            return "the type of the %s operand %s" % (("left", lw) if lw else ("right", rw))
        if not both:
            return "the operands have different types"
        if r.id == I["kDecimal"]:
            if r.id != nl.id or r.scale != nl.scale or r.precision < nl.precision or r.size < nl.size:
                return "the result is scaled differently from its operands"
            want = max(x.scale if x.id == I["kDecimal"] else 0 for x in (a, b))
            return None if nl.scale == want else "the operands are rescaled"
        if r.but(nullable=0) != nl.but(nullable=0):
            return "the result has another type than its operands"
        return None

    # ---- the operators' operands -----------------------------------------------
    TYPING = {"analyze_type_info", "get_str_dict_cast_type", "exprs_share_one_and_same_rte_idx", "common_string_type",
              "common_numeric_type", "expr_is_null", "withType", "elemType"}

    def eopaque(self, fn, n, obj):
        nm = fn.q.split("::")[-1]
        return self.opaque(fn, n, obj) or nm in self.TYPING

    def peel(self, t):
        """the expression behind casts and decompressions, and what was done to it, first thing first"""
        ops = []
        while t[0] == "call" and t[1] in ("cast", "decompress") and t[2] is not None:
            ops.append(t)
            t = t[2]
        return t, ops[::-1]

    def oper(self):
        F = self.fn("normalizeOperExpr", 5)
        p = F.params
        for o in self.CMP + self.ARI + self.BIT + self.LOG:
            I = EInterp(self.prog, max_paths=10 ** 6, opaque=self.eopaque, max_depth=8)
            I.max_steps = 4 * 10 ** 6
            try:
                outs = I.run(F, {p[0]: ("k", str(self.op[o])), p[1]: ("root", "qual"), p[2]: LE, p[3]: RE, p[4]: EXE})
            except symx.TooComplex:
                raise model.AnalysisBroken("%s is too complex to enumerate" % F.q)
            for k, v, s in outs:
                if k == "ret":
                    self.ctx.count("operator construction paths")
                    self.oper1(F, o, v, s)

    def oper1(self, F, o, v, s):
        def bad(what, msg):
            self.ctx.report("%s:%s:%s" % (F.q.split("::")[-1], o, what), F.loc(), "%s, %s: %s" % (F.q, o, msg))
        if v[0] not in ("new", "built") or not v[1].endswith("BinOper"):
            return bad("node", "builds no binary operator")
        args = v[2]
        if len(args) != 6:
            raise model.AnalysisBroken("BinOper is built from %d values" % len(args))
        res, agg, op, qual, l, r = args
        if op != ("k", str(self.op[o])) or qual != ("root", "qual"):
            return bad("op", "builds the operator or qualifier %s %s" % (symx.show(op), symx.show(qual)))
        l, r = s.heap.get(l, l), s.heap.get(r, r)       # assigned through a reference
        (lb, lo), (rb, ro) = self.peel(l), self.peel(r)
        # what was done before the types were looked at is part of the operand
        lo, ro = ([x for x in ops if not symx.contains(res, x)] for ops in (lo, ro))
        if lb != LE or rb != RE:
            return bad("operands", "its operands are %s and %s" % (symx.show(lb), symx.show(rb)))
        if not (res[0] == "call" and res[1].endswith("analyze_type_info")):
            return bad("type", "its type is %s" % symx.show(res)[:80])
        a = res[3]
        for t, e in ((a[1], LE), (a[2], RE)):
            if not symx.contains(t, e) or symx.contains(t, RE if e == LE else LE):
                return bad("type", "its type is worked out from %s and %s" % (symx.show(a[1])[:60], symx.show(a[2])[:60]))
        if s.truth(("nn", EXE)) is not True:
            return
        iv = s.truth(("op", "==", ("fld", res, self.idf), ("k", str(self.ids["kInterval"]))))
        if iv:
            return
        for ops, old, new, side in ((lo, a[1], NEWL, "left"), (ro, a[2], NEWR, "right")):
            eq = s.truth(("call", "equal", old, (new,)))
            if eq is None:
                eq = s.truth(("call", "equal", new, (old,)))
            cast = [x for x in ops if x[1] == "cast" and symx.contains(x[3][0], new)]
            if eq is not True and not cast:
                return bad("cast", "the %s operand is not converted to the type the operator works on" % side)
        if o in self.CMP:
            self.dicts(F, o, s, lo, ro, bad)

    def dicts(self, F, o, s, lo, ro, bad):
        D = ("k", str(self.ids["kExtDictionary"]))
        isd = [s.truth(("op", "==", ("fld", x, self.idf), D)) for x in (NEWL, NEWR)]
        df = next(f for f, a in self.getter.items() if a == "dictId")
        dl, dr = ("fld", NEWL, df), ("fld", NEWR, df)
        last = [x[-1] if x else None for x in (lo, ro)]
        dec = [x is not None and x[1] == "decompress" for x in last]
        if all(dec):
            return
        if isd == [True, True]:
            self.ctx.count("dictionary comparisons")
            same = s.truth(("op", "==", dl, dr))
            if same is None:
                same = s.truth(("op", "==", dr, dl))
            if o not in ("kEq", "kNe", "kBwEq"):
                return bad("order", "the string ids of dictionary-encoded operands are compared by size")
            casts = [x if x is not None and x[1] == "cast" else None for x in last]
            casts = [c if c is not None and c[3][0][0] == "call" and
                     c[3][0][1].split("::")[-1] in ("get_str_dict_cast_type", "extDict") else None for c in casts]
            if same is True:
                return bad("dict", "one operand of the same dictionary is decompressed or translated") if any(dec) or any(casts) \
                    else None
            if casts[0] is None and casts[1] is None:
                return bad("dict", "string ids of two different dictionaries are compared")
            c = casts[0] or casts[1]
            T = c[3][0]
            if casts[0] is not None and casts[1] is not None:
                return None if casts[0][3][0] == casts[1][3][0] else bad("dict", "the operands go to different dictionaries")
            eql = s.truth(("call", "equal", T, (NEWL,)))
            eqr = s.truth(("call", "equal", T, (NEWR,)))
            other = 1 if casts[0] is not None else 0
            # the operand that stays must be the one whose dictionary was chosen: one of the two was
            ok = (other == 0 and (eql is True or eqr is False)) or (other == 1 and (eqr is True or eql is False))
            if not ok:
                bad("dict", "the operand whose dictionary was chosen is translated and the other one is not")
        elif True in isd and False in isd:
            self.ctx.count("dictionary comparisons")
            i = isd.index(False)
            c = last[i]
            want = (dl, dr)[1 - i]
            ok = c is not None and c[1] == "cast" and c[3][0][0] == "call" and c[3][0][1].endswith("extDict") and \
                c[3][0][3][1] == want
            if not ok or dec[1 - i]:
                bad("dict", "a string is compared with a string id")

    # ---- CASE --------------------------------------------------------------------
    def case(self):
        F = self.fn("normalizeCaseExpr", 3)
        lst, els = ("root", "branches"), ("root", "else")
        I = EInterp(self.prog, max_paths=10 ** 6, max_depth=8, opaque=lambda fn, n, obj: self.eopaque(fn, n, obj) or (
            fn.n.startswith("is") and fn.q.startswith(NS + "Type::")))
        I.max_steps = 10 ** 7
        try:
            outs = I.run(F, dict(zip(F.params, (lst, els, EXE))))
        except symx.TooComplex:
            raise model.AnalysisBroken("%s is too complex to enumerate" % F.q)
        main = set()
        for k, v, s in outs:
            for f, tv in s.facts:
                if f[0] == "call" and f[1] == "equal":
                    main |= {x for x in (f[2], f[3][0]) if x[0] == "acc"}
        seen = set()
        for k, v, s in outs:
            if k == "ret":
                self.case1(F, v, s, main, lst, els, seen)
        self.ctx.need("CASE paths", 100)

    def impossible(self, s):
        for f, tv in s.facts:
            if f[0] == "nn" and not tv and f[1][0] == "fld" and f[1][2] == self.typefield:
                return True
            c = f[2] if f[0] == "call" and f[1] == "isNull" else f[1] if f[0] == "nn" else f
            if f is c or f[0] == "nn":
                if c[0] == "call" and c[1] in ("withNullable", "withType", "cast", "decompress") and not tv:
                    return True
            if c is not None and c[0] == "call" and c[1].split("::")[-1] in ("common_string_type", "common_numeric_type"):
                if tv is (f[0] == "call" and f[1] == "isNull"):
                    return True
        return False

    def covers(self, T, X, s):
        if T == X:
            return True
        eq = lambda a, b: s.truth(("call", "equal", a, (b,))) is True or s.truth(("call", "equal", b, (a,))) is True
        if eq(T, X):
            return True
        can = lambda t: ("call", "canonicalize", t, ())
        if eq(can(T), can(X)):
            return True
        if T[0] == "call":
            nm = T[1].split("::")[-1]
            if nm == "withNullable" and T[3][0] == ("k", "1"):
                return self.covers(T[2], X, s)
            if nm in ("common_string_type", "common_numeric_type"):
                return any(self.covers(x, X, s) for x in T[3][:2])
        return False

    def case1(self, F, v, s, main, lst, els, seen):
        def bad(what, msg):
            self.ctx.report("%s:%s" % (F.q.split("::")[-1], what), F.loc(), "%s: %s" % (F.q, msg))
        if self.impossible(s):
            return
        self.ctx.count("CASE paths")
        if v[0] not in ("new", "built") or not v[1].endswith("CaseExpr"):
            return bad("node", "builds no CASE")
        if len(v[2]) != 4:
            raise model.AnalysisBroken("CaseExpr is built from %d values" % len(v[2]))
        T, agg, bl, el = v[2]
        tf = lambda e: ("fld", e, self.typefield)
        truth = lambda nm, t: s.truth(("call", nm, t, ()))
        facts = [f[2] for f, tv in s.facts if tv and f[0] == "call" and f[1] == "isNull"]

        def null(t):
            """t is the type of NULL"""
            for f in facts:
                while f is not None:
                    if f == t or self.covers(f, t, s):
                        return True
                    f = f[2] if f[0] == "call" and f[1] == "withNullable" else None
            return False
        elems = {f for g, _ in s.facts for f in symx.subterms(g) if f and f[0] == "elem" and f[1] == lst}
        runs = s.truth(("nn", EXE)) is True
        for e in elems:
            b = ("fld", e, "second")
            X = tf(b)
            if not (self.covers(T, X, s) or truth("isString", X) or null(X)):
                bad("branch", "a branch of type X gives a CASE whose type does not hold X (%s)" % symx.show(T)[:100])
            if null(X) and not truth("isString", X) and any(self.covers(T, A, s) for A in main) and not self.nullable(T):
                bad("branchnull", "a NULL branch gives a CASE that is not nullable")
            if runs:
                ws = [(k, w) for k, w in s.heap.items() if k[0] == "fld" and k[2] == "second" and k[1][0] == "elem" and k[1][1] == lst]
                if not any(w[0] == "call" and w[1] == "cast" and w[3][0] == T and self.peel0(w) == k for k, w in ws):
                    bad("branchcast", "a branch is not converted to the type of the CASE")
        for A in main:
            if any(symx.contains(f, A) for f, _ in s.facts) and s.truth(("nn", A)) is not False:
                if not (self.covers(T, A, s) or null(A)):
                    bad("branches", "a branch can change the CASE to a type that does not hold the branches before it (%s)"
                        % symx.show(T)[:100])
        has = s.truth(("nn", els))
        if has is False:
            if not (el[0] in ("new", "built") and el[1].endswith("Constant") and el[2][0] == T and el[2][1] == ("k", "1")):
                bad("noelse", "a CASE without ELSE does not give NULL otherwise")
            if any(self.covers(T, A, s) for A in main) and not self.nullable(T):
                bad("noelse", "a CASE without ELSE is not nullable")
            return
        base = self.peel0(el)
        if base != els:
            bad("else", "the ELSE expression is lost")
        X = tf(els)
        isnull = [t for f, t in s.facts if f[0] == "call" and f[1].endswith("expr_is_null")]
        if not (self.covers(T, X, s) or truth("isString", X) or any(isnull) or null(X)):
            bad("else", "the type of a CASE does not hold that of its ELSE (%s)" % symx.show(T)[:100])
        if any(isnull) and not truth("isString", X) and any(self.covers(T, A, s) for A in main) and not self.nullable(T):
            bad("elsenull", "ELSE NULL gives a CASE that is not nullable")
        if runs and not (el[0] == "call" and el[1] == "cast" and el[3][0] == T):
            bad("elsecast", "the ELSE expression is not converted to the type of the CASE")

    def nullable(self, T):
        if T[0] != "call":
            return False
        nm = T[1].split("::")[-1]
        return (nm == "withNullable" and T[3][0] == ("k", "1")) or \
            (nm.startswith("common_") and any(self.nullable(x) for x in T[3][:2]))

    @staticmethod
    def peel0(t):
        while t[0] == "call" and t[1] in ("cast", "decompress", "withType"):
            t = t[2]
        return t

    # ---- literals ----------------------------------------------------------------
    def literals(self):
        this, NT = ("root", "this"), ("root", "NT")
        ty = ("fld", this, self.typefield)
        szf = next(f for f, a in self.getter.items() if a == "size")
        F = self.method("Constant::castNumber")
        keep = self.literal_fields(this)
        for frm in ("kInteger", "kBoolean", "kTimestamp", "kFloatingPoint", "kDecimal"):
            for to, sizes in (("kInteger", (1, 2, 4, 8)), ("kDecimal", (8,)), ("kFloatingPoint", (4, 8)), ("kTimestamp", (8,))):
                for size in sizes:
                    st = symx.St()
                    for k, v in ((("fld", ty, self.idf), self.ids[frm]), (("fld", NT, self.idf), self.ids[to]), (("fld", NT, szf), size)):
                        st = st.store(k, K(str(v)))
                    try:
                        outs = Interp(self.prog, max_paths=40000, opaque=self.opaque, max_depth=8).run(F, {F.params[0]: NT}, st)
                    except symx.TooComplex:
                        raise model.AnalysisBroken("%s is too complex to enumerate" % F.q)
                    self.ctx.count("literal conversions")
                    self.literal(F, frm, to, size, outs, st, NT, keep)

    def literal_fields(self, this):
        return [("fld", this, f) for f in ("is_null_",)]

    def method(self, q):
        fs = [F for F in self.prog.fns.values() if F.q == NS + q and F.root is not None]
        if len(fs) != 1:
            raise model.AnalysisBroken("no " + q)
        return fs[0]

    def literal(self, F, frm, to, size, outs, st, NT, keep):
        key = "%s:%s:%s%d" % (F.q.split("::")[-1], frm[1:], to[1:], size * 8)

        def bad(msg):
            self.ctx.report(key, F.loc(), "%s: converting a literal from %s to %s%s %s" % (F.q, frm[1:], to[1:], size * 8, msg))
        if not any(k == "ret" for k, v, s in outs):
            return bad("is not possible")
        results = []
        for k, v, s in outs:
            if k != "ret":
                continue
            self.ctx.count("literal conversion paths")
            if v[0] not in ("new", "built") or not v[1].endswith("Constant") or len(v[2]) < 3:
                bad("gives no literal")
                continue
            if v[2][0] != NT:
                bad("gives a literal of another type")
            if v[2][1] != ("fld", ("root", "this"), "is_null_"):
                bad("changes whether it is NULL")
            val = v[2][2]
            put = [(t, x) for t, x in s.heap.items() if t not in st.heap and t[0] == "fld" and t[1] == val]
            if len(put) == 1:
                results.append((put[0][1], s))
            elif val[0] == "list" or not put:
                bad("keeps the old representation")
        if to == "kInteger":
            self.bounded(frm, size, results, bad)
        if to == "kDecimal" and frm != "kDecimal":
            for x, s in results:
                if x[0] == "op" and x[1] == "*":
                    bad("can overflow unnoticed")
                if x[0] == "undef":
                    of = [(f, tv) for f, tv in s.facts if f[0] == "call" and "mul_overflow" in f[1] and symx.contains(f, x)]
                    if not of or any(tv for f, tv in of):
                        bad("can overflow unnoticed")
                if frm != "kBoolean" and x == K("0") and not any(tv and f[0] == "op" and f[1] == "==" and K("0") in f[2:] for f, tv in s.facts):
                    bad("gives 0 for another value")
        if to == "kDecimal" and frm == "kDecimal":
            for x, s in results:
                if x[0] == "fld":
                    bad("keeps the digits of the old scale")
                if x[0] == "call" and len(x[3]) == 3 and x[3][1:] != (("fld", ("root", "this"), self.typefield), NT):
                    bad("rescales between the wrong types")

    def bounded(self, frm, size, results, bad):
        lo, hi = -(1 << (size * 8 - 1)), (1 << (size * 8 - 1)) - 1
        if frm == "kBoolean" or (size == 8 and frm != "kFloatingPoint"):
            return
        if frm == "kFloatingPoint" and size == 8:
            inside, outside = [float(1 << 62), -float(1 << 62), 0.0], [float(1 << 63), -float(1 << 63) - 2048.0]
        else:
            inside, outside = [lo, hi, 0], [lo - 1, hi + 1, 10 * hi, 10 * lo]
        if frm == "kFloatingPoint":
            inside, outside = [float(c) for c in inside], [float(c) for c in outside]
        for cand, ok in [(c, True) for c in inside] + [(c, False) for c in outside]:
            hit = False
            for x, s in results:
                if x[0] == "k":
                    continue
                m = Model(self, {x: cand})
                live = True
                for f, tv in s.facts:
                    if not symx.contains(f, x):
                        continue
                    try:
                        if bool(m.ev(f)) != tv:
                            live = False
                            break
                    except Unknown:
                        pass
                hit |= live
                if live and not ok:
                    return bad("lets %s through" % cand)
            if ok and not hit:
                return bad("rejects %s" % cand)

    def casts(self):
        """Constant::doCast between points in time"""
        this, NT = ("root", "this"), ("root", "NT")
        ty = ("fld", this, self.typefield)
        F = self.method("Constant::doCast")
        uf = next(f for f, a in self.getter.items() if a == "unit")
        lu, ru = ("fld", ty, uf), ("fld", NT, uf)
        for frm, to in (("kTimestamp", "kTimestamp"), ("kDate", "kTimestamp"), ("kTimestamp", "kDate"), ("kInteger", "kDecimal"),
                        ("kBoolean", "kInteger"), ("kText", "kTimestamp"), ("kInteger", "kText"), ("kBoolean", "kBoolean"),
                        ("kText", "kVarChar")):
            st = symx.St()
            for k, v in ((("fld", ty, self.idf), self.ids[frm]), (("fld", NT, self.idf), self.ids[to]), (("fld", this, "is_null_"), 0)):
                st = st.store(k, K(str(v)))
            sub = ("castNumber", "castString", "castFromString", "castToString", "get_datetime_scaled_epoch", "DateTruncate",
                   "truncate_high_precision_timestamp_to_date", "is_null_value")
            try:
                outs = Interp(self.prog, max_paths=40000, max_depth=8, opaque=lambda fn, n, o: self.opaque(fn, n, o) or
                              fn.q.split("::")[-1] in sub).run(F, {F.params[0]: NT}, st)
            except symx.TooComplex:
                raise model.AnalysisBroken("%s is too complex to enumerate" % F.q)
            self.ctx.count("literal conversions")
            key = "doCast:%s:%s" % (frm[1:], to[1:])

            def bad(msg):
                self.ctx.report(key, F.loc(), "%s: converting a literal from %s to %s %s" % (F.q, frm[1:], to[1:], msg))
            if not any(k == "ret" for k, v, s in outs):
                bad("is not possible")
            for k, v, s in outs:
                if k != "ret":
                    continue
                self.ctx.count("literal conversion paths")
                if v == this:
                    if s.truth(("call", "equal", ty, (NT,))) is not True:
                        bad("leaves it as it is")
                    continue
                if v[0] == "call":
                    want = {("kInteger", "kDecimal"): "castNumber", ("kBoolean", "kInteger"): "castNumber",
                            ("kText", "kTimestamp"): "castFromString", ("kInteger", "kText"): "castToString",
                            ("kText", "kVarChar"): "castString"}.get((frm, to))
                    if v[3][:1] != (NT,):
                        bad("goes to another type")
                    elif want and v[1] in sub and v[1] != want:
                        bad("is done by %s" % v[1])
                    continue
                if v[0] not in ("new", "built") or not v[1].endswith("Constant") or len(v[2]) < 3:
                    bad("gives no literal")
                    continue
                if v[2][0] != NT:
                    bad("gives a literal of another type")
                if v[2][1] not in (("fld", this, "is_null_"), K("0")):
                    bad("changes whether it is NULL")
                put = [x for t, x in s.heap.items() if t not in st.heap and t[0] == "fld" and t[1] == v[2][2]]
                same = s.truth(("op", "==", lu, ru))
                if same is None:
                    same = s.truth(("op", "==", ru, lu))
                if to == "kTimestamp" and frm in ("kDate", "kTimestamp"):
                    if not put:
                        if same is not True:
                            bad("keeps the number although the unit changes")
                    elif put[0][0] == "call" and put[0][1].endswith("get_datetime_scaled_epoch"):
                        if put[0][3][1:] != (lu, ru):
                            bad("scales from the wrong unit or to the wrong unit")
                if to == "kDate" and frm == "kTimestamp":
                    if not put or put[0][0] != "call" or not put[0][1].endswith(("DateTruncate",
                                                                             "truncate_high_precision_timestamp_to_date")):
                        bad("does not cut it to the day")
                    else:
                        units = [(f, tv) for f, tv in s.facts if symx.contains(f, lu)]
                        for n, u in self.unit.items():
                            if n in ("kMonth", "kDay"):
                                continue
                            m = Model(self, {lu: u})
                            try:
                                live = all(bool(m.ev(f)) == tv for f, tv in units)
                            except Unknown:
                                live = False
                            if live and put[0][1].endswith("DateTruncate") and n != "kSecond":
                                bad("takes %ss for seconds" % n[1:])


def K(v):
    return ("k", v)


def run(ctx):
    ctx.rule = ("every path of the typing functions yields, for every pair of operand types, a type that holds all values of both "
                "operands, does not depend on their order and keeps NULLs; every operand, branch and literal is converted to the type chosen")
    prog = model.load(TUS)
    C = Checker(ctx, prog)
    C.numeric()
    C.strings()
    C.operators()
    C.oper()
    C.case()
    C.literals()
    C.casts()
    ctx.need("operand pairs", 1000)
