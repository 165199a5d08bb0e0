"""C27: the query builder builds the operation that was asked for.

Every public operation of the builder is summarised path by path down to the expression and node constructors; types are
known by kind where a path has asked.  Each path's result is compared with what the operation's name and arguments call for."""
import re
from vlib import model, symx

TUS = ["QueryBuilder/QueryBuilder.cpp"]
NS = "hdk::ir::"
B = ("root", "builder")
CTX = ("ctx",)
RECS = {NS + x for x in ("BuilderExpr", "BuilderNode", "BuilderSortField", "BuilderOrderByKey")}
K0, K1, NUL = symx.K0, symx.K1, symx.KNULL

NPOS = str(2 ** 64 - 1)
INTS = {"int8", "int16", "int32", "int64"}
FPS = {"fp32", "fp64"}
KINDS = INTS | FPS | {"null", "boolean", "decimal", "varchar", "text", "date", "time", "timestamp", "interval", "extdict",
                      "array_fix", "array_var", "column"}
PRED = {
    "isNull": {"null"}, "isBoolean": {"boolean"}, "isInteger": INTS, "isInt8": {"int8"}, "isInt16": {"int16"},
    "isInt32": {"int32"}, "isInt64": {"int64"}, "isFloatingPoint": FPS, "isFp32": {"fp32"}, "isFp64": {"fp64"},
    "isDecimal": {"decimal"}, "isNumber": INTS | FPS | {"decimal"}, "isString": {"varchar", "text"}, "isVarChar": {"varchar"},
    "isText": {"text"}, "isDate": {"date"}, "isTime": {"time"}, "isTimestamp": {"timestamp"},
    "isDateTime": {"date", "time", "timestamp"}, "isInterval": {"interval"}, "isExtDictionary": {"extdict"},
    "isArray": {"array_fix", "array_var"}, "isFixedLenArray": {"array_fix"}, "isVarLenArray": {"array_var"},
    "isColumn": {"column"},
}
FACTORY = {x: x for x in INTS | FPS | {"boolean", "text", "date", "time", "timestamp", "interval", "null"}}
FACTORY.update(decimal="decimal", decimal64="decimal", varChar="varchar", extDict="extdict", arrayFixed="array_fix",
               arrayVarLen="array_var", column="column")


def under(n):
    if n is not None:
        yield n
        for c in n.c:
            yield from under(c)


def rec(cls, **f):
    return ("rec", cls, tuple(sorted(f.items())))


def field(r, f):
    return dict(r[2]).get(f, NUL)


def T(e):
    return tsimp(("call", "type", e, ()))


def tsimp(t):
    if t[0] == "call" and t[1] == "type" and t[2] is not None:
        e = t[2]
        if e[0] in ("const", "nullconst"):
            return e[1]
        if e[0] == "new" and e[2] and not e[1].endswith("CardinalityExpr"):
            return e[2][0]
        if e[0] == "call" and e[1] == "cast" and e[3]:
            return e[3][0]
    return t


def base_type(t):
    while t[0] == "call" and t[1] in ("withNullable", "canonicalize") and t[2] is not None:
        t = t[2]
    return t


def kinds(t, facts):
    t = base_type(t)
    if t[0] == "call" and t[2] == CTX and t[1] in FACTORY:
        return {FACTORY[t[1]]}
    ks = set(KINDS)
    for f, tv in facts:
        if f[0] == "call" and f[1] in PRED and f[2] is not None and not f[3] and base_type(f[2]) == t:
            ks &= PRED[f[1]] if tv else KINDS - PRED[f[1]]
    return ks


WGET = {"type": 0, "kind": 1, "args": 2, "partitionKeys": 3, "orderKeys": 4, "collation": 5}


def targ(fn):
    """hdk::ir::X of `is<X>` and `as<X>`."""
    m = re.search(r"[<](?:#\$|#)?@N@hdk@N@ir@S@(\w+)", fn.u)
    return m.group(1) if m else ""


class Interp(symx.Interp):
    """Builder objects and literals are values made of their fields; type predicates on one type exclude each other."""
    objn = 0
    recursion = 2

    def fresh(self):
        Interp.objn += 1
        return ("tmp", Interp.objn)

    def may_inline(self, fn, n, obj):
        if fn.u in self.stack:
            if self.stack.count(fn.u) >= self.recursion:
                return False
            saved, self.stack = self.stack, [u for u in self.stack if u != fn.u]
            try:
                return super().may_inline(fn, n, obj)
            finally:
                self.stack = saved
        return super().may_inline(fn, n, obj)

    def make(self, t, ts, s, fn):
        """The value of a builder object made by one of its constructors."""
        G = self.prog.fns.get(fn.u)
        if G is None or G.root is None:
            return None
        this = self.fresh()
        env = dict(zip(G.params, ts))
        r = []
        for k, v, y in self.run(G, env, s.with_env({a: b for a, b in s.env.items() if isinstance(a, tuple)}), this):
            if k != "ret":
                continue
            f = {p[2]: w for p, w in y.heap.items() if p[0] == "fld" and p[1] == this}
            y = symx.St(s.env, {p: w for p, w in y.heap.items() if not symx.contains(p, this)}, y.facts, y.ev, y.reads)
            r.append((rec(t.split("::")[-1], **f), y))
        return r

    def literal(self, t, s):
        if t[0] == "new" and t[1].endswith("::Constant") and len(t[2]) >= 3:
            ty, null, d = t[2][:3]
            if null == K1:
                return ("nullconst", ty)
            f = [(p[2], v) for p, v in s.heap.items() if p[0] == "fld" and p[1] == d]
            if null == K0 and len(f) == 1:
                return ("const", ty, f[0][1], f[0][0])
            if null == K0 and not f and d[0] in ("tmp", "undef"):
                return ("const", ty, ("garbage",), "")
        return t

    def ctor(self, m, args):
        """The constructor of a builder object that these arguments call, for emplace_back."""
        cls = [c for c in RECS if c in m.t]
        if len(cls) != 1:
            return None

        def norm(t):
            t = t.replace("const ", "").replace("&", "").replace(NS, "").strip()
            return "string" if isstr(t) else t
        want = [norm(a.t) for a in args]
        fs = [F for F in self.prog.fns.values() if F.root is not None and F.q == cls[0] + "::" + cls[0].split("::")[-1] and
              [norm(p.t) for p in F.params] == want]
        return fs[0] if len(fs) == 1 else None

    def construct(self, n, s):
        fn = n.fn
        t = n.t.replace("const ", "")
        real = [c for c in n.c if c is not None and c.k != "CXXDefaultArgExpr"]
        if t in RECS and fn is not None and fn.get("ctor") not in ("copy", "move"):
            r = []
            for ts, x in self.evs([c for c in n.c], s):
                z = self.make(t, ts, x, fn)
                if z is None:
                    return super().construct(n, s)
                r += z
            return r
        if t.split("::")[-1] == "Datum" and not real:
            return [(self.fresh(), s)]
        if t.startswith(("std::vector", "std::list")) and not real:
            return [(("list",), s)]
        return [(self.literal(v, x), x) for v, x in super().construct(n, s)]

    def stmt(self, n, s):
        if n is not None and n.k == "DeclStmt":
            outs = super().stmt(n, s)
            r = []
            for k, v, x in outs:
                for ds in n.get("ds", []):
                    if k == "fall" and isinstance(x.env.get(ds[0]), tuple) and x.env[ds[0]][0] == "undef" and ds[0].t.endswith("Datum"):
                        x = x.bind(ds[0], self.fresh())
                r.append((k, v, x))
            return r
        return super().stmt(n, s)

    def is_bool(self, n):
        """What a call answers is kept, not split on."""
        m = symx.strip(n)
        return super().is_bool(n) and not (m is not None and m.k in ("CXXMemberCallExpr", "CallExpr"))

    def ev(self, n, s):
        if n is not None and n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.op in ("+", "==", "!=") and n.cv is None and \
                len([c for c in n.c if c is not None]) >= 2 and self.consts:
            a, b = [c for c in n.c if c is not None][-2:]
            outs = self.evs([a, b], s)
            if outs and all(ts[0][0] == "cstr" and (ts[1][0] == "cstr" or ts[1][0] == "k" and n.op == "+") for ts, x in outs):
                r = []
                for (p, q), x in outs:
                    if n.op == "+":
                        r.append((("cstr", p[1], p[2] + int(q[1])), x))
                    else:
                        r.append((K1 if (p == q) == (n.op == "==") else K0, x))
                return r
        if n is not None and n.k == "MemberExpr" and n.d is not None and n.d.k == "Field":
            r = []
            for t, x in super().ev(n, s):
                if t[0] == "fld" and t[1][0] == "rec":
                    t = field(t[1], t[2])
                elif t[0] == "fld" and t[2] == "ctx_":
                    t = CTX
                elif t[0] == "fld" and t[2] in ("first", "second"):
                    h = next((y[1] for y in symx.subterms(t[1]) if y[:1] == ("at",) and y[1][:1] == ("tup",)), None)
                    if h is not None and len(h) == 3:
                        t = h[1 if t[2] == "first" else 2]
                r.append((t, x))
            return r
        if n is not None and n.k == "UnaryOperator" and n.op == "-" and n.cv is None:
            return [(("k", str(-int(t[1]))) if t[0] == "k" and t[1].lstrip("-").isdigit() else ("op", "u-", t), x)
                    for t, x in super().ev(n.c[0], s)]
        if n is not None and n.k == "DeclRefExpr" and n.d.k == "Var" and n.d not in s.env and n.d in self.tables:
            return [(self.tables[n.d], s)]
        if n is not None and n.k == "BinaryOperator" and n.op in ("+", "-") and n.cv is None:
            return [(self.sums(t), x) for t, x in super().ev(n, s)]
        return super().ev(n, s)

    @staticmethod
    def sums(t):
        """x + 0, 0 + x, x - 0, and the size of a list one element was just added to, minus one."""
        if t[0] == "op" and len(t) == 4:
            if t[3] == K0:
                return t[2]
            if t[2] == K0 and t[1] == "+":
                return t[3]
            if t[1] == "-" and t[3] == K1 and t[2][0] == "size" and t[2][1][0] == "built":
                return ("size", t[2][1][1])
        return t

    tables = {}
    consts = False

    def conststr(self, n, q, nm, obj, args, s):
        """Operations of std::string on constants."""
        if obj is not None and nm in ("find", "substr", "back", "front", "size", "length", "empty", "c_str", "data", "rfind"):
            def fold(t):
                v = Checker.num(t, {}) if t[0] == "op" else None
                return t if v is None else ("k", str(v))
            outs = [([ts[0]] + [fold(t) for t in ts[1:]], x)
                    for ts, x in self.evs([obj] + [a for a in args if a.k != "CXXDefaultArgExpr"], s)]
            if not outs or not all(ts[0][0] == "k" and all(t[0] == "k" for t in ts[1:]) for ts, x in outs):
                return None
            r = []
            for ts, x in outs:
                t, a = ts[0][1], [z[1] for z in ts[1:]]
                if nm in ("find", "rfind"):
                    c = chr(int(a[0])) if len(args[0].t) < 12 and "char" in args[0].t and "*" not in args[0].t and a[0].isdigit() and \
                        int(a[0]) > 9 else a[0]
                    i = getattr(t, nm)(c, *[int(z) for z in a[1:]])
                    v = ("k", str(i) if i >= 0 else NPOS)
                elif nm == "substr":
                    b = int(a[0]) if a else 0
                    ln = len(t) if len(a) < 2 or a[1] in (NPOS, "-1") else int(a[1])
                    if b > len(t) or b < 0 or ln < 0:
                        continue        # throws
                    v = ("k", t[b:b + ln])
                elif nm in ("back", "front"):
                    if not t:
                        return None
                    v = ("k", str(ord(t[-1 if nm == "back" else 0])))
                elif nm in ("size", "length"):
                    v = ("k", str(len(t)))
                elif nm == "empty":
                    v = K0 if t else K1
                else:
                    v = ("cstr", t, 0)
                r.append((v, x))
            return r
        if obj is None and nm in ("strtol", "strtoll", "strtod", "atoi") and len(args) >= 2:
            e = symx.strip(args[1])
            d = e.c[0] if e is not None and e.k == "UnaryOperator" and e.op == "&" else None
            d = symx.strip(d)
            r = []
            for ts, x in self.evs(args[:1], s):
                if ts[0][0] != "cstr" or ts[0][2] or d is None or d.k != "DeclRefExpr":
                    return None
                pat = r"\s*[-+]?\d+" if nm != "strtod" else r"\s*[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?"
                m = re.match(pat, ts[0][1])
                n_ = m.end() if m else 0
                r.append((("k", m.group(0).strip() if m else "0"), x.bind(d.d, ("cstr", ts[0][1], n_))))
            return r
        return None

    def libcall(self, n, q, nm, obj, args, s):
        if self.consts:
            r = self.conststr(n, q, nm, obj, args, s)
            if r is not None:
                return r
        if q == "std::holds_alternative" and len(args) == 1 and n.fn is not None:
            m = re.search(r"holds_alternative<#(?:(I)#|\$@N@std@N@__cxx11@S@(basic_string)|\$(?:@N@\w+)*@S@(\w+)#)", n.fn.u)
            if m:
                k = "int" if m.group(1) else "string" if m.group(2) else m.group(3)
                return [(("call", "holds:" + k, ts[0], ()), x) for ts, x in self.evs(args, s)]
        if obj is not None and nm == "insert" and len(args) == 3:
            m = symx.strip(obj)
            if m is not None and m.k == "DeclRefExpr":
                r = []
                for ts, x in self.evs([obj] + list(args), s):
                    c, pos, a, b = ts
                    if pos == ("iter", c, "end") and a[0] == "iter" and a[2] == "begin" and b == ("iter", a[1], "end"):
                        c = ("ins", c, a[1])
                    else:
                        c = ("unknown", self.fresh())
                    r.append((("void",), x.bind(m.d, c)))
                return r
        if obj is not None and nm == "emplace_back" and len(args) > 1:
            m = symx.strip(obj)
            C = self.ctor(m, args) if m is not None and m.k == "DeclRefExpr" else None
            if C is not None:
                r = []
                for ts, x in self.evs([obj] + list(args), s):
                    for v, y in self.make(C.q.rsplit("::", 1)[0], ts[1:], x, C):
                        r.append((v, y.bind(m.d, ("built", ts[0], v, nm))))
                return r
        if obj is None and q == "std::iota" and len(args) == 3:
            m = [x for x in under(args[0]) if x.k == "DeclRefExpr" and x.d is not None and x.d in s.env]
            if len(m) == 1:
                r = []
                for (a, b, c), x in self.evs(list(args), s):
                    ok = a[0] == "iter" and a[2] == "begin" and b == ("iter", a[1], "end")
                    n_ = a[1] if ok else None
                    if ok and n_[0] == "new" and n_[2]:
                        n_ = n_[2][0]
                    r.append((("void",), x.bind(m[0].d, ("iota", n_, c) if ok else ("unknown", self.fresh()))))
                return r
        if obj is not None and nm in ("empty", "size") and not args:
            outs = self.evs([obj], s)
            m = symx.strip(obj)
            if outs and m is not None and m.d is not None and m.d.k == "ParmVar" and all(ts[0][0] == "list" for ts, x in outs):
                return [(("k", str(int(not len(ts[0][1:])) if nm == "empty" else len(ts[0][1:]))), x) for ts, x in outs]
        if obj is None and q in ("boost::algorithm::trim_copy", "boost::algorithm::to_lower_copy") or \
                q in ("boost::trim_copy", "boost::to_lower_copy"):
            r = []
            for ts, x in self.evs(args[:1], s):
                t = ts[0]
                if t[0] == "k":
                    v = t[1]
                    t = ("k", v.strip() if "trim" in q else v.lower())
                elif not (t[0] == "norm"):
                    t = ("norm", t)
                r.append((t, x))
            return r
        if obj is not None and nm in ("count", "at", "find", "contains") and len(args) == 1:
            r = []
            for (c, k), x in self.evs([obj, args[0]], s):
                if c[0] == "list" and k[0] == "k":
                    hit = [e for e in c[1:] if (e[1] if e[0] == "tup" else e) == k]
                    if nm in ("count", "contains"):
                        r.append((K1 if hit else K0, x))
                        continue
                    if nm == "at" and hit:
                        r.append((hit[0][2], x))
                        continue
                    if nm == "find":
                        r.append((("iter", c, ("at", hit[0])) if hit else ("iter", c, "end"), x))
                        continue
                t = ("call", nm, c, (k,))
                if nm == "at":
                    t = ("elem", c, self.key(k))
                r.append((t, x.event(("call", q or nm, c, (k,), n))))
            return r
        r = [(self.literal(v, x), x) for v, x in super().libcall(n, q, nm, obj, args, s)]
        return self.simp(n.fn, r) if q.startswith(NS) else r

    def opaquecall(self, n, fn, obj, args, s):
        return self.simp(fn, super().opaquecall(n, fn, obj, args, s))

    @staticmethod
    def simp(fn, outs):
        r = []
        for t, x in outs:
            if t[0] != "call":
                r.append((t, x))
                continue
            nm, o, a = t[1], t[2], t[3]
            o = symx.undyn(o) if o is not None else None
            t = ("call", nm, o, a)
            if o is not None and nm in ("is", "as"):
                t = ("dyn", targ(fn), o)
                if nm == "is":
                    t = ("nn", t)
            elif nm.endswith("Constant::make"):
                t = ("const", a[0], a[1], "")
            elif o is not None and not a and o[0] == "new" and o[1].endswith("::WindowFunction") and nm in WGET and len(o[2]) == 6:
                t = o[2][WGET[nm]]
            elif o is not None and o[0] == "const" and nm in ("intVal", "fpVal") and not a:
                t = o[2]
            elif nm == "ctx" and not a:
                t = CTX
            elif nm == "get" and not a and o is not None:
                t = o
            elif nm == "nullable" and o is not None:
                b = o
                while b[0] == "call" and b[1] == "canonicalize":
                    b = b[2]
                if b[0] == "call" and (b[2] == CTX and b[1] in FACTORY or b[1] == "withNullable") and b[3]:
                    t = b[3][-1]
            elif nm == "equal" and len(a) == 1 and o == a[0]:
                t = K1
            t = tsimp(t)
            r.append((t, x))
        return r

    @staticmethod
    def member(t):
        """(membership test, polarity) of a comparison of a count with nothing."""
        if t[0] == "op" and len(t) == 4:
            a, b = t[2], t[3]
            for x, y in ((a, b), (b, a)):
                if t[1] in ("==", "!=") and x[:2] == ("call", "find") and y == ("iter", x[2], "end"):
                    return ("call", "count", x[2], x[3]), t[1] == "!="
            cnt = lambda z: z[0] == "call" and z[1] in ("count", "contains")
            if cnt(a) and b == K0 and t[1] in ("==", "!=", ">"):
                return a, t[1] != "=="
            if cnt(b) and a == K0 and t[1] in ("==", "!=", "<"):
                return b, t[1] != "=="
            if cnt(a) and b == K1 and t[1] in (">=", "<", "=="):
                return a, t[1] != "<"
            if cnt(b) and a == K1 and t[1] in ("<=", ">", "=="):
                return b, t[1] != ">"
        return None

    def branch(self, t, s):
        if t[0] == "call" and t[1].startswith("holds:"):
            seen = {f[1]: tv for f, tv in s.facts if f[0] == "call" and f[1].startswith("holds:") and f[2] == t[2]}
            if t[1] not in seen and True in seen.values():
                return [(False, s)]
        m = self.member(t)
        if m is not None:
            return [(tv == m[1], x) for tv, x in self.branch(m[0], s)]
        if t[0] == "call" and t[1] in PRED and t[2] is not None and not t[3]:
            ks = kinds(t[2], s.facts)
            if ks <= PRED[t[1]]:
                return [(True, s)]
            if not ks & PRED[t[1]]:
                return [(False, s)]
        if self.consts and t[0] == "op" and t[1] == "==":
            for a, b in (t[2:], t[3:1:-1]):
                if a[0] == "k" and re.match(r"[-+]?[\d.]+$", a[1]) and re.search("huge|inf", str(b), re.I):
                    return [(False, s)]
        if t[0] == "op" and t[1] == "==" and t[2][0] == "k" and t[3][0] == "k":
            return [(t[2][1] == t[3][1], s)]
        if t[0] == "op" and t[1] == "==" and t[2][0] != "k" and t[3][0] == "k":
            for f, tv in s.facts:       # equal to another value already
                if tv and f[0] == "op" and f[1] == "==" and f[2] == t[2] and f[3][0] == "k" and f[3] != t[3]:
                    return [(False, s)]
        if t[0] == "nn" and t[1][0] == "dyn" and t[1][2][0] in ("const", "nullconst", "new"):
            e = t[1][2]
            have = "Constant" if e[0] != "new" else e[1].split("::")[-1]
            return [(have == t[1][1], s)]
        if t[0] == "nn" and t[1][0] == "dyn":
            for f, tv in s.facts:
                if tv and f[0] == "nn" and f[1][0] == "dyn" and f[1][2] == t[1][2] and f[1][1] != t[1][1]:
                    return [(False, s)]
        if t[0] == "nn" and t[1][0] in ("rec", "const", "nullconst", "new", "list"):
            return [(True, s)]
        if t[0] == "call" and t[1] == "isNull" and t[2] is not None and t[2][0] in ("const", "nullconst"):
            return [(t[2][0] == "nullconst", s)]
        return super().branch(t, s)


OPAQUE = {"checkExprInput", "collectNodes", "expandAllowedInput", "getRefByName", "getRefByIndex", "getColNames",
          "getFieldName", "normalizeColIndex", "checkCstArrayType"}


def opaque_but(*names):
    def f(fn, n, obj):
        G = PROG[0].fns.get(fn.u)
        if fn.n in OPAQUE and fn.n not in names:
            return True
        return not (G is not None and "/QueryBuilder/" in G.loc() or fn.q == NS + "makeExpr")
    return f


PROG = []
opaque = opaque_but()


def show(t):
    if t[0] == "const":
        return "literal %s of type %s" % (show(t[2]), show(t[1]))
    if t[0] == "nullconst":
        return "NULL of type %s" % show(t[1])
    if t[0] == "new":
        return "%s(%s)" % (t[1].split("::")[-1], ", ".join(show(x) for x in t[2]))
    if t[0] == "rec":
        return "%s{%s}" % (t[1], ", ".join("%s=%s" % (a, show(b)) for a, b in t[2]))
    if t[0] == "call":
        return "%s(%s)" % (t[1].split("::")[-1], ", ".join(show(x) for x in ((t[2],) if t[2] is not None else ()) + t[3]))
    if t[0] in ("list", "tup", "built", "ins"):
        return "%s[%s]" % (t[0], ", ".join(show(x) if isinstance(x, tuple) else x for x in t[1:]))
    if t[0] == "op":
        return "(%s %s)" % (t[1], " ".join(show(x) for x in t[2:]))
    return symx.show(t)


PT = {"int": "int32", "int64_t": "int64", "long": "int64", "float": "fp32", "double": "fp64"}


def isstr(t):
    return "basic_string" in t or "std::string" in t


class Checker:
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        PROG[:] = [prog]

    def bind(self, p):
        t = p.t.replace("const ", "").replace("&", "").strip()
        if t == NS + "BuilderExpr":
            return rec("BuilderExpr", builder_=B, expr_=("root", p.n), name_=("root", p.n + "'s name"), auto_name_=("root", p.n + " is auto-named"))
        if t == NS + "BuilderNode":
            return rec("BuilderNode", builder_=B, node_=("root", p.n))
        if t == NS + "BuilderOrderByKey":
            return rec("BuilderOrderByKey", expr_=("root", p.n), dir_=("root", p.n + "'s direction"),
                       null_pos_=("root", p.n + "'s null position"))
        return ("root", p.n)

    def paths(self, F, env=None, this=None, **kw):
        I = Interp(self.prog, max_depth=12, max_paths=10 ** 5, opaque=kw.pop("opaque", opaque))
        I.max_steps = 2 * 10 ** 6
        I.recursion = kw.get("recursion", 2)
        I.consts = kw.get("consts", False)
        e = {p: self.bind(p) for p in F.params}
        e.update(env or {})
        cls = F.q.split("::")[-2]
        if this is None:
            this = {"BuilderExpr": rec("BuilderExpr", builder_=B, expr_=("root", "this"), name_=("root", "this' name"),
                                       auto_name_=("root", "this is auto-named")),
                    "BuilderNode": rec("BuilderNode", builder_=B, node_=("root", "this"))}.get(cls, B)
        try:
            return I.run(F, e, None, this)
        except symx.TooComplex:
            raise model.AnalysisBroken("%s is too complex to enumerate" % F.q)

    # ---- what is compared ------------------------------------------------------
    def setup(self):
        en = {e: dict(v) for e, v in self.prog.enums.items()}

        def E(name):
            if NS + name not in en and name in en:
                return {k: ("k", str(v)) for k, v in en[name].items()}
            if NS + name not in en:
                raise model.AnalysisBroken("enumeration %s not found" % name)
            return {k: ("k", str(v)) for k, v in en[NS + name].items()}
        self.op, self.aggt, self.qual = E("OpType"), E("AggType"), E("Qualifier")
        self.wk, self.dadd, self.dext, self.unit = E("WindowFunctionKind"), E("DateAddField"), E("DateExtractField"), E("TimeUnit")
        self.jt, self.sd, self.np, self.interp = E("JoinType"), E("SortDirection"), E("NullSortedPosition"), E("Interpolation")
        self.by = {}
        for F in self.prog.fns.values():
            if F.root is not None and "/QueryBuilder/" in F.loc() and not F.is_lambda:
                self.by.setdefault(F.q.replace(NS, ""), []).append(F)

    def fns(self, name, *types):
        """Functions called `name`; with types given, the one with these parameter types."""
        r = self.by.get(name, [])
        if types:
            r = [F for F in r if [self.ptype(p) for p in F.params] == list(types)]
            if len(r) > 1:
                raise model.AnalysisBroken("two functions %s(%s)" % (name, ", ".join(types)))
        return r

    def fn(self, name, *types):
        r = self.fns(name, *types) if types else [F for F in self.by.get(name, []) if not F.params]
        if not r:
            raise model.AnalysisBroken("%s(%s) not found" % (name, ", ".join(types)))
        return r[0]

    @staticmethod
    def ptype(p):
        t = p.t.replace("const ", "").replace("&", "").replace(NS, "").strip()
        t = re.sub(r"std::basic_string<char(, [^<>]*(<char>)?)*>", "string", t)
        return {"int64_t": "long", "Type *": "Type", "std::string": "string"}.get(t, t)

    def bad(self, F, what, msg):
        sig = "%s(%s)" % (F.q.replace(NS, ""), ",".join(self.ptype(p) for p in F.params))
        self.ctx.report("%s:%s" % (sig, what), F.loc(), "%s: %s" % (sig, msg))

    def expr(self, F, v):
        """The expression a path returns."""
        if v[0] == "rec" and v[1] == "BuilderExpr":
            if field(v, "builder_") != B:
                self.bad(F, "builder", "the result does not belong to the same builder")
            return field(v, "expr_")
        return None

    # ---- terms -------------------------------------------------------------------
    @staticmethod
    def anyof(v, parts, s):
        """v is the disjunction of the parts on this path."""
        vals = [p if p in (K0, K1) else (s.truth(p) is not None and (K1 if s.truth(p) else K0)) or p for p in parts]
        if v == K1:
            return K1 in vals
        if v == K0:
            return all(x == K0 for x in vals)
        rest = [x for x in vals if x != K0]
        return len(rest) == 1 and rest[0] == v or v[0] == "op" and v[1] in ("||", "|") and \
            sorted(map(str, v[2:])) == sorted(map(str, rest))

    @staticmethod
    def nullable(t):
        r = Interp.simp(None, [(("call", "nullable", t, ()), None)])
        return r[0][0]

    def same(self, a, b):
        """Equal up to how a literal was stored and conversions of operands that keep the value."""
        if a == b:
            return True
        if a[0] == b[0] == "const":
            return a[1] == b[1] and a[2] == b[2]
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[0] == b[0]:
            return all(self.same(x, y) if isinstance(x, tuple) and isinstance(y, tuple) and x and y else x == y
                       for x, y in zip(a[1:], b[1:]))
        return False

    @staticmethod
    def seq(t):
        if t[0] == "list":
            return [("one", x) for x in t[1:]]
        if t[0] == "built":
            return Checker.seq(t[1]) + [("one", t[2])]
        if t[0] == "ins":
            return Checker.seq(t[1]) + [("all", t[2])]
        if t[0] == "new" and t[1].startswith(("std::vector", "std::list")):
            if not t[2]:
                return []
        return [("all", t)]

    def seqis(self, t, want):
        q = self.seq(t)
        return len(q) == len(want) and all(a == "one" and self.same(x, w) for (a, x), w in zip(q, want))

    def N(self, op, l, r):
        return ("oper", self.op[op], l, r)

    def isoper(self, v, op, l, r):
        return v[0] == "call" and v[1].endswith("normalizeOperExpr") and len(v[3]) >= 4 and \
            v[3][0] == self.op[op] and v[3][1] == self.qual["kOne"] and self.same(v[3][2], l) and self.same(v[3][3], r)

    def isnew(self, v, cls, n=None):
        return v[0] == "new" and v[1].split("::")[-1] == cls and (n is None or len(v[2]) >= n)

    def k(self, t, s):
        return kinds(t, s.facts)

    # ---- operators ---------------------------------------------------------------
    BIN = {"mul": "kMul", "div": "kDiv", "mod": "kMod", "logicalAnd": "kAnd", "logicalOr": "kOr", "bwAnd": "kBwAnd",
           "bwOr": "kBwOr", "bwXor": "kBwXor", "eq": "kEq", "ne": "kNe", "lt": "kLt", "le": "kLe", "gt": "kGt", "ge": "kGe"}
    SYM = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "&&": "logicalAnd", "||": "logicalOr", "&": "bwAnd",
           "|": "bwOr", "^": "bwXor", "==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge", "[]": "at"}

    def operand(self, p):
        """What the expression of an argument has to be."""
        t = self.ptype(p)
        r = ("root", p.n)
        if t == "BuilderExpr":
            return r
        if t in PT:
            return ("const", ("call", PT[t], CTX, (K0,)), r, "")
        if t == "string":
            return ("text", r)
        return None

    def settext(self, v):
        """Literals made from a string, in the form operand() gives."""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == "call" and v[1] == "cast" and v[2] is not None and v[2][0] == "const" and v[2][1][:3] == ("call", "text", CTX) \
                and v[3] and v[3][0][:3] == ("call", "text", CTX):
            x = v[2][2]
            while x[0] == "new" and len(x[2]) == 1:
                x = x[2][0]
            return ("text", x)
        return tuple(self.settext(x) if isinstance(x, tuple) else x for x in v)

    def operators(self):
        this = ("root", "this")
        for name in list(self.BIN) + ["add", "sub", "at", "pow"]:
            for F in self.fns("BuilderExpr::" + name):
                if len(F.params) == 1 and self.operand(F.params[0]) is not None:
                    self.binary(F, name, this, self.operand(F.params[0]))
                    self.ctx.count("operator overloads")
        for sym, name in self.SYM.items():
            for F in self.fns("operator" + sym) + self.fns("BuilderExpr::operator" + sym):
                ps = [self.operand(p) for p in F.params]
                if F.q.startswith(NS + "BuilderExpr"):
                    ps = [this] + ps
                if len(ps) == 2 and None not in ps and (any(self.ptype(p) == "BuilderExpr" for p in F.params) or ps[0] == this):
                    self.binary(F, name, ps[0], ps[1])
                    self.ctx.count("operator overloads")
        for name, f in (("uminus", self.uminus), ("logicalNot", self.lnot), ("bwNot", self.bwnot), ("isNull", self.isnull),
                        ("unnest", self.unnest), ("ceil", self.rounding), ("floor", self.rounding), ("cardinality", self.card)):
            self.unary(self.fn("BuilderExpr::" + name), name, f, this)
        for q, name, f in (("operator-", "uminus", self.uminus), ("operator!", "logicalNot", self.lnot), ("operator~", "bwNot", self.bwnot)):
            for F in self.fns("BuilderExpr::" + q):
                if not F.params:
                    self.unary(F, name, f, this)
            for F in self.fns(q):
                if len(F.params) == 1 and self.ptype(F.params[0]) == "BuilderExpr":
                    self.unary(F, name, f, ("root", F.params[0].n))
        for F in self.fns("BuilderExpr::add") + self.fns("BuilderExpr::sub"):
            if len(F.params) == 2 and self.ptype(F.params[1]) == "DateAddField":
                self.dateadd(F, F.q.endswith("sub"), this, self.operand(F.params[0]), ("root", F.params[1].n))
        self.ctx.need("operator overloads", 150)

    def rets(self, F, env=None, **kw):
        outs = self.paths(F, env, **kw)
        self.ctx.count("operations")
        n = 0
        for k, v, s in outs:
            if k == "ret":
                n += 1
                self.ctx.count("paths")
                yield self.settext(v), s
        if not n:
            self.bad(F, "never", "never returns")

    def unary(self, F, name, f, e):
        for v, s in self.rets(F):
            x = self.expr(F, v)
            if x is None:
                self.bad(F, "result", "gives no expression but %s" % show(v)[:80])
                continue
            m = f(name, x, e, s)
            if m:
                self.bad(F, "result", m)

    def binary(self, F, name, l, r):
        for v, s in self.rets(F):
            x = self.expr(F, v)
            if x is None:
                self.bad(F, "result", "gives no expression but %s" % show(v)[:80])
                continue
            m = self.binary1(name, x, l, r, s)
            if m:
                self.bad(F, "result", m)

    def binary1(self, name, x, l, r, s):
        if name in self.BIN:
            if not self.isoper(x, self.BIN[name], l, r):
                return "builds %s instead of %s of %s and %s" % (show(x)[:120], self.BIN[name][1:], show(l), show(r))
            return None
        kl, kr = self.k(T(l), s), self.k(T(r), s)
        if name in ("add", "sub"):
            D = {"date", "timestamp"}
            if kl <= D and kr <= {"interval"}:
                return self.interval(x, l, r, s, name == "sub")
            if name == "add" and kr <= D and kl <= {"interval"}:
                return self.interval(x, r, l, s, False)
            if not self.isoper(x, "kPlus" if name == "add" else "kMinus", l, r):
                return "builds %s instead of the %s of %s and %s" % (show(x)[:120], "sum" if name == "add" else "difference", show(l), show(r))
            if kl & D and "interval" in kr or name == "add" and kr & D and "interval" in kl:
                return "does not treat a date or timestamp and an interval apart from numbers"
            return None
        if name == "at":
            if not self.isnew(x, "BinOper", 6) or x[2][2] != self.op["kArrayAt"] or not self.same(x[2][4], l) or not self.same(x[2][5], r):
                return "builds %s instead of the element %s of %s" % (show(x)[:120], show(r), show(l))
            if x[2][0] != ("call", "elemType", T(l), ()):
                return "the type of the element is %s" % show(x[2][0])
            return self.aggflag(x[2][1], [l, r], s)
        if name == "pow":
            if not self.isnew(x, "FunctionOper", 3) or x[2][1] != ("k", "POWER"):
                return "builds %s instead of a power" % show(x)[:120]
            q = self.seq(x[2][2])
            if len(q) != 2 or any(a != "one" for a, _ in q):
                return "the power has %d operands" % len(q)
            for (_, y), e in zip(q, (l, r)):
                if not self.same(self.uncast(y, "fp64"), e):
                    return "the power is built of %s instead of %s" % (show(y)[:80], show(e))
            if x[2][0][:3] != ("call", "fp64", CTX) or not self.anyof(x[2][0][3][0], [self.nullable(T(l)), self.nullable(T(r))], s):
                return "the type of the power is %s" % show(x[2][0])

    @staticmethod
    def uncast(y, to):
        if y[0] == "call" and y[1] == "cast" and y[3][0][:3] == ("call", to, CTX):
            return y[2]
        return y

    def aggflag(self, flag, es, s):
        parts = [("call", "containsAgg", e, ()) for e in es if e[0] not in ("const", "nullconst", "text")]
        for e in es:
            if e[0] in ("const", "nullconst", "text"):      # asked all the same
                f = ("call", "containsAgg", e, ())
                if s.truth(f) is True:
                    return None
        if not self.anyof(flag, parts, s):
            return "whether it contains an aggregate is taken from %s" % show(flag)

    def negated(self, y, e, s):
        """y is -e."""
        return self.uminus("uminus", y, e, s) is None

    def interval(self, x, d, i, s, neg):
        if not self.isnew(x, "DateAddExpr", 4):
            return "builds %s instead of moving a date by an interval" % show(x)[:120]
        ty, f, num, date = x[2][:4]
        if not self.same(date, d):
            return "moves %s instead of %s" % (show(date)[:80], show(d))
        if neg and not self.negated(num, i, s) or not neg and not self.same(num, i):
            return "moves the date by %s instead of %s%s" % (show(num)[:80], "minus " if neg else "", show(i))
        iu = ("call", "unit", T(i), ())
        m = self.unitfield(f, iu, s) if not neg else self.unitfield(f, iu, s) and self.unitfield(f, ("call", "unit", T(num), ()), s)
        if m:
            return m
        isdate = self.k(T(d), s) <= {"date"}
        if isdate and self.k(T(d), s) <= {"timestamp"} or ty[0] != "call" or ty[2] != CTX or ty[1] != ("date" if isdate else "timestamp"):
            return "the type of the moved date is %s" % show(ty)
        u = ty[3][1] if isdate else ty[3][0]

        def mx(a, b):
            r = [("call", "std::max", None, (a, b)), ("call", "std::max", None, (b, a))]
            for x, y in ((a, b), (b, a)):       # x is known to be at least y
                for f, tv in s.facts:
                    if f[0] == "op" and (f[1:], tv) in ((("<", y, x), True), (("<=", y, x), True), (("<", x, y), False),
                                                        (("<=", x, y), False), ((">", x, y), True), ((">=", x, y), True),
                                                        ((">", y, x), False), ((">=", y, x), False)):
                        r.append(x)
            return r
        t2 = T(num)
        if u not in mx(("call", "unit", T(d), ()), iu) + mx(("call", "unit", T(d), ()), ("call", "unit", t2, ())):
            return "the unit of the moved date is %s, not the finer of the two" % show(u)
        if isdate and ty[3][0] not in mx(("call", "size", T(d), ()), ("call", "size", T(i), ())) + mx(("call", "size", T(d), ()), ("call", "size", t2, ())):
            return "the size of the moved date is %s" % show(ty[3][0])
        if not self.anyof(ty[3][-1], [self.nullable(T(d)), self.nullable(T(i))], s):
            return "whether the moved date can be NULL is %s" % show(ty[3][-1])

    def unitfield(self, f, u, s):
        for n, v in self.unit.items():
            if s.truth(("op", "==", u, v)) is True:
                if n in self.dadd and f == self.dadd[n]:
                    return None
                return "an interval in %ss moves the date by field number %s" % (n[1:].lower(), show(f))
        return "the field a date is moved by (%s) does not follow from the interval's unit" % show(f)

    def dateadd(self, F, neg, l, r, fld):
        for v, s in self.rets(F):
            x = self.expr(F, v)
            if x is None or not self.isnew(x, "DateAddExpr", 4):
                self.bad(F, "result", "builds %s instead of moving a date" % show(v)[:120])
                continue
            ty, f, num, date = x[2][:4]
            if f != fld:
                self.bad(F, "field", "moves the date by %s" % show(f))
            if date != l:
                self.bad(F, "date", "moves %s" % show(date)[:80])
            raw = self.uncast(num, "int64")
            if not (self.same(raw, r) if not neg else self.negated(raw, r, s)):
                self.bad(F, "number", "moves the date by %s instead of %s%s" % (show(num)[:80], "minus " if neg else "", show(r)))
            if not self.k(T(num), s) <= {"int64"}:
                self.bad(F, "number", "the number of units is not widened to 64 bits")
            d = self.k(T(l), s) <= {"date"}
            nl = [self.nullable(T(l)), self.nullable(T(r)), self.nullable(T(raw))]
            if d:
                ok = ty[:3] == ("call", "timestamp", CTX) and len(ty[3]) == 2
                if ok:
                    u = next((self.unitof(y) for y in [ty[3][0]]), None)
                    day = [tv for g, tv in s.facts if g[0] == "op" and g[1] == "==" and g[3] == self.unit["kDay"] and self.unitof(g[2]) == base_type(T(l))]
                    if u is not None:
                        ok = u == base_type(T(l)) and False in day
                    else:
                        ok = ty[3][0] == self.unit["kSecond"] and True in day
                    ok = ok and self.anyof(ty[3][1], nl[:2], s)
            else:
                ok = ty[0] == "call" and ty[1] == "withNullable" and ty[2] == T(l) and self.anyof(ty[3][0], nl[:2], s)
            if not ok:
                self.bad(F, "type", "the type of the moved date is %s" % show(ty))

    @staticmethod
    def unitof(t):
        return base_type(t[2]) if t[0] == "call" and t[1] == "unit" and t[2] is not None else None

    def isc(self, e, s):
        if e[0] in ("const", "nullconst", "text"):
            return True
        return s.truth(("nn", ("dyn", "Constant", e)))

    def isnul(self, e, s):
        if e[0] in ("const", "nullconst"):
            return e[0] == "nullconst"
        return s.truth(("call", "isNull", e, ()))

    def folded(self, x, e, s, val):
        """x is the literal the operation gives for the literal e; val: acceptable values."""
        if self.isnul(e, s) is True:
            return None if x == e or x[0] == "nullconst" and x[1] == T(e) else "a NULL literal becomes %s" % show(x)[:80]
        if self.isnul(e, s) is None:
            return "a NULL literal becomes a value (%s)" % show(x)[:80]
        if x[0] != "const" or x[1] != T(e):
            return "a literal becomes %s" % show(x)[:80]
        if x[2] not in val:
            return "the literal's value becomes %s" % show(x[2])
        return None

    @staticmethod
    def cval(e):
        return {("call", "intVal", e, ()), ("call", "fpVal", e, ())} | ({e[2]} if e[0] == "const" else set())

    def uop(self, x, e, op, ty, s):
        if not self.isnew(x, "UOper", 4):
            if self.isnew(x, "UOper", 3) and len(x[2]) == 3:
                x = ("new", x[1], (x[2][0], K0) + x[2][1:])
            else:
                return "builds %s" % show(x)[:120]
        if x[2][2] != self.op[op] or not self.same(x[2][3], e):
            return "builds %s instead of %s of %s" % (show(x)[:120], op[1:], show(e))
        if x[2][0] not in ty:
            return "the type of the result is %s" % show(x[2][0])
        return self.aggflag(x[2][1], [e], s)

    def uminus(self, name, x, e, s):
        if self.isc(e, s):
            neg = {("op", "u-", c) for c in self.cval(e)}
            m = self.folded(x, e, s, neg)
            if not m and x[0] == "const" and self.isnul(e, s) is not True:
                fp = self.k(T(e), s)
                want = "fpVal" if fp <= FPS else "intVal"
                if x[2] != ("op", "u-", ("call", want, e, ())) and e[0] != "const":
                    return "the literal's value becomes %s" % show(x[2])
            return m
        return self.uop(x, e, "kUMinus", [T(e)], s)

    def bwnot(self, name, x, e, s):
        if self.isc(e, s):
            return self.folded(x, e, s, {("op", "u~", c) for c in self.cval(e)})
        return self.uop(x, e, "kBwNot", [T(e)], s)

    def lnot(self, name, x, e, s):
        if self.isc(e, s):
            v = [s.truth(("call", "intVal", e, ())), s.truth(("nn", ("call", "intVal", e, ())))]
            v = [z for z in v if z is not None]
            ok = {("op", "!", c) for c in self.cval(e)} | ({K0 if v[0] else K1} if v else set())
            return self.folded(x, e, s, ok)
        return self.uop(x, e, "kNot", [("call", "boolean", CTX, (self.nullable(T(e)),)), T(e)], s)

    def isnull(self, name, x, e, s):
        bt = ("call", "boolean", CTX, (K0,))
        if x[0] == "const":
            if x[1] != bt:
                return "the type of the result is %s" % show(x[1])
            v = x[2]
            nt, nn, nv = self.k(T(e), s) <= {"null"}, s.truth(self.nullable(T(e))), self.isnul(e, s)
            want = True if nt else False if nn is False else nv if self.isc(e, s) else "?"
            if v == K1 and want is True or v == K0 and want is False or v == ("call", "isNull", e, ()) and self.isc(e, s):
                return None
            return "says %s for an expression that may or may not be NULL" % show(v)
        return self.uop(x, e, "kIsNull", [bt], s)

    def unnest(self, name, x, e, s):
        return self.uop(x, e, "kUnnest", [("call", "elemType", T(e), ())], s)

    def rounding(self, name, x, e, s):
        if x == e:
            return None if self.k(T(e), s) <= INTS else "leaves numbers that are not integers alone"
        if not self.isnew(x, "FunctionOperWithCustomTypeHandling", 3) or x[2][1] != ("k", name.upper()) or not self.seqis(x[2][2], [e]):
            return "builds %s instead of %s(%s)" % (show(x)[:120], name.upper(), show(e))
        if x[2][0] != T(e):
            return "the type of the result is %s" % show(x[2][0])

    def card(self, name, x, e, s):
        if self.isnew(x, "CardinalityExpr", 1):
            return None if x[2][0] == e else "takes the cardinality of %s" % show(x[2][0])
        if x[0] == "nullconst":
            return None if self.isnul(e, s) is True else "gives NULL for an array that is not NULL"
        if x[0] == "const" and x[1] == ("call", "int32", CTX, (K0,)):
            if x[2] == ("size", ("call", "valueList", e, ())):
                return None if self.isc(e, s) and self.isnul(e, s) is False else "counts the elements of a literal that may be NULL"
            if x[2] == ("op", "/", ("call", "size", T(e), ()), ("call", "size", ("call", "elemType", T(e), ()), ())):
                fixed = s.truth(("op", "<", K0, ("call", "size", T(e), ()))) or s.truth(("op", "<=", K1, ("call", "size", T(e), ()))) or \
                    self.k(T(e), s) <= {"array_fix"}
                return None if fixed and s.truth(self.nullable(T(e))) is False else "takes the length of an array that may be NULL or of any length for fixed"
        return "builds %s" % show(x)[:120]

    # ---- aggregates and window functions -------------------------------------------
    def counttype(self, t, s):
        for f, tv in s.facts:
            if f[0] == "nn" and f[1][0] == "fld" and f[1][2] == "bigint_count":
                return t == ("call", "int64" if tv else "int32", CTX, (K0,))
        return False

    def aggspec(self, kind, x, e, s, distinct=K0, param=None, interp=None):
        if not self.isnew(x, "AggExpr", 5):
            return "builds %s instead of an aggregate" % show(x)[:120]
        ty, k, arg, dist, par = x[2][:5]
        if k != self.aggt[kind]:
            n = [a for a, v in self.aggt.items() if v == k]
            return "builds the aggregate %s" % (n[0][1:] if n else show(k))
        if arg != (e if e is not None else NUL):
            return "aggregates %s" % show(arg)[:80]
        want = K1 if kind == "kApproxCountDistinct" else distinct
        if dist != want and not (dist in (K0, K1) and s.truth(("nn", want)) is (dist == K1)):
            return "whether only distinct values count is %s" % show(dist)
        if param is None and par != NUL or param is not None and not (
                self.same(par, param) or par[0] == param[0] == "const" and par[2] == param[2] and base_type(par[1])[1] == param[1][1]):
            return "the aggregate's parameter is %s" % show(par)[:80]
        te = T(e) if e is not None else None
        ks = self.k(te, s) if e is not None else set()
        fp = ("call", "fp64", CTX, (K1,))
        if kind in ("kAvg", "kStdDevSamp", "kCorr", "kApproxQuantile"):
            ok = ty == fp
        elif kind in ("kMin", "kMax", "kSample", "kSingleValue"):
            ok = ty == te
        elif kind in ("kCount", "kApproxCountDistinct"):
            ok = self.counttype(ty, s)
        elif kind == "kSum":
            wide = s.truth(("op", "<", ("call", "size", te, ()), ("k", "8"))) is False or \
                s.truth(("op", "<=", ("k", "8"), ("call", "size", te, ()))) is True or ks & INTS <= {"int64"}
            ok = ty == te and wide or ty == ("call", "int64", CTX, (self.nullable(te),)) and ks <= INTS
        elif kind == "kTopK":
            ok = ty[:3] == ("call", "arrayVarLen", CTX) and ty[3][0] == te
        elif kind == "kQuantile":
            lin = interp in (self.interp["kMidpoint"], self.interp["kLinear"]) or any(
                s.truth(("op", "==", interp, self.interp[i])) for i in ("kMidpoint", "kLinear"))
            t2 = ty[2] if ty[0] == "call" and ty[1] == "canonicalize" else ty
            ok = t2[:3] == fp[:3] and lin and ks <= INTS or t2 == te and (not lin or not ks & INTS)
            if len(x[2]) < 6 or x[2][5] != interp:
                return "the interpolation is %s" % (show(x[2][5]) if len(x[2]) > 5 else "not passed on")
        else:
            ok = True
        if not ok:
            return "the type of the aggregate is %s" % show(ty)[:80]

    AGG = {"avg": "kAvg", "min": "kMin", "max": "kMax", "sum": "kSum", "count": "kCount", "approxCountDist": "kApproxCountDistinct",
           "approxQuantile": "kApproxQuantile", "sample": "kSample", "singleValue": "kSingleValue", "topK": "kTopK",
           "bottomK": "kTopK", "quantile": "kQuantile", "stdDev": "kStdDevSamp", "corr": "kCorr"}
    NAMES = {"kCount": "count", "kSum": "sum", "kMin": "min", "kMax": "max", "kAvg": "avg",
             "kApproxCountDistinct": "approx_count_dist approx_count_distinct", "kApproxQuantile": "approx_quantile",
             "kSample": "sample", "kSingleValue": "single_value", "kTopK": "topk top_k bottomk bottom_k",
             "kQuantile": "quantile", "kStdDevSamp": "stddev stddev_samp", "kCorr": "corr"}

    def param(self, kind, a, neg=False):
        """The parameter the aggregate has to get when asked for with the argument a."""
        if kind == "kCorr":
            return a
        if kind in ("kApproxQuantile", "kQuantile"):
            return ("const", ("call", "fp64", CTX, (K1,)), a[2] if a[0] == "const" else ("call", "fpVal", a, ()), "")
        if kind == "kTopK":
            v = a[2] if a[0] == "const" else ("call", "intVal", a, ())
            return ("const", ("call", "int64", CTX, (K0,)), ("op", "u-", v) if neg else v, "")
        return None

    def aggregates(self):
        this = ("root", "this")
        for name, kind in self.AGG.items():
            for F in self.fns("BuilderExpr::" + name):
                ps = {self.ptype(p): ("root", p.n) for p in F.params}
                a = None
                if kind in ("kApproxQuantile", "kQuantile"):
                    a = self.param(kind, ("const", None, ps.get("double"), ""))
                elif kind == "kTopK":
                    a = self.param(kind, ("const", None, ps.get("int"), ""), name == "bottomK")
                elif kind == "kCorr":
                    a = ps.get("BuilderExpr")
                self.aggfn(F, kind, this, {}, ps.get("bool", K0), a, ps.get("Interpolation"))
        for F in self.fns("BuilderExpr::agg"):
            ps = {self.ptype(p): p for p in F.params}
            interp = ("root", ps["Interpolation"].n) if "Interpolation" in ps else self.interp["kLinear"]
            if "double" in ps:
                a = ("const", ("call", "fp64", CTX, (K1,)), ("root", ps["double"].n), "")
            elif "int" in ps:
                a = ("const", ("call", "int64", CTX, (K0,)), ("root", ps["int"].n), "")
            else:
                a = ("root", ps["BuilderExpr"].n) if "BuilderExpr" in ps else None
            dist = ("root", ps["bool"].n) if "bool" in ps else K0
            if "AggType" in ps:
                for kind in self.aggt:
                    if kind in self.NAMES:
                        self.aggfn(F, kind, this, {ps["AggType"]: self.aggt[kind]}, dist, self.param(kind, a) if a else None, interp,
                                   "int" in ps or "double" in ps, kind)
            elif "string" in ps:
                for kind, names in self.NAMES.items():
                    names = names.split()
                    if kind == "kCount":
                        names += ["count_dist", "count_distinct"]
                    for nm in sorted(set(names + [x.replace("_", " ") for x in names if "_" in x and "k" != x[-1]] + [names[0].upper()])):
                        self.aggfn(F, kind, this, {ps["string"]: ("k", nm)}, K1 if "dist" in nm and kind == "kCount" else K0,
                                   self.param(kind, a, "bottom" in nm) if a else None, interp, "int" in ps or "double" in ps, nm)
        self.ctx.need("aggregate requests", 100)

    def aggfn(self, F, kind, e, env, dist, par, interp, maybe=False, what=""):
        """maybe: the argument's type may not suit the aggregate, or there may be none."""
        n = 0
        self.ctx.count("aggregate requests")
        for k, v, s in self.paths(F, env):
            if k != "ret":
                continue
            n += 1
            self.ctx.count("paths")
            x = self.expr(F, v)
            if x is None:
                self.bad(F, "result" + what, "gives %s" % show(v)[:80])
                continue
            p = par
            if any(tv and self.dynless(f) == ("call", "isNull", ("root", "arg"), ()) for f, tv in s.facts):
                continue        # a NULL literal as the parameter has no meaning
            if kind == "kCount" and s.truth(("nn", ("root", "arg"))) is False:
                p = None
            if dist != K0 and kind != "kCount":
                d = K0
            else:
                d = dist
            m = self.aggspec(kind, x, e, s, d, p, interp)
            if m:
                self.bad(F, "result" + what, "%s%s" % (what + ": " if what else "", m))
        if not n and not maybe:
            self.bad(F, "never" + what, "%srejected for every argument" % (what + ": " if what else ""))

    WIN = {"lag": "Lag", "lead": "Lead", "firstValue": "FirstValue", "lastValue": "LastValue"}
    QWIN = {"rowNumber": ("RowNumber", "int64"), "rank": ("Rank", "int64"), "denseRank": ("DenseRank", "int64"),
            "percentRank": ("PercentRank", "fp64"), "nTile": ("NTile", "int64")}

    def windows(self):
        this = ("root", "this")
        for name, kind in self.WIN.items():
            for F in self.fns("BuilderExpr::" + name):
                a = [this] + [("const", ("call", "int64", CTX, (K0,)), ("root", p.n), "") for p in F.params]
                self.winfn(F, kind, T(this), a)
        for name, (kind, ty) in self.QWIN.items():
            for F in self.fns("QueryBuilder::" + name):
                a = [("const", ("call", "int64", CTX, (K0,)), ("root", p.n), "") for p in F.params]
                self.winfn(F, kind, ("call", ty, CTX, (K0,)), a)
        for v, s in self.rets(self.fn("QueryBuilder::count")):
            F = self.fn("QueryBuilder::count")
            m = self.aggspec("kCount", self.expr(F, v) or v, None, s)
            if m:
                self.bad(F, "result", m)

    def winfn(self, F, kind, ty, args):
        for v, s in self.rets(F):
            x = self.expr(F, v)
            if x is None or not self.isnew(x, "WindowFunction", 6):
                self.bad(F, "result", "builds %s instead of a window function" % show(v)[:100])
                continue
            a = x[2]
            if a[1] != self.wk[kind]:
                n = [q for q, z in self.wk.items() if z == a[1]]
                self.bad(F, "kind", "builds the window function %s" % (n[0] if n else show(a[1])))
            if not self.seqis(a[2], args):
                self.bad(F, "args", "the window function's arguments are %s" % show(a[2])[:100])
            if a[0] != ty:
                self.bad(F, "type", "the window function's type is %s" % show(a[0]))
            if any(self.seq(z) for z in a[3:6]):
                self.bad(F, "window", "the window is not empty to begin with")

    # ---- names -----------------------------------------------------------------------
    EXTRACT = {"kYear": "year", "kQuarter": "quarter", "kMonth": "month", "kDay": "day", "kHour": "hour", "kMinute": "min minute",
               "kSecond": "sec second", "kMilli": "milli millisecond", "kMicro": "micro microsecond", "kNano": "nano nanosecond",
               "kDayOfWeek": "dow dayofweek day_of_week", "kIsoDayOfWeek": "isodow isodayofweek iso_day_of_week",
               "kDayOfYear": "doy dayofyear day_of_year", "kEpoch": "epoch", "kQuarterDay": "quarterday quarter_day", "kWeek": "week",
               "kWeekSunday": "weeksunday week_sunday", "kWeekSaturday": "weeksaturday week_saturday", "kDateEpoch": "dateepoch date_epoch"}
    ADD = {"kYear": "year years", "kQuarter": "quarter quarters", "kMonth": "month months", "kDay": "day days", "kHour": "hour hours",
           "kMinute": "min mins minute minutes", "kSecond": "sec secs second seconds", "kMillennium": "millennium millenniums",
           "kCentury": "century centuries", "kDecade": "decade decades", "kMilli": "ms milli millisecond milliseconds",
           "kMicro": "us micro microsecond microseconds", "kNano": "ns nano nanosecond nanoseconds", "kWeek": "week weeks",
           "kQuarterDay": "quarterday quarter_day quarterdays quarter_days", "kWeekDay": "weekday week_day weekdays week_days",
           "kDayOfYear": "dayofyear day_of_year doy"}

    def names(self):
        this = ("root", "this")
        for F in self.fns("BuilderExpr::extract"):
            for f, names in self.EXTRACT.items():
                for nm in self.spellings(names) if self.ptype(F.params[0]) == "string" else [None]:
                    env = {F.params[0]: ("k", nm) if nm else self.dext[f]}
                    n = 0
                    self.ctx.count("names")
                    for k, v, s in self.paths(F, env):
                        if k != "ret":
                            continue
                        n += 1
                        x = self.expr(F, v)
                        what = nm or f
                        if x is None or not self.isnew(x, "ExtractExpr", 4):
                            self.bad(F, what, "%s: builds %s" % (what, show(v)[:80]))
                            continue
                        ty, agg, fl, e = x[2][:4]
                        if fl != self.dext[f]:
                            got = [q for q, z in self.dext.items() if z == fl]
                            self.bad(F, what, "%s means %s" % (what, got[0] if got else show(fl)))
                        if e not in (this, ("call", "decompress", this, ())):
                            self.bad(F, "operand", "takes a part of %s" % show(e)[:80])
                        if ty != ("call", "int64", CTX, (self.nullable(T(this)),)):
                            self.bad(F, "type", "the type of the part of a date is %s" % show(ty))
                        m = self.aggflag(agg, [this], s)
                        if m:
                            self.bad(F, "agg", m)
                    if not n:
                        self.bad(F, nm or f, "%s is not accepted" % (nm or f))
        for F in self.fns("BuilderExpr::add") + self.fns("BuilderExpr::sub"):
            if len(F.params) == 2 and self.ptype(F.params[1]) == "string":
                first = True
                for f, names in self.ADD.items():
                    for nm in self.spellings(names):
                        n = 0
                        self.ctx.count("names")
                        for k, v, s in self.paths(F, {F.params[1]: ("k", nm)}):
                            if k != "ret":
                                continue
                            n += 1
                            x = self.settext(self.expr(F, v) or v)
                            if not self.isnew(x, "DateAddExpr", 4) or x[2][1] != self.dadd[f]:
                                got = [q for q, z in self.dadd.items() if self.isnew(x, "DateAddExpr", 4) and z == x[2][1]]
                                self.bad(F, nm, "%s means %s" % (nm, got[0] if got else show(x)[:80]))
                            else:
                                r = self.operand(F.params[0])
                                raw = self.uncast(x[2][2], "int64")
                                if x[2][3] != this or not (self.negated(raw, r, s) if F.q.endswith("sub") else self.same(raw, r)):
                                    self.bad(F, "operands", "moves %s by %s" % (show(x[2][3])[:60], show(x[2][2])[:60]))
                        if not n:
                            self.bad(F, nm, "%s is not accepted" % nm)
        for cls in ("BuilderSortField", "BuilderOrderByKey"):
            self.parse(cls + "::parseSortDirection", self.sd, {"Ascending": "asc ascending", "Descending": "desc descending"})
            self.parse(cls + "::parseNullPosition", self.np, {"First": "first", "Last": "last"})
        self.parse("parseJoinType", self.jt, {"LEFT": "left", "INNER": "inner", "SEMI": "semi", "ANTI": "anti"})
        self.ctx.need("names", 100)

    @staticmethod
    def spellings(names):
        r = []
        for x in names.split():
            r.append(x)
            if "_" in x:
                r.append(x.replace("_", " "))
        return r + [" " + names.split()[0].upper()]

    def parse(self, q, enum, names):
        for F in self.fns(q):
            if len(F.params) != 1:
                continue
            for e, ns in names.items():
                for nm in self.spellings(ns):
                    self.ctx.count("names")
                    got = [v for k, v, s in self.paths(F, {F.params[0]: ("k", nm)}) if k == "ret"]
                    if not got:
                        self.bad(F, nm, "%s is not accepted" % nm)
                    elif any(v != enum[e] for v in got):
                        self.bad(F, nm, "%s means %s" % (nm, show(got[0])))
            got = [v for k, v, s in self.paths(F, {F.params[0]: ("k", "nonsense")}) if k == "ret"]
            if got:
                self.bad(F, "nonsense", "an unknown name is taken for %s" % show(got[0]))

    # ---- literals, conversions, choices --------------------------------------------------
    def literals(self):
        i64 = ("call", "int64", CTX, (K0,))
        for F in self.fns("QueryBuilder::cst") + self.fns("QueryBuilder::cstNoScale"):
            ts = [self.ptype(p) for p in F.params]
            v0 = ("root", F.params[0].n)
            ty = ("root", F.params[1].n) if len(ts) > 1 and ts[1] == "Type" else None
            if len(ts) > 1 and ts[1] == "string":
                ty = ("call", "typeFromString", CTX, (("root", F.params[1].n),))
            if ts[0] in ("int", "long"):
                self.lit(F, ty or i64, v0)
            elif ts[0] == "double":
                self.lit(F, ty or ("call", "fp64", CTX, (K1,)), v0)
            elif ts[0] == "string":
                for x, s in self.rets(F):
                    e = self.expr(F, x)
                    if not ty and e == ("text", v0):
                        continue
                    c = e[2] if e is not None and e[0] == "call" and e[1] == "cast" else None
                    if c is None or c[0] != "const" or c[2] not in (v0, ("new", "std::basic_string<char>", (v0,))) or \
                            c[1][:3] != ("call", "text", CTX) or e[3][0] != ty:
                        self.bad(F, "value", "gives %s" % show(x)[:100])
            elif ts[0].startswith(("std::vector", "std::initializer_list")):
                self.listlit(F, v0, ty)
        for name, val in (("trueCst", K1), ("falseCst", K0)):
            self.lit(self.fn("QueryBuilder::" + name), ("call", "boolean", CTX, (K0,)), val)
        for F in self.fns("QueryBuilder::nullCst"):
            ty = ("call", "null", CTX, ())
            if F.params:
                ty = ("root", F.params[0].n)
                if self.ptype(F.params[0]) == "string":
                    ty = ("call", "typeFromString", CTX, (ty,))
            for v, s in self.rets(F):
                x = self.expr(F, v)
                if x is None or x[0] != "nullconst" or x[1] != ty:
                    self.bad(F, "value", "gives %s" % show(v)[:100])
        for name in ("date", "time", "timestamp"):
            for F in self.fns("QueryBuilder::" + name):
                v0 = ("root", F.params[0].n)
                for v, s in self.rets(F):
                    x = self.expr(F, v)
                    ok = x is not None and x[0] == "call" and x[1] == "cast" and x[2][0] == "const" and symx.contains(x[2][2], v0) and \
                        x[3][0] in (("call", "typeFromString", CTX, (("k", name),)),)
                    if not ok:
                        self.bad(F, "value", "gives %s" % show(v)[:100])

    FIELDS = {"fp32": "floatval", "fp64": "doubleval", "decimal": "bigintval", "boolean": "boolval"}

    def lit(self, F, ty, val):
        for v, s in self.rets(F):
            x = self.expr(F, v)
            if x is None or x[0] != "const":
                self.bad(F, "value", "gives %s" % show(v)[:100])
                continue
            if x[1] != ty:
                self.bad(F, "type", "the literal's type is %s instead of %s" % (show(x[1]), show(ty)))
            ks = self.k(ty, s)
            if x[3]:
                for kd in ks:
                    if kd in self.FIELDS and x[3] != self.FIELDS[kd]:
                        self.bad(F, "member", "a %s literal is stored as %s" % (kd, x[3]))
            if ks <= {"decimal"} and x[3] and "NoScale" not in F.q:
                sc = ("call", "scale", ty, ())
                if not symx.contains(x[2], val) or not symx.contains(x[2], sc):
                    self.bad(F, "value", "a decimal literal is stored as %s" % show(x[2]))
                elif not any(t[:2] == ("op", "*") for t in symx.subterms(x[2])):
                    self.bad(F, "value", "a decimal literal is stored as %s" % show(x[2]))
                elif not any(t[:1] == ("call",) and t[1].split("::")[-1] in ("llround", "lround", "round", "rint", "llrint", "nearbyint")
                             for t in symx.subterms(x[2])):
                    self.bad(F, "rounding", "a decimal literal is cut, not rounded, to the type's scale")
            elif x[2] != val:
                self.bad(F, "value", "the literal's value is %s" % show(x[2]))

    def listlit(self, F, v0, ty):
        for v, s in self.rets(F):
            x = self.expr(F, v)
            if x is None or not self.isnew(x, "Constant", 3):
                self.bad(F, "value", "gives %s" % show(v)[:100])
                continue
            t, null, l = x[2][:3]
            if ty is not None and t != ty or null != K0:
                self.bad(F, "type", "the literal's type is %s" % show(t))
            m = self.each(l, [], v0, s)
            if isinstance(m, str):
                self.bad(F, "elements", m)
                continue
            el, L = m
            et = ("call", "elemType", t, ())
            ev = ("elem", v0, L)
            if "BuilderExpr" in F.params[0].t:
                m = self.cast1(el, ("fld", ev, "expr_"), et, s)
                if m:
                    self.bad(F, "elements", "an element " + m)
                continue
            ok = el[0] == "const" and el[1] == et and (el[2] == ev or symx.contains(el[2], ev)) or \
                el[0] == "call" and el[1] == "cast" and el[3][0] == et and symx.contains(el[2], ev) or \
                symx.contains(el, ev) and symx.contains(el, et)
            if not ok:
                self.bad(F, "elements", "an element becomes %s" % show(el)[:100])

    def each(self, t, before, src, s):
        """t is `before` followed by something for each element of src: (that, the loop's index)."""
        q = self.seq(t)
        if [x for x in q[:-1]] != before or not q:
            return "the elements are %s" % show(t)[:100]
        a, x = q[-1]
        if a != "one":
            return "the elements are %s" % show(t)[:100]
        Ls = {y[2] for y in symx.subterms(x) if y[:2] == ("elem", src)}
        if len(Ls) != 1:
            return "the elements are %s" % show(t)[:100]
        L = Ls.pop()
        if not any(e[0] == "loop" and e[1] == L and src in e[2] for e in s.ev):
            return "not every element is taken"
        return x, L

    def casts(self):
        this = ("root", "this")
        for F in self.fns("BuilderExpr::cast"):
            nt = ("root", F.params[0].n)
            if self.ptype(F.params[0]) == "string":
                nt = ("call", "typeFromString", CTX, (nt,))
            for v, s in self.rets(F):
                x = self.expr(F, v)
                if x is None:
                    self.bad(F, "result", "gives %s" % show(v)[:100])
                    continue
                m = self.cast1(x, this, nt, s)
                if m:
                    self.bad(F, "result", m)

    def cast1(self, x, e, nt, s):
        kf, kt = self.k(T(e), s), self.k(nt, s)
        if x[0] == "call" and x[1] == "cast":
            if x[2] != e or x[3][0] != nt:
                return "converts %s to %s" % (show(x[2])[:60], show(x[3][0])[:60])
            if kf <= INTS | {"decimal"} and kt <= {"boolean"} or kf <= {"boolean"} and kt <= INTS | {"decimal"}:
                return "conversion between numbers and booleans does not compare with 0 or choose between 1 and 0"
            return None
        if self.isoper(x, "kNe", e, ("const", T(e), K0, "")):
            return None if kt <= {"boolean"} and kf <= INTS | {"decimal"} else "compares with 0"
        if self.isnew(x, "CaseExpr", 4):
            if not (kf <= {"boolean"} and kt <= INTS | {"decimal"}):
                return "chooses between values"
            nl = s.truth(self.nullable(T(e)))
            bt = ("call", "boolean", CTX, (K0,))
            if nl is not False:
                isn = [("new", NS + "UOper", a) for a in ((bt, self.op["kIsNull"], e), (bt, K0, self.op["kIsNull"], e),
                                                          (bt, ("call", "containsAgg", e, ()), self.op["kIsNull"], e))]
                q = self.seq(x[2][2])
                if x[2][0] != nt or len(q) != 1 or q[0][1][0] != "tup":
                    return "a nullable boolean becomes %s" % show(x)[:160]
                c, val = q[0][1][1:]
                neg = self.isnew(c, "UOper", 3) and c[2][-2] == self.op["kNot"] and c[2][-1] in isn
                inner, nullv = (val, x[2][3]) if neg else (x[2][3], val)
                if not neg and c not in isn or nullv != ("nullconst", nt):
                    return "a NULL boolean does not become NULL: %s" % show(x)[:160]
                x = inner
                if not self.isnew(x, "CaseExpr", 4):
                    return "a boolean becomes %s" % show(x)[:160]
            q = self.seq(x[2][2])
            if x[2][0] != nt or len(q) != 1 or not self.same(q[0][1], ("tup", e, ("const", nt, K1, ""))) or \
                    not self.same(x[2][3], ("const", nt, K0, "")):
                return "a boolean becomes %s" % show(x)[:160]
            return self.aggflag(x[2][1], [e], s)
        return "gives %s" % show(x)[:100]

    # ---- sequences ---------------------------------------------------------------
    def core(self, *sigs):
        """These functions stay calls: each is checked on its own."""
        us = set()
        for name, *types in sigs:
            us |= {F.u for F in (self.fns(name, *types) if types else self.fns(name))}

        def f(fn, n, obj):
            return fn.u in us or opaque(fn, n, obj)
        return f

    def resolve(self, t, need):
        """t with each element of a sequence built in the same function replaced by what was put in; need collects the
        loops that have to run over all of such a sequence."""
        if not isinstance(t, tuple) or not t:
            return t
        t = tuple(self.resolve(x, need) if isinstance(x, tuple) else x for x in t)
        if t[0] == "elem" and len(t) == 3 and t[1] and t[1][0] in ("list", "built"):
            q = self.seq(t[1])
            if len(q) == 1 and q[0][0] == "one":
                if t[2][:1] == ("L",):
                    need.append((t[2], t[1]))
                return q[0][1]
        if t[0] == "fld" and t[1] and t[1][0] == "rec":
            return field(t[1], t[2])
        if t[0] == "built" and any(y[:2] == ("elem", ("list",)) for y in symx.subterms(t[2])):
            return t[1]     # a loop over nothing
        if t[0] == "ins" and self.seq(t[2]) == [] or t[0] == "ins" and t[1] == ("list",):
            return t[1] if self.seq(t[2]) == [] else t[2]
        return t

    def covered(self, L, src, s):
        return any(e[0] == "loop" and e[1] == L and any(self.resolve(c, []) == src or c == src for c in e[2]) for e in s.ev)

    def matchseq(self, t, want, s):
        """None if t is the wanted sequence: ("one", x), or ("map", f, src): f of each element of src in order."""
        need = []
        r = self.resolve(t, need)
        q = [x for x in self.expand(r)]
        if len(q) != len(want):
            return "%s" % show(r)[:140]
        for (a, x), w in zip(q, want):
            if w[0] == "one":
                if a != "one" or not self.same(x, w[1]):
                    return "%s" % show(x)[:140]
                continue
            f, src = w[1:]
            if a == "all":
                e = ("elem", src, ("L", "?"))
                if x != src or f(e) != e:
                    return "%s" % show(x)[:140]
                continue
            Ls = {y[2] for y in symx.subterms(x) if y[:2] == ("elem", src)} | \
                {y[1] for y in symx.subterms(x) if y[:1] == ("idx",) and self.covered(y[1], src, s)}
            Ls = [L for L in Ls if self.same(x, f(("elem", src, L)))]
            if not Ls:
                return "%s" % show(x)[:140]
            if not any(self.covered(L, src, s) for L in Ls):
                return "not every one of %s" % show(src)
        for L, src in need:
            if src[0] == "built" and not self.covered(L, src, s):
                return "not every one of %s" % show(src)
        return None

    def expand(self, t):
        for a, x in self.seq(t):
            if a == "all" and (x[0] in ("list", "built", "ins")):
                yield from self.expand(x)
            else:
                yield a, x

    # ---- window functions' keys -----------------------------------------------------
    def keyspec(self, p):
        """What a parameter that names keys stands for: [("one", expr)] or [("map", f, src)], f giving the expression."""
        v = ("root", p.n)
        if self.ptype(p) in ("BuilderExpr", "BuilderOrderByKey"):
            return [("one", v)]
        return [("map", lambda e: ("fld", e, "expr_"), v)]

    def window_keys(self):
        this = ("root", "this")
        AGG = {"kCount": "Count", "kAvg": "Avg", "kMin": "Min", "kMax": "Max", "kSum": "Sum"}
        kt = ("call", "aggType", this, ())
        for F in self.fns("BuilderExpr::over"):
            keys = self.keyspec(F.params[0]) if F.params else []
            for v, s in self.rets(F):
                x = self.expr(F, v)
                if x is None:
                    self.bad(F, "result", "gives %s" % show(v)[:100])
                    continue
                x = self.undyn(self.resolve(x, []))
                isw = s.truth(("nn", ("dyn", "WindowFunction", this)))
                src = [k[2] for k in keys if k[0] == "map"]
                none = not keys or src and (s.truth(("op", "==", ("size", src[0]), K0)) is True)
                if x == this:
                    if not none or isw is not True:
                        self.bad(F, "keys", "the partition keys are dropped")
                    continue
                if not self.isnew(x, "WindowFunction", 6):
                    self.bad(F, "result", "gives %s" % show(x)[:100])
                    continue
                ty, kind, args, part, order, coll = x[2][:6]
                pre = []
                if isw is True:
                    want = [("call", g, this, ()) for g in ("type", "kind", "args", "orderKeys", "collation")]
                    got = [ty, kind, args, order, coll]
                    pre = [("map", lambda e: e, ("call", "partitionKeys", this, ()))]
                    for g, w, z in zip(("type", "kind", "arguments", "order keys", "directions"), want, got):
                        if z != w:
                            self.bad(F, "keeps", "the window function's %s become %s" % (g, show(z)[:80]))
                else:
                    ks = [k for k in AGG if s.truth(("op", "==", kt, self.aggt[k])) is True or
                          s.truth(("op", "==", self.aggt[k], kt)) is True]
                    if len(ks) != 1:
                        self.bad(F, "kind", "makes a window function of another expression")
                        continue
                    k = ks[0]
                    if kind != self.wk[AGG[k]]:
                        self.bad(F, "kind", "%s becomes window function %s" % (k, show(kind)))
                    if ty != T(this):
                        self.bad(F, "type", "%s: the type becomes %s" % (k, show(ty)[:80]))
                    a = [self.undyn(y) for _, y in self.expand(args)]
                    narg = s.truth(("nn", ("call", "arg", this, ()))), s.truth(("call", "arg", this, ()))
                    if not (a in ([("call", "argShared", this, ())], [("call", "arg", this, ())]) or
                            a == [] and k == "kCount" and False in narg):
                        self.bad(F, "argument", "%s: the argument becomes %s" % (k, show(args)[:80]))
                    if k == "kCount" and a and s.truth(("call", "isDistinct", this, ())) is not False and \
                            s.truth(("nn", ("call", "isDistinct", this, ()))) is not False:
                        self.bad(F, "distinct", "COUNT(DISTINCT x) OVER becomes COUNT(x) OVER")
                    if [y for y in self.expand(order)] or [y for y in self.expand(coll)]:
                        self.bad(F, "order", "an order is made up")
                if none and [y for y in self.expand(part)] == [] and not pre:
                    continue
                m = self.matchseq(part, pre + ([] if none else keys), s)
                if m:
                    self.bad(F, "keys", "the partition keys become %s" % m)
        core = self.core(("BuilderOrderByKey::parseSortDirection",), ("BuilderOrderByKey::parseNullPosition",))
        for F in self.fns("BuilderExpr::orderBy"):
            keys = self.keyspec(F.params[0])
            P = F.params
            okey = "OrderByKey" in P[0].t

            def dirs(e):
                if okey and e == ("root", P[0].n):
                    return ("root", P[0].n + "'s direction"), ("root", P[0].n + "'s null position")
                if okey:
                    return ("fld", e, "dir_"), ("fld", e, "null_pos_")
                r = []
                for p, fn in zip(P[1:3], ("parseSortDirection", "parseNullPosition")):
                    r.append([("root", p.n)] if not isstr(p.t) else
                             [("call", q, None, (("root", p.n),)) for q in (fn, NS + "BuilderOrderByKey::" + fn)])
                return r
            for v, s in self.rets(F, opaque=core):
                x = self.expr(F, v)
                if x is None or not self.isnew(x, "WindowFunction", 6):
                    self.bad(F, "result", "gives %s" % show(v)[:100])
                    continue
                ty, kind, args, part, order, coll = x[2][:6]
                for g, z in zip(("type", "kind", "args", "partitionKeys"), (ty, kind, args, part)):
                    if z != ("call", g, this, ()):
                        self.bad(F, "keeps", "the window function's %s become %s" % (g, show(z)[:80]))
                ok = lambda g: [("map", lambda e: e, ("call", g, this, ()))]
                m = self.matchseq(order, ok("orderKeys") + keys, s)
                if m:
                    self.bad(F, "keys", "the order keys become %s" % m)
                need = []
                q = list(self.expand(self.resolve(coll, need)))
                if len(q) == 2 and q[1][0] == "one" and q[1][1][0] == "new" and q[1][1][1].endswith("OrderEntry"):
                    q[1] = ("one", ("tup",) + tuple(q[1][1][2]))
                if len(q) != 2 or q[0] != ("all", ("call", "collation", this, ())) or q[1][0] != "one" or q[1][1][0] != "tup" or \
                        len(q[1][1]) != 4:
                    self.bad(F, "directions", "the directions become %s" % show(coll)[:120])
                    continue
                no, desc, first = q[1][1][1:]
                if no[0] not in ("size", "call"):
                    self.bad(F, "directions", "a new key's number is %s" % show(no))
                els = [("root", P[0].n)]
                if keys[0][0] == "map":
                    Ls = {e[1] for e in s.ev if e[0] == "loop"}
                    els = [("elem", els[0], L) for L in Ls]
                hit = False
                for e in els:
                    d, np = dirs(e)
                    d, np = (d if isinstance(d, list) else [d]), (np if isinstance(np, list) else [np])
                    hit = hit or any(self.cmpis(desc, z, self.sd, "Descending", "Ascending", s) for z in d) and \
                        any(self.cmpis(first, z, self.np, "First", "Last", s) for z in np)
                if not hit:
                    self.bad(F, "directions", "a key sorts descending if %s and has nulls first if %s" % (show(desc), show(first)))

    @staticmethod
    def undyn(t):
        return symx.undyn(t)

    def cmpis(self, t, x, en, yes, no, s):
        """t is: x is `yes` (of the two values it can have), where known on this path."""
        if t in (K0, K1):
            for f, tv in s.facts:
                f = self.resolve(f, [])
                if f[0] == "op" and f[1] == "==" and x in f[2:]:
                    o = f[2] if f[3] == x else f[3]
                    if o in (en[yes], en[no]):
                        return (t == K1) == ((o == en[yes]) == tv)
            return False
        if t[0] == "op" and t[1] in ("==", "!=") and x in t[2:]:
            o = t[2] if t[3] == x else t[3]
            return o == en[yes if t[1] == "==" else no]
        return False

    # ---- nodes -----------------------------------------------------------------------
    THIS = rec("BuilderNode", builder_=B, node_=("root", "this"))

    def col(self, node, x, t):
        """The reference to a column given by index or name."""
        if t == "int":
            return rec("BuilderExpr", builder_=B, auto_name_=K1, expr_=("call", NS + "getRefByIndex", None, (node, x)),
                       name_=("call", NS + "getFieldName", None, (node, x)))
        if t == "string":
            return rec("BuilderExpr", builder_=B, auto_name_=K1, expr_=("call", NS + "getRefByName", None, (node, x, K0)), name_=x)
        return x

    def cols(self, p):
        """What a parameter that names columns stands for, as a sequence of builder expressions."""
        t = self.ptype(p)
        m = re.match(r"std::(?:vector|initializer_list)<(\w+)>$", t)
        node = ("root", "this")
        if m:
            return [("map", lambda e, t=m.group(1): self.col(node, e, t), ("root", p.n))]
        return [("one", self.col(node, self.bind(p), t))]

    def anode(self, F, v):
        if v[0] == "rec" and v[1] == "BuilderNode":
            if field(v, "builder_") != B:
                self.bad(F, "builder", "the result does not belong to the same builder")
            return field(v, "node_")
        return None

    def nodes(self):
        VE, VS = "std::vector<BuilderExpr>", "std::vector<string>"
        this = ("root", "this")
        # references
        for F in self.fns("BuilderNode::ref") + self.fns("BuilderNode::operator[]"):
            want = self.cols(F.params[0])
            for v, s in self.rets(F):
                if want[0][0] == "one":
                    m = None if self.same(v, want[0][1]) else show(v)[:140]
                else:
                    m = self.matchseq(v, want, s)
                if m:
                    self.bad(F, "columns", "refers to %s" % m)
        for F in self.fns("BuilderNode::count"):
            if not F.params:
                continue
            e = field(self.cols(F.params[0])[0][1], "expr_")
            for v, s in self.rets(F):
                x = self.expr(F, v)
                if x is None or not self.isnew(x, "AggExpr", 4) or x[2][1] != self.aggt["kCount"] or self.undyn(x[2][2]) != e or \
                        x[2][3] != ("root", F.params[1].n):
                    self.bad(F, "result", "counts %s" % show(x if x is not None else v)[:140])
        self.lookups()
        # projections
        CP = (("BuilderNode::proj", VE), ("BuilderNode::proj", VE, VS), ("buildFieldNames",))
        for F in self.fns("BuilderNode::proj"):
            ts = [self.ptype(p) for p in F.params]
            if not ts or not re.search(r"BuilderExpr|int|string", ts[0]):
                continue
            mine = [(n, *t) for n, *t in CP if t != ts]
            for v, s in self.rets(F, opaque=self.core(*mine)):
                want = self.cols(F.params[0])
                x = self.anode(F, v)
                if v[0] == "call" and v[1] == "proj" and ts not in ([VE], [VE, VS]):
                    node, ex, names = v[2], v[3][0], v[3][1:]
                    if node != self.THIS:
                        self.bad(F, "input", "projects %s" % show(node)[:80])
                elif x is not None and self.isnew(x, "Project", 3):
                    ex, names = x[2][0], x[2][1:2]
                    want = [("map", (lambda e, f=w[1]: self.fld(f(e), "expr_")), w[2]) if w[0] == "map" else
                            ("one", self.fld(w[1], "expr_")) for w in want]
                    if x[2][2] != this:
                        self.bad(F, "input", "projects %s" % show(x[2][2])[:80])
                    if len(ts) == 1:
                        if names[0] != ("call", NS + "buildFieldNames", None, (("root", F.params[0].n),)):
                            self.bad(F, "names", "the columns are named %s" % show(names[0])[:100])
                        names = ()
                else:
                    self.bad(F, "result", "gives %s" % show(v)[:100])
                    continue
                m = self.matchseq(ex, want, s)
                if m:
                    self.bad(F, "columns", "projects %s" % m)
                if len(ts) == 2:
                    p = ("root", F.params[1].n)
                    if not names or names[0] != p and not (ts[1] == "string" and self.matchseq(names[0], [("one", p)], s) is None):
                        self.bad(F, "names", "the columns are named %s" % (show(names[0])[:100] if names else "afresh"))
                elif names:
                    self.bad(F, "names", "the columns are named %s" % show(names[0])[:100])
        self.fieldnames()
        # filters
        cp = self.core(*CP)
        for F in self.fns("BuilderNode::filter"):
            for v, s in self.rets(F, opaque=cp):
                x = self.anode(F, v)
                if x is None or not self.isnew(x, "Filter", 2) or x[2][0] != ("root", F.params[0].n):
                    self.bad(F, "condition", "gives %s" % show(v)[:140])
                    continue
                self.based(F, x[2][1], s)
        self.aggregate_nodes(VE, VS)
        self.sort_nodes()
        self.join_nodes(VE, VS)
        self.scans()

    @staticmethod
    def fld(x, f):
        return field(x, f) if x[0] == "rec" else ("fld", x, f)

    def based(self, F, base, s):
        """A node under a filter or sort: this node, or for a scan the projection of its columns in place, without the row id
        unless it is used."""
        this = ("root", "this")
        if base == this:
            return
        need = []
        base = self.resolve(base, need)
        sz = ("size", this)
        ok = base[0] == "fld" and base[2] == "node_" and base[1][0] == "call" and base[1][1] == "proj" and base[1][2] == self.THIS and \
            len(base[1][3]) == 1
        if not ok:
            self.bad(F, "input", "works on %s" % show(base)[:100])
            return
        cols = base[1][3][0]
        io = [t for t in symx.subterms(cols) if t[:1] == ("iota",)]
        if len(set(io)) == 1 and io[0][2] == K0:
            n = io[0][1]
            if self.matchseq(cols, [("map", lambda e: self.col(this, e, "int"), io[0])], s):
                self.bad(F, "columns", "the columns of the scan move: %s" % show(cols)[:100])
                return
            if n == sz:
                return
            if n in (("lin", sz, -1), ("op", "-", sz, K1)) or re.sub(r"[() ]", "", show(n)) == re.sub(r"[() ]", "", show(sz)) + "-1":
                last = False
                for f, tv in s.facts:
                    t = str(f)
                    if not tv and f[0] == "call" and ("count" in f[1] or "contains" in f[1]) and "size" in t:
                        last = True
                    if not tv and "isVirtualCol" in t:
                        last = True
                if not last:
                    self.bad(F, "columns", "the row id is dropped although it may be used")
                return
        self.bad(F, "columns", "the columns of the scan become %s" % show(cols)[:100])

    def fieldnames(self):
        for F in self.fns("buildFieldNames"):
            src = ("root", F.params[0].n)
            for v, s in self.rets(F):
                q = list(self.expand(v))
                if not q and not any(e[0] == "loop" and src in e[2] for e in s.ev):
                    continue
                x = q[0][1] if len(q) == 1 and q[0][0] == "one" else None
                Ls = {y[2] for y in symx.subterms(x) if y[:2] == ("elem", src)} if x is not None else set()
                Ls |= {e[1] for e in s.ev if e[0] == "loop" and src in e[2]}
                ok = False
                for L in Ls:
                    e = ("elem", src, L)
                    auto = s.truth(("nn", ("fld", e, "auto_name_"))), s.truth(("fld", e, "auto_name_"))
                    nm = ("fld", e, "name_")
                    if x is None or not self.covered(L, src, s):
                        continue
                    if x == nm:
                        ok = ok or True not in auto or self.unused(nm, s)
                    elif True in auto and (symx.contains(x, nm) or symx.contains(x, ("k", "expr_"))) and symx.contains(x, ("k", "expr_")) == \
                            (s.truth(("op", "==", ("size", nm), K0)) is True):
                        ok = True
                if not ok:
                    self.bad(F, "names", "a column is named %s" % show(v)[:140])

    @staticmethod
    def unused(nm, s):
        return any(not tv and f[0] == "call" and f[1] in ("count", "contains") and f[3] == (nm,) for f, tv in s.facts)

    @staticmethod
    def num(t, env):
        """A term over integers evaluated; None if it is not one."""
        if t in env:
            return env[t]
        if t[0] == "k":
            return int(t[1]) if t[1].lstrip("-").isdigit() else None
        if t[0] == "op":
            a = [Checker.num(x, env) for x in t[2:]]
            if None in a:
                return None
            return {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "<": lambda x, y: int(x < y), "<=": lambda x, y: int(x <= y),
                    "==": lambda x, y: int(x == y), "!=": lambda x, y: int(x != y), "u-": lambda x: -x, "*": lambda x, y: x * y,
                    ">": lambda x, y: int(x > y), ">=": lambda x, y: int(x >= y), "%": lambda x, y: x % y if y else 0,
                    }.get(t[1], lambda *z: None)(*a)
        if t[0] == "lin":
            a = Checker.num(t[1], env)
            return None if a is None else a + t[2]
        return None

    def lookups(self):
        for F in self.fns("normalizeColIndex"):
            outs = self.paths(F, opaque=opaque_but("normalizeColIndex"))
            self.ctx.count("operations")
            for size in range(0, 5):
                for i in range(-6, 7):
                    env = {("size", ("root", F.params[0].n)): size, ("root", F.params[1].n): i}
                    want = i if 0 <= i < size else i + size if -size <= i < 0 else None
                    got = []
                    for k, v, s in outs:
                        if all(self.num(f, env) in (None, int(tv)) for f, tv in s.facts):
                            got.append(None if k == "throw" else self.num(v, env) if k == "ret" else "?")
                    if not got or any(g != want for g in got):
                        self.bad(F, "index", "column %d of %d is taken as %s instead of %s" % (i, size, got, want))
                        break
        for F in self.fns("getRefByIndex"):
            n, i = [("root", p.n) for p in F.params]
            ni = ("call", NS + "normalizeColIndex", None, (n, i))
            for v, s in self.rets(F, opaque=opaque_but("getRefByIndex")):
                if self.undyn(v) != ("call", NS + "getNodeColumnRef", None, (n, ni)):
                    self.bad(F, "column", "refers to %s" % show(v)[:100])
        for F in self.fns("getFieldName"):
            n, i = [("root", p.n) for p in F.params]
            ni = ("call", NS + "normalizeColIndex", None, (n, i))
            for v, s in self.rets(F, opaque=opaque_but("getFieldName")):
                if v[0] != "call" or v[1].split("::")[-1] != "getFieldName" or v[2] != n or v[3] != (ni,):
                    self.bad(F, "column", "gives %s" % show(v)[:100])
        gn = ("getRefByName",)
        for F in self.fns("getRefByName"):
            n, name = [("root", p.n) for p in F.params[:2]]
            us = {G.u for G in self.fns("getRefByName")}
            for v, s in self.rets(F, opaque=lambda fn, nd, o: fn.u in us or opaque(fn, nd, o)):
                v = self.dynless(v)
                if v in (NUL, ("k", "null")) or v[0] == "acc":
                    continue
                if v[0] == "call" and v[1].endswith("getRefByName"):
                    a = v[3]
                    if a == (n, name) and s.truth(("nn", ("dyn", "Join", n))) is True:
                        continue
                    sides = [("call", NS + "getRefByName", None, (("call", "getInput", n, (k,)), name, K1)) for k in (K0, K1)]
                    tv = [next((b for f, b in s.facts if f in (x, ("nn", x))), None) for x in sides]
                    if v == sides[0] and tv[0] is True and tv[1] is False or v == sides[1] and tv[0] is False:
                        continue
                    self.bad(F, "side", "takes %s" % show(v)[:100])
                    continue
                ok = v[0] == "call" and v[1].endswith("getNodeColumnRef") and v[3][0] == n and len(v[3]) == 2
                if ok:
                    i = v[3][1]
                    ok = any(tv and f[0] == "op" and f[1] == "==" and name in f[2:] and
                             any(z[0] == "call" and z[1].endswith("getFieldName") and z[2] == n and z[3] == (i,) for z in f[2:])
                             for f, tv in s.facts)
                if not ok:
                    self.bad(F, "column", "a name gives %s" % show(v)[:100])

    # ---- aggregations ------------------------------------------------------------------
    def aggregate_nodes(self, VE, VS):
        this = ("root", "this")
        core = [F for F in self.fns("BuilderNode::agg", VE, VE)]
        pas = [("BuilderNode::parseAggString", "string")]
        cp = [("BuilderNode::agg", VE, VE)] + pas
        for F in self.fns("BuilderNode::agg"):
            if F in core:
                continue
            keys = self.cols(F.params[0])
            p = F.params[1]
            t, v0 = self.ptype(p), ("root", p.n)
            parse = lambda e: ("call", "parseAggString", self.THIS, (e,))
            for v, s in self.rets(F, opaque=self.core(*cp)):
                if v[0] != "call" or v[1] != "agg" or v[2] != self.THIS or len(v[3]) != 2:
                    self.bad(F, "result", "gives %s" % show(v)[:100])
                    continue
                if t == "string":
                    want = [] if s.truth(("op", "==", ("size", v0), K0)) is True else [("one", parse(v0))]
                elif t == "BuilderExpr":
                    want = [("one", self.bind(p))]
                elif t.endswith("<string>"):
                    want = [("map", parse, v0)]
                else:
                    want = [("map", lambda e: e, v0)]
                nokey = self.ptype(F.params[0]) == "string" and \
                    s.truth(("op", "==", ("size", ("root", F.params[0].n)), K0)) is True
                m = self.matchseq(v[3][0], [] if nokey else keys, s)
                if m:
                    self.bad(F, "keys", "groups by %s" % m)
                m = self.matchseq(v[3][1], want, s)
                if m:
                    self.bad(F, "aggregates", "computes %s" % m)
        for F in core:
            self.agg_core(F)
        for F in self.fns("replaceInput"):
            src, nb, ni = [("root", p.n) for p in F.params]
            for v, s in self.rets(F):
                def f(e):
                    rw = ("new", NS + "InputRewriter", (nb, ni))
                    return rec("BuilderExpr", auto_name_=("fld", e, "auto_name_"), builder_=("fld", e, "builder_"),
                               expr_=("call", "visit", rw, (("fld", e, "expr_"),)), name_=("fld", e, "name_"))
                m = self.matchseq(self.anon(v), [("map", f, src)], s)
                if m:
                    self.bad(F, "inputs", "gives %s" % m)
        for F in self.by.get("InputRewriter::visitColumnRef", []) + [G for q in self.by for G in self.by[q] if
                                                                     q.endswith("::InputRewriter::visitColumnRef")]:
            c = ("root", F.params[0].n)
            for v, s in self.rets(F, this=("root", "self")):
                v = self.undyn(v)
                ok = self.isnew(v, "ColumnRef", 3) and v[2][0] == T(c) and v[2][1] == ("fld", ("root", "self"), "new_base_") and \
                    v[2][2] == ("elem", ("fld", ("root", "self"), "new_indexes_"), ("call", "index", c, ()))
                if not ok:
                    self.bad(F, "column", "a column becomes %s" % show(v)[:100])
        for F in self.fns("isIdentShuffle"):
            src = ("root", F.params[0].n)
            for v, s in self.rets(F):
                eq = [tv for f, tv in s.facts if f[0] == "op" and f[1] == "==" and any(z[0] == "idx" for z in f[2:]) and
                      any(z[:2] == ("elem", src) for z in f[2:])]
                if v == K1 and (False in eq or not eq) or v == K0 and False not in eq:
                    self.bad(F, "answer", "answers %s when a column %s in place" % (show(v), "is" if eq == [True] else "is not"))
        self.agg_strings()

    @staticmethod
    def anon(t):
        """The same with template arguments and anonymous namespaces dropped from class names."""
        if isinstance(t, tuple):
            if t and t[0] == "new":
                t = ("new", re.sub(r"\(anonymous namespace\)::", "", t[1])) + t[2:]
            return tuple(Checker.anon(x) for x in t)
        return t

    def agg_core(self, F):
        this = ("root", "this")
        gk, ag = [("root", p.n) for p in F.params]
        op = self.core(("BuilderNode::agg",), ("BuilderNode::proj", "std::vector<int>"), ("buildFieldNames",), ("replaceInput",),
                       ("isIdentShuffle",))
        for v, s in self.rets(F, opaque=op):
            x = self.anode(F, v)
            if x is not None:
                if not self.isnew(x, "Aggregate", 4):
                    self.bad(F, "result", "gives %s" % show(v)[:100])
                    continue
                n, ex, names, base = x[2][:4]
                if n != ("size", gk):
                    self.bad(F, "keys", "groups by the first %s columns" % show(n))
                m = self.matchseq(ex, [("map", lambda e: ("fld", e, "expr_"), ag)], s)
                if m:
                    self.bad(F, "aggregates", "computes %s" % m)
                if base != this:
                    self.bad(F, "input", "aggregates %s" % show(base)[:80])
                if names[0] != "call" or not names[1].endswith("buildFieldNames"):
                    self.bad(F, "names", "the columns are named %s" % show(names)[:100])
                else:
                    m = self.matchseq(names[3][0], [("map", lambda e: e, gk), ("map", lambda e: e, ag)], s)
                    if m:
                        self.bad(F, "names", "the columns are named after %s" % m)
                sh = [f for f, tv in s.facts if tv and f[0] == "call" and f[1].endswith("isIdentShuffle")]
                key = lambda e: ("call", "index", ("fld", e, "expr_"), ())
                if not sh or self.matchseq(self.dynless(sh[0][3][0]), [("map", key, gk)], s):
                    self.bad(F, "keys", "takes the first columns as keys without a look at which columns the keys are")
                continue
            if v[0] != "call" or v[1] != "agg" or len(v[3]) != 2 or v[2][0] != "call" or v[2][1] != "proj" or v[2][2] != self.THIS:
                self.bad(F, "result", "gives %s" % show(v)[:100])
                continue
            base, (nk, na) = v[2], v[3]
            shuffle = self.dynless(base[3][0])
            key = lambda e: ("call", "index", ("fld", e, "expr_"), ())
            q = list(self.expand(shuffle))
            m = self.matchseq(shuffle, [("map", key, gk)], s)
            if m:
                first = shuffle
                while first[0] == "built" and len(list(self.expand(first))) > 1:
                    first = first[1]
                m = self.matchseq(first, [("map", key, gk)], s)
            if m or len(q) > 2 or len(q) == 2 and q[1][1][0] != "idx":
                self.bad(F, "order", "the columns under the aggregation are %s" % show(shuffle)[:140])
            node = ("fld", base, "node_")

            def newkey(e):
                i = ("idx", e[2])
                auto = s.truth(("nn", ("fld", e, "auto_name_"))), s.truth(("fld", e, "auto_name_"))
                r = dict(self.col(node, i, "int")[2])
                r["builder_"] = ("fld", base, "builder_")
                if True not in auto:
                    r["name_"], r["auto_name_"] = ("fld", e, "name_"), K0
                return rec("BuilderExpr", **r)
            m = self.matchseq(nk, [("map", newkey, gk)], s)
            if m:
                self.bad(F, "keys", "groups by %s" % m)
            if na[0] != "call" or not na[1].endswith("replaceInput") or na[3][:2] != (ag, node):
                self.bad(F, "aggregates", "computes %s" % show(na)[:140])
                continue
            rev = na[3][2]
            if not (rev[0] == "new" and rev[2] == (("size", this), ("k", "-1"))):
                self.bad(F, "positions", "the columns' new positions are %s" % show(rev)[:100])
                continue
            # each column's new position is where the column is put
            full = False
            for e in s.ev:
                if e[0] == "store" and e[1][0] == "elem" and e[1][1] == rev:
                    k, val = self.dynless(e[1][2]), self.dynless(e[2])
                    if k[0] == "L":
                        k = ("idx", k)
                    built = [t for t in symx.subterms(shuffle) if t[:1] == ("built",)]
                    if not any(val == ("size", t[1]) and t[2] == k for t in built):
                        self.bad(F, "positions", "column %s gets new position %s" % (show(k)[:60], show(val)[:60]))
                if e[0] == "loop" and (rev in e[2] or this in e[2]):
                    L = e[1]
                    c = ("op", "==", ("elem", rev, L), ("k", "-1"))
                    full = full or s.truth(c) is False or any(
                        x[0] == "store" and x[1] == ("elem", rev, L) for x in s.ev)
            if not full:
                self.bad(F, "positions", "a column that is no key gets no new position")

    def dynless(self, t):
        """Without casts to a class of expression."""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "dyn" and len(t) == 3:
            return self.dynless(t[2])
        return tuple(self.dynless(x) if isinstance(x, tuple) else x for x in t)

    AGGSTR = {
        "count": None, " COUNT ": None, "count()": None, "count(*)": None, "Count( 1 )": None,
        "sum(ab)": ("sum", "ab", None), " MIN ( xyz ) ": ("min", "xyz", None), "count(a)": ("count", "a", None),
        "approx_quantile(ab, 0.25)": ("approx_quantile", "ab", ("fp64", 0.25)), "quantile( ab ,1.5 )": ("quantile", "ab", ("fp64", 1.5)),
        "topk(ab,-12)": ("topk", "ab", ("int64", -12)), "top_k(abc, 3)": ("top_k", "abc", ("int64", 3)),
        "corr(ab, cde)": ("corr", "ab", ("col", "cde")), "corr(a,b)": ("corr", "a", ("col", "b")), "sum(a": 0, "sum": 0, "avg a)": 0,
    }

    def agg_strings(self):
        core = self.core(("BuilderNode::ref",), ("BuilderExpr::agg",), ("BuilderNode::count",))
        for F in self.fns("BuilderNode::parseAggString", "string"):
            for text, want in self.AGGSTR.items():
                outs = self.paths(F, {F.params[0]: ("k", text)}, opaque=core, consts=True)
                self.ctx.count("aggregate strings")
                rets = [(v, s) for k, v, s in outs if k == "ret"]
                if want == 0:
                    if rets:
                        self.bad(F, "text " + text, "%r is taken as %s" % (text, show(rets[0][0])[:80]))
                    continue
                if not rets:
                    self.bad(F, "text " + text, "%r is not understood" % text)
                for v, s in rets:
                    if want is None:
                        ok = v == ("call", "count", self.THIS, ())
                    else:
                        name, c, par = want
                        ok = v[0] == "call" and v[1] == "agg" and v[2] == ("call", "ref", self.THIS, (("k", c),)) and \
                            len(v[3]) >= 2 and v[3][0] == ("k", name) and self.aggpar(v[3][1], par, s)
                    if not ok:
                        self.bad(F, "text " + text, "%r is taken as %s" % (text, show(v)[:140]))

    def aggpar(self, a, par, s):
        e = field(a, "expr_") if a[0] == "rec" else None
        if par is None:
            return e == NUL
        if par[0] == "col":
            return e is not None and e == ("call", NS + "getRefByName", None, (("root", "this"), ("k", par[1]), K1))
        if e is None or e[0] != "const" or self.k(e[1], s) != {par[0]}:
            return False
        try:
            return float(e[2][1]) == par[1]
        except (ValueError, TypeError, IndexError):
            return False

    # ---- sorts -----------------------------------------------------------------------------
    def sort_nodes(self):
        this = ("root", "this")
        VF = "std::vector<BuilderSortField>"
        parse = [("BuilderSortField::parseSortDirection",), ("BuilderSortField::parseNullPosition",),
                 ("BuilderOrderByKey::parseSortDirection",), ("BuilderOrderByKey::parseNullPosition",)]

        def given(p, fn):
            r = ("root", p.n)
            if not isstr(p.t):
                return [r]
            return [("call", q, None, (r,)) for q in (NS + "BuilderSortField::" + fn, NS + "BuilderOrderByKey::" + fn)]
        # the fields themselves
        for cls in ("BuilderSortField", "BuilderOrderByKey"):
            for F in self.fns("%s::%s" % (cls, cls)):
                if len(F.params) != 3:
                    continue
                me = ("root", "self")
                for k, v, s in self.paths(F, this=me, opaque=self.core(*parse)):
                    if k != "ret":
                        continue
                    self.ctx.count("paths")
                    h = {f: self.undyn(self.unvariant(s.heap.get(("fld", me, f), NUL))) for f in ("field_", "expr_", "dir_", "null_pos_")}
                    what = h["field_"] if cls == "BuilderSortField" else h["expr_"]
                    w = self.bind(F.params[0])
                    if what != w and not (cls == "BuilderOrderByKey" and what == field(w, "expr_")):
                        self.bad(F, "field", "the key is %s" % show(what)[:80])
                    if self.calls(h["dir_"]) not in map(self.calls, given(F.params[1], "parseSortDirection")):
                        self.bad(F, "direction", "the direction is %s" % show(h["dir_"])[:80])
                    if self.calls(h["null_pos_"]) not in map(self.calls, given(F.params[2], "parseNullPosition")):
                        self.bad(F, "nulls", "the position of nulls is %s" % show(h["null_pos_"])[:80])
        core = self.core(("BuilderNode::sort", VF, "unsigned long", "unsigned long"), *parse)
        for F in self.fns("BuilderNode::sort"):
            P = F.params
            t0 = self.ptype(P[0])
            if t0 == VF:
                self.sort_core(F)
                continue
            for v, s in self.rets(F, opaque=core):
                if v[0] != "call" or v[1] != "sort" or v[2] != self.THIS or len(v[3]) != 3:
                    self.bad(F, "result", "gives %s" % show(v)[:100])
                    continue
                f, lim, off = v[3]
                if lim != ("root", P[-2].n) or off != ("root", P[-1].n):
                    self.bad(F, "limit", "limit %s, offset %s" % (show(lim), show(off)))
                if t0 == "BuilderSortField":
                    m = self.matchseq(f, [("one", self.bind(P[0]))], s)
                    if m:
                        self.bad(F, "keys", "sorts by %s" % m)
                    continue
                mm = re.match(r"std::(?:vector|initializer_list)<(\w+)>$", t0)
                msgs = []
                for d in given(P[1], "parseSortDirection"):
                    for n in given(P[2], "parseNullPosition"):
                        mk = lambda e: rec("BuilderSortField", field_=e, dir_=d, null_pos_=n)
                        want = [("map", mk, ("root", P[0].n))] if mm else [("one", mk(self.bind(P[0])))]
                        msgs.append(self.matchseq(self.variantless(f), want, s))
                if all(msgs):
                    self.bad(F, "keys", "sorts by %s" % msgs[0])

    @staticmethod
    def calls(t):
        return ("call", t[1].split("::")[-1], t[3]) if t[0] == "call" else t

    @staticmethod
    def unvariant(t):
        while t[0] == "new" and "variant" in t[1] and len(t[2]) == 1:
            t = t[2][0]
        return t

    def variantless(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "new" and "variant" in t[1] and len(t[2]) == 1:
            return self.variantless(t[2][0])
        if t[0] == "call" and t[1].split("::")[-1] in ("parseSortDirection", "parseNullPosition") and len(t) == 4:
            t = ("call", NS + "BuilderSortField::" + t[1].split("::")[-1], None, t[3])
        return tuple(self.variantless(x) if isinstance(x, tuple) else x for x in t)

    def sort_core(self, F):
        this = ("root", "this")
        src = ("root", F.params[0].n)
        cp = self.core(("BuilderNode::proj", "std::vector<BuilderExpr>"), ("buildFieldNames",))
        for v, s in self.rets(F, opaque=cp):
            x = self.anode(F, v)
            if x is None or not self.isnew(x, "Sort", 4):
                self.bad(F, "result", "gives %s" % show(v)[:100])
                continue
            coll, lim, off, base = x[2][:4]
            if (lim, off) != tuple(("root", p.n) for p in F.params[1:3]):
                self.bad(F, "limit", "limit %s, offset %s" % (show(lim), show(off)))
            q = list(self.expand(self.dynless(coll)))
            ok = len(q) == 1 and q[0][0] == "one" and q[0][1][0] in ("tup", "new")
            if ok:
                item = q[0][1]
                parts = item[1:] if item[0] == "tup" else item[2]
                Ls = {y[2] for y in symx.subterms(q[0][1]) if y[:2] == ("elem", src)}
                ok = len(Ls) == 1 and len(parts) == 3
            if not ok:
                self.bad(F, "keys", "sorts by %s" % show(coll)[:140])
                continue
            L = Ls.pop()
            e = ("elem", src, L)
            if not self.covered(L, src, s):
                self.bad(F, "keys", "not every key is used")
            if parts[1:] != (("fld", e, "dir_"), ("fld", e, "null_pos_")):
                self.bad(F, "direction", "a key's direction and position of nulls are %s" % ", ".join(show(z) for z in parts[1:]))
            i = parts[0]
            fv = ("fld", e, "field_")
            held = [(re.sub(r".*:", "", f[1]) if f[0] == "call" else "", f, tv) for f, tv in s.facts if symx.contains(f, fv) and tv]
            kinds_ = [("int", "getRefByIndex"), ("string", "getRefByName"), ("BuilderExpr", "")]
            kind = next((k for k, _ in kinds_ for f, tv in s.facts if tv and symx.contains(f, fv) and f[:2] == ("call", "holds:" + k)), None)
            ok = i[0] == "call" and i[1] == "index"
            if ok:
                r = i[2]
                if r[0] == "call" and r[1].endswith(("getRefByIndex", "getRefByName")):
                    g = r[3][1]
                    ok = r[3][0] == this and symx.contains(g, fv) and r[1].endswith(dict(kinds_).get(kind or "int", "?") if kind else r[1])
                    ok = ok and (("int" in str(g[1])) == r[1].endswith("getRefByIndex") if g[0] == "call" else True)
                else:
                    ok = symx.contains(r, fv) and (kind in (None, "BuilderExpr")) and any(
                        f[0] == "op" and f[1] == "==" and this in f[2:] and tv and any(
                            z[0] == "call" and z[1] == "node" and symx.contains(z, fv) for z in f[2:])
                        for f, tv in ((self.dynless(f), tv) for f, tv in s.facts))
            if not ok:
                self.bad(F, "column", "a key given %s sorts by %s" % (
                    {"int": "by index", "string": "by name"}.get(kind, "by reference"), show(i)[:100]))
            self.based(F, base, s)

    # ---- joins ---------------------------------------------------------------------------------
    def join_nodes(self, VE, VS):
        this, rhs = ("root", "this"), None
        c1 = [F for F in self.fns("BuilderNode::join", "BuilderNode", "BuilderExpr", "JoinType")]
        c2 = [F for F in self.fns("BuilderNode::join", "BuilderNode", VS, VS, "JoinType")]
        cores = [("BuilderNode::join", "BuilderNode", "BuilderExpr", "JoinType"), ("BuilderNode::join", "BuilderNode", VS, VS, "JoinType"),
                 ("parseJoinType",)]
        for F in self.fns("BuilderNode::join"):
            P = F.params
            R = self.bind(P[0])
            rhs = field(R, "node_")
            jt = ("root", P[-1].n)
            jts = [jt] if not isstr(P[-1].t) else [("call", NS + "parseJoinType", None, (jt,))]
            if F in c1 + c2:
                continue
            for v, s in self.rets(F, opaque=self.core(*cores)):
                if v[0] != "call" or v[1] != "join" or v[2] != self.THIS or v[3][0] != R:
                    self.bad(F, "inputs", "joins %s" % show(v)[:140])
                    continue
                if v[3][-1] not in jts:
                    self.bad(F, "type", "the join's type is %s" % show(v[3][-1])[:80])
                mid = v[3][1:-1]
                if len(P) == 2:       # columns both have
                    m = len(mid) == 2 and mid[0] == mid[1]
                    a, b = [("call", NS + "getColNames", None, (n,)) for n in (this, rhs)]
                    if m:
                        q = list(self.expand(mid[0]))
                        if q:
                            x = q[0][1]
                            m = len(q) == 1 and q[0][0] == "one" and x[0] == "elem" and x[1] in (a, b) and any(
                                tv and f[0] == "call" and f[1] in ("count", "contains") and f[2] == (b if x[1] == a else a) and f[3] == (x,)
                                for f, tv in s.facts) and self.covered(x[2], x[1], s)
                        else:
                            m = any(not tv and f[0] == "call" and f[1] in ("count", "contains") and f[2] in (a, b) for f, tv in s.facts)
                    if not m:
                        self.bad(F, "columns", "joins on %s" % ", ".join(show(z)[:80] for z in mid))
                else:
                    w = [self.bind(p) for p in P[1:-1]]
                    if list(mid) not in (w, w + w if len(w) == 1 else w):
                        self.bad(F, "columns", "joins on %s" % ", ".join(show(z)[:80] for z in mid))
        for F in c1 + c2:
            self.join_core(F, F in c2)

    def join_core(self, F, named):
        P = F.params
        this, rhs = ("root", "this"), ("root", P[0].n)
        core = self.core(("BuilderNode::proj", "std::vector<int>"), ("BuilderExpr::eq", "BuilderExpr"),
                         ("BuilderExpr::logicalAnd", "BuilderExpr"))
        for v, s in self.rets(F, opaque=core):
            x = self.anode(F, v[2]) if v[0] == "call" and v[1] == "proj" and len(v[3]) == 1 and v[2][0] == "rec" else None
            if x is None or not self.isnew(x, "Join", 4):
                self.bad(F, "result", "gives %s" % show(v)[:100])
                continue
            a, b, cond, jt = x[2][:4]
            if (a, b) != (this, rhs):
                self.bad(F, "inputs", "joins %s with %s" % (show(a)[:60], show(b)[:60]))
            if jt != ("root", P[-1].n):
                self.bad(F, "type", "the join's type is %s" % show(jt)[:80])
            if not named:
                if cond != ("root", P[1].n):
                    self.bad(F, "condition", "joins on %s" % show(cond)[:100])
            else:
                l, r = ("root", P[1].n), ("root", P[2].n)

                def eq(t, i):
                    t = self.fullexpr(t)
                    return t is not None and t[0] == "call" and t[1] == "eq" and \
                        self.same(t[2], self.col(this, ("elem", l, i), "string")) and \
                        self.same(t[3][0], self.col(rhs, ("elem", r, i), "string"))
                c = self.fullexpr(cond)
                ok = eq(c, K0) if c is not None and c[1:2] == ("eq",) else False
                if c is not None and c[0] == "call" and c[1] == "logicalAnd":
                    acc, one = c[2], c[3][0]
                    if acc[0] == "acc" and eq(acc[2], K0):
                        L = acc[1]
                        idx = ("acc", L, K1)
                        i = next((t for t in symx.subterms(one) if t[:3] == idx), None)
                        hi = [f for f, tv in s.facts if tv and i is not None and f[0] == "op" and f[1] == "<" and f[2] == i and
                              f[3] in (("size", l), ("size", r))]
                        ok = i is not None and eq(one, i) and bool(hi)
                if not ok:
                    self.bad(F, "condition", "joins on %s" % show(cond)[:200])
            # the columns kept
            sides = [(this, None), (rhs, ("size", this))]
            for t in [x for _, x in self.expand(v[3][0])]:
                hit = False
                for L in {e[1] for e in s.ev if e[0] == "loop"}:
                    i = ("idx", L)
                    for node, shift in sides:
                        w = [i] if shift is None else [("op", "+", i, shift), ("op", "+", shift, i)]
                        if t in w and self.covered(L, node, s):
                            virt = self.truth2(("call", "isVirtualCol", node, (i,)), s)
                            sc = s.truth(("nn", ("dyn", "Scan", node)))
                            hit = hit or virt is False or sc is False
                if not hit:
                    self.bad(F, "columns", "keeps column %s" % show(t)[:80])
            for L, node in [(e[1], n) for e in s.ev if e[0] == "loop" for n in e[2] if n in (this, rhs)]:
                i = ("idx", L)
                kept = any(symx.contains(t, i) for _, t in self.expand(v[3][0]))
                virt = self.truth2(("call", "isVirtualCol", node, (i,)), s)
                keys = {tv for f, tv in s.facts if f[0] == "call" and f[1] in ("count", "contains") and "getFieldName" in str(f[3]) and
                        symx.contains(f[3], i) and symx.contains(f[2], ("root", P[2].n)) and not symx.contains(f[2], ("root", P[1].n))
                        } if named and node == rhs else set()
                key = True in keys
                if kept and named and node == rhs and keys != {False}:
                    self.bad(F, "columns", "a column of %s is kept that may be its key" % show(node))
                if not kept and virt is not True and not key:
                    self.bad(F, "columns", "drops a column of %s" % show(node))
                if kept and key:
                    self.bad(F, "columns", "keeps a key column of the right side")
            seen = {n for e in s.ev if e[0] == "loop" for n in e[2]}
            if not {this, rhs} <= seen:
                self.bad(F, "columns", "does not go through all columns of both sides")

    @staticmethod
    def truth2(t, s):
        v = s.truth(t)
        return v if v is not None else s.truth(("nn", t))

    @staticmethod
    def fullexpr(t):
        """The call that made this builder expression."""
        if t[0] == "fld" and t[2] == "expr_":
            t = t[1]
        return t if t[0] == "call" else None

    # ---- scans and the query -----------------------------------------------------------------------
    def scans(self):
        sp = ("fld", B, "schema_provider_")
        for F in self.fns("QueryBuilder::scan"):
            P = [("root", p.n) for p in F.params]
            ts = [self.ptype(p) for p in F.params]
            for v, s in self.rets(F):
                x = self.anode(F, v)
                if x is None or not self.isnew(x, "Scan", 2):
                    self.bad(F, "result", "gives %s" % show(v)[:100])
                    continue
                ti, cols = x[2][:2]
                if cols != ("call", "listColumns", sp, (ti,)):
                    self.bad(F, "columns", "the columns are %s" % show(cols)[:100])
                if len(P) == 2:
                    want = [("call", "getTableInfo", sp, tuple(P))]
                elif ts == ["TableRef"]:
                    want = [("call", "getTableInfo", sp, (("fld", P[0], "db_id"), ("fld", P[0], "table_id"))),
                            ("call", "getTableInfo", sp, (P[0],))]
                elif ts == ["string"]:
                    want = [ti] if ti[0] in ("acc", "call", "phi") or symx.contains(ti, P[0]) else []
                    if ti[0] == "call" and (ti[1] != "getTableInfo" or ti[3][-1] != P[0] or ti[3][0][0] != "elem"):
                        want = []
                else:
                    want = [P[0]]
                if ti not in want:
                    self.bad(F, "table", "reads %s" % show(ti)[:100])
            if ts == ["string"]:
                # a second table of the name is refused: some path that found one ends in an error
                def found(s):
                    return any(tv and symx.contains(f, P[0]) and "getTableInfo" in str(f) for f, tv in s.facts)
                if not any(k == "throw" and found(s) for k, v, s in self.paths(F)):
                    self.bad(F, "ambiguous", "one of several tables of the name is picked")
        this = ("root", "this")
        core = self.core(("BuilderNode::finalize",), ("BuilderNode::proj", "std::vector<int>"))
        for F in self.fns("BuilderNode::finalize"):
            for v, s in self.rets(F, opaque=core):
                sc, jn = s.truth(("nn", ("dyn", "Scan", this))), s.truth(("nn", ("dyn", "Join", this)))
                if v[0] == "new" and v[1].endswith("QueryDag"):
                    if len(v[2]) < 2 or v[2][1] != this:
                        self.bad(F, "root", "the query computes %s" % show(v)[:80])
                    sets = [e for e in s.ev if e[0] == "call" and e[1].endswith("setNodes")]
                    if not sets or sets[-1][3][0] != ("call", NS + "collectNodes", None, (this,)):
                        self.bad(F, "nodes", "the query's nodes are %s" % (show(sets[-1][3][0])[:80] if sets else "not set"))
                    if sc is not False or jn is not False:
                        self.bad(F, "root", "a scan or join is the root of a query")
                    continue
                ok = v[0] == "call" and v[1] == "finalize" and v[2] is not None and v[2][0] == "call" and v[2][1] == "proj" and \
                    v[2][2] == self.THIS and len(v[2][3]) == 1
                if not ok or True not in (sc, jn):
                    self.bad(F, "root", "the query computes %s" % show(v)[:100])
                    continue
                q = [x for _, x in self.expand(v[2][3][0])]
                Ls = [e[1] for e in s.ev if e[0] == "loop" and this in e[2]]
                virt = [tv for f, tv in s.facts if f[0] == "call" and f[1] == "isVirtualCol"]
                if not Ls:
                    self.bad(F, "columns", "does not go through all columns")
                elif q:
                    if q != [("idx", Ls[-1])] or True in virt:
                        self.bad(F, "columns", "the query's columns are %s" % show(v[2][3][0])[:100])
                elif True not in virt:
                    self.bad(F, "columns", "drops a column")
        for F in self.fns("collectNodes"):
            if len(F.params) != 3:
                continue
            node, out, seen = [("root", p.n) for p in F.params]
            for v, s in self.rets(F, opaque=self.core(("collectNodes",))):
                sub = [e for e in s.ev if e[0] == "call" and e[1].endswith("collectNodes")]
                if [e for e in sub if e[3][0][0] != "call" or e[3][0][2] != node or e[3][0][3][0][0] != "idx"]:
                    self.bad(F, "inputs", "does not go on to the node's inputs")

    def choices(self):
        for F in self.fns("QueryBuilder::ifThenElse"):
            c, a, b = [("root", p.n) for p in F.params]
            for v, s in self.rets(F):
                x = self.expr(F, v)
                if x is None or not self.isnew(x, "CaseExpr", 4):
                    self.bad(F, "result", "gives %s" % show(v)[:100])
                    continue
                ty, agg, pairs, els = x[2][:4]
                if not self.seqis(pairs, [("tup", c, a)]) or els != b:
                    self.bad(F, "branches", "builds %s otherwise %s" % (show(pairs)[:100], show(els)[:60]))
                if not (ty[0] == "call" and ty[1] == "withNullable" and ty[2] in (T(a), T(b)) and
                        self.anyof(ty[3][0], [self.nullable(T(a)), self.nullable(T(b))], s)):
                    self.bad(F, "type", "the type of the choice is %s" % show(ty)[:100])
                if not self.anyof(agg, [("call", "containsAgg", z, ()) for z in (c, a, b)], s):
                    self.bad(F, "agg", "whether it contains an aggregate is taken from %s" % show(agg))
        for F in self.fns("BuilderExpr::rename"):
            for v, s in self.rets(F):
                if v[0] != "rec" or field(v, "expr_") != ("root", "this") or field(v, "name_") != ("root", F.params[0].n) or \
                        field(v, "auto_name_") != K0:
                    self.bad(F, "result", "gives %s" % show(v)[:120])


    # ---- what is refused ------------------------------------------------------------------------
    def refusals(self):
        """Requests that cannot be built as asked end in an error."""
        member = ("count", "contains")
        for F in self.fns("checkExprInput"):
            P = F.params
            if not self.ptype(P[1]).startswith("std::unordered_set"):
                continue
            allowed = ("root", P[1].n)
            outs = self.paths(F)
            ok = any(k == "throw" for k, v, s in outs)
            for k, v, s in outs:
                if k == "ret" and any(e[0] == "loop" for e in s.ev) and not any(
                        tv and f[0] == "call" and f[1] in member and f[2] == allowed for f, tv in s.facts):
                    ok = False
            if not ok:
                self.bad(F, "inputs", "an expression over a node that is no input is accepted")
        for F in self.fns("expandAllowedInput"):
            if not self.ptype(F.params[0]).startswith("Node"):
                continue
            node = ("root", F.params[0].n)
            for k, v, s in self.paths(F):
                if k == "ret" and s.truth(("nn", ("dyn", "Join", node))) is True and not any(e[0] == "loop" for e in s.ev):
                    got = {str(e[3]) for e in s.ev if e[0] == "call" and e[1].endswith("expandAllowedInput")}
                    if any(not any(str(("call", "getInput", node, (i,))) in g for g in got) for i in (K0, K1)):
                        self.bad(F, "inputs", "a side of a join is not taken for an input")
        for F in self.fns("getColNames"):
            node = ("root", F.params[0].n)
            for k, v, s in self.paths(F):
                for L in [e[1] for e in s.ev if e[0] == "loop" and node in e[2]]:
                    i = ("idx", L)
                    name = ("call", "getFieldName", node, (i,))
                    put = any(e[0] == "call" and e[1].split("::")[-1] in ("insert", "emplace") and e[3] == (name,) for e in s.ev)
                    virt = self.truth2(("call", "isVirtualCol", node, (i,)), s)
                    sc = s.truth(("nn", ("dyn", "Scan", node)))
                    if put and virt is not False and sc is not False or not put and virt is not True:
                        self.bad(F, "columns", "the names to join on by default are not those of the real columns")
        for nm in ("quantile", "approxQuantile"):
            for F in self.fns("BuilderExpr::" + nm):
                val = ("root", F.params[0].n)
                for k, v, s in self.paths(F):
                    for x in (-0.25, 1.25, 2, 50, 1000):
                        if k == "ret" and not any(self.num(f, {val: x}) == int(not tv) for f, tv in s.facts if symx.contains(f, val)):
                            self.bad(F, "range", "the quantile %s is accepted" % x)
        for F in self.fns("BuilderExpr::agg"):
            P = F.params
            if not P or self.ptype(P[0]) != "AggType" or [self.ptype(p) for p in P[1:3]] != ["bool", "BuilderExpr"]:
                continue
            for kind in ("kMin", "kMax", "kSum", "kAvg", "kStdDevSamp", "kSample"):
                for k, v, s in self.paths(F, {P[0]: self.aggt[kind], P[1]: K1}):
                    if k == "ret":
                        self.bad(F, "distinct", "DISTINCT is dropped from %s" % kind)
        for F in self.fns("BuilderNode::columnInfo"):
            x = ("root", F.params[0].n)
            want = dict(self.col(("root", "this"), x, self.ptype(F.params[0]))[2])["expr_"]
            for k, v, s in self.paths(F):
                if k == "ret" and ("call", "index", want, ()) not in set(symx.subterms(self.dynless(v))):
                    self.bad(F, "column", "describes %s" % show(v)[:100])
        for nm, what in (("proj", "std::vector<std::shared_ptr<Expr>>"), ("filter", "BuilderExpr"), ("agg", "std::vector<BuilderExpr>"), ("join", "BuilderNode")):
            for F in self.fns("BuilderNode::" + nm):
                ts = [self.ptype(p) for p in F.params]
                if ts[:1] != [what] or nm == "agg" and ts != [what] * 2 or nm == "join" and (len(ts) != 3 or ts[1:] != ["BuilderExpr", "JoinType"]):
                    continue
                es = [("root", p.n) for p in F.params if self.ptype(p) in (what, "BuilderExpr") and nm != "join" or
                      nm == "join" and self.ptype(p) == "BuilderExpr"]
                core = self.core(("BuilderNode::proj", "std::vector<int>"), ("buildFieldNames",), ("replaceInput",))
                for v, s in self.rets(F, opaque=core):
                    asked = [e for e in s.ev if e[0] == "call" and e[1].endswith("checkExprInput")]
                    for e in es:
                        if not any(e in set(symx.subterms(a[3])) or symx.contains(a[3], e) for a in asked):
                            self.bad(F, "inputs", "expressions over nodes that are no input are accepted")


def run(ctx):
    ctx.rule = ("every path of every operation of the query builder builds the operation it is named for, over the operands it was "
                "given, in order, with the arguments' own values and types")
    prog = model.load(TUS)
    C = Checker(ctx, prog)
    C.setup()
    C.operators()
    C.aggregates()
    C.windows()
    C.names()
    C.literals()
    C.casts()
    C.choices()
    C.window_keys()
    C.nodes()
    C.refusals()


if __name__ == "__main__":
    import sys
    prog = model.load(TUS)
    C = Checker(None, prog)
    for F in prog.fns.values():
        if F.root is None or not F.q.startswith((NS + "Builder", NS + "QueryBuilder", "operator")) or not F.q.endswith(sys.argv[1]):
            continue
        print(F.q, [p.t for p in F.params])
        env = {}
        if len(sys.argv) > 2:
            env = {p: ("k", sys.argv[2]) for p in F.params if isstr(p.t)}
        for k, v, s in C.paths(F, env):
            if k == "ret":
                print("   ", [(show(a), b) for a, b in s.facts])
                print("      ->", show(v))
