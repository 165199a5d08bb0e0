"""C17: a typed value is always read back through the representation it was written with.

Every function that touches a member of the generic value container is specialised for each type shape (type id, width, precision): branches
on the type are decided, all others are followed both ways, and at every access that stays reachable the member must be the one the shape
stands for."""
import re
from vlib import model
from vlib.lockset import strip, call_parts, is_fatal_elem, CALLS

HERE = model.VERIF
TUS = ["IR/Datum.cpp", "IR/Expr.cpp", "Analyzer/Analyzer.cpp", "Utils/ChunkIter.cpp", "QueryBuilder/QueryBuilder.cpp",
       "QueryEngine/CalciteDeserializerUtils.cpp", "QueryEngine/DateTimeTranslator.cpp", "DataMgr/Encoder.cpp",
       HERE + "/spec/stats_tu.cpp"]
MEMBERS = {"boolval", "tinyintval", "smallintval", "intval", "bigintval", "floatval", "doubleval", "stringval", "arrayval"}
WIDTH = {"boolval": 1, "tinyintval": 1, "smallintval": 2, "intval": 4, "bigintval": 8}
BYSIZE = {1: "tinyintval", 2: "smallintval", 4: "intval", 8: "bigintval"}
MARKERS = {-128: 1, -32768: 2, -2147483648: 4, -9223372036854775808: 8}
CLASSES = {"DateTimeBaseType": {"kDate", "kTime", "kTimestamp", "kInterval"}, "ArrayBaseType": {"kFixedLenArray", "kVarLenArray"},
           "FloatingPointType": {"kFloatingPoint"}, "IntegerType": {"kInteger"}, "DecimalType": {"kDecimal"},
           "BooleanType": {"kBoolean"}, "DateType": {"kDate"}, "TimeType": {"kTime"}, "TimestampType": {"kTimestamp"},
           "IntervalType": {"kInterval"}, "VarCharType": {"kVarChar"}, "TextType": {"kText"}, "ExtDictionaryType": {"kExtDictionary"},
           "FixedLenArrayType": {"kFixedLenArray"}, "VarLenArrayType": {"kVarLenArray"}, "NullType": {"kNull"}, "Type": None}
SCALARS = [("kBoolean", 1)] + [("kInteger", s) for s in (1, 2, 4, 8)] + [("kFloatingPoint", 4), ("kFloatingPoint", 8),
           ("kVarChar", -1), ("kText", -1), ("kDate", 4), ("kDate", 8), ("kTime", 8), ("kTimestamp", 8), ("kInterval", 8), ("kNull", 0)]
DICTS = [("kExtDictionary", s) for s in (1, 2, 4)]
ARRAYS = [("kFixedLenArray", -1), ("kVarLenArray", -1)]
CTX_TYPES = {"boolean": ("kBoolean", 1), "int8": ("kInteger", 1), "int16": ("kInteger", 2), "int32": ("kInteger", 4), "int64": ("kInteger", 8),
             "fp32": ("kFloatingPoint", 4), "fp64": ("kFloatingPoint", 8), "decimal64": ("kDecimal", 8), "text": ("kText", -1),
             "time64": ("kTime", 8), "date64": ("kDate", 8), "date32": ("kDate", 4), "timestamp": ("kTimestamp", 8),
             "interval64": ("kInterval", 8), "interval": ("kInterval", 8), "null": ("kNull", 0)}
LIMIT = 60000


class Fork(Exception):
    def __init__(self, key, shapes):
        self.key, self.shapes = key, shapes


class Giveup(Exception):
    pass


class Dead(Exception):
    """a member of a null type pointer: the path ends here"""


def ptr_to_type(t):
    return bool(re.match(r"^(const )?(hdk::ir::)?(\w*Type) \*(const)?$", t or "")) and "FunctionType" not in t


def is_datum(t):
    return re.sub(r"^const ", "", t or "").rstrip(" &") in ("Datum", "VarlenDatum") and "Varlen" not in (t or "")


def members(shape, elem, cmp):
    """the container members that may hold a value of this shape, or None if any"""
    i, s = shape
    if i == "kBoolean":
        return {"boolval", "tinyintval"}
    if i in ("kInteger", "kDecimal"):
        return {BYSIZE[s]}
    if i == "kFloatingPoint":
        return {"floatval"} if s == 4 else {"doubleval"}
    if i in ("kDate", "kTime", "kTimestamp", "kInterval", "kNull"):
        return {"bigintval"}
    if i in ("kVarChar", "kText"):
        return {"stringval"}
    if i == "kExtDictionary":
        # identifiers are kept as 32-bit numbers; equality may look at the bytes that can differ
        return {"intval", BYSIZE[s]} if cmp else {"intval"}
    if i in ("kFixedLenArray", "kVarLenArray"):
        return {"arrayval"} | (members(elem, None, cmp) if elem else MEMBERS)
    return None


def name(shape):
    i, s = shape
    return i[1:] + ("" if s <= 0 else str(8 * s))


class Spec:
    """One function, specialised."""

    def __init__(self, c, p, F, ids):
        self.c, self.p, self.F, self.ids = c, p, F, ids
        self.tparams = [d for d in F.decl.params if ptr_to_type(d.t)]
        self.names = {v: k for k, v in ids.items()}
        dm = "/DataMgr/" in (F.loc() or "")
        self.shapes = SCALARS + DICTS + ARRAYS + [("kDecimal", s) for s in ((1, 2, 4, 8) if dm else (8,))]
        self.elems = [s for s in SCALARS if s[0] != "kNull"] + [("kExtDictionary", 4)] + \
            [("kDecimal", s) for s in ((1, 2, 4, 8) if dm else (8,))]
        self.written = {}

    # ---- access paths
    def text(self, n):
        n = strip(n)
        if n is None:
            return "?"
        if n.k == "CXXThisExpr":
            return "this"
        if n.k == "DeclRefExpr" and n.d is not None:
            return n.d.n + ("" if n.d.k == "ParmVar" else "@%d" % (n.d.l or 0))
        if n.k == "MemberExpr" and n.d is not None:
            b = self.text(n.c[0]) if n.c else "this"
            return n.d.n if b == "this" else b + "." + n.d.n
        if n.k in ("CXXMemberCallExpr", "CXXOperatorCallExpr"):
            o, args = call_parts(n)
            if n.k == "CXXOperatorCallExpr" and n.fn is not None and n.fn.n in ("operator->", "operator*") and o is not None:
                return self.text(o)
            if n.fn is not None and n.fn.n == "get" and o is not None and not args:
                return self.text(o)
            if o is not None and n.fn is not None:
                return "%s.%s(%s)" % (self.text(o), n.fn.n, ",".join(self.text(a) for a in args))
        if n.k == "UnaryOperator" and n.op in ("*", "&"):
            return self.text(n.c[0])
        if n.k == "CXXDynamicCastExpr":
            return self.text(n.c[0])
        return "?%d" % n.i

    # ---- values
    def shape(self, key, st):
        s = st.get(("s", key))
        if s is None:
            raise Fork(key, self.elems if key[0] == "e" else self.shapes)
        return s

    def tested(self, key, st):
        """the function has looked at this type on the way here (otherwise it relies on its caller for the right type)"""
        return ("s", key) in st

    def elem_of(self, key, st):
        return self.shape(("e", key), st)

    def ev(self, n, st, this=None, depth=0):
        """("ty", key) | ("null",) | int | ("shape", s) | None"""
        n0 = n
        if n is not None and n.cv is not None and n.k not in CALLS:
            try:
                return int(n.cv)
            except (TypeError, ValueError):
                pass
        n = strip(n)
        if n is None or depth > 12:
            return None
        if n.cv is not None and n.k not in CALLS:
            try:
                return int(n.cv)
            except (TypeError, ValueError):
                pass
        k = n.k
        if k == "IntegerLiteral":
            return int(n.v)
        if k == "CXXBoolLiteralExpr":
            return 1 if str(n.v).lower() in ("1", "true") else 0
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return ("null",)
        if k == "DeclRefExpr" and n.d is not None:
            if n.d.k == "EnumConstant":
                return int(n.d.get("v"))
            v = st.get(("v", id(n.d)))
            if v is not None:
                return v
            if n.d.k == "ParmVar" and ptr_to_type(n.d.t):
                return ("ty", ("p", n.d.n))
            if ptr_to_type(n.t) and n.d.k != "ParmVar":
                return ("ty", ("x", n.d.n, n.d.l))
            return None
        if k == "CXXThisExpr":
            return this
        if k == "MemberExpr" and n.d is not None:
            base = strip(n.c[0]) if n.c else None
            if this is not None and (base is None or base.k == "CXXThisExpr"):
                s = self.sh(this, st)
                if n.d.n == "id_":
                    return self.ids.get(s[0])
                if n.d.n == "size_":
                    return s[1]
                if n.d.n == "precision_" and s[0] == "kFloatingPoint":
                    return 0 if s[1] == 4 else 1
                return None
            if n.d.n == "type_" or ptr_to_type(n.t):
                return ("ty", ("t", self.text(base) if n.d.n == "type_" and base is not None else self.text(n)))
            return None
        if k == "CXXDynamicCastExpr" and ptr_to_type(n.t):
            return self.cast(self.ev(n.c[0], st, this, depth + 1), n.t, st)
        if k == "UnaryOperator" and n.op == "!":
            v = self.truth(n.c[0], st, this, depth + 1)
            return None if v is None else 1 - v
        if k == "BinaryOperator":
            if n.op in ("&&", "||"):
                a = self.truth(n.c[0], st, this, depth + 1)
                if a is not None and (a == 0) == (n.op == "&&"):
                    return a
                b = self.truth(n.c[1], st, this, depth + 1)
                if b is not None and (b == 0) == (n.op == "&&"):
                    return b
                return b if a is not None else None
            if n.op in ("==", "!=", "<", ">", "<=", ">="):
                a, b = self.ev(n.c[0], st, this, depth + 1), self.ev(n.c[1], st, this, depth + 1)
                if isinstance(a, int) and isinstance(b, int):
                    return int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[n.op])
                if n.op in ("==", "!=") and {type(a), type(b)} == {tuple} and (a == ("null",)) != (b == ("null",)):
                    return int(n.op == "!=")
            return None
        if k == "ConditionalOperator":
            v = self.truth(n.c[0], st, this, depth + 1)
            if v is not None:
                return self.ev(n.c[1] if v else n.c[2], st, this, depth + 1)
            a, b = (self.ev(x, st, this, depth + 1) for x in n.c[1:3])
            return a if a == b else None
        if k in CALLS and n.fn is not None and n.fn.n == "__builtin_expect":
            return self.ev(call_parts(n)[1][0], st, this, depth + 1)
        if k in CALLS and n.fn is not None:
            o, args = call_parts(n)
            fn = n.fn
            cls = fn.q.rsplit("::", 2)[-2] if fn.q.count("::") else ""
            isty = cls.endswith("Type") and fn.q.startswith("hdk::ir::")
            if fn.q.startswith("hdk::ir::Context::") and fn.n in CTX_TYPES:
                return ("shape", CTX_TYPES[fn.n])
            if isty and o is not None:
                v = self.ev(o, st, this, depth + 1)
                if v == ("null",):
                    raise Dead()
                if v is None or isinstance(v, int):
                    if ptr_to_type(n.t):
                        return ("ty", ("x", n.i))
                    return None
                if fn.n == "as":
                    return self.cast(v, n.t, st)
                if fn.n in ("withNullable",):
                    return v
                if fn.n == "canonicalize":
                    s = self.sh(v, st)
                    return ("shape", ("kExtDictionary", 4) if s[0] == "kExtDictionary" else ("kDate", 8) if s[0] == "kDate" else s)
                if fn.n == "elemType":
                    s = self.sh(v, st)
                    if s[0] in ("kFixedLenArray", "kVarLenArray") and v[0] == "ty":
                        return ("ty", ("e", v[1]))
                    if s[0] == "kExtDictionary":
                        return ("shape", ("kText", -1))
                    return None
                if fn.n == "id":
                    return self.ids.get(self.sh(v, st)[0])
                if fn.n == "size":
                    return self.sh(v, st)[1]
                if fn.n == "precision" and self.sh(v, st)[0] == "kFloatingPoint":
                    return 0 if self.sh(v, st)[1] == 4 else 1
                if re.match(r"is[A-Z]", fn.n) and not args:
                    G = self.p.fns.get(fn.u)
                    if G is not None and G.root is not None:
                        rets = [x for x in G.walk() if x.k == "ReturnStmt"]
                        if len(rets) == 1 and rets[0].c:
                            return self.ev(rets[0].c[0], st, v, depth + 1)
                return None
            if fn.n in ("type", "elemType") and o is not None and ptr_to_type(n.t):
                return ("ty", ("t", self.text(o)))
            if ptr_to_type(n.t):
                return ("ty", ("x", n.i))
            if ptr_to_type(fn.t.split("(")[0].strip()):
                return ("ty", ("x", n.i))
        return None

    def sh(self, v, st):
        return v[1] if v[0] == "shape" else self.shape(v[1], st)

    def cast(self, v, t, st):
        if v is None or isinstance(v, int) or v == ("null",):
            return v
        cls = t.replace("const ", "").replace("*", "").strip().split("::")[-1]
        ok = CLASSES.get(cls, ())
        if ok is None:
            return v
        if ok == ():
            return None
        return v if self.sh(v, st)[0] in ok else ("null",)

    def truth(self, n, st, this=None, depth=0):
        v = self.ev(n, st, this, depth)
        if isinstance(v, int):
            return 1 if v else 0
        if v == ("null",):
            return 0
        if isinstance(v, tuple) and v[0] in ("ty", "shape"):
            return 1
        return None

    # ---- the container
    def rep(self, n, st):
        """what a container expression holds: ("m", member) | ("as", key) | None"""
        n = strip(n)
        if n is None:
            return None
        if n.k == "CXXConstructExpr" and len(n.c) == 1:
            return self.rep(n.c[0], st)
        if n.k == "DeclRefExpr" and n.d is not None:
            if n.d.k == "ParmVar":
                r = st.get(("d", id(n.d)))
                if r is not None:
                    return r
                if len(self.tparams) == 1:
                    return ("as", ("p", self.tparams[0].n))
                return None
            return st.get(("d", id(n.d)))
        if n.k == "MemberExpr" and n.d is not None:
            base = n.c[0] if n.c else None
            if n.d.n == "value_":
                return ("as", ("t", self.text(base) if base is not None else "this"))
            return self.sole(st)
        if n.k == "UnaryOperator" and n.op == "*":
            return self.rep(n.c[0], st)
        if n.k == "CXXMemberCallExpr" and n.fn is not None and n.fn.n == "value":
            o, _ = call_parts(n)
            return ("as", ("t", self.text(o)))
        return None

    def sole(self, st):
        """members of aggregates belong to the one type the function works on"""
        if len(self.tparams) == 1:
            return ("as", ("p", self.tparams[0].n))
        if not self.tparams:
            ks = {k[1] for k in st if k[0] == "s" and k[1][0] != "e"}
            if len(ks) == 1:
                return ("as", next(iter(ks)))
        return None

    def bad(self, n, key, msg):
        self.c.report("%s:%s" % (self.F.q, key), self.F.loc(n), "%s: %s" % (self.F.q, msg))

    def check(self, n, key, member, st, write, cmp):
        if not self.tested(key, st):
            self.c.count("accesses that rely on the caller for the type")
            return
        s = self.shape(key, st)
        elem = None
        if s[0] in ("kFixedLenArray", "kVarLenArray") and member != "arrayval":
            elem = self.elem_of(key, st)
        ok = members(s, elem, cmp)
        self.c.count("accesses decided")
        if ok is not None and member not in ok:
            if write and s[0] == "kExtDictionary" and member == "stringval":
                return          # clears all bytes
            self.bad(n, "%s:%s" % (member, name(elem or s)), "%s a value of type %s through %s, not %s"
                     % ("stores" if write else "reads", name(s) + (" of " + name(elem) if elem else ""), member, " or ".join(sorted(ok))))

    def access(self, n, st):
        """n: MemberExpr of a container member"""
        m = n.d.n
        par, child = n.par, n
        cmp = False
        while par is not None and par.k in ("ParenExpr", "ImplicitCastExpr"):
            child, par = par, par.par
        if par is not None and par.k == "BinaryOperator" and par.op in ("==", "!="):
            cmp = True
            self.marker(n, m, par.c[1] if par.c[0] is child else par.c[0])
        write = par is not None and par.k == "BinaryOperator" and par.op == "=" and par.c[0] is child
        if write:
            self.marker(n, m, par.c[1])
            self.width(n, m, par.c[1])
            return
        base = n.c[0] if n.c else None
        r = self.rep(base, st)
        if r is None:
            return
        if r[0] == "m":
            self.c.count("accesses decided")
            if m != r[1] and {m, r[1]} != {"boolval", "tinyintval"}:
                self.bad(n, "%s:after:%s" % (m, r[1]), "reads through %s what was stored through %s" % (m, r[1]))
            return
        self.check(n, r[1], m, st, False, cmp)

    def marker(self, n, m, other):
        w = WIDTH.get(m)
        if other is None or w is None:
            return
        v = other.cv if other.cv is not None else None
        o = strip(other)
        if v is None and o is not None:
            v = o.cv
        if v is None and o is not None and o.k == "DeclRefExpr" and o.d is not None and o.d.get("v") is not None:
            v = o.d.get("v")
        try:
            v = int(v)
        except (TypeError, ValueError):
            return
        if v in MARKERS and MARKERS[v] != w:
            self.bad(n, "marker:%s" % m, "uses the NULL marker of %d-bit values with %s" % (8 * MARKERS[v], m))

    def width(self, n, m, rhs):
        o = rhs
        while o is not None and o.k in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
            o = o.c[0] if o.c else None
        if o is None:
            return
        # conversions only: their result type is the width converted to
        if o.k == "CallExpr":
            if o.fn is None or not (o.fn.get("pat") or re.match(r"sto(i|l|ll|f|d)$", o.fn.n)) or o.fn.n in ("min", "max"):
                return
        elif o.k not in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr"):
            return
        w = {"signed char": 1, "char": 1, "int8_t": 1, "short": 2, "int16_t": 2, "int": 4, "int32_t": 4, "long": 8, "int64_t": 8,
             "long long": 8, "float": "f4", "double": "f8"}.get((o.t or "").replace("const ", ""))
        want = {"floatval": "f4", "doubleval": "f8"}.get(m, WIDTH.get(m))
        if w is not None and want is not None:
            self.c.count("conversions")
        if w is not None and want is not None and w != want and not (o.k != "CallExpr" and isinstance(w, int) and isinstance(want, int) and w > want):
            self.bad(n, "width:%s" % m, "converts to %s before storing into %s" % (o.t, m))

    # ---- effects of one CFG element
    def effect(self, n, st):
        k = n.k
        if k == "DeclStmt":
            for ds in n.get("ds", []):
                d, init = ds[0], self.F.node(ds[1]) if len(ds) > 1 and ds[1] is not None and ds[1] >= 0 else None
                if is_datum(d.t):
                    r = self.rep(init, st) if init is not None else None
                    st = self.set(st, ("d", id(d)), r)
                elif ptr_to_type(d.t) or (init is not None and ptr_to_type(init.t)):
                    st = self.set(st, ("v", id(d)), self.ev(init, st))
            return st
        if k == "BinaryOperator" and n.op == "=":
            lhs = strip(n.c[0])
            if lhs is not None and lhs.k == "MemberExpr" and lhs.d is not None and lhs.d.n in MEMBERS and self.of_container(lhs):
                base = strip(lhs.c[0]) if lhs.c else None
                if base is not None and base.k == "DeclRefExpr" and base.d is not None and base.d.k != "ParmVar" and "&" not in (base.d.t or ""):
                    return self.set(st, ("d", id(base.d)), ("m", lhs.d.n, frozenset(k[1] for k in st if k[0] == "s")))
                r = self.rep(base, st)
                if r is not None and r[0] == "as":
                    self.check(lhs, r[1], lhs.d.n, st, True, False)
                elif base is not None and base.k == "DeclRefExpr" and base.d is not None:
                    return self.set(st, ("d", id(base.d)), ("m", lhs.d.n, frozenset()))
                return st
            if lhs is not None and lhs.k == "DeclRefExpr" and lhs.d is not None:
                if ptr_to_type(lhs.d.t):
                    return self.set(st, ("v", id(lhs.d)), self.ev(n.c[1], st))
                if is_datum(lhs.d.t):
                    return self.set(st, ("d", id(lhs.d)), self.rep(n.c[1], st))
            return st
        if k == "MemberExpr" and n.d is not None and n.d.n in MEMBERS and self.of_container(n):
            self.access(n, st)
            return st
        if k == "ReturnStmt" and n.c and is_datum(n.c[0].t):
            r = self.rep(n.c[0], st)
            if r is not None and r[0] == "m" and len(self.tparams) == 1 and ("p", self.tparams[0].n) in r[2]:
                self.check(n, ("p", self.tparams[0].n), r[1], st, True, False)
            return st
        if k in CALLS and n.fn is not None:
            if n.fn.n in ("operator=",) and k == "CXXOperatorCallExpr":
                o, args = call_parts(n)
                o = strip(o)
                if o is not None and o.k == "DeclRefExpr" and o.d is not None and is_datum(o.d.t) and args:
                    return self.set(st, ("d", id(o.d)), self.rep(args[0], st))
                return st
            if n.fn.n.startswith("~"):
                return st
            _, args = call_parts(n)
            ds = [a for a in args if a is not None and is_datum(a.t)]
            ts = [a for a in args if a is not None and ptr_to_type(strip(a).t if strip(a) is not None else a.t)]
            if ds and len(ts) == 1 and not (k in ("CXXConstructExpr",) and len(args) == 1):
                self.pair(n, ds, ts[0], st)
        return st

    def pair(self, n, ds, t, st):
        v = self.ev(t, st)
        if v is None or isinstance(v, int) or v == ("null",):
            return
        reps = [self.rep(a, st) for a in ds]
        for r in reps:
            if r is not None and r[0] == "m" and (v[0] == "shape" or self.tested(v[1], st) and v[1] in r[2]):
                s = self.sh(v, st)
                elem = self.elem_of(v[1], st) if s[0] in ("kFixedLenArray", "kVarLenArray") and v[0] == "ty" else None
                ok = members(s, elem, False)
                self.c.count("values handed over")
                if ok is not None and r[1] not in ok:
                    self.bad(n, "pass:%s:%s" % (r[1], name(s)), "passes a value stored through %s on as %s" % (r[1], name(s)))
        keyed = [r for r in reps if r is not None and r[0] == "as"]
        if keyed and len(keyed) == len(reps) and not self.F.p_isctor and n.fn.n not in ("makeExpr", "make_shared", "Constant", "make"):
            if v[0] == "ty" and not any(r[1] == v[1] or v[1] == ("e", r[1]) for r in keyed):
                if any(r[1][0] == "t" and "?" in r[1][1] or not self.tested(r[1], st) for r in keyed):
                    return
                self.c.count("values handed over")
                a = members(self.shape(keyed[0][1], st), None, False)
                b = members(self.sh(v, st), None, False)
                if a is not None and b is not None and not (a & b):
                    self.bad(n, "types:%s" % n.fn.n, "hands a value of one type to %s together with another type (%s, %s)"
                             % (n.fn.n, name(self.shape(keyed[0][1], st)), name(self.sh(v, st))))

    def of_container(self, n):
        return n.d.q.startswith("Datum::")

    @staticmethod
    def set(st, k, v):
        st = dict(st)
        if v is None:
            st.pop(k, None)
        else:
            st[k] = v
        return st

    # ---- walk
    def run(self):
        F = self.F
        seen = {}
        work = [(F.entry, 0, {})]
        steps = 0
        while work:
            bid, at, st = work.pop()
            if at == 0:
                fs = frozenset(st.items())
                if fs in seen.setdefault(bid, set()):
                    continue
                seen[bid].add(fs)
            steps += 1
            if steps > LIMIT:
                raise Giveup()
            B = F.blocks[bid]
            try:
                dead = False
                for i in range(at, len(B.elems)):
                    e = B.elems[i]
                    at = i
                    if e[0] == "s" or e[0] == "i":
                        if is_fatal_elem(e[1]):
                            dead = True
                            break
                        st = self.effect(e[1], st)
                if dead or B.nr:
                    continue
                at = len(B.elems)
                for s in self.successors(B, st):
                    if s is not None and s >= 0 and s != F.exit:
                        work.append((s, 0, st))
            except Dead:
                pass
            except Fork as f:
                for s in f.shapes:
                    work.append((bid, at, self.set(st, ("s", f.key), s)))

    def successors(self, B, st):
        ss = [s for s in B.succs]
        if B.term is None or len(ss) < 2:
            return ss[:1]
        if B.term.k == "SwitchStmt":
            v = self.ev(B.cond if B.cond is not None else B.term.get("cond"), st)
            if isinstance(v, int):
                dflt = None
                for s in ss:
                    if s is None or s < 0:
                        continue
                    lab = self.F.blocks[s].label
                    if lab is not None and lab.k == "CaseStmt" and lab.get("cval") is not None:
                        hi = lab.get("cval2", lab.get("cval"))
                        if int(lab.get("cval")) <= v <= int(hi):
                            return [s]
                    else:
                        dflt = s
                return [dflt]
            return ss
        if len(ss) == 2 and B.cond is not None and B.term.k != "CXXTryStmt":
            v = self.truth(B.cond, st)
            if v is not None:
                return [ss[0] if v else ss[1]]
        return ss


def run(c):
    c.rule = ("each function that touches a member of the generic value container is specialised, over its control-flow graph, for every type "
              "id, width and precision: on all paths left for that type the member read or written is the one that represents the type; "
              "a locally built value is handed over with a type its member represents; conversions and NULL markers have the member's width")
    p = model.load(TUS, roots=model.ODB + ":" + HERE + "/spec")
    ids = {}
    for d in p.decls.values():
        if d.k == "EnumConstant" and d.q.startswith("hdk::ir::Type::k"):
            ids[d.n] = int(d.get("v"))
    if len(ids) < 15:
        raise model.AnalysisBroken("type identifiers not found")
    skipped = []
    for F in sorted(p.fns.values(), key=lambda f: (f.q, f.t)):
        if F.root is None or not F.blocks:
            continue
        if not any(n.k == "MemberExpr" and n.d is not None and n.d.n in MEMBERS and n.d.q.startswith("Datum::") for n in F.walk()) and \
                not any(n.k in CALLS and n.fn is not None and any(a is not None and is_datum(a.t) for a in n.c) for n in F.walk()):
            continue
        F.p_isctor = F.decl.k == "CXXConstructor"
        if F.decl.get("implicit") or F.decl.n.startswith("operator=") and F.cls is not None and F.cls.n == "Datum":
            continue
        if fetcher(c, F):
            continue
        try:
            Spec(c, p, F, ids).run()
            c.count("functions specialised")
        except Giveup:
            skipped.append(F.q)
    c.notes.append("not specialised (too many types at once): %s" % sorted(set(skipped)))
    c.need("functions specialised", 40)
    c.need("accesses decided", 1000)


def fetcher(c, F):
    """T getDatumVal<T>(datum): the member is the one T names"""
    if F.decl.n != "getDatumVal":
        return False
    t = F.t.split("(")[0].strip()
    want = {"signed char": "tinyintval", "int8_t": "tinyintval", "short": "smallintval", "int16_t": "smallintval", "int": "intval",
            "int32_t": "intval", "long": "bigintval", "int64_t": "bigintval", "unsigned char": "tinyintval", "uint8_t": "tinyintval",
            "unsigned short": "smallintval", "uint16_t": "smallintval", "float": "floatval", "double": "doubleval"}.get(t)
    for n in F.walk():
        if n.k == "MemberExpr" and n.d is not None and n.d.n in MEMBERS:
            c.count("fetchers")
            if want is not None and n.d.n != want:
                c.report("getDatumVal<%s>" % t, F.loc(n), "getDatumVal<%s> reads %s, not %s" % (t, n.d.n, want))
    return True
