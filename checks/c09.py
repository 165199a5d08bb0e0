"""C09: types are interned by their full description."""
import re
from vlib import model, eqfacts, symx
from vlib.eqfacts import THIS, RHS
from vlib.symx import K0, K1, KNULL, contains

NS = "hdk::ir::"
CTX = NS + "ContextImpl"
# the public factories: what each parameter (or fixed value) is called on the type that is returned
CLASSES = {
    "NullType": ("null", ()),
    "BooleanType": ("boolean", ("nullable",)),
    "IntegerType": ("integer", ("size", "nullable")),
    "FloatingPointType": ("fp", ("precision", "nullable")),
    "DecimalType": ("decimal", ("size", "precision", "scale", "nullable")),
    "VarCharType": ("varChar", ("maxLength", "nullable")),
    "TextType": ("text", ("nullable",)),
    "DateType": ("date", ("size", "unit", "nullable")),
    "TimeType": ("time", ("size", "unit", "nullable")),
    "TimestampType": ("timestamp", ("unit", "nullable")),
    "IntervalType": ("interval", ("size", "unit", "nullable")),
    "FixedLenArrayType": ("arrayFixed", ("numElems", "elemType", "nullable")),
    "VarLenArrayType": ("arrayVarLen", ("elemType", "offsetSize", "nullable")),
    "ExtDictionaryType": ("extDict", ("elemType", "dictId", "size")),
    "ColumnType": ("column", ("columnType", "nullable")),
    "ColumnListType": ("columnList", ("columnType", "length", "nullable")),
}
SHORT = {}
for w, n in ((1, "int8"), (2, "int16"), (4, "int32"), (8, "int64")):
    SHORT[n] = ("IntegerType", {"size": str(w)}, ("nullable",))
for w in (2, 4, 8):
    for c, n in (("DateType", "date"), ("TimeType", "time"), ("IntervalType", "interval")):
        SHORT[n + str(w * 8)] = (c, {"size": str(w)}, ("unit", "nullable"))
SHORT["decimal64"] = ("DecimalType", {"size": "8"}, ("precision", "scale", "nullable"))
SHORT["fp32"] = ("FloatingPointType", {"precision": "kFloat"}, ("nullable",))
SHORT["fp64"] = ("FloatingPointType", {"precision": "kDouble"}, ("nullable",))
CANON = {"DateType": {"size": "8", "unit": "kSecond"}, "TimeType": {"size": "8"}, "IntervalType": {"size": "8"},
         "ExtDictionaryType": {"size": "4"}}
KINDS = {"Null": "NullType"}
WIDER = {"int": ("int", "long", "long long"), "bool": ("bool", "int", "long", "unsigned char")}


def run(ctx):
    ctx.rule = ("each factory looks its type up under a key holding every parameter and creates it from exactly those "
                "parameters; withNullable, withElemType, canonicalize and copyType return the type whose description differs "
                "only as asked; every true path of equal compares every parameter; toString determines every parameter")
    prog = model.load(["IR/Type.cpp", "IR/Context.cpp"])
    C = Checker(ctx, prog)
    C.factories()
    C.shortcuts()
    C.makes()
    C.kinds()
    C.changes()
    C.canon()
    C.copy()
    C.equals()
    C.texts()
    ctx.need("factories", 15)
    ctx.need("equality paths", 15)
    ctx.need("texts", 16)
    ctx.assumptions = ["a type context is used by one thread at a time (its tables have no lock)"]


def ctype(t):
    return t.replace("const ", "").replace("struct ", "").replace("class ", "").strip()


class Checker:
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        self.recs = {}
        base = prog.record(NS + "Type")
        for u in prog.subclasses(base.u):
            r = prog.rec_by_u[u]
            if not r.abs:
                self.recs[r.q[len(NS):]] = r
        for c in self.recs:
            if c not in CLASSES:
                raise model.AnalysisBroken("type class %s is not described" % c)
        for c in CLASSES:
            if c not in self.recs:
                raise model.AnalysisBroken("type class %s is gone" % c)
        self.maps = {}          # map field -> (class, accessor names by key position)
        self.enumv = {}
        for e, cs in prog.enums.items():
            for n, v in cs:
                self.enumv[(e, n)] = v
        self.fields = {c: {} for c in self.recs}      # class -> accessor -> field term over THIS

    def const(self, v):
        for e in ("hdk::ir::TimeUnit", "hdk::ir::FloatingPointType::Precision"):
            if (e, v) in self.enumv:
                return ("k", self.enumv[(e, v)])
        return ("k", v)

    def accessor(self, c, a):
        """The field accessor a of class c returns."""
        if a in self.fields[c]:
            return self.fields[c][a]
        F = eqfacts.effective(self.prog, self.recs[c], a)
        if F is None:
            raise model.AnalysisBroken("no %s::%s" % (c, a))
        vs = {v for k, v, s in symx.Interp(self.prog).run(F, {}) if k == "ret"}
        if len(vs) != 1:
            raise model.AnalysisBroken("%s does not just return a field" % F.q)
        self.fields[c][a] = vs.pop()
        return self.fields[c][a]

    # ---- results ---------------------------------------------------------
    def interp(self, **kw):
        return symx.Interp(self.prog, max_depth=9,
                           opaque=lambda fn, n, o: fn.n in ("copyType", "toString") or fn.n.startswith("is"), **kw)

    def place(self, t):
        """elem(map, key) a looked-up entry stands for."""
        while True:
            if t[0] == "elem" and t[1][0] == "fld":
                return t
            if t[0] == "fld" and t[2] in ("second", "first"):
                t = t[1]
                continue
            if t[0] == "call" and t[1] in ("find", "emplace", "try_emplace", "insert", "insert_or_assign", "at") and \
                    t[2] is not None and t[2][0] == "fld" and t[3]:
                k = t[3][0]
                if t[1] == "insert" and k[0] == "tup" and len(k) == 3:
                    k = k[1]
                return ("elem", t[2], k)
            if t[0] == "iter":
                t = ("elem", t[1], t[2])
                continue
            return None

    def stores(self, s):
        """(entry, stored object) pairs of a path."""
        out = []
        for e in s.ev:
            if e[0] == "store":
                p = self.place(e[1])
                if p is not None:
                    out.append((p, e[2]))
            elif e[0] == "call" and e[2] is not None:
                nm = e[1].split("::")[-1]
                if nm == "reset" and e[3]:
                    p = self.place(e[2])
                    if p is not None:
                        out.append((p, e[3][0]))
                elif nm in ("emplace", "try_emplace", "insert_or_assign") and len(e[3]) == 2 and e[2][0] == "fld":
                    out.append((("elem", e[2], e[3][0]), e[3][1]))
                elif nm == "insert" and len(e[3]) == 1 and e[3][0][0] == "tup" and e[2][0] == "fld":
                    out.append((("elem", e[2], e[3][0][1]), e[3][0][2]))
        return out

    def result(self, v, s):
        """-> ("entry", map, key) / ("this", term) / None"""
        p = self.place(v)
        if p is not None:
            return p
        if v[0] == "new":
            for q, o in self.stores(s):
                if o == v:
                    return q
        return None

    def describe(self, v, s):
        """Description (class, {accessor: term}) of a returned interned type."""
        p = self.result(v, s)
        if p is None:
            return None
        m = p[1][2]
        if m not in self.maps:
            return None
        c, names = self.maps[m]
        key = p[2][1:] if p[2][0] == "tup" else (p[2],)
        if len(key) != len(names):
            return None
        return c, dict(zip(names, key))

    # ---- factories -------------------------------------------------------
    def factories(self):
        for c, (f, names) in CLASSES.items():
            if not names:
                continue
            fs = [F for F in self.prog.fn(NS + "Context::" + f) if len(F.params) == len(names)]
            if not fs:
                raise model.AnalysisBroken("no Context::%s with %d parameters" % (f, len(names)))
            F = fs[0]
            self.ctx.count("factories")
            args = {a: ("root", "p:" + a) for a in names}
            env = {p: args[a] for p, a in zip(F.params, names)}
            keys, made = set(), 0
            for k, v, s in self.interp().run(F, env):
                if k != "ret":
                    continue
                p = self.result(v, s)
                if p is None:
                    self.ctx.report("%s:result" % f, F.loc(), "Context::%s returns %s, not an interned type" %
                                    (f, symx.show(v)))
                    continue
                keys.add(p)
                key = p[2][1:] if p[2][0] == "tup" else (p[2],)
                for a in names:
                    self.ctx.count("key parameters")
                    if args[a] not in key:
                        self.ctx.report("%s:key:%s" % (f, a), F.loc(), "Context::%s looks types up without their %s: types "
                                        "that differ only in it share one object" % (f, a))
                self.key_types(c, f, F, p, key, args, names)
                kn = tuple(next((a for a in names if args[a] == t), None) for t in key)
                old = self.maps.get(p[1][2])
                if old is not None and old != (c, kn):
                    self.ctx.report("%s:map" % f, F.loc(), "Context::%s shares its table with %s under a different key" %
                                    (f, old[0]))
                self.maps.setdefault(p[1][2], (c, kn))
                for q, o in self.stores(s):
                    if o[0] != "new":
                        self.ctx.report("%s:stored" % f, F.loc(), "Context::%s stores something else than a new type" % f)
                        continue
                    made += 1
                    if q != p:
                        self.ctx.report("%s:entry" % f, F.loc(), "Context::%s stores the new type under %s but returns the entry "
                                        "of %s" % (f, symx.show(q[2]), symx.show(p[2])))
                    self.created(c, f, F, o, s, args)
            if not made:
                self.ctx.report("%s:create" % f, F.loc(), "Context::%s never creates a type" % f)
            if len(keys) > 1:
                self.ctx.report("%s:keys" % f, F.loc(), "Context::%s uses different keys on different paths" % f)

    def key_types(self, c, f, F, p, key, args, names):
        rec = self.prog.record(CTX)
        fd = next((x for x in rec.fields if x.n == p[1][2]), None)
        if fd is None:
            return
        t = ctype(fd.t)
        i = t.find("map<")
        comps = split_args(t[i + 4:])[0] if i >= 0 else ""
        parts = split_args(comps[comps.find("<") + 1:-1]) if comps.startswith(("std::tuple<", "std::pair<")) else [comps]
        if len(parts) != len(key):
            return
        for t, kt in zip(key, parts):
            a = next((a for a in names if args[a] == t), None)
            if a is None:
                continue
            pt = ctype(F.params[names.index(a)].t)
            if ctype(kt) not in WIDER.get(pt, (pt,)):
                self.ctx.report("%s:keytype:%s" % (f, a), F.loc(), "the table of %s holds the %s as %s, which cannot tell all "
                                "values apart" % (c, a, kt))

    def created(self, c, f, F, o, s, args):
        cls = ctype(o[1])
        if cls != NS + c:
            self.ctx.report("%s:class" % f, F.loc(), "Context::%s creates a %s" % (f, cls))
            return
        ev = [e for e in s.ev if e[0] == "new" and e[2] == o[2] and ctype(e[4]) == cls]
        G = self.prog.fns.get(ev[-1][1]) if ev else None
        if G is None:
            raise model.AnalysisBroken("constructor of %s not found" % cls)
        NEW = ("root", "new")
        for k, v, t in symx.Interp(self.prog, opaque=lambda fn, n, ob: fn.n in ("nullable", "size") and fn.u not in
                                   ()).run(G, dict(zip(G.params, o[2])), None, NEW):
            if k != "ret":
                continue
            heap = {x: y for x, y in t.heap.items()}
            for a, val in args.items():
                self.ctx.count("parameters stored")
                fld = symx.subst(self.accessor(c, a), {THIS: NEW})
                got = heap.get(fld)
                if got != val:
                    self.ctx.report("%s:stored:%s" % (f, a), G.loc(), "a %s asked for with a given %s answers %s instead" %
                                    (c, a, symx.show(got) if got else "nothing"))
            got = heap.get(("fld", NEW, "ctx_"))
            if got is None or not (got[0] == "fld" and got[2] == "ctx_"):
                self.ctx.report("%s:ctx" % f, G.loc(), "a new %s does not belong to the context it was asked from" % c)
            if c == "ExtDictionaryType":
                got = heap.get(("fld", NEW, "nullable_"))
                if got not in (("call", "nullable", args["elemType"], ()), ("fld", args["elemType"], "nullable_")):
                    self.ctx.report("%s:nullable" % f, G.loc(), "a dictionary type is not nullable like its elements")
            self.idof = getattr(self, "idof", {})
            self.idof[c] = heap.get(("fld", NEW, "id_"))

    def shortcuts(self):
        for f, (c, fixed, names) in SHORT.items():
            for F in self.prog.fn(NS + "Context::" + f):
                self.ctx.count("factories")
                want = {a: self.const(v) for a, v in fixed.items()}
                want.update({a: ("root", "p:" + a) for a in names})
                self.expect(f, F, {p: want[a] for p, a in zip(F.params, names)}, c, want)

    def makes(self):
        for c, (f, names) in CLASSES.items():
            if not names:
                continue
            for F in self.prog.fn(NS + c + "::make"):
                want = {a: ("root", "p:" + a) for a in names}
                self.ctx.count("factories")
                self.expect(c + "::make", F, dict(zip(F.params, [("root", "ctx")] + [want[a] for a in names])), c, want)

    def expect(self, what, F, env, c, want, this=THIS, same=None):
        """Every normal result of F describes class c with exactly the wanted parameters (same: term that may be
        returned when the path established that it already has them)."""
        n = 0
        for k, v, s in self.interp().run(F, env, None, this):
            if k != "ret":
                continue
            n += 1
            if same is not None and v == same[0]:
                for a, w in want.items():
                    cur = same[1](a)
                    if cur == w or known_equal(s, cur, w):
                        continue
                    self.ctx.report("%s:%s" % (what, a), F.loc(), "%s can return the type unchanged although its %s differs "
                                    "from what was asked" % (F.q, a))
                continue
            d = self.describe(v, s)
            if d is None or d[0] != c:
                self.ctx.report("%s:result" % what, F.loc(), "%s returns %s, not the %s it should" %
                                (F.q, symx.show(v) if d is None else "a " + d[0], c))
                continue
            for a, w in want.items():
                self.ctx.count("parameters kept")
                g = d[1].get(a)
                if g != w and not (w is not None and g is not None and known_equal(s, g, w)):
                    self.ctx.report("%s:%s" % (what, a), F.loc(), "%s gives a %s whose %s is %s instead of %s" %
                                    (F.q, c, a, symx.show(g) if g else "unset", symx.show(w)))
        if not n:
            self.ctx.report("%s:none" % what, F.loc(), "%s never returns" % F.q)

    def names(self, c):
        return CLASSES[c][1]

    def changes(self):
        for c, rec in self.recs.items():
            for meth, par in (("withNullable", "nullable"), ("withElemType", "elemType")):
                F = eqfacts.effective(self.prog, rec, meth)
                if F is None:
                    if meth == "withNullable":
                        raise model.AnalysisBroken("no withNullable in " + c)
                    continue
                self.ctx.count("parameter changes")
                if c == "NullType":
                    continue
                P = ("root", "p:" + par)
                want = {a: self.accessor(c, a) for a in self.names(c)}
                same = lambda a, c=c: self.accessor(c, a)
                if c == "ExtDictionaryType":
                    want["elemType"] = ("call", "withNullable", self.accessor(c, "elemType"), (P,))
                    cur = ("fld", THIS, "nullable_")
                    same = lambda a, c=c, w=want, cur=cur: cur if a == "elemType" else self.accessor(c, a)
                    # unchanged only if the nullability is as asked
                    self.expect_dict(F, c, want, P)
                    continue
                want[par] = P
                self.expect(c + "::" + meth, F, {F.params[0]: P}, c, want, same=(THIS, same))

    def expect_dict(self, F, c, want, P):
        for k, v, s in self.interp().run(F, {F.params[0]: P}):
            if k != "ret":
                continue
            if v == THIS:
                if known_equal(s, ("fld", THIS, "nullable_"), P):
                    continue
                self.ctx.report(c + "::withNullable:same", F.loc(), "%s can return the type unchanged" % F.q)
                continue
            d = self.describe(v, s)
            for a, w in want.items():
                self.ctx.count("parameters kept")
                if d is None or d[0] != c or d[1].get(a) != w:
                    self.ctx.report("%s::withNullable:%s" % (c, a), F.loc(), "%s does not keep the %s of the type" % (F.q, a))

    def canon(self):
        base = self.prog.fn(NS + "Type::canonicalize")[0]
        for c, rec in self.recs.items():
            F = eqfacts.effective(self.prog, rec, "canonicalize")
            want = {a: self.accessor(c, a) for a in self.names(c)}
            for a, v in CANON.get(c, {}).items():
                want[a] = self.const(v)
            self.ctx.count("canonical forms")
            self.expect(c + "::canonicalize", F, {}, c, want, same=(THIS, lambda a, c=c: self.accessor(c, a)))

    def copy(self):
        F = self.prog.fn(CTX + "::copyType")[0]
        T = ("root", "type")
        ids = dict(self.prog.enums["hdk::ir::Type::Id"])
        byid = {v[1]: c for c, v in getattr(self, "idof", {}).items() if v and v[0] == "k"}
        done = set()
        I = symx.Interp(self.prog, max_depth=9, opaque=lambda fn, n, o: fn.n in ("copyType", "toString") and fn.u != F.u or
                        (fn.n.startswith("is") and fn.n[2:3].isupper()))
        for k, v, s in I.run(F, {F.params[0]: T}):
            if k != "ret":
                continue
            if v == T:
                if not known_equal(s, ("fld", T, "ctx_"), ("fld", THIS, "ctx_")):
                    self.ctx.report("copyType:same", F.loc(), "copyType can return a type of another context")
                continue
            idt = ("fld", T, "id_")
            val = next((f[3][1] for f, tv in s.facts if tv and f[0] == "op" and f[1] == "==" and f[2] == idt and
                        f[3][0] == "k"), None)
            if val is None:
                val = next((ids.get("k" + f[1][2:]) for f, tv in s.facts if tv and f[0] == "call" and f[2] == T and
                            f[1].startswith("is")), None)
            if val is None:
                self.ctx.report("copyType:kind", F.loc(), "copyType returns a copy without having looked at the kind of type")
                continue
            done.add(val)
            c = byid.get(val)
            self.ctx.count("kinds copied")
            if c is None:
                if v != ("fld", THIS, "null_type_"):
                    self.ctx.report("copyType:null", F.loc(), "copyType maps the null type to %s" % symx.show(v))
                continue
            d = self.describe(v, s)
            if d is None or d[0] != c:
                self.ctx.report("copyType:%s" % c, F.loc(), "copyType turns a %s into %s" % (c, d[0] if d else symx.show(v)))
                continue
            for a in self.names(c):
                self.ctx.count("parameters kept")
                w = symx.subst(self.accessor(c, a), {THIS: T})
                if a in ("elemType", "columnType"):
                    g = d[1].get(a)
                    if g is None or not (g[0] == "call" and g[1] in ("copyType", CTX + "::copyType", NS + "Context::copyType")
                                         and w in g[3]) and not (g[0] == "call" and g[1] == "copyTo" and g[2] == w):
                        self.ctx.report("copyType:%s:%s" % (c, a), F.loc(), "copyType makes a %s from the %s of the other context "
                                        "instead of a copy of it" % (c, a))
                elif d[1].get(a) != w:
                    self.ctx.report("copyType:%s:%s" % (c, a), F.loc(), "copyType gives a %s whose %s is %s" %
                                    (c, a, symx.show(d[1].get(a)) if d[1].get(a) else "unset"))
        for n, v in ids.items():
            if v not in done:
                self.ctx.report("copyType:missing:%s" % n, F.loc(), "copyType cannot copy a type of kind %s" % n)

    def kinds(self):
        """Every class has its own id, and the is<Kind>() questions single it out."""
        ids = {}
        for c, v in getattr(self, "idof", {}).items():
            if v is None or v[0] != "k":
                self.ctx.report("id:%s" % c, self.prog.record(NS + c).f, "the kind of a %s is not fixed" % c)
                continue
            if v in ids:
                self.ctx.report("id:%s" % c, "IR/Type.cpp", "%s and %s have the same kind" % (c, ids[v]))
            ids[v] = c
        base = self.prog.record(NS + "Type")
        for c in self.recs:
            q = "is" + c[:-4]
            F = eqfacts.effective(self.prog, base, q)
            if F is None or c not in getattr(self, "idof", {}):
                continue
            for k, v, s in symx.Interp(self.prog).run(F, {}):
                for tv, s2 in symx.Interp(self.prog).branch(v, s):
                    idt = ("op", "==", ("fld", THIS, "id_"), self.idof[c])
                    self.ctx.count("kind questions")
                    if s2.truth(idt) is not tv:
                        self.ctx.report("is:%s" % c, F.loc(), "%s does not answer whether the type is a %s" % (F.q, c))

    def equals(self):
        op = self.prog.fn(NS + "Type::operator==")[0]
        for c, rec in self.recs.items():
            F = eqfacts.effective(self.prog, rec, "equal")
            inl = symx.Interp(self.prog)
            for p in eqfacts.true_paths(self.prog, F, {"nullable_"}, inl):
                self.ctx.count("equality paths")
                if not eqfacts.covers(p, ("fld", THIS, "id_")):
                    self.ctx.report("%s:equal:kind" % c, F.loc(), "%s::equal can answer true for types of different kinds" % c)
                for a in self.names(c) + (("nullable",) if c == "ExtDictionaryType" else ()):
                    self.ctx.count("parameters compared")
                    if not eqfacts.covers(p, self.accessor(c, a)):
                        self.ctx.report("%s:equal:%s" % (c, a), F.loc(), "%s::equal can answer true for types whose %s differs" %
                                        (c, a))
                # within one context equality is identity
                if not eqfacts.covers(p, THIS) and p.truth.get(("op", "==", ("fld", THIS, "ctx_"), ("fld", RHS, "ctx_"))) \
                        is True:
                    self.ctx.notes.append("%s compares types of one context by value" % c)
        for k, v, s in symx.Interp(self.prog, opaque=lambda fn, n, o: fn.n == "equal").run(op, {op.params[0]: RHS}):
            if v != ("call", "equal", THIS, (RHS,)) and k == "ret":
                self.ctx.report("Type:operator==", op.loc(), "Type::operator== is not equal()")

    # ---- texts -------------------------------------------------------------
    def texts(self):
        leads = {}
        for c, rec in self.recs.items():
            F = eqfacts.effective(self.prog, rec, "toString")
            paths = []
            for k, v, s in symx.Interp(self.prog, opaque=lambda fn, n, o: fn.n == "toString" and fn.u != F.u).run(F, {}):
                if k == "ret":
                    paths.append((flat(v), s))
            self.ctx.count("texts")
            for a in self.names(c):
                self.text_covers(c, a, F, paths)
            for ps, s in paths:
                for x, y in zip(ps, ps[1:]):
                    if x[0] != "k" and y[0] != "k" and not (text(x) or text(y)):
                        self.ctx.report("%s:text:adjacent" % c, F.loc(), "%s runs two numbers together" % F.q)
                lead = ps[0][1] if ps and ps[0][0] == "k" else ""
                if len(ps) > 1 and not text(ps[1]):
                    lead += "#"
                elif len(ps) > 1:
                    lead += "?"
                else:
                    lead += "$"
                leads.setdefault(lead, (c, F))
        ls = sorted(leads)
        for i, x in enumerate(ls):
            for y in ls[i + 1:]:
                cx, cy = leads[x][0], leads[y][0]
                if cx == cy:
                    continue
                bx, by = x.rstrip("?"), y.rstrip("?")
                if x == y or (x.endswith("?") and by.startswith(bx)) or (y.endswith("?") and bx.startswith(by)):
                    self.ctx.report("text:%s:%s" % (cx, cy), leads[x][1].loc(), "the texts of %s and %s can coincide" % (cx, cy))

    def text_covers(self, c, a, F, paths):
        t = self.accessor(c, a)
        if c == "FloatingPointType" and a == "precision":
            alt = ("fld", THIS, "size_")          # one size per precision
        elif c == "TextType" or c == "NullType":
            alt = None
        else:
            alt = None
        for ps, s in paths:
            self.ctx.count("parameters in texts")
            if any(shown(x, t) or (alt is not None and shown(x, alt)) for x in ps):
                continue
            mine = {f: v for f, v in s.facts if contains(f, t)}
            ok = bool(mine)
            for ps2, s2 in paths:
                other = {f: v for f, v in s2.facts if contains(f, t)}
                if other != mine and ps2 == ps:
                    ok = False
            if not ok:
                self.ctx.report("%s:text:%s" % (c, a), F.loc(), "%s does not show the %s: types that differ only in it have the "
                                "same text" % (F.q, a))


def known_equal(s, a, b):
    if a is None or b is None:
        return False
    for t in (("op", "==", a, b), ("op", "==", b, a)):
        if s.truth(t) is True:
            return True
    # a boolean pair with the same known truth
    x, y = s.truth(("nn", a)), s.truth(("nn", b))
    return x is not None and x == y and a[0] in ("fld", "root") and ("nullable" in str(a))


def split_args(t):
    out, d, cur = [], 0, ""
    for ch in t:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
            if d < 0:
                break
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def flat(t):
    """The pieces of a built text, neighbouring constants joined."""
    if t[0] == "cat" or (t[0] == "op" and t[1] == "+"):
        ps = flat(t[1] if t[0] == "cat" else t[2]) + flat(t[2] if t[0] == "cat" else t[3])
    elif t[0] == "built":
        ps = flat(t[1]) + flat(t[2])
    elif t[0] == "new" and not t[2]:
        ps = []
    elif t[0] == "call" and t[1] in ("operator\"\"s", "operator\"\"sv", "std::to_string", "operator\"\" s") and t[3]:
        ps = flat(t[3][0])
    elif t[0] == "call" and "literals" in t[1] and t[3]:
        ps = flat(t[3][0])
    elif t[0] == "k":
        ps = [t] if t[1] != "" else []
    else:
        ps = [t]
    out = []
    for p in ps:
        if p[0] == "k" and out and out[-1][0] == "k":
            out[-1] = ("k", out[-1][1] + p[1])
        else:
            out.append(p)
    return out


def text(t):
    return t[0] == "call" and t[1].split("::")[-1] == "toString"


def shown(x, t):
    """Piece x determines t."""
    if x == t:
        return True
    if x[0] == "op" and x[1] in ("*", "+", "-") and len(x) == 4:
        a, b = x[2], x[3]
        return (a == t and b[0] == "k" and b[1] != "0") or (b == t and a[0] == "k" and a[1] != "0")
    if x[0] == "call" and x[1].split("::")[-1] == "toString":
        return x[2] == t or t in x[3]
    return False
