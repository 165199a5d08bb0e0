"""C16: chunk statistics cover every appended value.

The encoders' statistics code is lowered to the compiler's IR through small entry points (spec/stats_ir.cpp), inlined, and
every path is described by the comparisons taken and the memory cells written.  On each path the new minimum, maximum and
flag must cover the old ones and the appended elements; the order argument is the transitive closure of the path's own
comparisons, nothing else."""
import os
from vlib import irx, model
from vlib.irx import INT, gep, show

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PASSES = ("cgscc(inline),function(sroa<modify-cfg>,instsimplify,simplifycfg,loop-simplify,loop-rotate,loop-unroll-full,"
          "sroa<modify-cfg>,instsimplify,simplifycfg)")
FLT_MIN, DBL_MIN = 1.17549435e-38, 2.2250738585072014e-308
# encoder -> element type of the raw input, of the encoded data, NULL marker of raw and encoded input
SCALARS = {
    "none_i8": ("i8", "i8"), "none_i16": ("i16", "i16"), "none_i32": ("i32", "i32"), "none_i64": ("i64", "i64"),
    "none_u8": ("u8", "u8"), "none_u16": ("u16", "u16"), "none_f32": ("f32", "f32"), "none_f64": ("f64", "f64"),
    "fixed_8": ("i64", "i8"), "fixed_16": ("i64", "i16"), "fixed_32": ("i64", "i32"),
    "days_16": ("i64", "i16"), "days_32": ("i64", "i32"), "days_64": ("i64", "i64"),
}
ELEMS = {"bool": "i8", "i8": "i8", "i16": "i16", "i32": "i32", "i64": "i64", "dec16": "i16", "dec32": "i32", "dec64": "i64",
         "dict32": "i32", "f32": "f32", "f64": "f64", "time": "i64", "ts": "i64", "date": "i64", "interval": "i64"}
FILL = dict(ELEMS, dict8="u8", dict16="u16", date16="i64", date32="i64")
VT = {"none_i8": "_ZTV11NoneEncoderIaE", "none_i16": "_ZTV11NoneEncoderIsE", "none_i32": "_ZTV11NoneEncoderIiE",
      "none_i64": "_ZTV11NoneEncoderIlE", "none_u8": "_ZTV11NoneEncoderIhE", "none_u16": "_ZTV11NoneEncoderItE",
      "none_f32": "_ZTV11NoneEncoderIfE", "none_f64": "_ZTV11NoneEncoderIdE",
      "fixed_8": "_ZTV18FixedLengthEncoderIlaE", "fixed_16": "_ZTV18FixedLengthEncoderIlsE",
      "fixed_32": "_ZTV18FixedLengthEncoderIliE", "days_16": "_ZTV15DateDaysEncoderIlsE",
      "days_32": "_ZTV15DateDaysEncoderIliE", "days_64": "_ZTV15DateDaysEncoderIllE",
      "string": "_ZTV17StringNoneEncoder", "array": "_ZTV16ArrayNoneEncoder", "fixarray": "_ZTV27FixedLengthArrayNoneEncoder"}


def size(k):
    return int(k[1:]) // 8


def marker(k):
    if k[0] == "i":
        return INT(-(1 << (int(k[1:]) - 1)), int(k[1:]))
    if k[0] == "u":
        return INT((1 << int(k[1:])) - 1, int(k[1:]))
    return ("fp", FLT_MIN if k == "f32" else DBL_MIN, "float" if k == "f32" else "double")


class X(irx.Exec):
    """Loops of the two-element entry points run to their constant bounds; logging ends a path; pointers handed in are not null."""

    def __init__(self, m):
        super().__init__(m, max_paths=60000)

    def returning(self, f):
        """Blocks from which the function can still return without throwing or logging."""
        if "returning" not in f:
            succ, ok = {}, set()
            for b, insts in enumerate(f["blocks"]):
                succ[b] = set()
                for x in insts:
                    op = x["op"]
                    if op in ("call", "invoke") and x["callee"]["k"] == "fn":
                        g = self.mod.fns.get(x["callee"]["n"])
                        if g is not None and g.get("noret") or x["callee"]["n"].startswith("_ZN6logger6LoggerC"):
                            break
                    if op == "br":
                        succ[b] = {o["i"] for o in (x["ops"] if len(x["ops"]) == 1 else x["ops"][1:])}
                    elif op == "switch":
                        succ[b] = {t for _, t in x["cases"]} | {x["default"]}
                    elif op == "invoke":
                        succ[b] = {x["normal"]}
                    elif op == "ret":
                        ok.add(b)
            n = -1
            while n != len(ok):
                n = len(ok)
                ok |= {b for b in succ if succ[b] & ok}
            f["returning"] = ok
        return f["returning"]

    def call(self, f, args, s, depth):
        out = []
        live = self.returning(f)
        st = s.copy()
        saved = st.env
        st.env = {("arg", i): a for i, a in enumerate(args)}
        work = [(0, -1, st, ())]
        while work:
            b, prev, s1, seen = work.pop()
            if seen.count(b) > 5:
                raise irx.Loopy(f["name"])
            self.steps += 1
            if self.steps > 400000 or len(out) > self.max_paths:
                raise irx.TooComplex(f["name"])
            for o in self.block(f, b, prev, s1, depth):
                if o[0] == "goto":
                    if o[1] in live:
                        work.append((o[1], b, o[2], seen + (b,)))
                else:
                    o[2].env = saved
                    out.append(o)
        return out

    def inst(self, f, x, s, depth):
        if x["op"] == "icmp" and any(o["k"] == "null" for o in x["ops"]):
            a, b = (self.val(o, s) for o in x["ops"])
            if a[0] == b[0] == "null":
                return super().inst(f, x, s, depth)
            s.env[x["i"]] = INT(1 if x["pred"] in ("ne", "ugt") else 0, 1)
            return None
        return super().inst(f, x, s, depth)

    def docall(self, f, x, s, depth):
        c = self.val(x["callee"], s)
        nm = c[1] if c[0] == "fn" else ""
        if nm == "__dynamic_cast":
            s.env[x["i"]] = self.val(x["ops"][0], s)
            return [s] if x["op"] == "invoke" else None
        if nm.startswith("_ZN6logger6LoggerC"):
            return []
        args = [self.val(o, s) for o in x["ops"]]
        if nm.startswith(("llvm.memcpy", "llvm.memmove")) and args[2][0] == "int" \
                and s.mem.get(args[1], (0,))[0] != args[2][1]:
            # a structure is copied cell by cell
            src, dst, n = args[1], args[0], args[2][1]
            so = src[2] if src[0] == "gep" else INT(0, 64)
            cells = []
            for a, (sz, v) in s.mem.items():
                if irx.root(a) == irx.root(src):
                    d = irx.add(a[2] if a[0] == "gep" else INT(0, 64), so, 64, -1)
                    if d[0] == "int" and 0 <= d[1] and d[1] + sz <= n:
                        cells.append((d[1], sz, v))
            if cells:
                for d, sz, v in cells:
                    self.store(gep(dst, INT(d, 64)), v, sz, s)
                return None
        if c[0] != "fn" and args:
            # a virtual call does not change what the object is
            h = s.mem.get(args[0])
            r = super().docall(f, x, s, depth)
            if h is not None and irx.root(h[1])[0] == "glob":
                for t in (r if r is not None else [s]):
                    t.mem[args[0]] = h
            return r
        return super().docall(f, x, s, depth)


def plain(t):
    while t[0] == "bc":
        t = t[2]
    return t


class Order:
    """<= between terms, from the comparisons of one path.  NaN is left out: not (a < b) is read as b <= a."""

    def __init__(self, facts, kind, norm):
        self.norm, self.kind = norm, kind
        self.up, strict = {}, []
        lt = {"i": ("lt",), "u": ("ult",), "f": ("flt", "fle")}[kind]
        for (n, a, b), v in facts.items():
            a, b = norm(a), norm(b)
            if n in lt:
                if v:
                    self.up.setdefault(a, set()).add(b)
                else:
                    self.up.setdefault(b, set()).add(a)
                if v == (n != "fle"):
                    strict.append((a, b) if v else (b, a))
            elif n in ("eq", "feq") and v:
                self.up.setdefault(a, set()).add(b)
                self.up.setdefault(b, set()).add(a)
        # a path whose comparisons contradict each other is never taken
        self.impossible = any(self.le(b, a) for a, b in strict)

    def le(self, a, b):
        a, b = self.norm(a), self.norm(b)
        seen, work = {a}, [a]
        while work:
            x = work.pop()
            if x == b:
                return True
            if x[0] == b[0] == "int" and self.cv(x) <= self.cv(b):
                return True
            nxt = set(self.up.get(x, ()))
            if x[0] == "int":
                nxt |= {y for y in self.up if y[0] == "int" and self.cv(x) <= self.cv(y)}
            for y in nxt:
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return False

    def cv(self, t):
        return t[1] & ((1 << t[2]) - 1) if self.kind == "u" else t[1]


def flag(t, facts):
    """Truth of a stored bool under the path's facts: True, False or None."""
    t = plain(t)
    if t[0] == "int":
        return bool(t[1] & 1)
    if t[0] in ("zext", "trunc"):
        return flag(t[2], facts)
    if t[0] == "op" and t[1] in ("or", "and"):
        a, b = flag(t[3], facts), flag(t[4], facts)
        if t[1] == "or":
            return True if a or b else (None if a is None or b is None else False)
        return True if a and b else (False if a is False or b is False else None)
    for (n, a, b), v in facts.items():
        if n == "eq":
            for x, y in ((a, b), (b, a)):
                if x[0] == "int" and x[1] in (0, 1, -1):
                    while y[0] in ("trunc", "zext"):
                        y = y[2]
                    if y == t:
                        return v == bool(x[1])
    return None


def when(p):
    return " and ".join(("" if v else "not ") + show(a) for a, v in list(p.facts.items())[-8:]) or "always"


class Check:
    def __init__(self, c, m):
        self.c, self.m, self.x = c, m, X(m)
        self.cache = {}

    def paths(self, fn):
        if fn not in self.cache:
            try:
                r = self.x.paths(fn)
            except (irx.Loopy, irx.TooComplex) as e:
                raise model.AnalysisBroken("%s cannot be unfolded (%s)" % (fn, e))
            r = [p for p in r if p.kind == "ret"]
            for p in r:
                p.mem = {a: (s, v) for a, (s, v) in p.mem.items()}
            if not r:
                raise model.AnalysisBroken("%s has no path that returns" % fn)
            self.c.count("paths", len(r))
            self.c.count("entry points")
            self.cache[fn] = r
        return self.cache[fn]

    def term(self, fn):
        r = self.paths(fn)
        if len(r) != 1:
            raise model.AnalysisBroken("%s is not a single term" % fn)
        return r[0].ret

    def off(self, enc, what):
        t = self.term(enc + "__" + what)
        return 0 if t[0] == "arg" else t[2][1]

    def at(self, arg, off):
        return gep(("arg", arg, "ptr"), INT(off, 64))

    def cur(self, p, addr, sz):
        """(value after the path, size) of a cell of the object; sz of the field when it is not written."""
        if addr in p.mem:
            if plain(p.mem[addr][1])[0] == "other":
                raise model.AnalysisBroken("the value of %s is lost (%s)" % (show(addr), p.mem[addr][1][1:2]))
            return plain(p.mem[addr][1]), p.mem[addr][0]
        return ("cell", addr, sz), sz

    def bad(self, fn, where, p, msg):
        self.c.report("%s:%s" % (fn, where), LOC(fn), "%s: %s (%s)" % (fn, msg, when(p)))


def LOC(fn):
    b = fn.split("__")[0]
    f = {"none": "NoneEncoder.h", "fixed": "FixedLengthEncoder.h", "days": "DateDaysEncoder.h", "array": "ArrayNoneEncoder.h",
         "fixarray": "FixedLengthArrayNoneEncoder.h", "string": "StringNoneEncoder.cpp", "create": "Encoder.cpp"}
    return "omniscidb/DataMgr/" + f.get(b.split("_")[0], "ChunkMetadata.h")


def find(a, facts):
    return facts.get(a)


class Cover:
    """One function that adds elements to the statistics at (min, max, nulls) of argument 0."""

    def __init__(self, k, fn, kind, fields, norm):
        self.k, self.fn, self.kind, self.f, self.norm = k, fn, kind, fields, norm

    def path(self, p, elems, conv, null, exempt=None, others=(), other_flags=(), init=None, skipped=lambda p, e: False):
        k, sz = self.k, self.f["sz"]
        amin, amax, anul = (k.at(0, self.f[x]) for x in ("min", "max", "nulls"))
        mn, _ = k.cur(p, amin, sz)
        mx, _ = k.cur(p, amax, sz)
        nul, _ = k.cur(p, anul, 1)
        omin, omax, onul = ("cell", amin, sz), ("cell", amax, sz), ("cell", anul, 1)
        o = Order(p.facts, self.kind, self.norm)
        if o.impossible:
            return
        k.c.count("obligations", 3 + 2 * len(elems))
        live = True
        if init is not None:
            ai = k.at(0, init)
            ival, oi = k.cur(p, ai, 1)[0], flag(("cell", ai, 1), p.facts)
            live = oi is not False
            ni = flag(ival, p.facts)
            if oi is not False and not (ni or ival == ("cell", ai, 1)):
                k.bad(self.fn, "initialized", p, "forgets that the statistics are initialised")
            if oi is None and (mn != omin or mx != omax):
                live = True
        if live:
            if not o.le(mn, omin):
                k.bad(self.fn, "min", p, "the new minimum %s is not shown to be at most the old one" % show(mn))
            if not o.le(omax, mx):
                k.bad(self.fn, "max", p, "the new maximum %s is not shown to be at least the old one" % show(mx))
        fl = flag(nul, p.facts)
        ofl = flag(onul, p.facts)
        if not (fl or nul == onul or ofl is False):
            k.bad(self.fn, "flag", p, "the NULL flag can be lost")
        for a in other_flags:
            t = flag(("cell", a, 1), p.facts)
            if not (fl or t is False or nul == ("cell", a, 1) and ofl is False):
                k.bad(self.fn, "flag of the other side", p, "the other side's NULL flag is dropped")
        for a, b in others:
            if not o.le(mn, ("cell", a, sz)):
                k.bad(self.fn, "min of the other side", p, "the other side's minimum is not covered")
            if not o.le(("cell", b, sz), mx):
                k.bad(self.fn, "max of the other side", p, "the other side's maximum is not covered")
        for i, e in enumerate(elems):
            if skipped(p, e):
                continue
            isnull = self.eqfact(p, e, null)
            if isnull:
                if not fl:
                    k.bad(self.fn, "null element", p, "a NULL element does not set the flag")
                continue
            if null[0] != "none" and not fl and not self.excluded(p, e, null):
                k.bad(self.fn, "null element", p, "element %s may be the NULL marker, but the flag is not set" % show(e))
            if exempt is not None and self.eqfact(p, e, exempt):
                continue
            ok = False
            for v in conv(p, e):
                if o.le(mn, v) and o.le(v, mx):
                    ok = True
            if not ok:
                k.bad(self.fn, "element", p, "element %s is not shown to lie between the new minimum %s and maximum %s"
                      % (show(e), show(mn), show(mx)))
            elif init is not None and not flag(k.cur(p, k.at(0, init), 1)[0], p.facts):
                k.bad(self.fn, "initialized", p, "an element was added but the statistics are not marked initialised")

    def excluded(self, p, e, val):
        """The path's comparisons rule out e == val."""
        ne = self.norm(e)
        for (n, a, b), v in p.facts.items():
            a, b = self.norm(a), self.norm(b)
            for x, y in ((a, b), (b, a)):
                if x != ne or y[0] != val[0]:
                    continue
                same = (y[1] - val[1]) % (1 << val[2]) == 0 if y[0] == "int" else abs(y[1] - val[1]) <= 1e-8 * abs(val[1])
                if n in ("eq", "feq") and v != same:
                    return True
                if n in ("lt", "ult", "flt", "fle"):
                    c, d = (val if t == ne else t for t in (a, b))
                    if n == "ult" and c[0] == "int":
                        c, d = (("int", t[1] & ((1 << t[2]) - 1), t[2]) for t in (c, d))
                    if ((c[1] < d[1]) if n != "fle" else (c[1] <= d[1])) != v:
                        return True
        return False

    def eqfact(self, p, e, val):
        for (n, a, b), v in p.facts.items():
            if n in ("eq", "feq") and v:
                for x, y in ((a, b), (b, a)):
                    if plain(x) == e or self.norm(x) == self.norm(e):
                        if y[0] == val[0] == "int" and (y[1] - val[1]) % (1 << val[2]) == 0:
                            return True
                        if y[0] == val[0] == "fp" and abs(y[1] - val[1]) <= 1e-8 * abs(val[1]):
                            return True
        return False


def norm_for(kind, strip=()):
    e = "zext" if kind == "u" else "sext"

    def norm(t):
        while True:
            if t[0] == "bc":
                t = t[2]
            elif t[0] == e:
                t = t[2]
            elif t[0] == "trunc" and plain(t[2]) in strip:
                t = t[2]
            elif t[0] == "cv" and t[1] == "fpext":
                t = t[4]
            else:
                return t
    return norm


def scalars(k):
    for enc, (raw, coded) in SCALARS.items():
        kind = raw[0]
        bits = int(raw[1:])
        f = {w: k.off(enc, w) for w in ("min", "max", "nulls", "count")}
        f["sz"] = size(raw)
        strip = (("cell", k.at(0, f["min"]), f["sz"]), ("cell", k.at(0, f["max"]), f["sz"]))
        norm = norm_for(kind, strip if enc.startswith("fixed") else ())
        days = enc.startswith("days")
        # a value given directly, with its NULL flag
        for fn, fromt in (("int", "i64"), ("double", "f64")):
            name = "%s__%s" % (enc, fn)
            v = ("arg", 1, "i64" if fn == "int" else "double")
            if fn == "int":
                cv = [irx.trunc(v, bits)] if kind != "f" else [("cv", "sitofp", "float" if bits == 32 else "double", "i64", v)]
            elif kind == "f":
                cv = [v] if bits == 64 else [("cv", "fptrunc", "float", "double", v)]
            else:
                ty = "i%d" % bits
                cv = [("cv", op, ty, "double", v) for op in (("fptosi", "fptoui"))]
                for w in (32, 64):
                    cv += [irx.trunc(("cv", op, "i%d" % w, "double", v), bits) for op in ("fptosi", "fptoui") if w > bits]
            for p in k.paths(name):
                isn = flag(("arg", 2, "i1"), p.facts)
                if isn is None:
                    isn = flag(("arg", 2, "i8"), p.facts)
                cov = Cover(k, name, kind, f, norm)
                if isn is not False:
                    cov.path(p, [], None, marker(raw))
                    if not flag(k.cur(p, k.at(0, f["nulls"]), 1)[0], p.facts):
                        k.bad(name, "null", p, "a NULL does not set the flag")
                if isn is not True:
                    cov.path(p, [v], lambda p, e: cv, ("none",))
        # raw input
        name = enc + "__raw"
        es = [("cell", k.at(1, i * size(raw)), size(raw)) for i in (0, 1)]
        for p in k.paths(name):
            cov = Cover(k, name, kind, f, norm)
            # FixedLengthEncoder logs a value that does not fit and leaves the statistics alone
            def misfit(p, e):
                return not days and any(n == "eq" and v is False and ("sext", 64, ("trunc", int(coded[1:]), e)) in (a, b)
                                        for (n, a, b), v in p.facts.items())
            nm = marker(coded if days or enc.startswith("fixed") else raw)
            nm = nm if nm[0] == "fp" else INT(nm[1], bits)
            cov.path(p, es, (lambda p, e: day_terms(p, e, int(coded[1:]))) if days else (lambda p, e: [e]), nm, skipped=misfit)
        # encoded input
        for fn in ("encoded", "encarray"):
            name = "%s__%s" % (enc, fn)
            es = [("cell", k.at(1, i * size(coded)), size(coded)) for i in (0, 1)]
            for p in k.paths(name):
                cov = Cover(k, name, kind, f, norm)
                cov.path(p, es, (lambda p, e: [irx.mul(e if coded == "i64" else irx.ext("sext", e, 64), INT(86400, 64), 64)]) if days else (lambda p, e: [e]),
                         marker(coded), exempt=sentinel(coded) if fn == "encarray" else None)
        # merge of two encoders
        name = enc + "__reduce"
        for p in k.paths(name):
            Cover(k, name, kind, f, norm).path(p, [], None, None, others=[(k.at(1, f["min"]), k.at(1, f["max"]))],
                                               other_flags=[k.at(1, f["nulls"])])
        copies(k, enc, ("count", "min", "max", "nulls"))
        resets(k, enc, None)
        streams(k, enc, ("count", "min", "max", "nulls"))
        published(k, enc, f)


def sentinel(kd):
    """inline_null_array_value: one past the NULL marker for signed integers, twice the smallest normal for floats."""
    m = marker(kd)
    if kd[0] == "i":
        return INT(m[1] + 1, m[2])
    if kd[0] == "u":
        return INT(m[1] - 1, m[2])
    return ("fp", 2 * m[1], m[2])


def day_terms(p, e, w):
    q = ("op", "sdiv", "i64", e, INT(86400, 64))
    rem = irx.add(e, irx.mul(q, INT(86400, 64), 64), 64, -1)
    neg = p.facts.get(("lt", e, INT(0, 64)))
    if neg is None and ("lt", INT(0, 64), e) in p.facts and p.facts[("lt", INT(0, 64), e)]:
        neg = False
    zero = None
    for (n, a, b), v in p.facts.items():
        if n == "eq" and rem in (a, b) and INT(0, 64) in (a, b):
            zero = v
        if n == "lt" and v and ((a == rem and b == INT(0, 64)) or (a == INT(0, 64) and b == rem)):
            zero = False
            if a == rem:
                neg = True
    down, trunc = irx.add(q, INT(-1, 64), 64), q
    if neg is False or zero is True:
        days = [trunc]
    elif neg is True and zero is False:
        days = [down]
    else:
        days = [trunc, down]
    r = []
    for d in days:
        x = d if w == 64 else irx.ext("sext", irx.trunc(d, w), 64)
        r.append(irx.mul(x, INT(86400, 64), 64))
    return r


def copies(k, enc, fields):
    name = enc + "__copy"
    for p in k.paths(name):
        for w in fields:
            k.c.count("obligations")
            o = k.off(enc, w)
            v, sz = k.cur(p, k.at(0, o), 0)
            src = ("cell", k.at(1, o), sz)
            if v == src:
                continue
            if w in ("nulls", "init") and flag(v, p.facts) is not None and flag(v, p.facts) == flag(src, p.facts):
                continue
            k.bad(name, w, p, "%s is not carried over" % w)


def resets(k, enc, init):
    name = enc + "__reset"
    for p in k.paths(name):
        for w in ("min", "max", "nulls"):
            if enc == "string" and w != "nulls":
                continue
            k.c.count("obligations")
            a = k.at(0, k.off(enc, w))
            b = k.at(1, k.off("stats", w))
            if a in p.mem:
                v, sz = k.cur(p, a, 0)
                src = ("cell", b, sz)
                if v == src or w == "nulls" and flag(v, p.facts) is not None and flag(v, p.facts) == flag(src, p.facts):
                    continue
            else:
                if w == "nulls":
                    x, y = flag(("cell", a, 1), p.facts), flag(("cell", b, 1), p.facts)
                    if x is not None and x == y:
                        continue
                ok = False
                for (n, x, y), v in p.facts.items():
                    x, y = plain(x), plain(y)
                    if n in ("eq", "feq") and v and {x[1] if x[0] == "cell" else 0, y[1] if y[0] == "cell" else 0} == {a, b}:
                        ok = True
                    for t, z in ((x, y), (y, x)):
                        if n == "eq" and t[0] == "call" and "DatumEqual" in t[1] and z[0] == "int" and (v == bool(z[1])):
                            ad = {plain(q)[1] for q in t[2] if plain(q)[0] == "cell"}
                            if a in ad and b in ad:
                                ok = True
                if ok:
                    continue
            k.bad(name, w, p, "%s is not taken from the given statistics" % w)
        if init is not None and flag(k.cur(p, k.at(0, init), 1)[0], p.facts) is not True:
            k.bad(name, "initialized", p, "the given statistics are not marked as initialised, so the next append discards them")


def streams(k, enc, fields):
    got = {}
    for op in ("write", "read"):
        name = "%s__%s" % (enc, op)
        for p in k.paths(name):
            st = []
            for fn, args in p.calls:
                if fn not in ("f" + op,):
                    continue
                a, s, n = args[0], args[1], args[2]
                if s[0] != "int" or n[0] != "int" or irx.root(a) != ("arg", 0, "ptr"):
                    raise model.AnalysisBroken("%s: unexpected %s arguments" % (name, fn))
                o = a[2][1] if a[0] == "gep" else 0
                st += [o + i for i in range(s[1] * n[1])]
            got.setdefault(op, st)
            if got[op] != st:
                k.bad(name, "paths", p, "different paths store different fields")
    k.c.count("obligations", len(fields) + 1)
    if got["write"] != got["read"]:
        k.c.report(enc + ":stream", LOC(enc), "%s: writeMetadata and readMetadata do not transfer the same fields in the same order "
                   "(bytes %s, %s)" % (enc, brief(got["write"]), brief(got["read"])))
    for w in fields:
        o = k.off(enc, w)
        sz = next((p.mem[k.at(0, o)][0] for p in k.paths(enc + "__copy") if k.at(0, o) in p.mem), 1)
        for op in ("write", "read"):
            if not set(range(o, o + sz)) <= set(got[op]):
                k.c.report("%s:stream:%s:%s" % (enc, op, w), LOC(enc), "%s: %sMetadata leaves out %s" % (enc, op, w))


def brief(b):
    r = []
    for x in b:
        if r and r[-1][1] + 1 == x:
            r[-1][1] = x
        else:
            r.append([x, x])
    return " ".join("%d..%d" % tuple(x) for x in r)


def source(t):
    t = plain(t)
    while t[0] in ("sext", "zext", "trunc", "cv", "bc"):
        t = t[4] if t[0] == "cv" else t[2]
    return t


def published(k, enc, f):
    """getMetadata / fillChunkStats hand out min, max and the flag in their places."""
    d = {w: k.off("stats", w) - k.off("stats", "min") for w in ("min", "max", "nulls")}
    for fn, get in (("meta", lambda p: meta_base(k, p)), ("metat", lambda p: meta_base(k, p)),
                    ("stats", lambda p: k.at(1, k.off("stats", "min")))):
        name = "%s__%s" % (enc, fn)
        if name not in k.m.fns:
            continue
        for p in k.paths(name):
            base = get(p)
            if base is None:
                raise model.AnalysisBroken("%s: the metadata object is not recognised" % name)
            typed = any(n == "eq" and v and typeid(k, a, b) for (n, a, b), v in p.facts.items())
            for w in ("min", "max", "nulls"):
                k.c.count("obligations")
                a = gep(base, INT(d[w], 64))
                have = p.mem.get(a)
                if have is None:
                    if w == "nulls" or typed or "array" in enc:
                        k.bad(name, w, p, "%s is not filled in" % w)
                    continue
                src = k.at(0, f[w])
                if w == "nulls":
                    x, y = flag(have[1], p.facts), flag(("cell", src, 1), p.facts)
                    if plain(have[1]) == ("cell", src, 1) or x is not None and x == y:
                        continue
                else:
                    t = source(have[1])
                    if t[0] == "cell" and t[1] == src:
                        continue
                    if t[0] == "other" and not typed and "array" not in enc:
                        continue
                k.bad(name, w, p, "%s is filled with %s" % (w, show(have[1])))


def typeid(k, a, b):
    """a comparison of some type's id with a constant"""
    t = k.term("shape_id")
    o = t[1][2] if t[1][0] == "gep" else INT(0, 64)
    for x in (a, b):
        if x[0] == "cell" and x[2] == t[2] and (x[1][2] if x[1][0] == "gep" else INT(0, 64)) == o:
            return True
    return False


def meta_base(k, p):
    h = p.mem.get(("arg", 1, "ptr"))
    if h is None:
        return None
    return gep(h[1], INT(k.off("meta", "min"), 64))


def arrays(k):
    for enc in ("array", "fixarray"):
        f = {w: k.off(enc, w) for w in ("min", "max", "nulls", "count")}
        init = k.off(enc, "init")
        el = k.term("array_elem")       # address of (*v)[1]
        po = k.term("array_ptr")
        po = po[2][1] if po[0] == "gep" else 0
        no = k.term("array_null")
        no = no[2][1] if no[0] == "gep" else 0
        el = move(el, 1)
        stride = el[2][1]
        for sh, kd in list(ELEMS.items()) + [("vec", "i16")]:
            name = "%s__vec" % enc if sh == "vec" else "%s__upd_%s" % (enc, sh)
            kind = kd[0]
            f["sz"] = size(kd)
            base = [el] if sh != "vec" else [el, gep(el, INT(stride, 64))]
            es, of = [], {}
            for b in base:
                data = ("cell", gep(b, INT(po, 64)), 8)
                for i in range(2 if sh != "vec" else 1):
                    e = ("cell", gep(data, INT(i * size(kd), 64)), size(kd))
                    es.append(e)
                    of[e] = ("cell", gep(b, INT(no, 64)), 1)
            norm = norm_for(kind)
            for p in k.paths(name):
                def absent(p, e):
                    return flag(of[e], p.facts) is True
                Cover(k, name, kind, f, norm).path(p, es, lambda p, e: [e], marker(kd), init=init, skipped=absent)
                for nl in set(of.values()):
                    if flag(nl, p.facts) is not False and not flag(k.cur(p, k.at(0, f["nulls"]), 1)[0], p.facts):
                        k.bad(name, "null array", p, "a NULL array does not set the flag")
        copies(k, enc, ("count", "min", "max", "nulls", "init"))
        resets(k, enc, init)
        streams(k, enc, ("count", "min", "max", "nulls", "init"))
        published(k, enc, f)


def move(t, arg):
    """the same term over another argument"""
    if t == ("arg", 0, "ptr"):
        return ("arg", arg, "ptr")
    return tuple(move(x, arg) if isinstance(x, tuple) else x for x in t)


def strings(k):
    o = k.off("string", "nulls")
    el = move(k.term("string_elem"), 1)
    stride = el[2][1]
    em = [p for p in k.paths("string_empty") if flag(p.ret, p.facts)]
    if len(em) != 1 or len(em[0].facts) != 1:
        raise model.AnalysisBroken("string::empty is not one comparison")
    (n, a, b), v = next(iter(em[0].facts.items()))
    cell = a if a[0] == "cell" else b
    so = cell[1][2][1] if cell[1][0] == "gep" else 0
    for p in k.paths("string__vec"):
        nul, onul = k.cur(p, k.at(0, o), 1)[0], ("cell", k.at(0, o), 1)
        fl = flag(nul, p.facts)
        k.c.count("obligations", 3)
        if not (fl or nul == onul or flag(onul, p.facts) is False):
            k.bad("string__vec", "flag", p, "the NULL flag can be lost")
        for i in (0, 1):
            ln = ("cell", gep(el, INT(so + i * stride, 64)), cell[2])
            empty = None
            for (n, a, b), v in p.facts.items():
                if n == "eq" and ln in (a, b) and INT(0, 64) in (a, b):
                    empty = v
            if empty is not False and not fl:
                k.bad("string__vec", "element", p, "an empty (NULL) string does not set the flag")
    copies(k, "string", ("count", "nulls"))
    resets(k, "string", None)
    streams(k, "string", ("count", "nulls"))


def merges(k):
    s = {w: k.off("stats", w) for w in ("min", "max", "nulls")}
    for pre in ("merge", "mergearr"):
        for sh, kd in FILL.items():
            name = "%s_%s" % (pre, sh)
            if name not in k.m.fns or pre == "mergearr" and sh in ("dict8", "dict16", "date16", "date32"):
                continue
            kind = "i" if kd[0] == "u" else kd[0]       # dictionary ids are kept as int
            for p in k.paths(name):
                f = dict(s)
                w = [p.mem[k.at(0, s[x])][0] for x in ("min", "max") if k.at(0, s[x]) in p.mem]
                f["sz"] = w[0] if w else {"u": 4}.get(kd[0], size(kd))
                Cover(k, name, kind, f, norm_for(kind)).path(p, [], None, None, others=[(k.at(1, s["min"]), k.at(1, s["max"]))],
                                                             other_flags=[k.at(1, s["nulls"])])
    for sh, kd in FILL.items():
        name = "fill_" + sh
        for p in k.paths(name):
            for w, i in (("min", 2), ("max", 3), ("nulls", 4)):
                k.c.count("obligations")
                have = p.mem.get(k.at(0, s[w]))
                if have is None:
                    k.bad(name, w, p, "%s is not filled in" % w)
                    continue
                if w == "nulls":
                    v = flag(have[1], p.facts)
                    if v is not None and v in (flag(("arg", 4, t), p.facts) for t in ("i1", "i8")):
                        continue
                    t = source(have[1])
                    if t[0] == "arg" and t[1] == 4:
                        continue
                else:
                    t = norm_for(kd[0])(plain(have[1]))
                    if t[0] == "arg" and t[1] == i:
                        continue
                k.bad(name, w, p, "%s is filled with %s" % (w, show(have[1])))


def create(k):
    """Encoder::Create picks the encoder whose element type is the column's."""
    I = {n: k.term("id_" + n)[1] for n in ("kBoolean", "kInteger", "kDecimal", "kExtDictionary", "kFloatingPoint", "kVarChar",
                                          "kText", "kFixedLenArray", "kVarLenArray", "kDate", "kTime", "kTimestamp", "kInterval",
                                          "kDay", "kFloat", "kDouble")}
    tid, tsz, tpr, tun = (move(k.term("shape_" + n), 1) for n in ("id", "size", "precision", "unit"))
    table = []
    for n in ("kBoolean", "kInteger", "kDecimal"):
        table += [(I[n], s, None, "none_i%d" % (8 * s)) for s in (1, 2, 4, 8)]
    table += [(I["kExtDictionary"], s, None, e) for s, e in ((1, "none_u8"), (2, "none_u16"), (4, "none_i32"))]
    table += [(I["kFloatingPoint"], None, I["kFloat"], "none_f32"), (I["kFloatingPoint"], None, I["kDouble"], "none_f64")]
    table += [(I["kVarChar"], None, None, "string"), (I["kText"], None, None, "string"),
              (I["kFixedLenArray"], None, None, "fixarray"), (I["kVarLenArray"], None, None, "array")]
    table += [(I["kDate"], s, I["kDay"], "days_%d" % (8 * s)) for s in (2, 4, 8)]
    for n in ("kDate", "kTime", "kTimestamp", "kInterval"):
        other = (I["kDay"] + 1) if n == "kDate" else None
        table += [(I[n], s, other, e) for s, e in ((1, "fixed_8"), (2, "fixed_16"), (4, "fixed_32"), (8, "none_i64"))]
    ps = k.paths("create")

    def compatible(p, cell, val):
        for (n, a, b), v in p.facts.items():
            if n == "eq" and cell in (a, b):
                x = b if a == cell else a
                if x[0] == "int" and v != (x[1] == val):
                    return False
            elif n in ("lt", "ult") and cell in (a, b):
                x, y = (val if t == cell else (t[1] if t[0] == "int" else None) for t in (a, b))
                if x is not None and y is not None and (x < y) != v:
                    return False
        return True
    fits = 0
    for i, s, q, enc in table:
        got = set()
        for p in ps:
            if not compatible(p, tid, i) or s is not None and not compatible(p, tsz, s):
                continue
            if q is not None and i == I["kFloatingPoint"] and not compatible(p, tpr, q):
                continue
            if i == I["kDate"] and not compatible(p, tun, q):
                continue
            vts = [v[1][1] for a, v in p.mem.items() if a == p.ret and irx.root(v[1])[0] == "glob"]
            got.add(vts[0][1] if vts and vts[0][0] == "glob" else (vts[0] if vts else show(p.ret)))
        k.c.count("obligations")
        fits += 1
        if got != {VT[enc]}:
            k.c.report("create:%d:%s:%s" % (i, s, q), LOC("create"),
                       "Encoder::Create gives %s for type id %d, size %s, unit/precision %s; its values need %s"
                       % (sorted(map(str, got)) or "nothing", i, s, q, VT[enc]))
    k.c.count("column types", fits)


def run(c):
    c.rule = ("per path of the inlined IR of every encoder's statistics code: the new minimum (maximum) is, by the path's own "
              "comparisons, at most (at least) the old one, the other side's and every non-NULL element's, the NULL flag is never lost and "
              "is set by every NULL; copies, resets, streams and published metadata carry every field")
    m = irx.load((HERE + "/spec/stats_ir.cpp", ["-I" + HERE + "/spec/stub_tbb", "-fno-access-control"]), passes=PASSES,
                 opts=("-inline-threshold=100000",))
    k = Check(c, m)
    scalars(k)
    arrays(k)
    strings(k)
    merges(k)
    create(k)
    c.need("obligations", 3000)
    c.need("entry points", 250)
    c.need("column types", 30)
