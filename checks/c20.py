"""C20: every enumerated kind has its own name, and names are read back as the kind they name."""
import re
from vlib import model, symx

TUS = ["IR/Type.cpp", "IR/Node.cpp", "IR/Expr.cpp", "ResultSet/ResultSet.cpp", "QueryBuilder/QueryBuilder.cpp",
       "QueryEngine/CompilationOptions.cpp", "Logger/Logger.cpp", "DataMgr/DataMgr.cpp", "Utils/ExtractFromTime.cpp"]
NAMING = re.compile(r"(?i)(tostring|to_string|operator<<)$")


# customary short names
ABBR = {"ms": "milli", "us": "micro", "ns": "nano", "doy": "dayofyear", "dow": "dayofweek"}


def norm(s):
    return re.sub(r"[^a-z0-9]", "", s.split("::")[-1].lower())


def ident(n):
    return norm(n[1:] if re.match(r"k[A-Z]", n) else n)


def bound(n):
    """Enumerators that count the others rather than being a kind."""
    return n.startswith("_")


def plain(t):
    return re.sub(r"\b(const|volatile|enum) ", "", t or "").rstrip("& ")


class Names:
    def __init__(self, prog, enum):
        self.ids = {}
        self.val = {}
        for n, v in prog.enums[enum]:
            if not bound(n):
                self.ids.setdefault(str(v), []).append(ident(n))
                self.val[ident(n)] = str(v)

    def wrong(self, text, v):
        """The other kind whose name the text is, if it does not fit kind v."""
        for t in self.forms(text) + [ABBR[t] for t in self.forms(text) if t in ABBR]:
            hit = [i for i in self.val if i == t]
            if hit:
                return None if any(i in self.ids[v] for i in hit) else hit[0]
        for t in self.forms(text):
            if len(t) < 2:
                continue
            hit = [i for i in self.val if (len(i) > 1 and t.startswith(i)) or i.startswith(t)]
            if hit:
                return None if any(self.val[i] == v for i in hit) else sorted(hit, key=len)[-1]
        return None

    def forms(self, text):
        t = norm(text)
        return [t] + ([t[:-1]] if t.endswith("s") else [])

    def fits(self, text, v):
        t = norm(text)
        return any(t == i or (t and (t.startswith(i) or i.startswith(t))) for i in self.ids[v])


def pieces(t, prog):
    """Text pieces of a value, or None if a piece is not a constant text."""
    if t[0] == "k":
        return t[1] if isinstance(t[1], str) else None
    if t[0] in ("cat",) or (t[0] == "op" and t[1] in ("+", "<<") and len(t) == 4):
        a, b = (t[1], t[2]) if t[0] == "cat" else (t[2], t[3])
        a, b = pieces(a, prog), pieces(b, prog)
        return None if a is None or b is None else a + b
    if t[0] == "built":
        a, b = pieces(t[1], prog), pieces(t[2], prog)
        return None if a is None or b is None else a + b
    if t[0] == "elem" and t[2][0] == "k":
        l = listof(t[1], prog)
        if l is None:
            return None
        try:
            i = int(t[2][1])
        except ValueError:
            return None
        if not 0 <= i < len(l):
            return None
        return pieces(l[i], prog)
    if t[0] == "new" and len(t) > 2 and t[2]:
        return pieces(t[2][0], prog)
    if t[0] == "call" and t[1].split("::")[-1] in ("string", "basic_string", "operator\"\"s") and t[3]:
        return pieces(t[3][0], prog)
    return None


def listof(t, prog):
    while t[0] == "list" and len(t) == 2 and t[1][0] == "list":
        t = t[1]
    if t[0] == "list":
        return t[1:]
    if t[0] == "var":
        for u, g in prog.globals.items():
            if g.q == t[1] and g.root is not None:
                for v, s in symx.Interp(prog).ev(g.root, symx.St()):
                    return listof(v, prog)
    return None


def run(ctx):
    ctx.rule = ("every function that turns an enumerated kind into text is evaluated for each enumerator over its syntax tree: each "
                "must end in one constant, non-empty text of its own, not the text of unknown values and not another kind's name; "
                "every name table and name comparison that turns text into a kind gives the kind of that name; conversions between "
                "enumerations keep the name")
    prog = model.load(TUS)
    names = {}

    def nm(e):
        if e not in names:
            names[e] = Names(prog, e)
        return names[e]
    for F in sorted(prog.fns.values(), key=lambda f: (f.q, f.t)):
        if F.is_lambda or "ThirdParty" in F.f:
            continue
        ty = [plain(p.t) for p in F.params]
        rt = plain(F.t.split("(")[0].strip())
        es = [i for i, t in enumerate(ty) if t in prog.enums]
        last = F.q.split("::")[-1]
        if len(es) == 1 and len(ty) <= 2 and NAMING.search(last) and ("string" in rt or "char" in rt or "ostream" in rt):
            texts(ctx, prog, F, ty[es[0]], es[0], nm(ty[es[0]]))
        elif len(es) == 1 and len(ty) == 1 and rt in prog.enums and rt != ty[0]:
            between(ctx, prog, F, ty[0], rt, nm(ty[0]), nm(rt))
        elif rt in prog.enums and any("string" in t or "char" in t for t in ty):
            parses(ctx, prog, F, rt, nm(rt))
        tables(ctx, prog, F, nm)
    ctx.need("naming functions", 25)
    ctx.need("kinds named", 200)
    ctx.need("names read", 60)


def texts(ctx, prog, F, enum, pi, N):
    ctx.count("naming functions")
    env0 = {}
    for i, p in enumerate(F.params):
        if i != pi:
            env0[p] = ("k", "")
    got = {}

    def ev(v):
        env = dict(env0)
        env[F.params[pi]] = ("k", v)
        r = set()
        for k, v2, s in symx.Interp(prog).run(F, env):
            t = pieces(v2, prog) if k == "ret" else None
            if t is None and k == "ret" and v2[0] not in ("void", "k", "list") and not out_of_range(v2, prog):
                t = table.get(str(v)) if table else OPEN
            r.add(t)
        return r
    table = texttable(prog, F, enum)
    vals = [(n, v) for n, v in prog.enums[enum] if not bound(n)]
    big = str(max(int(v) for n, v in vals) + 1000)
    try:
        unk = ev(big)
    except symx.TooComplex:
        unk = {None}
    short = enum.split("::")[-1]
    seen = set()
    for n, v in vals:
        if v in seen:
            continue
        seen.add(v)
        ctx.count("kinds named")
        where = "%s(%s::%s)" % (F.q, short, n)
        key = "%s:%s:%s" % (F.q, enum, n)
        r = ev(v)
        if OPEN in r:
            ctx.notes.append("%s is not a constant text" % where)
            continue
        if len(r) != 1 or None in r:
            ctx.report(key, F.loc(), "%s does not end in one text: the kind has no name of its own" % where)
            continue
        t = r.pop()
        if t == "":
            ctx.report(key, F.loc(), "%s gives an empty text" % where)
            continue
        if t in unk and not N.fits(t, str(v)):
            ctx.report(key, F.loc(), "%s gives \"%s\", the text of an unknown value" % (where, t))
            continue
        if t in got:
            ctx.report(key, F.loc(), "%s gives \"%s\", which is also the text of %s" % (where, t, got[t]))
            continue
        got[t] = n
        w = N.wrong(t, str(v))
        if w:
            ctx.report(key, F.loc(), "%s gives \"%s\", the name of another kind (%s)" % (where, t, w))


OPEN = object()


def out_of_range(t, prog):
    """A table lookup that is known to miss the table."""
    if t[0] in ("cat", "built"):
        return any(out_of_range(x, prog) for x in t[1:] if isinstance(x, tuple))
    if t[0] == "op":
        return any(out_of_range(x, prog) for x in t[2:] if isinstance(x, tuple))
    return t[0] == "elem" and t[2][0] == "k" and listof(t[1], prog) is not None


def texttable(prog, F, enum):
    """{kind, text} pairs of a lookup table inside F."""
    r = {}
    for n in F.walk():
        if n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") or len(n.c) != 2:
            continue
        if not plain(n.t).startswith("std::pair<") or enum.split("::")[-1] not in n.t:
            continue
        val = None
        for x in F.walk(n.c[0]):
            if x.cv is not None or (x.k == "DeclRefExpr" and x.d is not None and x.d.k == "EnumConstant"):
                val = x.cv if x.cv is not None else x.d.get("v")
                break
        lit = next((x for x in F.walk(n.c[1]) if x.k == "StringLiteral"), None)
        if val is not None and lit is not None:
            r.setdefault(str(val), lit.v)
    return r


def between(ctx, prog, F, src, dst, S, D):
    for n, v in prog.enums[src]:
        if bound(n):
            continue
        want = D.val.get(ident(n))
        if want is None:
            continue
        for k, r, s in symx.Interp(prog).run(F, {F.params[0]: ("k", v)}):
            ctx.count("kinds converted")
            if k == "ret" and r[0] == "k" and str(r[1]) != want:
                ctx.report("%s:%s" % (F.q, n), F.loc(), "%s turns %s into another kind than the one of that name" % (F.q, n))


def parses(ctx, prog, F, enum, N):
    try:
        outs = symx.Interp(prog, max_paths=2000).run(F, {})
    except symx.TooComplex:
        ctx.notes.append("%s is too complex to enumerate; its tables are still checked" % F.q)
        return
    ctx.count("parsing functions")
    for k, v, s in outs:
        if k != "ret" or v[0] != "k" or str(v[1]) not in N.ids:
            continue
        for f, tv in s.facts:
            if tv and f[0] == "op" and f[1] == "==":
                for x in (f[2], f[3]):
                    if x[0] == "k" and isinstance(x[1], str) and re.search("[a-zA-Z]", x[1]):
                        one(ctx, F, F.loc(), x[1], v[1], enum, N)


def one(ctx, F, loc, text, v, enum, N):
    ctx.count("names read")
    w = N.wrong(text, str(v))
    if w:
        ctx.report("%s:%s" % (F.q, text), loc, "%s reads \"%s\" as %s, which is not the kind of that name (%s)"
                   % (F.q, text, "/".join(N.ids.get(str(v), ["?"])), w))


PAIR = re.compile(r"^std::pair<(?:const )?std::basic_string<char>(?: const)?, (.+)>$")


def tables(ctx, prog, F, nm):
    """{text, kind} pairs in table initialisers."""
    seen = {}
    for n in F.walk():
        if n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
            continue
        m = PAIR.match(plain(n.t))
        if not m:
            continue
        e = plain(m.group(1))
        if e not in prog.enums or len(n.c) != 2:
            continue
        lit = next((x for x in F.walk(n.c[0]) if x.k == "StringLiteral"), None)
        val = None
        for x in F.walk(n.c[1]):
            if x.cv is not None:
                val = x.cv
                break
            if x.k == "DeclRefExpr" and x.d is not None and x.d.k == "EnumConstant":
                val = x.d.get("v")
                break
        if lit is None or val is None:
            continue
        one(ctx, F, F.loc(n), lit.v, val, e, nm(e))
        key = (e, lit.v)
        if key in seen and seen[key] != str(val):
            ctx.report("%s:%s:dup" % (F.q, lit.v), F.loc(n), "%s lists \"%s\" for two kinds" % (F.q, lit.v))
        seen[key] = str(val)
