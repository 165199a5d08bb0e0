"""Path enumeration over the syntax tree of small functions.

Every value is an access-path term; every branch condition becomes an atomic (term, truth) fact on the path.  No
arithmetic is decided and no solver is involved: a path is the list of facts established on it, and clients ask which
facts hold on every path with a given outcome.  Loops are entered once with a universally quantified index: a fact
about element L of a container holds for all elements if the loop was left through its own condition."""
from .lockset import strip, call_parts, is_fatal_elem

K0, K1, KNULL = ("k", "0"), ("k", "1"), ("k", "null")
TRANSPARENT = {"ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
               "CXXStaticCastExpr", "CStyleCastExpr", "CXXConstCastExpr", "CXXFunctionalCastExpr",
               "CXXReinterpretCastExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXDefaultArgExpr",
               "CXXDefaultInitExpr", "CXXStdInitializerListExpr", "CXXRewrittenBinaryOperator", "OpaqueValueExpr"}
BEGIN = {"begin", "cbegin"}
END = {"end", "cend"}
SIZE = {"size", "length"}
PASS = {"std::move", "std::forward", "std::as_const", "std::addressof", "std::ref", "std::cref", "boost::get_pointer",
        "__builtin_expect", "std::get_deleter"}


class TooComplex(Exception):
    pass


class St:
    __slots__ = ("env", "heap", "facts", "ev", "reads")

    def __init__(self, env=None, heap=None, facts=(), ev=(), reads=frozenset()):
        self.env = env or {}
        self.heap = heap or {}
        self.facts = facts
        self.ev = ev
        self.reads = reads

    def bind(self, d, v):
        s = St(dict(self.env), self.heap, self.facts, self.ev, self.reads)
        s.env[d] = v
        return s

    def with_env(self, env):
        return St(env, self.heap, self.facts, self.ev, self.reads)

    def store(self, t, v):
        s = St(self.env, dict(self.heap), self.facts, self.ev, self.reads)
        for k in [k for k in s.heap if k != t and contains(k, t)]:
            del s.heap[k]
        s.heap[t] = v
        return s

    def event(self, e):
        return St(self.env, self.heap, self.facts, self.ev + (e,), self.reads)

    def read(self, t):
        if t in self.reads:
            return self
        return St(self.env, self.heap, self.facts, self.ev, self.reads | {t})

    def fact(self, t, v):
        return St(self.env, self.heap, self.facts + ((t, v),), self.ev, self.reads)

    def truth(self, t):
        for f, v in self.facts:
            if f == t:
                return v
        return None


def contains(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        return any(contains(x, sub) for x in t)
    return False


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def undyn(t):
    while isinstance(t, tuple) and t and t[0] == "dyn":
        t = t[2]
    return t


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if k == "root":
        return t[1]
    if k == "fld":
        b = show(t[1])
        return t[2] if b == "this" else b + "." + t[2]
    if k == "elem":
        return show(t[1]) + "[]"
    if k == "size":
        return show(t[1]) + ".size()"
    if k == "k":
        return str(t[1])
    if k == "call":
        return t[1].split("::")[-1] + "(" + ", ".join(show(x) for x in ((t[2],) if t[2] else ()) + tuple(t[3])) + ")"
    if k == "op":
        return "(" + (" %s " % t[1]).join(show(x) for x in t[2:]) + ")"
    if k == "dyn":
        return show(t[2])
    return k


class Interp:
    """Subclass or set `opaque` to say which functions must not be looked into."""

    def __init__(self, prog, max_depth=6, max_paths=4000, opaque=None, inline_virtual=None):
        self.prog = prog
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.opaque = opaque or (lambda fn, obj, args: False)
        self.inline_virtual = inline_virtual or (lambda fn, obj: None)   # -> Fn to run instead
        self.steps = 0
        self.max_steps = 200000
        self.loopn = 0
        self.stack = []
        self.partial = set()

    # ---- functions -----------------------------------------------------
    def run(self, F, env, st=None, this=("root", "this")):
        """Outcomes of F: list of (kind, value, state), kind in ret/throw."""
        base = st or St()
        e = dict(base.env)
        e.update(env)
        e["this"] = this
        s0 = base.with_env(e)
        self.stack.append(F.u)
        try:
            outs = []
            states = [s0]
            for ci in getattr(F, "ctorinits", ()):
                n = F.node(ci["n"])
                nxt = []
                for s in states:
                    if "field" in ci:
                        for v, s2 in self.ev(n, s):
                            t = ("fld", this, ci["field"].n)
                            nxt.append(s2.store(t, v).event(("init", t, v, n)))
                    elif "base" in ci:
                        nxt += self.base_init(F, n, s, this)
                    elif ci.get("deleg"):
                        nxt += self.base_init(F, n, s, this)
                    else:
                        nxt.append(s)
                states = nxt
            for s in states:
                for kind, val, s2 in self.block([F.root], s):
                    if kind == "fall":
                        outs.append(("ret", ("void",), s2))
                    elif kind in ("ret", "throw"):
                        outs.append((kind, val, s2))
            return outs
        finally:
            self.stack.pop()

    def base_init(self, F, n, s, this):
        c = strip(n)
        if c is None or c.fn is None:
            return [s]
        G = self.prog.fns.get(c.fn.u)
        res = []
        for args, s2 in self.evs(c.c if c.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") else [], s):
            if G is None or G.u in self.stack or G.root is None:
                res.append(s2.event(("baseinit", c.fn.q, args, n)))
                continue
            env = {p: a for p, a in zip(G.params, args)}
            for k, v, s3 in self.run(G, env, s2, this):
                if k == "ret":
                    res.append(s3.with_env(s2.env))
        return res

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooComplex()

    # ---- statements ----------------------------------------------------
    def block(self, stmts, s):
        """-> list of (kind, value, state)"""
        states = [s]
        outs = []
        for st in stmts:
            nxt = []
            for x in states:
                for o in self.stmt(st, x):
                    if o[0] == "fall":
                        nxt.append(o[2])
                    else:
                        outs.append(o)
            states = nxt
            if len(states) + len(outs) > self.max_paths:
                raise TooComplex()
            if not states:
                break
        return outs + [("fall", None, x) for x in states]

    def stmt(self, n, s):
        self.tick()
        if n is None:
            return [("fall", None, s)]
        k = n.k
        if k == "CompoundStmt":
            return self.block(n.c, s)
        if k == "ReturnStmt":
            if not n.c or n.c[0] is None:
                return [("ret", ("void",), s)]
            return [("ret", v, s2) for v, s2 in self.ev(n.c[0], s)]
        if k == "IfStmt":
            outs = []
            pre = [c for c in n.c if c is not None and c.k == "DeclStmt" and c is not n.get("cond")
                   and c is not n.get("then") and c is not n.get("else")]
            starts = [s]
            for p in pre:
                nx = []
                for x in starts:
                    nx += [o[2] for o in self.stmt(p, x) if o[0] == "fall"]
                starts = nx
            cond = n.get("cond")
            for x in starts:
                for v, s2 in self.cond(cond, x):
                    if v:
                        outs += self.stmt(n.get("then"), s2)
                    else:
                        outs += self.stmt(n.get("else"), s2) if n.get("else") is not None else [("fall", None, s2)]
            return outs
        if k == "DeclStmt":
            if is_fatal_elem(n):
                return [("throw", ("abort",), s)]
            states = [s]
            for ds in n.get("ds", []):
                d, init = ds[0], n.F.node(ds[1])
                nx = []
                for x in states:
                    if init is None:
                        nx.append(x.bind(d, ("undef", d.n)))
                    elif d.t in ("bool", "const bool") and self.is_bool(init):
                        nx += [s2.bind(d, K1 if v else K0) for v, s2 in self.cond(init, x)]
                    else:
                        nx += [s2.bind(d, v) for v, s2 in self.ev(init, x)]
                states = nx
            return [("fall", None, x) for x in states]
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            return self.loop(n, s)
        if k == "BreakStmt":
            return [("break", None, s)]
        if k == "ContinueStmt":
            return [("continue", None, s)]
        if k == "SwitchStmt":
            return self.switch(n, s)
        if k in ("CaseStmt", "DefaultStmt"):
            return self.stmt(n.c[-1], s) if n.c else [("fall", None, s)]
        if k in ("NullStmt", "StaticAssertDecl"):
            return [("fall", None, s)]
        if k == "CXXTryStmt":
            return self.stmt(n.c[0], s)
        if k == "AttributedStmt" or k == "LabelStmt":
            return self.stmt(n.c[-1], s)
        # expression statement
        if k == "ExprWithCleanups" or True:
            e = strip(n)
            if e is not None and e.k == "CXXThrowExpr":
                return [("throw", ("throw",), s)]
            if e is not None and e.k == "BinaryOperator" and e.op in ("&&", "||"):
                return [("fall", None, s2) for v, s2 in self.cond(e, s)]
            return [("throw", ("abort",), s2) if v == ("abort",) else ("fall", None, s2) for v, s2 in self.ev(n, s)]

    def switch(self, n, s):
        cond = n.get("cond")
        body = n.c[-1]
        labels = []       # (values or None for default, index)
        flat = []

        def flatten(x):
            if x is None:
                return
            if x.k == "CompoundStmt" and x is body:
                for c in x.c:
                    flatten(c)
            elif x.k in ("CaseStmt", "DefaultStmt"):
                labels.append((x.get("cval") if x.k == "CaseStmt" else None, len(flat)))
                flatten(x.c[-1])
            else:
                flat.append(x)
        flatten(body)
        outs = []
        for t, s2 in self.ev(cond, s):
            kn = None
            for f, v in s2.facts:
                if v and f[0] == "op" and f[1] == "==" and f[2] == t and f[3][0] == "k":
                    kn = f[3][1]
            if t[0] == "k":
                kn = t[1]
            vals = [v for v, _ in labels if v is not None]
            for v, idx in labels:
                if v is not None:
                    if kn is not None and kn != v:
                        continue
                    if s2.truth(("op", "==", t, ("k", v))) is False:
                        continue
                    st2 = s2 if kn is not None else s2.fact(("op", "==", t, ("k", v)), True)
                else:
                    if kn is not None and kn in vals:
                        continue
                    st2 = s2.fact(("notin", t, tuple(sorted(vals))), True)
                outs += self.swrun(flat[idx:], st2)
            if not any(v is None for v, _ in labels):
                if kn is None or kn not in vals:
                    outs.append(("fall", None, s2.fact(("notin", t, tuple(sorted(vals))), True)))
        return outs

    def swrun(self, stmts, s):
        return [("fall", None, o[2]) if o[0] == "break" else o for o in self.block(stmts, s)]

    # ---- loops ---------------------------------------------------------
    def loop(self, n, s):
        self.loopn += 1
        L = ("L", n.F.u if n.F else "", n.i)
        outs = []
        if n.k == "CXXForRangeStmt":
            rng = n.get("range")
            for t, s1 in self.ev(rng, s):
                lv = n.get("lvar")
                outs += self.iterate(n, L, s1, n.get("body"), None, None, (lv, t))
            return outs
        starts = [s]
        if n.k == "ForStmt" and n.get("init") is not None:
            starts = [o[2] for o in self.stmt(n.get("init"), s) if o[0] == "fall"]
        cond, body, inc = n.get("cond"), n.get("body"), n.get("inc")
        if n.k == "DoStmt":
            body, cond = n.c[0], n.c[-1]
        for x in starts:
            outs += self.iterate(n, L, x, body, cond, inc, None)
        return outs

    def stepped(self, *nodes):
        """Locals incremented, and locals otherwise assigned, under the nodes."""
        inc, asg = set(), set()
        for nd in nodes:
            if nd is None:
                continue
            for x in nd.F.walk(nd):
                t = None
                if x.k in ("UnaryOperator",) and x.op in ("++", "--"):
                    t, kind = strip(x.c[0]), inc if x.op == "++" else asg
                elif x.k == "CXXOperatorCallExpr" and x.op in ("++", "--") and len(x.c) > 1:
                    t, kind = strip(x.c[1]), inc if x.op == "++" else asg
                elif x.k in ("BinaryOperator", "CompoundAssignOperator") and x.op in ("=", "+=", "-=", "|=", "&=", "^=", "*=", "/="):
                    t, kind = strip(x.c[0]), asg
                elif x.k == "CXXOperatorCallExpr" and x.op in ("=", "+=", "-=") and len(x.c) > 1:
                    t, kind = strip(x.c[1]), asg
                if t is not None and t.k == "DeclRefExpr":
                    kind.add(t.d)
        return inc, asg

    def iterate(self, n, L, s, body, cond, inc, rng):
        incd, asgd = self.stepped(body, inc, cond)
        bodyinc = self.stepped(body)[0] - self.stepped(inc, cond)[0]
        if cond is not None:
            bodyinc -= {x.d for x in cond.F.walk(cond) if x.k == "DeclRefExpr"}
        env = dict(s.env)
        bools = []
        for d in list(env):
            if d in asgd:
                if env[d] in (K0, K1) and getattr(d, "t", "") in ("bool", "bool &"):
                    bools.append((d, env[d]))
                elif d not in incd:
                    env[d] = ("acc", L, env[d], getattr(d, "n", ""))
            elif d in incd:
                v = env[d]
                if v == K0:
                    env[d] = ("idx", L)
                elif isinstance(v, tuple) and v and v[0] == "iter" and v[2] == "begin":
                    env[d] = ("iter", v[1], L)
                else:
                    env[d] = ("acc", L, v, getattr(d, "n", ""))
        if rng is not None:
            env[rng[0]] = ("elem", rng[1], L)
        s1 = s.with_env(env)
        covers = []
        outs = []
        endless = False         # left by a break or return only
        if rng is not None:
            covers.append(rng[1])
            entered = [s1]
        elif cond is None:
            entered = [s1]
            endless = True
        else:
            entered = []
            cs = self.cond(cond, s1)
            endless = all(v and len(x.facts) == len(s1.facts) for v, x in cs)
            for v, x in cs:
                if v:
                    entered.append(x)
                    for f, tv in x.facts[len(s1.facts):]:
                        c = self.cover(f, tv, L)
                        if c is not None and c not in covers:
                            covers.append(c)
                        elif c is None and not self.is_bound_fact(f):
                            covers.append(None)
            conj = set(covers)
            if None in conj:
                covers = []
        # an accumulator that can recover makes the loop say nothing about its elements
        for d, v in bools:
            other = K0 if v == K1 else K1
            if not any(k in ("fall", "continue") and x.env.get(d) == other
                       for e in entered for k, val, x in self.stmt(body, e)):
                continue
            for e in entered:
                for k, val, x in self.stmt(body, e.bind(d, other)):
                    if k in ("fall", "continue") and x.env.get(d) == v:
                        covers = []
        for e in entered:
            for k, val, x in self.stmt(body, e):
                if k in ("fall", "continue"):
                    ys = [x]
                    if inc is not None:
                        ys = [y for _, y in self.ev(inc, x)]
                    for y in ys:
                        env2 = dict(y.env)
                        for d in list(env2):
                            if d in incd and d in env and isinstance(env[d], tuple) and env[d][0] == "iter":
                                env2[d] = ("iter", env[d][1], ("after", L))
                            elif d in incd and d in env and d in bodyinc and s.env.get(d) == K0:
                                env2[d] = K0 if y.env.get(d) == env[d] else ("counted", L)
                            elif d in incd and d in env:
                                env2[d] = ("after", L, env[d])
                        # elements read past the loop's own bound
                        y = y.with_env(env2)
                        y = y.event(("loop", L, tuple(covers), n))
                        outs.append(("fall", None, y) if not endless else ("endless", None, y))
                elif k == "break":
                    outs.append(("fall", None, x.event(("brk", L, n))))
                else:
                    outs.append((k, val, x))
        if all(o[0] == "endless" for o in outs):
            return [("fall",) + o[1:] for o in outs]
        return [o for o in outs if o[0] != "endless"]

    @staticmethod
    def is_bound_fact(f):
        return False

    @staticmethod
    def cover(f, tv, L):
        """The container fully covered by a loop L whose continuation condition is (f == tv)."""
        if f[0] == "op":
            if f[1] == "<" and tv and f[2] == ("idx", L) and f[3][0] == "size":
                return f[3][1]
            if f[1] == "<=" and not tv and f[3] == ("idx", L) and f[2][0] == "size":
                return f[2][1]
            if f[1] == "==" and not tv:
                a, b = f[2], f[3]
                for a, b in ((a, b), (b, a)):
                    if a == ("idx", L) and b[0] == "size":
                        return b[1]
                    if a[0] == "iter" and a[2] == L and b[0] == "iter" and b[2] == "end" and a[1] == b[1]:
                        return a[1]
        return None

    # ---- conditions ----------------------------------------------------
    def is_bool(self, n):
        m = n
        while m is not None and m.k in TRANSPARENT and m.c:
            if m.t in ("bool", "const bool"):
                return True
            m = m.c[0]
        return m is not None and m.t in ("bool", "const bool")

    def cond(self, n, s):
        """-> list of (bool, state)"""
        self.tick()
        if n is None:
            return [(True, s)]
        while n.k in TRANSPARENT and n.c:
            n = n.c[0]
        if n.k == "CXXConstructExpr" and len(n.c) == 1 and n.t in ("bool",):
            return self.cond(n.c[0], s)
        if n.k == "BinaryOperator" and n.op == "&&":
            r = []
            for v, x in self.cond(n.c[0], s):
                r += self.cond(n.c[1], x) if v else [(False, x)]
            return r
        if n.k == "BinaryOperator" and n.op == "||":
            r = []
            for v, x in self.cond(n.c[0], s):
                r += [(True, x)] if v else self.cond(n.c[1], x)
            return r
        if n.k == "UnaryOperator" and n.op == "!":
            return [(not v, x) for v, x in self.cond(n.c[0], s)]
        if n.k == "ConditionalOperator":
            r = []
            for v, x in self.cond(n.c[0], s):
                r += self.cond(n.c[1] if v else n.c[2], x)
            return r
        if n.k == "BinaryOperator" and n.op in ("&", "|") and self.is_bool(n.c[0]) and self.is_bool(n.c[1]):
            r = []
            for v, x in self.cond(n.c[0], s):
                for w, y in self.cond(n.c[1], x):
                    r.append(((v and w) if n.op == "&" else (v or w), y))
            return r
        if n.k == "BinaryOperator" and n.op == "," :
            r = []
            for v, x in self.ev(n.c[0], s):
                r += self.cond(n.c[1], x)
            return r
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ("=", "&=", "|=") and self.is_bool(n.c[0]):
            return [(v == K1, x) for v, x in self.ev(n, s) if v in (K0, K1)]
        r = []
        for t, x in self.ev(n, s):
            r += self.branch(t, x)
        return r

    def branch(self, t, s):
        if t[0] == "counted" or (t[0] == "nn" and t[1][0] == "counted"):
            return [(True, s)]
        if t[0] == "op" and t[1] in ("==", "!=", "<", ">") and len(t) == 4 and K0 in t[2:] and \
                any(x[0] == "counted" for x in t[2:]):
            c = t[2][0] == "counted"
            return [({"==": False, "!=": True, "<": not c, ">": c}[t[1]], s)]
        if t == K1:
            return [(True, s)]
        if t == K0 or t == KNULL:
            return [(False, s)]
        if t[0] == "k":
            return [(t[1] not in ("0", "null"), s)]
        if t[0] == "op" and t[1] == "!":
            return [(not v, x) for v, x in self.branch(t[2], s)]
        if t[0] == "op" and t[1] == "!=":
            return [(not v, x) for v, x in self.branch(("op", "==", t[2], t[3]), s)]
        if t[0] == "op" and t[1] in (">", ">="):
            t = ("op", {">": "<", ">=": "<="}[t[1]], t[3], t[2])
        if t[0] == "op" and t[1] == "==":
            a, b = t[2], t[3]
            if a == b and a[0] != "call":
                return [(True, s)]
            if a[0] == "k" and b[0] == "k" and a[1] != b[1]:
                return [(False, s)]
            if a == KNULL:
                a, b = b, a
            if b == KNULL:
                return [(not v, x) for v, x in self.branch(("nn", a), s)]
            if a[0] == "k":
                a, b = b, a
            t = ("op", "==", a, b)
            sym = ("op", "==", b, a)
            v = s.truth(sym)
            if v is not None:
                return [(v, s)]
        elif t[0] not in ("nn", "op", "call", "notin"):
            t = ("nn", t)
        v = s.truth(t)
        if v is not None:
            return [(v, s)]
        return [(True, s.fact(t, True)), (False, s.fact(t, False))]

    # ---- expressions ---------------------------------------------------
    def evs(self, nodes, s):
        """-> list of (tuple of terms, state)"""
        r = [((), s)]
        for n in nodes:
            nx = []
            for ts, x in r:
                for t, y in self.ev(n, x):
                    nx.append((ts + (t,), y))
            r = nx
            if len(r) > self.max_paths:
                raise TooComplex()
        return r

    def ev(self, n, s):
        self.tick()
        if n is None:
            return [(("none",), s)]
        k = n.k
        if n.cv is not None and k not in ("DeclRefExpr",):
            return [(("k", n.cv), s)]
        if k in TRANSPARENT:
            if not n.c:
                return [(("opaque", n.F.u, n.i), s)]
            if k == "ImplicitCastExpr" and n.get("ck") == "NullToPointer":
                return [(KNULL, s)]
            return self.ev(n.c[0], s)
        if k in ("IntegerLiteral", "CXXBoolLiteralExpr", "CharacterLiteral", "StringLiteral", "FloatingLiteral"):
            return [(("k", n.v), s)]
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return [(KNULL, s)]
        if k == "CXXThisExpr":
            return [(s.env.get("this", ("root", "this")), s)]
        if k == "DeclRefExpr":
            d = n.d
            if d in s.env:
                return [(s.env[d], s)]
            if n.cv is not None:
                return [(("k", n.cv), s)]
            if d.k == "EnumConstant":
                return [(("k", d.get("v")), s)]
            return [(("var", d.q or d.n, d.u if d.k in ("Var", "ParmVar") and not d.get("gs") else ""), s)]
        if k == "MemberExpr":
            if n.d is not None and n.d.k == "Field":
                r = []
                for b, x in self.ev(n.c[0], s):
                    b = undyn(b)
                    if b[0] == "tup" and n.d.n in ("first", "second") and len(b) == 3:
                        r.append((b[1] if n.d.n == "first" else b[2], x))
                        continue
                    t = ("fld", b, n.d.n)
                    v = x.heap.get(t)
                    r.append((v, x) if v is not None else (t, x.read(t)))
                return r
            if n.d is not None and n.d.k == "Var":
                return [(("var", n.d.q, ""), s)]
            return self.ev(n.c[0], s) if n.c else [(("opaque", n.F.u, n.i), s)]
        if k == "UnaryOperator":
            if n.op in ("*", "&", "+", "__extension__"):
                r = []
                for t, x in self.ev(n.c[0], s):
                    if n.op == "*" and t[0] == "iter":
                        t = ("elem", t[1], t[2])
                    r.append((t, x))
                return r
            if n.op in ("++", "--"):
                return self.incr(n.c[0], s, n.op, n.get("post"))
            if n.op == "!":
                return [(K0 if v else K1, x) for v, x in self.cond(n.c[0], s)]
            return [(("op", "u" + n.op, t), x) for t, x in self.ev(n.c[0], s)]
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            return self.binop(n, s)
        if k == "ConditionalOperator":
            r = []
            for v, x in self.cond(n.c[0], s):
                r += self.ev(n.c[1] if v else n.c[2], x)
            return r
        if k == "BinaryConditionalOperator":
            return [(("opaque", n.F.u, n.i), s)]
        if k == "CXXDynamicCastExpr":
            r = []
            for t, x in self.ev(n.c[0], s):
                ty = n.t.replace("const ", "").replace("*", "").replace("&", "").strip()
                if t == KNULL:
                    r.append((KNULL, x))
                elif n.t.rstrip().endswith("*"):
                    r.append((("dyn", ty, undyn(t)), x))
                else:
                    r.append((undyn(t), x.fact(("nn", ("dyn", ty, undyn(t))), True)))
            return r
        if k == "CXXTypeidExpr":
            if n.c and n.c[0] is not None:
                return [(("typeid", undyn(t)), x) for t, x in self.ev(n.c[0], s)]
            return [(("typeidc", n.get("ct") or ""), s)]
        if k == "LambdaExpr":
            env = dict(s.env)
            return [(("lam", id(n), n, tuple()), s.bind(("lamenv", id(n)), _Box(env)))]
        if k == "InitListExpr":
            r = []
            for ts, x in self.evs(n.c, s):
                r.append((ts[0] if len(ts) == 1 and not self.is_rec(n.t) else ("list",) + ts, x))
            return r
        if k == "CXXNewExpr":
            for c in n.c:
                if c is not None and strip(c) is not None and strip(c).k in ("CXXConstructExpr",):
                    return self.construct(strip(c), s)
            return [(("opaque", n.F.u, n.i), s)]
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.construct(n, s)
        if k == "ArraySubscriptExpr":
            return [(("elem", ts[0], self.key(ts[1])), x) for ts, x in self.evs(n.c[:2], s)]
        if k in ("CXXMemberCallExpr", "CXXOperatorCallExpr", "CallExpr", "UserDefinedLiteral"):
            return self.call(n, s)
        if k == "CXXThrowExpr":
            return []
        if k == "ImplicitValueInitExpr" or k == "CXXScalarValueInitExpr":
            return [(K0, s)]
        if k == "CXXDefaultInitExpr":
            return self.ev(n.c[0], s) if n.c else [(("opaque", n.F.u, n.i), s)]
        if k == "UnaryExprOrTypeTraitExpr":
            return [(("sizeof", n.t), s)]
        if k == "StmtExpr":
            return [(("opaque", n.F.u, n.i), s)]
        return [(("opaque", n.F.u if n.F else "", n.i), s)]

    @staticmethod
    def is_rec(t):
        return not (t.endswith("*") or t in ("int", "bool", "long", "unsigned int", "unsigned long", "double", "float"))

    @staticmethod
    def key(t):
        return t[1] if t[0] == "idx" else t

    def incr(self, target, s, op, post):
        m = strip(target)
        r = []
        if m.k == "DeclRefExpr":
            v = s.env.get(m.d, ("var", m.d.n, m.d.u))
            if v[0] == "iter":
                nv = ("iter", v[1], ("+", v[2])) if op == "++" else ("iter", v[1], ("-", v[2]))
            elif v[0] == "k" and v[1].lstrip("-").isdigit():
                nv = ("k", str(int(v[1]) + (1 if op == "++" else -1)))
            else:
                nv = ("op", op[0], v, K1)
            s2 = s.bind(m.d, nv)
            return [((v if post else nv), s2)]
        for t, x in self.ev(target, s):
            nv = ("op", op[0], t, K1)
            r.append(((t if post else nv), x.store(t, nv).event(("store", t, nv, target))))
        return r

    def binop(self, n, s):
        op = n.op
        if op == "=":
            return self.assign(n.c[0], n.c[1], s, n)
        if op in ("&&", "||"):
            return [(K1 if v else K0, x) for v, x in self.cond(n, s)]
        if op == ",":
            r = []
            for v, x in self.ev(n.c[0], s):
                r += self.ev(n.c[1], x)
            return r
        if n.k == "CompoundAssignOperator":
            l = strip(n.c[0])
            base = op[:-1]
            if l.k == "DeclRefExpr" and l.d.t in ("bool", "bool &") and base in ("&", "|"):
                r = []
                cur = s.env.get(l.d)
                for v, x in self.cond(n.c[1], s):
                    if cur in (K0, K1):
                        nv = (cur == K1 and v) if base == "&" else (cur == K1 or v)
                        r.append((K1 if nv else K0, x.bind(l.d, K1 if nv else K0)))
                    else:
                        r.append((("opaque", n.F.u, n.i), x.bind(l.d, ("opaque", n.F.u, n.i))))
                return r
            r = []
            for (a, b), x in self.evs([n.c[0], n.c[1]], s):
                nv = ("op", base, a, b)
                if l.k == "DeclRefExpr":
                    r.append((nv, x.bind(l.d, nv)))
                else:
                    r.append((nv, x.store(a, nv).event(("store", a, nv, n))))
            return r
        r = []
        for (a, b), x in self.evs(n.c[:2], s):
            r.append((self.mkop(op, a, b), x))
        return r

    @staticmethod
    def mkop(op, a, b):
        if op in (">", ">="):
            op, a, b = {">": "<", ">=": "<="}[op], b, a
        return ("op", op, a, b)

    def assign(self, ln, rn, s, n):
        l = strip(ln)
        r = []
        if l.k == "DeclRefExpr":
            byval = l.d.k == "ParmVar" and s.env.get(l.d, ("?",))[0] in ("k", "built", "new", "op", "acc", "undef", "call")
            if (l.d.t == "bool" or (byval and l.d.t == "bool &")) and self.is_bool(rn):
                return [(K1 if v else K0, x.bind(l.d, K1 if v else K0)) for v, x in self.cond(rn, s)]
            if (l.d.t.rstrip().endswith("&") and not byval) or l.d.get("gs"):
                for (a, b), x in self.evs([ln, rn], s):
                    r.append((b, x.store(a, b).event(("store", a, b, n))))
                return r
            return [(v, x.bind(l.d, v)) for v, x in self.ev(rn, s)]
        for (b, a), x in self.evs([rn, ln], s):
            # the target as a place, not its current value
            place = self.place(ln, x)
            a = place if place is not None else a
            r.append((b, x.store(a, b).event(("store", a, b, n))))
        return r

    def place(self, n, s):
        m = strip(n)
        if m is None:
            return None
        if m.k == "MemberExpr" and m.d is not None and m.d.k == "Field" and m.c:
            bs = self.ev(m.c[0], s)
            if bs:
                return ("fld", undyn(bs[0][0]), m.d.n)
        return None

    def construct(self, n, s):
        fn = n.fn
        r = []
        args = [c for c in n.c]
        if fn is not None and fn.get("ctor") in ("copy", "move") and len(args) >= 1:
            return self.ev(args[0], s)
        tname = n.t.replace("const ", "")
        if tname.startswith(("std::shared_ptr", "std::unique_ptr", "std::optional", "std::reference_wrapper",
                             "std::function", "std::basic_string_view", "__gnu_cxx::", "std::_List", "std::__detail",
                             "std::_Rb")) or tname in ("std::basic_string<char>", "std::string"):
            real = [a for a in args if a is not None and a.k != "CXXDefaultArgExpr"]
            if len(real) == 1:
                return self.ev(real[0], s)
            if not real:
                return [(KNULL if "ptr" in tname or "optional" in tname else ("new", tname, ()), s)]
        if tname.startswith(("std::vector", "std::list", "std::set", "std::map", "std::unordered")) and args:
            real = [a for a in args if a is not None and a.k != "CXXDefaultArgExpr"]
            if len(real) == 1 and strip(real[0]) is not None:
                return self.ev(real[0], s)
            for ts, x in self.evs(real, s):
                if len(ts) == 2 and ts[0][0] == "iter" and ts[1][0] == "iter" and ts[0][1] == ts[1][1] \
                        and ts[0][2] == "begin" and ts[1][2] == "end":
                    r.append((ts[0][1], x))
                else:
                    r.append((("new", tname, ts), x))
            return r
        if tname.startswith(("std::pair", "std::tuple")) and len(args) >= 1:
            for ts, x in self.evs(args, s):
                r.append((ts[0] if len(ts) == 1 else ("tup",) + ts, x))
            return r
        for ts, x in self.evs(args, s):
            t = ("new", tname, ts)
            r.append((t, x.event(("new", fn.u if fn else "", ts, n, tname))))
        return r

    def call(self, n, s):
        fn = n.fn
        obj, args = call_parts(n)
        q = fn.q if fn is not None else ""
        nm = fn.n if fn is not None else ""
        # operators
        if n.k == "CXXOperatorCallExpr":
            op = n.op
            allargs = n.c[1:]
            if op in ("->", "*") and len(allargs) == 1:
                r = []
                for t, x in self.ev(allargs[0], s):
                    if t[0] == "iter":
                        t = ("elem", t[1], t[2])
                    r.append((t, x))
                return r
            if op == "[]" and (q.startswith("std::") or fn is None or fn.u not in self.prog.fns):
                return [(("elem", ts[0], self.key(ts[1])), x) for ts, x in self.evs(allargs[:2], s)]
            if op in ("++", "--"):
                return self.incr(allargs[0], s, op, len(allargs) > 1)
            if op == "=" and (q.startswith("std::") or (fn is not None and fn.get("asg"))):
                return self.assign(allargs[0], allargs[1], s, n)
            if op == "()":
                return self.callable(n, allargs, s)
            if op == "<<" and "basic_ostream" in n.t and (fn is None or fn.u not in self.prog.fns or q.startswith("std::")):
                sv = self.streamvar(n)
                if sv is not None:
                    r = []
                    for ts, x in self.evs(allargs[:2], s):
                        v = ("cat", x.env.get(sv, ts[0]), ts[1])
                        r.append((v, x.bind(sv, v)))
                    return r
            if op in ("==", "!=", "<", ">", "<=", ">="):
                if not (fn is not None and fn.u in self.prog.fns and not q.startswith("std::")
                        and self.may_inline(fn, n, obj)):
                    return [(self.mkop(op, ts[0], ts[1]), x) for ts, x in self.evs(allargs[:2], s)]
            elif op == "!" and len(allargs) == 1:
                return [(K0 if v else K1, x) for v, x in self.cond(allargs[0], s)]
            elif fn is None or fn.u not in self.prog.fns:
                return [(("op", op) + ts, x) for ts, x in self.evs(allargs, s)]
        if q in PASS or nm in ("shared_from_this", "shared"):
            src = args[0] if args and nm not in ("shared_from_this", "shared") else obj
            if src is not None:
                return self.ev(src, s)
        if nm in ("operator bool",) and obj is not None:
            return [(t, x) for t, x in self.ev(obj, s)]
        if q.startswith(("std::", "__gnu_cxx::", "boost::")) or fn is None or fn.u not in self.prog.fns:
            return self.libcall(n, q, nm, obj, args, s)
        return self.usercall(n, fn, obj, args, s)

    def libcall(self, n, q, nm, obj, args, s):
        r = []
        if obj is None and q == "std::swap" and len(args) == 2:
            a, b = strip(args[0]), strip(args[1])
            if all(m is not None and m.k == "DeclRefExpr" and m.d.k in ("Var", "ParmVar") and
                   not m.d.t.rstrip().endswith("&") and not m.d.get("gs") for m in (a, b)):
                return [(("void",), x.bind(a.d, vb).bind(b.d, va)) for (va, vb), x in self.evs([a, b], s)]
        if obj is not None:
            if nm in ("get", "value", "front") and not args and nm != "front":
                return self.ev(obj, s)
            if nm == "str" and not args and "stringstream" in q:
                return self.ev(obj, s)
            if nm in BEGIN | END and not args:
                for t, x in self.ev(obj, s):
                    r.append((("iter", t, "begin" if nm in BEGIN else "end"), x))
                return r
            if nm in SIZE and not args:
                return [(("size", t), x) for t, x in self.ev(obj, s)]
            if nm == "empty" and not args:
                return [(("op", "==", ("size", t), K0), x) for t, x in self.ev(obj, s)]
            if nm == "at" and len(args) == 1:
                return [(("elem", ts[0], self.key(ts[1])), x) for ts, x in self.evs([obj, args[0]], s)]
            if nm == "has_value" and not args:
                return [(("nn", t), x) for t, x in self.ev(obj, s)]
            if nm in ("push_back", "emplace_back", "push_front", "emplace_front"):
                m = strip(obj)
                if m is not None and m.k == "DeclRefExpr":
                    for ts, x in self.evs([obj] + list(args), s):
                        v = ts[1] if len(ts) == 2 else ("tup",) + ts[1:]
                        r.append((v, x.bind(m.d, ("built", ts[0], v, nm))))
                    return r
            if nm == "back" and not args:
                for t, x in self.ev(obj, s):
                    r.append((t[2] if t[0] == "built" and t[3].endswith("back") else ("call", nm, t, ()), x))
                return r
            if nm in ("reserve", "shrink_to_fit"):
                return [(("void",), x) for t, x in self.ev(obj, s)]
            for ts, x in self.evs([obj] + list(args), s):
                t = ("call", nm, ts[0], ts[1:])
                x = x.event(("call", q or nm, ts[0], ts[1:], n))
                r.append((t, x))
            return r
        if nm in BEGIN | END and len(args) == 1:
            return [(("iter", t, "begin" if nm in BEGIN else "end"), x) for t, x in self.ev(args[0], s)]
        if q == "std::size" and len(args) == 1:
            return [(("size", t), x) for t, x in self.ev(args[0], s)]
        if q in ("std::tie", "std::make_pair", "std::make_tuple", "std::forward_as_tuple", "std::pair", "std::tuple"):
            return [(("tup",) + ts, x) for ts, x in self.evs(args, s)]
        if q in ("std::make_shared", "std::make_unique"):
            for ts, x in self.evs(args, s):
                ty = n.t
                i = ty.find("<")
                inner = ty[i + 1:-1].replace("const ", "") if i >= 0 else ty
                t = ("new", inner, ts)
                r.append((t, x.event(("new", "", ts, n, inner))))
            return r
        if q in ("std::static_pointer_cast", "std::const_pointer_cast"):
            return self.ev(args[0], s)
        if q == "std::dynamic_pointer_cast":
            return [(("dyn", n.t, undyn(t)), x) for t, x in self.ev(args[0], s)]
        if q in ("std::equal",):
            return self.stdequal(n, args, s)
        if q == "std::replace" and len(args) == 4:
            for ts, x in self.evs(args, s):
                if ts[0][0] != "iter" or ts[1] != ("iter", ts[0][1], "end") or ts[0][2] != "begin":
                    r.append((("void",), x.event(("call", q, None, ts, n))))
                    continue
                L = ("L", n.F.u, n.i)
                el = ("elem", ts[0][1], L)
                for v, y in self.branch(("op", "==", el, ts[2]), x):
                    if v:
                        y = y.store(el, ts[3]).event(("store", el, ts[3], n))
                    r.append((("void",), y.event(("loop", L, (ts[0][1],), n))))
            return r
        if q in ("std::transform", "std::for_each", "std::all_of", "std::any_of", "std::none_of") and len(args) >= 3:
            z = self.algorithm(n, q, args, s)
            if z is not None:
                return z
        if q == "std::get" and len(args) == 1:
            for t, x in self.ev(args[0], s):
                targ = n.fn.get("targs") if n.fn else None
                r.append((("call", "get:" + n.t, t, ()), x))
            return r
        for ts, x in self.evs(args, s):
            t = ("call", q or nm, None, ts)
            x = x.event(("call", q or nm, None, ts, n))
            r.append((t, x))
        return r

    def algorithm(self, n, q, args, s):
        r = []
        target = None
        if q == "std::transform":
            if len(args) != 4:
                return None
            out = strip(args[2])
            if out is not None and out.fn is not None and out.fn.q == "std::back_inserter":
                m = strip(out.c[1])
                if m is None or m.k != "DeclRefExpr":
                    return None
                target = m.d
        for ts, x in self.evs([args[0], args[1], args[-1]], s):
            if ts[0][0] != "iter" or ts[1][0] != "iter" or ts[0][1] != ts[1][1] or (ts[0][2], ts[1][2]) != ("begin", "end") \
                    or ts[2][0] != "lam":
                return None
            L = ("L", n.F.u, n.i)
            c = ts[0][1]
            for v, y in self.apply(ts[2], (("elem", c, L),), x, n):
                done = y.event(("loop", L, (c,), n))
                if q == "std::transform" and target is None:
                    for o, z in self.ev(args[2], y):
                        if o[0] != "iter" or o[2] != "begin":
                            return None
                        el = ("elem", o[1], L)
                        r.append((("void",), z.store(el, v).event(("store", el, v, n)).event(("loop", L, (c,), n))))
                elif q == "std::transform":
                    prev = y.env.get(target, ("new", "", ()))
                    r.append((("void",), done.bind(target, ("built", prev, v, "push_back"))))
                elif q == "std::for_each":
                    r.append((("void",), done))
                else:
                    for tv, w in ([(v == K1, y)] if v in (K0, K1) else self.branch(v, y)):
                        full = w.event(("loop", L, (c,), n))
                        if q == "std::all_of":
                            r.append((K1, full) if tv else (K0, w))
                        elif q == "std::any_of":
                            r.append((K1, w) if tv else (K0, full))
                        else:
                            r.append((K0, w) if tv else (K1, full))
        return r

    def stdequal(self, n, args, s):
        r = []
        iters, pred = list(args), None
        for ts, x in self.evs(args, s):
            its = [t for t in ts if t[0] == "iter"]
            preds = [t for t in ts if t[0] != "iter"]
            if len(its) not in (3, 4) or its[0][1] != its[1][1] or its[0][2] != "begin" or its[1][2] != "end" \
                    or its[2][2] != "begin" or (len(its) == 4 and (its[3][1] != its[2][1] or its[3][2] != "end")):
                t = ("call", "std::equal", None, ts)
                r.append((t, x))
                continue
            a, b = its[0][1], its[2][1]
            L = ("L", n.F.u, n.i)
            ea, eb = ("elem", a, L), ("elem", b, L)
            st = [x]
            if len(its) == 4:
                st = []
                for v, y in self.branch(("op", "==", ("size", a), ("size", b)), x):
                    if v:
                        st.append(y)
                    else:
                        r.append((K0, y))
            for y in st:
                if preds:
                    y = y.event(("elemread", ea, eb, n)) if len(its) == 3 else y
                    for v, z in self.apply(preds[0], (ea, eb), y, n):
                        for tv, w in self.branch(v, z) if v not in (K0, K1) else [(v == K1, z)]:
                            r.append((K1, w.event(("loop", L, (a,), n))) if tv else (K0, w))
                else:
                    y = y.event(("elemread", ea, eb, n)) if len(its) == 3 else y
                    for tv, w in self.branch(("op", "==", ea, eb), y):
                        r.append((K1, w.event(("loop", L, (a,), n))) if tv else (K0, w))
        return r

    @staticmethod
    def streamvar(n):
        """The local string stream a chain of << inserts into."""
        m = n
        while m is not None and m.k == "CXXOperatorCallExpr" and m.op == "<<":
            m = strip(m.c[1])
        if m is not None and m.k == "DeclRefExpr" and ("stringstream" in m.t or (m.d.k == "ParmVar" and "ostream" in m.t)):
            return m.d
        return None

    def callable(self, n, allargs, s):
        r = []
        for ts, x in self.evs(allargs, s):
            r += self.apply(ts[0], ts[1:], x, n)
        return r

    def apply(self, f, args, s, n):
        if f[0] == "lam":
            ln = f[2]
            cands = [ln.fn] if ln.fn is not None else []
            cands += ln.get("fns", []) or []
            if n.fn is not None and n.fn in cands:
                cands = [n.fn]
            for c in cands:
                G = self.prog.fns.get(c.u)
                if G is None or G.root is None or G.u in self.stack or len(self.stack) > self.max_depth:
                    continue
                box = s.env.get(("lamenv", f[1]))
                env = dict(box.env) if box is not None else {}
                cap = dict(s.env)
                cap.update({k: v for k, v in env.items() if k not in cap})
                e = {p: a for p, a in zip(G.params, args)}
                out = []
                for k, v, y in self.run(G, e, s.with_env(cap), cap.get("this", ("root", "this"))):
                    if k == "ret":
                        # captures by reference: keep writes to the enclosing locals
                        env2 = {d: y.env.get(d, val) for d, val in s.env.items()}
                        env2["this"] = s.env.get("this", ("root", "this"))
                        out.append((v, y.with_env(env2)))
                return out
        t = ("call", "()", f, args)
        return [(t, s.event(("call", "()", f, args, n)))]

    def may_inline(self, fn, n, obj):
        if fn.u in self.stack or len(self.stack) > self.max_depth:
            return False
        G = self.prog.fns.get(fn.u)
        if G is None or G.root is None:
            return False
        if self.opaque(fn, n, obj):
            return False
        if fn.get("virt"):
            me = strip(n.c[0]) if n.c else None
            if n.k == "CXXMemberCallExpr" and me is not None and me.get("qual"):
                return True
            if self.inline_virtual(fn, obj) is not None:
                return True
            return not self.prog.overriders.get(fn.u)
        return True

    def usercall(self, n, fn, obj, args, s):
        r = []
        inl = self.may_inline(fn, n, obj)
        if not inl:
            return self.opaquecall(n, fn, obj, args, s)
        G = self.prog.fns[fn.u]
        me = strip(n.c[0]) if n.c else None
        if fn.get("virt") and not (me is not None and me.get("qual")):
            alt = self.inline_virtual(fn, obj)
            if alt is not None:
                G = alt
        method = fn.k in ("CXXMethod", "CXXConversion") and not fn.get("static")
        nodes = ([obj] if method else []) + list(args)
        for ts, x in self.evs(nodes, s):
            this = undyn(ts[0]) if method else ("root", "nothis")
            av = ts[1:] if method else ts
            env = {p: a for p, a in zip(G.params, av)}
            saved = self.steps
            try:
                outs = self.run(G, env, x.with_env({k: v for k, v in x.env.items() if isinstance(k, tuple)}), this)
            except RecursionError:
                return self.opaquecall(n, fn, obj, args, s)
            for k, v, y in outs:
                if k == "ret":
                    env2 = dict(x.env)
                    # out-parameters bound to the caller's locals
                    for p, an in zip(G.params, args):
                        if p.t.rstrip().endswith("&") and not p.t.startswith("const "):
                            m = strip(an)
                            if m is not None and m.k == "DeclRefExpr" and y.env.get(p) is not None:
                                env2[m.d] = y.env[p]
                    r.append((v, y.with_env(env2)))
        return r

    def opaquecall(self, n, fn, obj, args, s):
        r = []
        nodes = ([obj] if obj is not None else []) + list(args)
        for ts, x in self.evs(nodes, s):
            o = ts[0] if obj is not None else None
            av = ts[1:] if obj is not None else ts
            t = ("call", fn.n if obj is not None else fn.q, undyn(o) if o is not None else None, av)
            r.append((t, x.event(("call", fn.q, o, av, n))))
        return r


class _Box:
    __slots__ = ("env",)

    def __init__(self, env):
        self.env = env
