"""C06: visitors dispatch every expression kind and reach every operand; rewriters and withType rebuild completely."""
from vlib import model, eqfacts, symx
from vlib.symx import KNULL, K0, K1
from . import exprs

E = ("root", "expr")
VISITOR = "hdk::ir::ExprVisitor"
REWRITER = "hdk::ir::ExprRewriter"
NOT_VISITED = {"hdk::ir::CardinalityEstimator"}         # estimators are not part of expression trees


def typ(t):
    return t.replace("const ", "").replace("&", "").replace("*", "").strip()


def operand_kind(t):
    """'one', 'list', 'pairs' or None for the type of a field holding sub-expressions."""
    b = t.replace("const ", "")
    ptr = "std::shared_ptr<hdk::ir::Expr>"
    if b == ptr:
        return "one"
    if ptr not in b:
        return None
    if b.startswith(("std::list<std::pair<", "std::vector<std::pair<")):
        return "pairs"
    if b.startswith(("std::list<", "std::vector<")):
        return "list"
    raise model.AnalysisBroken("unknown kind of operand field type " + t)


def run(ctx):
    ctx.rule = ("(a) ExprVisitor::visit sends each concrete kind to the handler for exactly that kind; (b) each default "
                "handler visits every operand field on every path (all elements of lists; optional operands only when "
                "present); (c) each handler of ExprRewriter returns either the unchanged expression with every operand "
                "found unchanged, or a new expression of the same kind whose constructor stores every rewritten operand "
                "and every old attribute in its own field; (d) withType keeps every field but the type")
    prog = exprs.load()
    kinds = [r for r in exprs.concrete(prog) if r.q not in NOT_VISITED and not r.q.endswith("Estimator")]
    byt = {r.q: r for r in kinds}
    visits = [F for F in prog.fns.values() if F.q.startswith(VISITOR + "<") and F.q.endswith(">::visit")]
    if not visits:
        raise model.AnalysisBroken("no instantiation of ExprVisitor::visit found")
    handlers = {}
    for F in visits:
        handlers[F.cls.u] = dispatch(ctx, prog, F, kinds)
    # (b)
    for F in visits:
        for rec, H in handlers[F.cls.u].items():
            walk(ctx, prog, F.cls, byt[rec], H)
    # (c)
    rw = prog.record(REWRITER)
    base = [b for b in rw.bases if b.u in handlers]
    if not base:
        raise model.AnalysisBroken("ExprRewriter is not based on an analysed visitor")
    for rec, H in handlers[base[0].u].items():
        G = eqfacts.effective(prog, rw, H.n) or prog.fns.get(H.u)
        cand = [prog.fns[m.u] for m in rw.methods if m.n == H.n and m.u in prog.fns]
        if cand:
            G = cand[0]
        rewrite(ctx, prog, rw, byt[rec], G)
    # (d)
    for rec in kinds:
        withtype(ctx, prog, rec)
    ctx.need("kinds dispatched", 30)
    ctx.need("operands walked", 40)
    ctx.need("rebuilt expressions", 20)
    ctx.need("fields preserved", 100)
    ctx.assumptions = ["handlers overridden in concrete visitors are not part of the default traversal",
                       "kinds whose constructor takes no type derive it from their operands"]


# ---- (a) ----------------------------------------------------------------
def is_handler(fn):
    return fn.get("virt") and fn.n.startswith("visit") and fn.n != "visit"


def dispatch(ctx, prog, F, kinds):
    I = symx.Interp(prog, opaque=lambda fn, n, o: is_handler(fn) or fn.n == "defaultResult")
    outs = I.run(F, {F.params[0]: E})
    res = {}
    for rec in kinds:
        anc = ancestors(prog, rec)
        paths = []
        for k, v, s in outs:
            ok = True
            for f, tv in s.facts:
                u = f
                if u[0] == "nn" and u[1] == E:
                    ok = ok and tv
                if u[0] == "nn" and u[1][0] == "dyn" and u[1][2] == E:
                    ok = ok and ((typ(u[1][1]) in anc) == tv)
                if u[0] == "op" and u[1] == "==" and u[2][0] == "typeid" and u[3][0] == "typeidc":
                    ok = ok and ((typ(u[3][1]) == rec.q) == tv)
            if ok:
                paths.append((k, v, s))
        name = rec.q.split("::")[-1]
        ctx.count("kinds dispatched")
        if not paths:
            ctx.report("%s:dispatch" % name, F.loc(), "%s does not handle %s: walking an expression that contains one fails"
                       % (F.q, name))
        for k, v, s in paths:
            h = None
            for e in s.ev:
                if e[0] == "call" and is_handler(e[4].fn):
                    h = e[4].fn
            if k != "ret" or h is None:
                ctx.report("%s:dispatch" % name, F.loc(), "%s does not handle %s: walking an expression that contains one "
                           "fails" % (F.q, name))
                continue
            want = typ(h.params[0].t) if h.params else ""
            if want != rec.q:
                ctx.report("%s:dispatch" % name, F.loc(), "%s sends a %s to %s, the handler for %s"
                           % (F.q, name, h.n, want))
                continue
            res[rec.q] = h
    return res


def ancestors(prog, rec):
    out = {rec.q}
    for b in rec.bases:
        br = prog.rec_by_u.get(b.u)
        if br:
            out |= ancestors(prog, br)
    return out


# ---- (b) ----------------------------------------------------------------
def operands(prog, rec):
    out = []
    for f in prog.all_fields(rec):
        k = operand_kind(f.t)
        if k and not (rec.q == "hdk::ir::Constant"):
            out.append((f, k))
    return out


def interp(prog, cls):
    rec = prog.rec_by_u.get(cls.u)

    def virt(fn, obj):
        if is_handler(fn) or fn.n == "defaultResult":
            own = [prog.fns[m.u] for m in rec.methods if m.n == fn.n and m.u in prog.fns] if rec else []
            return own[0] if own else prog.fns.get(fn.u)
        return None
    return symx.Interp(prog, opaque=lambda fn, n, o: fn.n in ("visit", "cast", "aggregateResult"), inline_virtual=virt)


def nullable_ops(prog, rec):
    """Optional operands: the expression's own hash tests them for presence."""
    H = eqfacts.effective(prog, rec, "hash")
    out = set()
    for k, v, s in symx.Interp(prog, opaque=lambda fn, n, o: fn.n in ("toString", "toHash") or fn.q == "hash").run(H, {}):
        for f, tv in s.facts:
            if f[0] == "nn" and f[1][0] == "fld" and f[1][1] == ("root", "this"):
                out.add(f[1][2])
    return out


def loops(s):
    """loop id -> containers completely covered, for loops left through their own condition only."""
    done, broken = {}, set()
    for e in s.ev:
        if e[0] == "loop":
            done.setdefault(e[1], set()).update(e[2])
        elif e[0] == "brk":
            broken.add(e[1])
    return {L: c for L, c in done.items() if L not in broken}


def walk(ctx, prog, cls, rec, h):
    H = prog.fns.get(h.u)
    name = rec.q.split("::")[-1]
    if H is None:
        raise model.AnalysisBroken("no body for handler " + h.q)
    nul = nullable_ops(prog, rec)
    for k, v, s in interp(prog, cls).run(H, {H.params[0]: E}):
        if k != "ret":
            continue
        seen = [e[3][0] for e in s.ev if e[0] == "call" and e[1].endswith("::visit") and e[3]]
        for f, kind in operands(prog, rec):
            ctx.count("operands walked")
            t = ("fld", E, f.n)
            if s.truth(("nn", t)) is False:
                continue
            if kind == "one":
                ok = t in seen
                if ok and f.n in nul and s.truth(("nn", t)) is not True:
                    ctx.report("%s:walk:%s:null" % (name, f.n), H.loc(), "%s visits the optional operand %s without testing "
                               "that it is present" % (H.q, f.n))
            else:
                ok = covered(s, seen, t, kind)
            if not ok:
                ctx.report("%s:walk:%s" % (name, f.n), H.loc(), "%s does not visit operand %s on every path" % (H.q, f.n))


def covered(s, seen, t, kind):
    for L, c in loops(s).items():
        if t not in c:
            continue
        el = ("elem", t, L)
        if kind == "list" and el in seen:
            return True
        if kind == "pairs" and ("fld", el, "first") in seen and ("fld", el, "second") in seen:
            return True
    return False


# ---- constructors -------------------------------------------------------
def pick_ctor(prog, rec, node, nargs):
    cands = []
    for m in rec.methods:
        if m.k != "CXXConstructor" or m.get("ctor") in ("copy", "move") or m.u not in prog.fns:
            continue
        ps = m.params
        least = len([p for p in ps if not p.get("da")])
        if least <= nargs <= len(ps):
            cands.append(m)
    if not cands:
        return None
    if len(cands) > 1:
        args = []
        if node is not None:
            args = node.c[1:] if node.k == "CallExpr" else node.c
            args = [a for a in args if a is not None]

        def score(m):
            return sum(1 for p, a in zip(m.params, args) if typ(p.t) == typ(a.t) or
                       ("shared_ptr" in p.t) == ("shared_ptr" in a.t) and ("vector" in p.t) == ("vector" in a.t) and
                       ("list" in p.t) == ("list" in a.t) and ("*" in p.t) == ("*" in a.t) and
                       (typ(p.t) == "bool") == (typ(a.t) == "bool"))
        cands.sort(key=score, reverse=True)
        if score(cands[0]) == score(cands[1]):
            raise model.AnalysisBroken("cannot tell which constructor of %s is called" % rec.q)
    return prog.fns[cands[0].u]


NEW = ("root", "new")


def fields_of_new(prog, rec, term, s):
    """Field values of a freshly built object, per constructor path: list of (dict, state)."""
    node, u = None, ""
    for e in s.ev:
        if e[0] == "new" and e[2] == term[2] and typ(e[4]) == typ(term[1]):
            node, u = e[3], e[1]
    C = prog.fns.get(u) if u else None
    if C is None:
        C = pick_ctor(prog, rec, node, len(term[2]))
    if C is None:
        raise model.AnalysisBroken("no constructor of %s with %d arguments found" % (rec.q, len(term[2])))
    env = {}
    for i, p in enumerate(C.params):
        env[p] = term[2][i] if i < len(term[2]) else ("default", p.n)
    I = symx.Interp(prog, opaque=lambda fn, n, o: fn.n in ("visit", "cast", "ctx", "boolean", "int32", "text"))
    base = symx.St({}, dict(s.heap), s.facts, (), frozenset())
    out = []
    for k, v, s2 in I.run(C, env, base, NEW):
        if k != "ret":
            continue
        vals = {}
        for f in prog.all_fields(rec):
            vals[f.n] = s2.heap.get(("fld", NEW, f.n))
        # stores made by the caller into the new object afterwards
        for t, val in s.heap.items():
            if t[0] == "fld" and t[1] == term:
                vals[t[2]] = val
        out.append((vals, s2))
    return C, out


def same_value(v, old, s):
    if v == old:
        return True
    if v in (K0, K1):
        return s.truth(("nn", old)) is (v == K1)
    if v == KNULL:
        return s.truth(("nn", old)) is False
    return False


_AGG = {}


def agg_values(prog, rec):
    """What the constructors of rec can store in the aggregate flag."""
    if rec.q not in _AGG:
        r = set()
        for m in rec.methods:
            if m.k == "CXXConstructor" and m.get("ctor") not in ("copy", "move") and m.u in prog.fns:
                C = prog.fns[m.u]
                I = symx.Interp(prog, opaque=lambda fn, n, o: True)
                for k, v, s in I.run(C, {p: ("root", p.n) for p in C.params}, None, NEW):
                    r.add(s.heap.get(("fld", NEW, "contains_agg_")))
        _AGG[rec.q] = r
    return _AGG[rec.q]


def loses_agg(prog, rec, new, old, s):
    return (new is None or new[0] == "k") and agg_values(prog, rec) != {new} and not same_value(new, old, s)


def takes_type(C):
    return any(typ(p.t) == "hdk::ir::Type" for p in C.params)


# ---- (c) ----------------------------------------------------------------
def visited(t):
    return ("call", "visit", ("root", "this"), (t,))


def unchanged(s, t, kind):
    if s.truth(("nn", t)) is False:
        return True

    def eq(a):
        v = visited(a)
        return s.truth(("op", "==", v, a)) is True or s.truth(("op", "==", a, v)) is True
    if kind == "one":
        return eq(t)
    for L, c in loops(s).items():
        if t in c:
            el = ("elem", t, L)
            if kind == "list" and eq(el):
                return True
            if kind == "pairs" and eq(("fld", el, "first")) and eq(("fld", el, "second")):
                return True
    return False


def rewritten(v, s, t, kind):
    """Is v the rewritten form of operand t?"""
    if s.truth(("nn", t)) is False:
        return v == KNULL or v == t
    if v == t and unchanged(s, t, kind):
        return True
    if kind == "one":
        return v == visited(t)
    if v is not None and v[0] == "built" and v[3].endswith("_back") and v[1][0] in ("new", "list") and not any(v[1][2:]):
        lc = loops(s)
        for L, c in lc.items():
            if t in c:
                el = ("elem", t, L)
                if kind == "list" and v[2] == visited(el):
                    return True
                if kind == "pairs" and v[2] == ("tup", visited(("fld", el, "first")), visited(("fld", el, "second"))):
                    return True
    return False


def rewrite(ctx, prog, rw, rec, G):
    name = rec.q.split("::")[-1]
    if G is None:
        raise model.AnalysisBroken("no rewriting handler for " + rec.q)
    ops = operands(prog, rec)
    opn = {f.n: k for f, k in ops}
    for k, v, s in interp(prog, rw.decl).run(G, {G.params[0]: E}):
        if k != "ret":
            continue
        ctx.count("rewriter paths")
        if v == E:
            for f, kind in ops:
                ctx.count("operands rewritten")
                if not unchanged(s, ("fld", E, f.n), kind):
                    ctx.report("%s:rewrite:%s" % (name, f.n), G.loc(), "%s returns the old expression although its operand %s "
                               "may have been rewritten" % (G.q, f.n))
            continue
        if v[0] == "call" and v[1] == "cast" and name == "UOper":
            opt = ("fld", E, "op_type_")
            kcast = dict(prog.enums.get("hdk::ir::OpType", [])).get("kCast")
            dic = ("fld", E, "is_dict_intersection_")
            isdic = s.truth(("nn", dic)) is False or dic in v[3]
            if v[2] == visited(("fld", E, "operand_")) and v[3] and v[3][0] == ("fld", E, "type_") and isdic and \
                    s.truth(("op", "==", opt, ("k", str(kcast)))) is True:
                ctx.count("rebuilt expressions")
                continue
        if v[0] != "new" or typ(v[1]) != rec.q:
            ctx.report("%s:rewrite:kind" % name, G.loc(), "%s can turn a %s into something else (%s)"
                       % (G.q, name, symx.show(v)))
            continue
        ctx.count("rebuilt expressions")
        C, objs = fields_of_new(prog, rec, v, s)
        for vals, s2 in objs:
            for f in prog.all_fields(rec):
                if f.n == "hash_":
                    continue
                old, new = ("fld", E, f.n), vals[f.n]
                ctx.count("fields preserved")
                if f.n in opn:
                    if not rewritten(new, s, old, opn[f.n]):
                        ctx.report("%s:rewrite:%s" % (name, f.n), G.loc(), "%s rebuilds the expression with an operand %s that "
                                   "is not its rewritten operand (%s)" % (G.q, f.n, symx.show(new)))
                elif f.n == "type_" and (not takes_type(C) or rec.q in exprs.FIXED_TYPE):
                    continue
                elif f.n == "contains_agg_":
                    if loses_agg(prog, rec, new, old, s):
                        ctx.report("%s:rewrite:%s" % (name, f.n), G.loc(), "%s loses the aggregate flag" % G.q)
                elif not same_value(new, old, s):
                    ctx.report("%s:rewrite:%s" % (name, f.n), G.loc(), "%s rebuilds the expression with %s = %s instead of the "
                               "old value" % (G.q, f.n, symx.show(new) if new else "(unset)"))


# ---- (d) ----------------------------------------------------------------
def withtype(ctx, prog, rec):
    W = eqfacts.effective(prog, rec, "withType")
    name = rec.q.split("::")[-1]
    if W is None:
        raise model.AnalysisBroken("no withType for " + rec.q)
    T = ("root", "new_type")
    THIS = ("root", "this")
    I = symx.Interp(prog, opaque=lambda fn, n, o: fn.n in ("cast",) or (fn.n == "equal" and fn.q.startswith("hdk::ir::Type")))
    for k, v, s in I.run(W, {W.params[0]: T}):
        if k != "ret":
            continue
        ctx.count("withType paths")
        if v == THIS:
            ty = ("fld", THIS, "type_")
            eq = [f for f, tv in s.facts if tv and (f in (("call", "equal", ty, (T,)), ("call", "equal", T, (ty,)),
                                                           ("op", "==", ty, T), ("op", "==", T, ty)))]
            if not eq and rec.q not in exprs.FIXED_TYPE:
                ctx.report("%s:withType:same" % name, W.loc(), "%s can return the unchanged expression although its type "
                           "differs from the requested one" % W.q)
            continue
        if v[0] == "call" and v[1] == "cast":
            if v[2] != THIS or v[3][0] != T:
                ctx.report("%s:withType:cast" % name, W.loc(), "%s casts something else" % W.q)
            continue
        if v[0] != "new" or typ(v[1]) != rec.q:
            ctx.report("%s:withType:kind" % name, W.loc(), "%s can return an expression of another kind" % W.q)
            continue
        C, objs = fields_of_new(prog, rec, v, s)
        for vals, s2 in objs:
            for f in prog.all_fields(rec):
                if f.n == "hash_":
                    continue
                old, new = ("fld", THIS, f.n), vals[f.n]
                ctx.count("fields preserved")
                if f.n == "type_":
                    if takes_type(C) and rec.q not in exprs.COLUMNS and new != T:
                        ctx.report("%s:withType:type_" % name, W.loc(), "%s does not use the requested type" % W.q)
                    continue
                if f.n == "contains_agg_":
                    if loses_agg(prog, rec, new, old, s):
                        ctx.report("%s:withType:%s" % (name, f.n), W.loc(), "%s loses the aggregate flag" % W.q)
                    continue
                if f.n == "col_info_":
                    column(ctx, prog, name, W, new, old, T, s)
                    continue
                if not same_value(new, old, s):
                    ctx.report("%s:withType:%s" % (name, f.n), W.loc(), "%s returns an expression with %s = %s instead of the "
                               "old value" % (W.q, f.n, symx.show(new) if new else "(unset)"))


def column(ctx, prog, name, W, new, old, T, s):
    if new is None or new[0] != "new" or typ(new[1]) != "ColumnInfo":
        ctx.report("%s:withType:col_info_" % name, W.loc(), "%s does not rebuild the column description" % W.q)
        return
    rec = prog.record("ColumnInfo")
    C, objs = fields_of_new(prog, rec, new, s)
    for vals, s2 in objs:
        for f in prog.all_fields(rec):
            want = T if f.n == "type" else ("fld", old, f.n)
            ctx.count("fields preserved")
            if not same_value(vals[f.n], want, s):
                ctx.report("%s:withType:column:%s" % (name, f.n), W.loc(), "%s does not keep %s of the column" % (W.q, f.n))
