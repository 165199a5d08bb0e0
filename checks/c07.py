"""C07: copies of plan nodes are complete; rewriting a plan node reaches all its expressions."""
from vlib import model, eqfacts, symx
from vlib.symx import KNULL, K0, K1
from . import nodes
from .c06 import typ, operand_kind, loops

THIS, RHS, NEW = ("root", "this"), ("root", "rhs"), ("root", "new")
NO_REWRITE = {"hdk::ir::LogicalValues": "rows of literals refer to no input"}


def scalar(t):
    t = t.replace("const ", "").strip()
    return t.endswith("*") or t in ("bool", "int", "unsigned int", "long", "unsigned long", "double", "float", "char",
                                    "short", "long long", "unsigned long long", "size_t", "int32_t", "int64_t") or \
        t.startswith("enum ")


def run(ctx):
    ctx.rule = ("the copy constructor used by each node kind's deepCopy stores every attribute of the original in the same "
                "attribute of the copy, and every constructor initialises every scalar attribute; rewriteExprs stores the "
                "rewritten form of every expression the node owns; replaceInput replaces every matching input and rewrites")
    prog = nodes.load()
    base = prog.record("hdk::ir::Node")
    copy_of(ctx, prog, base, transient=True)
    ctors(ctx, prog, base)
    for rec in nodes.concrete(prog):
        ctx.count("node kinds")
        deepcopy(ctx, prog, rec)
        copy_of(ctx, prog, rec)
        ctors(ctx, prog, rec)
        rewrite(ctx, prog, rec)
    replace_input(ctx, prog, base)
    ctx.need("node kinds", 9)
    ctx.need("attributes copied", 20)
    ctx.need("expressions rewritten", 6)
    ctx.assumptions = ["implicit and defaulted copy constructors copy every member (language rule)"]


def deepcopy(ctx, prog, rec):
    F = eqfacts.effective(prog, rec, "deepCopy")
    name = rec.q.split("::")[-1]
    if F is None:
        raise model.AnalysisBroken("no deepCopy for " + rec.q)
    for k, v, s in symx.Interp(prog).run(F, {}):
        if k != "ret":
            continue
        ctx.count("deepCopy paths")
        if v[0] == "new" and typ(v[1]) == rec.q and v[2] == (THIS,):
            continue
        ctx.report("%s:deepCopy" % name, F.loc(), "%s does not return a copy-constructed %s" % (F.q, name))


def copy_of(ctx, prog, rec, transient=False):
    name = rec.q.split("::")[-1]
    cs = [m for m in rec.methods if m.k == "CXXConstructor" and m.get("ctor") == "copy" and m.u in prog.fns]
    cs = [prog.fns[m.u] for m in cs]
    cs = [c for c in cs if not c.impl]
    if not cs:
        ctx.count("attributes copied", len(rec.fields))
        return
    C = cs[0]
    # a class that derives from another must hand the original to its base
    for k, v, s in symx.Interp(prog, opaque=lambda fn, n, o: False).run(C, {C.params[0]: RHS}, None, NEW):
        if k != "ret":
            continue
        for f in rec.fields if transient else prog.all_fields(rec):
            new, old = s.heap.get(("fld", NEW, f.n)), ("fld", RHS, f.n)
            ctx.count("attributes copied")
            if f.n in nodes.TRANSIENT:
                if new is None and scalar(f.t) and f.u not in rec.inits and transient:
                    ctx.report("%s:copy:%s:uninit" % (name, f.n), C.loc(), "%s leaves %s uninitialised" % (C.q, f.n))
                continue
            if new == old or (new in (K0, K1) and s.truth(("nn", old)) is (new == K1)):
                continue
            if new is not None and new[0] == "built" and copied_list(new, old, s):
                continue
            what = "leaves %s uninitialised" % f.n if new is None else "sets %s to %s" % (f.n, symx.show(new))
            ctx.report("%s:copy:%s" % (name, f.n), C.loc(), "copying a %s %s instead of copying it" % (name, what))


def copied_list(new, old, s):
    for L, c in loops(s).items():
        if old in c and new[2] == ("elem", old, L) and new[3].endswith("_back") and new[1][0] == "new":
            return True
    return False


def ctors(ctx, prog, rec):
    name = rec.q.split("::")[-1]
    for m in rec.methods:
        if m.k != "CXXConstructor" or m.get("ctor") in ("copy", "move") or m.u not in prog.fns:
            continue
        C = prog.fns[m.u]
        if C.impl:
            continue
        for k, v, s in symx.Interp(prog, opaque=lambda fn, n, o: fn.q.startswith("hdk::ir::Expr")).run(
                C, {p: ("root", p.n) for p in C.params}, None, NEW):
            if k != "ret":
                continue
            for f in rec.fields:
                if scalar(f.t) or f.t in prog.enums:
                    ctx.count("attributes initialised")
                    if ("fld", NEW, f.n) not in s.heap and f.u not in rec.inits:
                        ctx.report("%s:ctor:%s" % (name, f.n), C.loc(), "%s leaves %s uninitialised" % (C.q, f.n))


def visited(t, R):
    return ("call", "visit", R, (t,))


def rewrite(ctx, prog, rec):
    name = rec.q.split("::")[-1]
    F = eqfacts.effective(prog, rec, "rewriteExprs")
    R = ("root", "rewriter")
    if F is None:
        raise model.AnalysisBroken("no rewriteExprs for " + rec.q)
    if rec.q in NO_REWRITE:
        ctx.notes.append("%s: %s" % (name, NO_REWRITE[rec.q]))
        return
    for k, v, s in symx.Interp(prog, opaque=lambda fn, n, o: fn.n == "visit").run(F, {F.params[0]: R}):
        if k != "ret":
            continue
        for f in rec.fields:
            if "Expr>" not in f.t:
                continue
            kind = operand_kind(f.t)
            if kind is None:
                continue
            ctx.count("expressions rewritten")
            t = ("fld", THIS, f.n)
            if s.truth(("nn", t)) is False:
                continue
            ok = False
            stores = [(e[1], e[2]) for e in s.ev if e[0] == "store"]
            if kind == "one":
                ok = s.heap.get(t) == visited(t, R)
            else:
                for L, c in loops(s).items():
                    if t in c and (("elem", t, L), visited(("elem", t, L), R)) in stores:
                        ok = True
                h = s.heap.get(t)
                if h is not None and h[0] == "built" and h[1][0] == "new" and not h[1][2] and any(
                        t in c and h[2] == visited(("elem", t, L), R) for L, c in loops(s).items()):
                    ok = True
            if not ok:
                ctx.report("%s:rewrite:%s" % (name, f.n), F.loc(), "rewriting the expressions of a %s leaves %s (or part of it) "
                           "unrewritten" % (name, f.n))


def replace_input(ctx, prog, base):
    fs = [f for f in prog.fn("hdk::ir::Node::replaceInput") if f.params and "ExprRewriter" in f.params[-1].t]
    if not fs:
        raise model.AnalysisBroken("Node::replaceInput not found")
    F = fs[0]
    OLD, INP, R = ("root", "old"), ("root", "input"), ("root", "rewriter")
    env = dict(zip(F.params, (OLD, INP, R)))
    t = ("fld", THIS, "inputs_")
    for k, v, s in symx.Interp(prog, opaque=lambda fn, n, o: fn.n == "rewriteExprs").run(F, env):
        if k != "ret":
            continue
        ctx.count("input replacements")
        hit, full = False, False
        stores = [(e[1], e[2]) for e in s.ev if e[0] == "store"]
        none = any(t in c and s.truth(("op", "==", ("elem", t, L), OLD)) is False for L, c in loops(s).items())
        for L, c in loops(s).items():
            if t not in c or not any(st[0] == ("elem", t, L) for st in stores) and s.truth(
                    ("op", "==", ("elem", t, L), OLD)) is None and s.truth(("op", "==", OLD, ("elem", t, L))) is None:
                continue
            full = True
            el = ("elem", t, L)
            eq = s.truth(("op", "==", el, OLD))
            eq = s.truth(("op", "==", OLD, el)) if eq is None else eq
            if eq is not False and not none:
                hit = True
                if not any(st[0][0] == "elem" and st[0][1] == t and st[1] == INP for st in stores):
                    ctx.report("replaceInput:store", F.loc(), "Node::replaceInput keeps an input it was asked to replace")
        if not full:
            ctx.report("replaceInput:all", F.loc(), "Node::replaceInput does not look at every input")
        calls = [e for e in s.ev if e[0] == "call" and e[1].endswith("rewriteExprs") and e[3] == (R,)]
        if hit and not calls:
            ctx.report("replaceInput:rewrite", F.loc(), "Node::replaceInput replaces an input without rewriting the expressions "
                       "that refer to it")
