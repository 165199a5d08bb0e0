"""C05: the hash of an expression depends only on what its equality compares."""
from vlib import model, eqfacts, symx
from vlib.eqfacts import THIS, RHS
from . import exprs

HASH = ("fld", THIS, "hash_")
VALUES = {"hdk::ir::OrderEntry": "hash", "hdk::ir::SortField": "toHash", "ColumnRef": "hash"}


def run(ctx):
    ctx.rule = ("for every concrete expression kind, each field (and the dynamic kind, when hashed) read on a path of its "
                "hash() has been compared equal on every compatible path on which operator== answers true; operands are "
                "hashed by content, not by address")
    prog = exprs.load()
    for rec in exprs.concrete(prog):
        E = eqfacts.effective(prog, rec, "operator==")
        H = eqfacts.effective(prog, rec, "hash")
        if E is None or H is None:
            raise model.AnalysisBroken("no operator== or hash for %s" % rec.q)
        check(ctx, prog, rec, E, H)
        ctx.count("expression kinds")
    for q, h in VALUES.items():
        rec = prog.record(q)
        E = eqfacts.effective(prog, rec, "operator==")
        H = eqfacts.effective(prog, rec, h)
        if E is None or H is None:
            raise model.AnalysisBroken("no operator== or hash for %s" % rec.q)
        check(ctx, prog, rec, E, H)
    ctx.need("expression kinds", 25)
    ctx.need("hashed values", 80)
    ctx.assumptions = ["operands compared equal hash equally (induction over the expression tree)",
                       "equal types have equal descriptions and equal scalar values have equal hashes (+0.0 and -0.0 aside)"]


def hash_paths(prog, H):
    I = symx.Interp(prog, opaque=lambda fn, n, obj: fn.n in ("toString", "toHash") or fn.q == "hash")
    try:
        outs = I.run(H, {})
    except symx.TooComplex:
        raise model.AnalysisBroken("%s is too complex to enumerate" % H.q)
    res = []
    for k, v, s in outs:
        if k == "ret" and s.truth(("nn", HASH)) is not True:
            res.append((v, s))
    return res


def maximal(reads):
    """Reads that are not merely steps towards another read."""
    out = set()
    for r in reads:
        if not any(o != r and symx.contains(o, r) for o in reads):
            out.add(r)
    return out


def check(ctx, prog, rec, E, H):
    name = rec.q.split("::")[-1]
    eps = eqfacts.true_paths(prog, E, exprs.booleans(prog, rec))
    hps = hash_paths(prog, H)
    if not hps:
        raise model.AnalysisBroken("no path computes %s" % H.q)
    ftypes = {f.n: f.t for f in prog.all_fields(rec)}
    for v, s in hps:
        htruth = dict(s.facts)
        kind = any(symx.contains(x, ("typeid", THIS)) for e in s.ev for x in e if isinstance(x, tuple)) or \
            any(symx.contains(x, ("typeid", THIS)) for x in s.heap.values()) or symx.contains(v, ("typeid", THIS))
        reads = {r for r in s.reads if symx.contains(r, THIS) and r != HASH and not symx.contains(r, HASH)}
        reads = maximal(reads)
        # operands hashed by address
        for e in s.ev:
            if e[0] == "call" and e[1].split("::")[-1] in ("hash_combine", "hash_value"):
                n = e[4]
                a = n.c[-1]
                ctx.count("hashed values")
                at = a.t.replace("const ", "") if a is not None else ""
                if ("hdk::ir::Expr" in at or "hdk::ir::Type" in at) and ("*" in at or "shared_ptr" in at):
                    ctx.report("%s:address" % name, H.loc(n), "%s hashes the address of %s, equality compares its contents"
                               % (H.q, symx.show(e[3][-1])))
        for p in eps:
            if any(t in p.truth and p.truth[t] != b for t, b in htruth.items() if symx.contains(t, THIS)):
                continue
            ctx.count("path pairs")
            if kind and not kind_fixed(prog, rec, E, p):
                ctx.report("%s:kind" % name, H.loc(), "%s depends on the dynamic kind of the object, which %s does not compare"
                           % (H.q, E.q))
            for r in reads:
                ctx.count("obligations")
                if name in ("Constant",) and r == ("fld", THIS, "type_"):
                    pass
                if eqfacts.covers(p, r):
                    continue
                if rec.q in exprs.FIXED_TYPE and r == ("fld", THIS, "type_"):
                    continue
                ctx.report("%s:%s" % (name, symx.show(r)), H.loc(),
                           "%s depends on %s, which %s does not compare on some path that answers true: equal expressions "
                           "may hash differently" % (H.q, symx.show(r), E.q))


def kind_fixed(prog, rec, E, p):
    if "dynamic" in p.kinds:
        return True
    sub = prog.subclasses(rec.u)
    for k in p.kinds:
        if k == rec.q and all(eqfacts.effective(prog, prog.rec_by_u[u], "operator==") is not E for u in sub):
            return True
        if k == "isa:" + rec.q and not sub:
            return True
    return False
