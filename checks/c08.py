"""C08: the identity hash of a plan node covers its inputs and all its attributes."""
from vlib import model, eqfacts, symx
from vlib.symx import contains
from . import nodes
from .c06 import typ, loops

THIS = ("root", "this")
HASH = ("fld", THIS, "hash_")
EXEMPT = {"is_nop_": "marks a node that will be removed", "buffer_entry_count_hint_": "a size hint"}
# what identifies the elements of these attributes
PARTS = {("hdk::ir::Scan", "table_info_"): ("db_id", "table_id"),
         ("hdk::ir::Scan", "column_infos_"): ("name",),
         ("hdk::ir::LogicalValues", "tuple_type_"): ("resname_", "type_")}


def run(ctx):
    ctx.rule = ("on every path that computes a node's toHash, the node kind, its inputs' hashes and each of its attributes "
                "(every element of lists, by content) are combined into the value returned")
    prog = nodes.load()
    for rec in nodes.concrete(prog):
        H = eqfacts.effective(prog, rec, "toHash")
        if H is None:
            raise model.AnalysisBroken("no toHash for " + rec.q)
        ctx.count("node kinds")
        fields = [f for f in prog.all_fields(rec) if f.n not in nodes.TRANSIENT and f.n not in EXEMPT]
        if rec.q in ("hdk::ir::Scan", "hdk::ir::LogicalValues", "hdk::ir::TranslatedJoin"):
            fields = [f for f in fields if f.n != "inputs_"]         # leaves of the plan; join sides are lhs_/rhs_
        check(ctx, prog, rec, H, fields, kind=True)
    for q, h in (("hdk::ir::SortField", "toHash"), ("hdk::ir::ShuffleFunction", "hash")):
        rec = prog.record(q)
        H = eqfacts.effective(prog, rec, h)
        if H is None:
            raise model.AnalysisBroken("no %s for %s" % (h, q))
        check(ctx, prog, rec, H, rec.fields, kind=False)
    ctx.need("node kinds", 9)
    ctx.need("attributes hashed", 40)
    ctx.assumptions = ["hash combination is collision-free for the purpose of this argument",
                       "the cached value is computed after the node was completed"]


def hashed_terms(v, s):
    out = [v]
    seeds = {v}
    for e in reversed(s.ev):
        if e[0] == "call" and e[1].split("::")[-1] in ("hash_combine", "hash_range") and e[3] and \
                (e[3][0] in seeds or e[3][0] == HASH):
            out += list(e[3][1:])
    return out


def check(ctx, prog, rec, H, fields, kind):
    name = rec.q.split("::")[-1]
    I = symx.Interp(prog, opaque=lambda fn, n, o: fn.n in ("toString", "toHash", "hash") and fn.u != H.u)
    paths = []
    for k, v, s in I.run(H, {}):
        if k == "ret" and s.truth(("nn", HASH)) is not True:
            paths.append((hashed_terms(v, s), s))
    if not paths:
        raise model.AnalysisBroken("no path computes " + H.q)
    for terms, s in paths:
        if kind:
            ks = {typ(t[1]) for x in terms for t in symx.subterms(x) if t and t[0] == "typeidc"}
            if rec.q not in ks and not any(contains(x, ("typeid", THIS)) for x in terms):
                ctx.report("%s:kind" % name, H.loc(), "%s does not take the node kind into account" % H.q)
        for f in fields:
            ctx.count("attributes hashed")
            t = ("fld", THIS, f.n)
            if covered(prog, rec, f, t, terms, s) or by_branch(prog, f, t, terms, s, paths):
                continue
            ctx.report("%s:%s" % (name, f.n), H.loc(), "%s does not take %s into account: nodes that differ only in it get the "
                       "same identity" % (H.q, f.n))


def covered(prog, rec, f, t, terms, s):
    parts = PARTS.get((rec.q, f.n))
    ft = f.t.replace("const ", "").strip()
    if ft.startswith(("std::vector<", "std::list<")):
        nested = ft.startswith("std::vector<std::vector<")
        for x in terms:
            for y in symx.subterms(x):
                if y and y[0] == "call" and y[1].split("::")[-1] == "toString" and y[3] == (t,) and not parts:
                    return True
        for L, c in loops(s).items():
            if t not in c:
                continue
            el = ("elem", t, L)
            if nested:
                for L2, c2 in loops(s).items():
                    if el in c2 and used(("elem", el, L2), terms, ft):
                        return True
                continue
            if parts:
                if all(any(contains(x, ("fld", el, p)) or contains(x, ("call", p.rstrip("_"), el, ())) for x in terms)
                       for p in parts):
                    return True
            elif used(el, terms, ft):
                return True
        return False
    if parts:
        return all(any(contains(x, ("fld", t, p)) for x in terms) for p in parts)
    if s.truth(("nn", t)) is False and "shared_ptr" in ft:
        return True
    return used(t, terms, ft)


def used(t, terms, ft):
    """The content of t (not its address, size or mere presence) takes part in one of the terms."""
    pointer = "shared_ptr" in ft or "*" in ft

    def go(x):
        if x == t:
            return not pointer
        if not isinstance(x, tuple) or not x:
            return False
        if x[0] in ("size", "nn"):
            return False
        if x[0] == "call" and x[2] == t and x[1] in ("toHash", "hash", "toString"):
            return True
        return any(go(y) for y in x if isinstance(y, tuple))
    return any(go(x) for x in terms)


def by_branch(prog, f, t, terms, s, paths):
    """A two-valued attribute may select between two different constants."""
    two = f.t.replace("const ", "") == "bool" or len(prog.enums.get(f.t.replace("const ", ""), ())) == 2
    if not two:
        return False
    mine = [(x, v) for x, v in s.facts if contains(x, t)]
    if not mine:
        return False
    for terms2, s2 in paths:
        other = [(x, v) for x, v in s2.facts if contains(x, t)]
        rest = [(x, v) for x, v in s.facts if not contains(x, t)]
        rest2 = [(x, v) for x, v in s2.facts if not contains(x, t)]
        if rest == rest2 and dict(other) != dict(mine) and terms2 != terms:
            return True
    return False
