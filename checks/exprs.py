"""Shared facts about the expression hierarchy (hdk::ir::Expr) used by C04, C05 and C06."""
from vlib import model, eqfacts

SOURCES = ["IR/Expr.cpp", "IR/Node.cpp", "ResultSet/QueryMemoryDescriptor.cpp"]
# state that equality may leave out, and why
EXEMPT = {
    "hash_": "cached value",
    "contains_agg_": "a property of the operands, cached",
    "cacheable_": "a hint for plan caches, does not affect the value",
}
COLUMNS = {"hdk::ir::ColumnVar", "hdk::ir::Var", "hdk::ir::ColumnRef"}   # type is that of the referenced column
FIXED_TYPE = {"hdk::ir::ExpressionTuple", "hdk::ir::RangeOper", "hdk::ir::OffsetInFragment"}


def load():
    return model.load(SOURCES)


def concrete(prog):
    root = prog.record("hdk::ir::Expr")
    out = []
    for u in prog.subclasses(root.u):
        r = prog.rec_by_u[u]
        if not r.abs:
            out.append(r)
    return sorted(out, key=lambda r: (r.f, r.l))


def leafless(prog, rec):
    return not prog.subclasses(rec.u)


def booleans(prog, rec):
    return {f.n for f in prog.all_fields(rec) if f.t.replace("const ", "") == "bool"}
