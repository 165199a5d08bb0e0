"""C04: every path of an expression's operator== that answers true has compared the kind and every field."""
from vlib import model, eqfacts, symx
from vlib.eqfacts import THIS, RHS
from . import exprs


def fld(n):
    return ("fld", THIS, n)


# records compared by value: class -> state left out of the comparison by design
VALUES = {
    "hdk::ir::OrderEntry": (), "hdk::ir::SortField": (), "ColumnRef": (), "TableRef": (), "InputDescriptor": (),
    "InputColDescriptor": (), "ColSlotContext": (), "dict_ref_t": (),
    "ChunkMetadata": ("stats_materialize_fn_",),
    "hdk::ir::Sort": (),
    "QueryMemoryDescriptor": ("data_mgr_", "config_", "entry_count_", "must_use_baseline_sort_", "is_table_function_",
                              "use_streaming_top_n_", "count_distinct_descriptors_"),
}


def opaque_interp(prog):
    return symx.Interp(prog, opaque=lambda fn, n, obj: fn.n in ("DatumEqual", "getEquivCols", "maybeMaterializeStats")
                       or (fn.n in ("operator==", "equal") and fn.q.startswith("hdk::ir::Type")))


def run(ctx):
    ctx.rule = ("for every concrete subclass of hdk::ir::Expr, on every path on which its operator== returns true the "
                "two objects' dynamic kinds and each of their fields have been compared equal (element-wise with equal "
                "sizes for operand lists); elements of the other operand's list are read only after its size was compared")
    prog = exprs.load()
    arrays = {n: v for n, v in prog.enums.get("hdk::ir::Type::Id", [])}
    if "kVarLenArray" not in arrays or "kFixedLenArray" not in arrays:
        raise model.AnalysisBroken("type ids not found")
    array_ids = {arrays["kVarLenArray"], arrays["kFixedLenArray"]}
    for rec in exprs.concrete(prog):
        F = eqfacts.effective(prog, rec, "operator==")
        if F is None or F.cls.q == "hdk::ir::Expr":
            raise model.AnalysisBroken("no operator== found for %s" % rec.q)
        name = rec.q.split("::")[-1]
        paths = eqfacts.true_paths(prog, F, exprs.booleans(prog, rec))
        ctx.count("expression kinds")
        ctx.count("true paths", len(paths))
        fields = [f for f in prog.all_fields(rec) if f.n not in exprs.EXEMPT]
        for p in paths:
            for b in p.overread:
                ctx.report("%s:overread:%s" % (name, symx.show(b)), F.loc(),
                           "%s::operator== reads elements of %s of the other operand without having compared the sizes"
                           % (name, symx.show(b)))
            # columns identify by table column or by row position
            if name in ("ColumnVar", "Var"):
                check_column(ctx, prog, rec, name, F, p)
                continue
            check_kind(ctx, prog, rec, name, F, p)
            for f in fields:
                ctx.count("field obligations")
                if f.n == "type_" and (rec.q in exprs.COLUMNS or rec.q in exprs.FIXED_TYPE):
                    continue
                if eqfacts.covers(p, fld(f.n)):
                    continue
                if name == "Constant" and f.n in ("value_", "value_list_"):
                    if p.truth.get(("nn", fld("is_null_"))) is True:
                        continue
                    tid = ("fld", fld("type_"), "id_")
                    is_arr = any(p.truth.get(("op", "==", tid, ("k", a))) for a in array_ids)
                    not_arr = all(p.truth.get(("op", "==", tid, ("k", a))) is False for a in array_ids) or \
                        any(t[0] == "op" and t[1] == "==" and t[2] == tid and v and t[3][0] == "k" and
                            t[3][1] not in array_ids for t, v in p.facts)
                    if f.n == "value_" and is_arr or f.n == "value_list_" and not_arr:
                        continue
                if ("elems", fld(f.n)) in p.same:
                    msg = "compares only the elements of %s, not the sizes" % f.n
                else:
                    msg = "does not compare %s" % f.n
                ctx.report("%s:%s" % (name, f.n), F.loc(),
                           "%s::operator== can answer true on a path that %s: expressions that differ in it compare equal"
                           % (name, msg))
        if not paths and name not in ("Estimator",):
            ctx.notes.append("%s never compares equal" % name)
    for q, exempt in VALUES.items():
        rec = prog.record(q)
        F = eqfacts.effective(prog, rec, "operator==")
        if F is None:
            raise model.AnalysisBroken("no operator== found for %s" % q)
        name = q.split("::")[-1]
        ctx.count("descriptor classes")
        for p in eqfacts.true_paths(prog, F, exprs.booleans(prog, rec), opaque_interp(prog)):
            for b in p.overread:
                ctx.report("%s:overread:%s" % (name, symx.show(b)), F.loc(),
                           "%s::operator== reads elements of %s of the other operand without having compared the sizes"
                           % (name, symx.show(b)))
            for f in rec.fields:
                if f.n in exempt:
                    continue
                ctx.count("field obligations")
                if eqfacts.covers_rec(prog, p, fld(f.n), f.t):
                    continue
                if q == "hdk::ir::Sort" and f.n == "collation_":
                    # keys may be equivalent columns, their direction and null order must agree
                    el = {t[2] for t in p.same if t[0] == "fld" and t[1][0] == "elem" and t[1][1] == fld(f.n)}
                    if ("size", fld(f.n)) in p.same and {"sort_dir_", "nulls_pos_"} <= el:
                        continue
                if f.n == "col_info_" and all(eqfacts.covers(p, ("fld", fld(f.n), x)) for x in ("db_id", "table_id", "column_id")):
                    continue
                ctx.report("%s:%s" % (name, f.n), F.loc(), "%s::operator== can answer true on a path that does not "
                           "compare %s: objects that differ in it compare equal" % (name, f.n))
    ctx.need("expression kinds", 25)
    ctx.need("field obligations", 80)
    ctx.assumptions = ["Type::equal, DatumEqual and std comparison operators answer true only for equal operands (C09, C17)",
                       "an expression's cached aggregate flag is determined by its operands"]


def check_kind(ctx, prog, rec, name, F, p):
    ctx.count("kind obligations")
    sub = prog.subclasses(rec.u)
    ok = "dynamic" in p.kinds
    for k in p.kinds:
        if k == rec.q or k == "const " + rec.q:
            # typeid(rhs) == typeid(C): `this` is exactly C only if no subclass inherits this operator
            if all(eqfacts.effective(prog, prog.rec_by_u[u], "operator==") is not F for u in sub):
                ok = True
        if k == "isa:" + rec.q and not sub:
            ok = True
    if not ok:
        ctx.report("%s:kind" % name, F.loc(),
                   "%s::operator== can answer true for an operand of a different kind" % name)


def check_column(ctx, prog, rec, name, F, p):
    def has(*names):
        return all(eqfacts.covers(p, n) for n in names)
    col = fld("col_info_")
    by_col = [fld("rte_idx_")] + [("fld", col, n) for n in ("db_id", "table_id", "column_id")]
    by_row = [fld("rte_idx_"), fld("which_row_"), fld("var_no_")]
    ctx.count("field obligations", 4)
    neg = p.truth.get(("op", "==", fld("rte_idx_"), ("k", "-1")))
    if not any(k.endswith(("ColumnVar", "::Var")) or k == "dynamic" for k in p.kinds):
        ctx.report("%s:kind" % name, F.loc(), "%s::operator== can answer true for an operand that is not a column" % name)
    if has(*by_row) or (has(*by_col) and neg is not True):
        return
    want = by_row if neg is True else by_col
    missing = [symx.show(t) for t in want if not eqfacts.covers(p, t)]
    ctx.report("%s:%s" % (name, ",".join(missing) or "scheme"), F.loc(),
               "%s::operator== can answer true on a path that does not compare %s" % (name, ", ".join(missing)))
