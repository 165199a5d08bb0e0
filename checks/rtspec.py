"""Compares runtime functions with their definitions in spec/runtime_spec.cpp, path by path."""
import re
from vlib import irx, model

DEBUG = False
SPEC = model.VERIF + "/spec/runtime_spec.cpp"


def compare(ctx, tus, select, least):
    mod = irx.load(*tus, SPEC)
    bases = tuple(n for n, f in irx.load(SPEC).fns.items() if f["decl"] and not n.startswith("llvm."))
    internal = tuple(n for n, f in mod.fns.items() if n.startswith("_Z"))
    names = {}
    for n in mod.fns:
        m = re.fullmatch(r"spec_(\w+?)(__\d)?", n)
        if m and not mod.fns[n]["decl"]:
            names.setdefault(m.group(1), []).append(n)
    # definitions that are themselves functions of the unit are looked into unless they loop
    for name in sorted(names):
        if not select(name):
            continue
        ctx.count("functions")
        real = name
        if name not in mod.fns:          # a C++ function
            c = [n for n, g in mod.fns.items() if n.startswith("_Z%d%s" % (len(name), name)) and not g["decl"]]
            real = c[0] if len(c) == 1 else name
        f = mod.fns.get(real)
        if f is None or f["decl"]:
            raise model.AnalysisBroken("runtime function %s not found" % name)
        s = mod.fns[names[name][0]]
        if [p["t"] for p in f["params"]] != [p["t"] for p in s["params"]] or f["ret"] != s["ret"]:
            raise model.AnalysisBroken("runtime function %s changed its signature" % name)
        loc = "omniscidb/%s:%d" % (relfile(f), f.get("line", 0))
        first = None
        # functions the definition only refers to are first taken as they are, then looked into
        for opaque in (bases + internal, internal, bases, ()):
            try:
                try:
                    impl = irx.Exec(mod, opaque=opaque).paths(real)
                except irx.TooComplex:       # leave large internal functions unexpanded
                    opaque += tuple(n for n, g in mod.fns.items() if n.startswith("_Z") and len(g.get("blocks", ())) > 9)
                    impl = irx.Exec(mod, opaque=opaque).paths(real)
            except (irx.Loopy, irx.TooComplex) as e:
                if first is not None:
                    break
                raise model.AnalysisBroken("runtime function %s is no longer loop-free (%s)" % (name, e))
            if first is None:
                ctx.count("paths", len(impl))
            here = None
            for sp in sorted(names[name]):
                irx.NAMES.clear()
                irx.NAMES.update({i: p["n"] for i, p in enumerate(s["params"])})
                d = irx.difference(impl, irx.Exec(mod, opaque=opaque).paths(sp))
                ctx.count("definitions compared")
                here = here or d
                if d is None:
                    here = None
                    break
            first = here
            if first is None:
                break
        if first is not None:
            ctx.report(name, loc if not first[0].line else "%s:%d" % (loc.rsplit(":", 1)[0], first[0].line),
                       "%s %s" % (name, first[1]))
    ctx.need("functions", least)


def relfile(f):
    p = f.get("file", f["tu"])
    i = p.find("omniscidb/")
    return p[i + len("omniscidb/"):] if i >= 0 else f["tu"]


TUS = ["QueryEngine/RuntimeFunctions.cpp", ("QueryEngine/DateAdd.cpp", ["-DEXECUTE_INCLUDE"]),
       "QueryEngine/DateTruncate.cpp", "Utils/Regexp.cpp", "Utils/ExtractFromTime.cpp"]


def part(name):
    """Which property a runtime function belongs to."""
    if re.match(r"agg_|checked_single_agg_id|write_projection|load_", name):
        return "C11"
    if re.match(r"(diff_)?fixed_width_(?!small_date)|get_|(bucketized_|rowid_)?hash_join_idx$|extract_str_|string_pack|map_string_dict_id|"
                r"key_for_string_encoded|char_length$|row_number|percent_window|record_error_code|pos_start_impl|"
                r"width_bucket(?!.*_nullable$)", name):
        return "C24"
    if re.match(r"extract_(?!str_)|datetrunc_|DateTruncate$|ExtractFromTime$|DateAdd$|DateDiff$|.*Precision(ToDate)?$|.*scale$", name):
        return "C25"
    return "C10"


def decide(ctx, pid, what, least):
    ctx.rule = ("%s: along every path through its compiled form (loop-free, calls looked into) each function returns and stores "
                "exactly what its definition in spec/runtime_spec.cpp says; both sides are compared as normalised value "
                "expressions under the conditions of the path" % what)
    ctx.assumptions += ["pointer arguments of one function do not overlap unless the definition says so",
                        "a NULL marker passed with an operand is representable in the operand's type",
                        "the functions are as clang 18 lowers them with the build's definitions"]
    compare(ctx, TUS, lambda n: part(n) == pid, least)
