"""C15: shared query-time state is only touched under its lock."""
import os
from vlib import model, lockset, lockrun, sessions

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# class, mutex, fields (None: every field that is modified after construction), fields set up before sharing or owned by one thread
GROUPS = [
    (["ResultSet/RowSetMemoryOwner.cpp"], "RowSetMemoryOwner", "state_mutex_", None,
     # data_provider_ and arena_block_size_ only change in the constructor; each pool belongs to one worker thread
     ("data_provider_", "arena_block_size_", "small_mem_pools_"), ("allocator_",), 15),
    ([HERE + "/spec/schema_tu.cpp"], "SimpleSchemaProvider", "schema_mutex_", None, ("ctx_", "id_", "name_"), (), 4),
    (["ResultSet/ResultSet.cpp", "ResultSet/ResultSetIteration.cpp"], "ResultSet", "row_iteration_mutex_",
     ("crt_row_buff_idx_", "fetched_so_far_"), (), (), 2),
    (["QueryEngine/CostModel/CostModel.cpp", "QueryEngine/CostModel/IterativeCostModel.cpp"], "costmodel::CostModel", "latch_",
     None, ("config_",), ("extrapolation_provider_",), 2),
]


def run(c):
    c.rule = ("interprocedural lockset dataflow over the resolved AST/CFG: every access to the listed shared members happens with the "
              "class's mutex held (exclusively for modifications) on every path from every public function; what was read in one "
              "lock session is not acted on in a later one")
    for tus, q, mutex, fields, exempt, pointees, least in GROUPS:
        p = model.load(tus, roots=model.ODB + ":" + HERE + "/spec")
        r = p.record(q)
        if not any(f.n == mutex for f in r.fields):
            raise model.AnalysisBroken("%s has no %s" % (q, mutex))
        if fields is None:
            g, imm = lockset.auto_guards(p, r, mutex, exempt)
        else:
            g = {f.u: mutex for f in r.fields if f.n in fields}
        for f in r.fields:
            if f.n in pointees:
                g[f.u] = mutex
        if len(g) < least:
            raise model.AnalysisBroken("%s has only %d guarded members" % (q, len(g)))
        c.count("guarded members", len(g))
        c.notes.append("%s: %s guards %s" % (q, mutex, sorted(p.decls[u].n for u in g)))
        an = lockset.LockAnalysis(p, g)
        an.run()
        decide(c, an)
    # the debug-timer tree is a global
    p = model.load(["Logger/Logger.cpp"])
    tree = [x for x in p.globals.values() if x.q.endswith("g_duration_tree_map")]
    mu = [x for x in p.globals.values() if x.q.endswith("g_duration_tree_map_mutex")]
    if not tree or not mu:
        raise model.AnalysisBroken("the debug-timer tree or its mutex is gone")
    an = lockset.LockAnalysis(p, {tree[0].u: ("global", mu[0].u)})
    an.run()
    # classes defined in the .cpp file are only used by the functions of that file
    decide(c, an, internal=True)
    c.need("guarded accesses", 100)
    c.need("entry points", 50)


def decide(c, an, internal=False):
    c.count("functions", len(an.fns))
    c.count("guarded accesses", an.nacc)
    c.count("lock acquisitions", len(an.events))
    base = lockrun.is_root(an)

    def root(F):
        if internal and F.cls is not None and F.f.endswith(".cpp"):
            rec = an.p.rec_by_u.get(F.cls.u)
            if rec is not None and rec.f.endswith(".cpp"):
                return False
        return base(F)
    c.count("entry points", sum(1 for F in an.fns if root(F)))
    lockrun.report(c, an, root, {})
    rf, wf = sessions.read_fields(an), sessions.written_fields(an)
    for F in an.fns:
        s = sessions.Sessions(an, F, rf, wf, set())
        for (fld, kind, line), (n, msg) in sorted(s.run().items(), key=lambda x: str(x[0])):
            c.report("%s:%s:%s" % (F.q, fld, kind), F.loc(n), "%s %s" % (F.q, msg))
        esc, nl = sessions.task_escapes(an, F)
        for n, gfn, msg in esc:
            c.report("%s:worker" % F.q, F.loc(n), msg)
