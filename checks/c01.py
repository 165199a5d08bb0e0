from vlib import model, lockset, lockrun, sessions

# dict_ref_ is assigned once (setDictId requires it to be unset) before the dictionary is shared.
EXEMPT = ("dict_ref_",)
# counters that only grow: acting on an older value of them is harmless
MONOTONE = {"str_count_"}


def run(c):
    c.rule = ("interprocedural lockset dataflow over the resolved AST/CFG of StringDictionary.cpp: every access to a mutable "
              "dictionary field happens with rw_mutex_ held (exclusively for modifications) on every path from every public "
              "entry point; values and decisions of one lock session are not used for modifications in a later one; worker "
              "tasks relying on the lock are waited for before it is released")
    p = model.load(["StringDictionary/StringDictionary.cpp"])
    g = {}
    why = {}
    for ns in ("legacy", "fast"):
        try:
            r = p.record(ns + "::StringDictionary")
        except model.AnalysisBroken:
            if ns == "fast":
                continue
            raise
        if not any(f.n == "rw_mutex_" for f in r.fields):
            raise model.AnalysisBroken("%s has no rw_mutex_" % r.q)
        gg, imm = lockset.auto_guards(p, r, "rw_mutex_", EXEMPT)
        g.update(gg)
        c.notes.append("%s guarded: %s; never written after construction: %s"
                       % (r.q, sorted(p.decls[u].n for u in gg), sorted(imm)))
        c.count("guarded fields", len(gg))
    an = lockset.LockAnalysis(p, g)
    an.run()
    c.count("functions", len(an.fns))
    c.count("guarded accesses", an.nacc)
    c.count("lock acquisitions", len(an.events))
    root = lockrun.is_root(an)
    c.count("entry points", sum(1 for F in an.fns if root(F)))
    lockrun.report(c, an, root, {})
    rf, wf = sessions.read_fields(an), sessions.written_fields(an)
    for F in an.fns:
        s = sessions.Sessions(an, F, rf, wf, MONOTONE)
        for (fld, kind, line), (n, msg) in sorted(s.run().items(), key=lambda x: str(x[0])):
            c.report("%s:%s:%s" % (F.q, fld, kind), F.loc(n), "%s %s" % (F.q, msg))
        c.count("writes inside a lock session", s.nwrites)
        esc, nl = sessions.task_escapes(an, F)
        c.count("worker launches relying on a lock", nl)
        for n, gfn, msg in esc:
            c.report("%s:worker" % F.q, F.loc(n), msg)
    c.need("guarded accesses", 100)
    c.need("entry points", 20)
    c.need("worker launches relying on a lock", 1)
