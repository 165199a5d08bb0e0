"""C14: no thread can deadlock on the system's internal locks."""
import os, re
from collections import defaultdict
from vlib import model, lockset, flow, ordeval
from vlib.lockset import strip, call_parts, CALLS, MUTEXT, LOCKT

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "DataMgr/BufferMgr/"
TUS = [B + x for x in ("BufferMgr.cpp", "Buffer.cpp", "CpuBufferMgr/CpuBufferMgr.cpp", "CpuBufferMgr/TieredCpuBufferMgr.cpp",
                       "CpuBufferMgr/CpuBuffer.cpp", "GpuBufferMgr/GpuBufferMgr.cpp", "GpuBufferMgr/GpuBuffer.cpp")] + [
    "DataMgr/DataMgr.cpp", "StringDictionary/StringDictionary.cpp", "QueryEngine/QueryPlanDagCache.cpp",
    "ResultSetRegistry/ColumnarResults.cpp", "ResultSet/RowSetMemoryOwner.cpp", "ResultSet/ResultSet.cpp",
    "ResultSet/ResultSetIteration.cpp", "QueryEngine/CostModel/CostModel.cpp", "QueryEngine/CostModel/IterativeCostModel.cpp",
    "Logger/Logger.cpp", HERE + "/spec/schema_tu.cpp", "ConfigBuilder/ConfigBuilder.cpp"]


def name(p, m):
    d = p.decls.get(m)
    return d.q if d is not None and m.startswith("c:") else m


def showpath(path):
    return ".".join(e if isinstance(e, str) else e.n for e in path) or "global"


def run(c):
    c.rule = ("lock-order graph from an interprocedural lockset dataflow over the resolved AST/CFG: no cycle between mutexes; no mutex "
              "acquired again by its holder; two mutexes of the same kind only in an order that every thread agrees on (a derived "
              "object before its base, otherwise by address); no condition wait while another mutex is held; every manually locked "
              "mutex is unlocked on every exit, normal or exceptional")
    p = model.load(TUS, roots=model.ODB + ":" + HERE + "/spec")
    an = lockset.LockAnalysis(p, {})
    waits = []

    def probe(F, n, st):
        if st and n.k in CALLS and n.fn is not None:
            waits.append((F, n, st))
    an.probe = probe
    an.run()
    c.count("functions", len(an.fns))
    c.count("lock acquisitions", len(an.events))
    mutexes = {m for _, _, alts, _, _ in an.events for _, m in alts}
    c.count("mutexes", len(mutexes))
    c.need("mutexes", 8)
    c.need("lock acquisitions", 200)
    rank(c, p, an)
    same(c, p, an)
    condwaits(c, p, an, waits)
    raw(c, p, an)


# ---- R1: order between different mutexes
def rank(c, p, an):
    edges = defaultdict(dict)
    for F, n, alts, mode, held in an.events:
        for h, ha, hm in held:
            for _, m1 in ha:
                for _, m2 in alts:
                    if m1 != m2:
                        edges[m1].setdefault(m2, (F, n))
    c.count("ordered mutex pairs", sum(len(v) for v in edges.values()))
    c.notes.append("order: " + "; ".join("%s -> %s" % (name(p, a), ", ".join(sorted(name(p, x) for x in b))) for a, b in sorted(edges.items())))
    # every edge on a cycle
    for a in sorted(edges):
        for b, (F, n) in sorted(edges[a].items()):
            path = reach(edges, b, a)
            if path is None:
                continue
            back = []
            for x, y in zip(path, path[1:]):
                G, m = edges[x][y]
                back.append("%s before %s in %s (%s)" % (name(p, x), name(p, y), G.q, G.loc(m)))
            cyc = sorted({name(p, x) for x in path} | {name(p, a)})
            c.report("cycle:%s" % "-".join(cyc), F.loc(n),
                     "%s acquires %s while holding %s, but elsewhere the order is the opposite: %s; two threads can wait for each other for ever"
                     % (F.q, name(p, b), name(p, a), "; ".join(back)))


def reach(edges, a, b):
    prev = {a: None}
    st = [a]
    while st:
        x = st.pop(0)
        if x == b:
            out = []
            while x is not None:
                out.append(x)
                x = prev[x]
            return out[::-1]
        for y in edges.get(x, ()):
            if y not in prev:
                prev[y] = x
                st.append(y)
    return None


# ---- R2: several mutexes of the same kind
def same(c, p, an):
    chainof = {}
    for r in p.rec_by_u.values():
        mus = [f.n for f in r.fields if MUTEXT.match(f.t)]
        if mus:
            own = r.q.split("::")[-1]
            ch = {f.n for f in r.fields if re.search(r"(\*|_ptr<)", f.t) and re.search(r"\b%s\b" % re.escape(own), f.t)}
            for m in mus:
                chainof.setdefault(m, set()).update(ch)
    dirs = defaultdict(dict)
    unres = und = pairs = 0
    recursive = {f.n for r in p.rec_by_u.values() for f in r.fields if "recursive" in f.t and MUTEXT.match(f.t)}
    recursive |= {d.u for d in p.decls.values() if d.k == "Var" and d.get("gs") and "recursive" in (d.t or "") and MUTEXT.match(d.t)}
    for F, n, alts, mode, held in an.events:
        for h, ha, hm in held:
            for m in {m for _, m in ha} & {m for _, m in alts}:
                pairs += 1
                if m in recursive:
                    continue
                chain = chainof.get(m, set())
                hp = {x for x, mm in ha if mm == m}
                ap = {x for x, mm in alts if mm == m}
                if hp == {()} or ap == {()}:
                    c.report("%s:again:%s" % (F.q, name(p, m)), F.loc(n), "%s acquires %s while it already holds it" % (F.q, name(p, m)))
                    continue
                paths = hp | ap
                if any(x[0] in ("?", "fresh") or "[]" in x or (isinstance(x[0], model.Decl) and x[0].k != "ParmVar" and not x[0].get("gs"))
                       for x in paths):
                    if hp == ap and len(hp) == 1 and stable(an, F, next(iter(hp))):
                        x = next(iter(hp))
                        c.report("%s:again:%s.%s" % (F.q, showpath(x), m), F.loc(n),
                                 "%s acquires %s.%s while it already holds it" % (F.q, showpath(x), m))
                    else:
                        unres += 1
                    continue
                roots = sorted({split(x, chain)[0] for x in paths}, key=str)
                if len(roots) == 1:
                    if len(hp) > 1 or len(ap) > 1:
                        unres += 1
                        continue
                    i, j = split(next(iter(hp)), chain)[1], split(next(iter(ap)), chain)[1]
                    what = "%s.%s" % (showpath(next(iter(ap))), m)
                    if i == j and i < 3:
                        c.report("%s:again:%s" % (F.q, what), F.loc(n), "%s acquires %s while it already holds it: the thread waits for itself"
                                 % (F.q, what))
                    elif i > j:
                        c.report("%s:reverse:%s" % (F.q, what), F.loc(n), "%s acquires %s while it holds the mutex of an object it is based on; "
                                 "everywhere else the derived object comes first" % (F.q, what))
                    continue
                if len(roots) > 2:
                    unres += 1
                    continue
                und += two(c, p, an, F, n, m, chain, roots, (h, ha, hp), (alts, ap), dirs)
    c.count("same-kind acquisitions", pairs)
    c.count("of unknown identity", unres)
    c.count("orders not decided", und)
    for m, d in dirs.items():
        if len(d) == 2:
            (F1, n1), (F2, n2) = d[True], d[False]
            c.report("%s:opposite:%s" % (F2.q, m), F2.loc(n2), "%s and %s (%s) lock two objects' %s in opposite address order"
                     % (F2.q, F1.q, F1.loc(n1), m))


def stable(an, F, path):
    """the path denotes one object throughout F"""
    r = path[0]
    return isinstance(r, model.Decl) and r.k == "Var" and "[]" not in path and r not in an.ctx(F).assigned and \
        an.local_init(r) is not None and an.local_init(r)[0] is F and not in_loop_decl(F, r)


def in_loop_decl(F, d):
    for n in F.walk():
        if n.k == "DeclStmt" and any(ds[0] is d for ds in n.get("ds", [])):
            q = n
            while q is not None:
                if q.k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
                    return True
                q = q.par
    return False


def split(path, chain):
    """(object the chain starts from, steps along the chain)"""
    path = list(path)
    k = 0
    while len(path) > 1 and (path[-1] in chain or path[-1] == "+"):
        path.pop()
        k += 1
    return tuple(path), k


def two(c, p, an, F, n, m, chain, roots, heldi, acqi, dirs):
    h, ha, hp = heldi
    alts, ap = acqi
    if any(len(r) != 1 for r in roots):
        return 1
    seen = {}
    bad = {}
    arr = ordeval.arrangements(bool(chain))
    arr += [(A, A) for A, _ in arr[:1]]
    und = 0
    for A, Bo in arr:
        env = {roots[0][0]: A, roots[1][0]: Bo}
        e = ordeval.Eval(an, F, chain, env)
        if not e.reached(n):
            continue
        try:
            ho = resolve(an, F, e, h, None, ha, chain)
            ao = resolve(an, F, e, None, n, alts, chain)
        except ordeval.Unknown:
            und += 1
            continue
        if ho is None or ao is None:
            continue
        if ho is ao:
            bad.setdefault("again", (ho, ao))
        elif ho.depth < ao.depth:
            bad.setdefault("base first", (ho, ao))
        elif ho.depth == ao.depth:
            seen.setdefault(ho.addr < ao.addr, (F, n))
    what = "%s and %s" % ("/".join(sorted(showpath(x) for x in hp)), "/".join(sorted(showpath(x) for x in ap)))
    key = "%s:%s" % (F.q, what.replace(" ", "_"))
    if any(split(x, chain)[1] for x in hp | ap):
        # the bases of one object are locked while another object is held
        if bad or len(seen) == 2:
            own = F.cls.q if F.cls is not None else F.q.rsplit("::", 1)[0]
            c.report("%s:%s:bases-of-one-while-another-is-held" % (own, m), F.loc(n), "%s acquires the %s of %s one after the other: the first can be "
                     "the second, be based on it, or be unrelated, so other operations acquire them in the opposite order" % (F.q, m, what))
        return 1 if und and not bad and not seen else 0
    if "again" in bad:
        c.report(key + ":again", F.loc(n), "%s acquires the %s of %s one after the other, and they can be the same object" % (F.q, m, what))
    if "base first" in bad:
        c.report(key + ":base-first", F.loc(n), "%s acquires the %s of %s one after the other; when the first is (or is as deep as) what the second "
                 "is based on, other operations acquire them in the opposite order" % (F.q, m, what))
    if len(seen) == 2:
        c.report(key + ":unordered", F.loc(n), "%s acquires the %s of %s in an order that depends on the roles of the two objects: two threads "
                 "calling it with the roles exchanged wait for each other" % (F.q, m, what))
    elif seen:
        for k, v in seen.items():
            dirs[m].setdefault(k, v)
    return 1 if und and not bad and not seen else 0


def resolve(an, F, e, holder, node, alts, chain):
    """the object whose mutex is meant, in this arrangement"""
    alts = frozenset(alts)
    if len(alts) == 1:
        path = next(iter(alts))[0]
    else:
        path = None
        cands = []
        if holder is not None:
            i = an.local_init(holder) if isinstance(holder, model.Decl) else None
            if i is None:
                raise ordeval.Unknown()
            cands = [i[1]]
        else:
            cands = [node]
            obj, _ = call_parts(node) if node.k in CALLS else (None, None)
            o = strip(obj) if obj is not None else None
            if o is not None and o.k == "DeclRefExpr" and an.local_init(o.d):
                cands.append(an.local_init(o.d)[1])
            if node.k == "DeclStmt":
                cands = [F.node(ds[1]) for ds in node.get("ds", []) if LOCKT.match(ds[0].t.strip())]
        for r in cands:
            for x in F.walk(r):
                if x.k == "ConditionalOperator" and an.mutex_alts(F, x) == alts:
                    br = x.c[1] if e.truth(e.ev(x.c[0], dict(e.env0))) else x.c[2]
                    a = an.mutex_alts(F, br)
                    if a and len(a) == 1:
                        path = next(iter(a))[0]
                    break
        if path is None:
            raise ordeval.Unknown()
    o = e.env0.get(path[0])
    for f in path[1:]:
        if o is None:
            return None
        if f == "+" or f in chain:
            o = o.base
        else:
            raise ordeval.Unknown()
    return o


# ---- R4: condition waits
def condwaits(c, p, an, calls):
    def is_wait(n):
        return n.fn is not None and n.fn.n in ("wait", "wait_for", "wait_until") and "condition_variable" in n.fn.q
    waiters = {}
    for F in an.fns:
        for n in F.nodes:
            if n.k in CALLS and is_wait(n):
                waiters[F.u] = (F, n)
    todo = list(waiters)
    while todo:
        u = todo.pop()
        for v in an.callers[u]:
            if v not in waiters:
                waiters[v] = waiters[u]
                todo.append(v)
    c.count("functions that wait for a condition", len(waiters))
    for F, n, st in calls:
        obj, args = call_parts(n)
        passed = set()
        for a in args:
            s = strip(a)
            if s is not None and s.k == "DeclRefExpr":
                passed.add(s.d)
        if is_wait(n):
            src = (F, n)
        else:
            gs = [g for g in an.callees(n) if g.u in waiters]
            for le in an.lambdas_in_args(n):
                gs += [g for g in an.lambda_fns(le) if g.u in waiters]
            if not gs:
                continue
            src = waiters[gs[0].u]
        # a lock the callee waits with is released meanwhile
        capt = any(x.k == "DeclRefExpr" and x.d is not None and any(h == x.d for h, _, _ in st) for x in src[0].walk(src[1]))
        for h, alts, m in st:
            if h in passed or capt and any(x.k == "DeclRefExpr" and x.d is h for x in src[0].walk(src[1])):
                continue
            nm = "/".join(sorted(name(p, x[1]) for x in alts))
            c.report("%s:wait:%s" % (F.q, nm), F.loc(n), "%s waits for a condition (%s) while it holds %s: whoever is to signal it may need that mutex"
                     % (F.q, src[0].loc(src[1]), nm))


# ---- R3: manual locking
class Raw(flow.Flow):
    def __init__(self, p, an):
        flow.Flow.__init__(self, p)
        self.an = an

    def which(self, F, n):
        if n.k == "CXXMemberCallExpr" and n.fn is not None:
            obj, _ = call_parts(n)
            o = strip(obj) if obj is not None else None
            if o is not None and (MUTEXT.match(o.t.strip()) or MUTEXT.match(o.t.replace("const ", "").strip())):
                a = self.an.mutex_alts(F, obj)
                if a:
                    return n.fn.n, frozenset(a)
            if o is not None and LOCKT.match(o.t.strip()) and o.k == "DeclRefExpr" and n.fn.n == "release":
                muts, _ = self.an.lockvar(o.d)
                if muts and muts[0]:
                    return "lock", frozenset(muts[0])
        return None, None

    def event(self, F, n, st):
        nm, a = self.which(F, n)
        if nm in ("lock", "lock_shared"):
            return (st | {(a, n.i)},)
        if nm in ("unlock", "unlock_shared"):
            return (frozenset(x for x in st if x[0] != a),)
        if n.k == "DeclStmt":
            for ds in n.get("ds", []):
                if LOCKT.match(ds[0].t.strip()) and ds[1] is not None and ds[1] >= 0:
                    i = F.node(ds[1])
                    if any("adopt_lock_t" in x.t for x in F.walk(i)):
                        lc = self.an.lock_ctor(F, i)
                        if lc and lc[0] not in ("move", "call"):
                            st = frozenset(x for x in st if not any(a and x[0] == frozenset(a) for a in lc[0]))
        return (st,)

    def dtor(self, F, v, st):
        ae = self.an.at_exit(v)
        if ae is not None:
            for g in self.an.lambda_fns(ae[1]):
                for n in g.walk():
                    nm, a = self.which(g, n)
                    if nm in ("unlock", "unlock_shared"):
                        st = frozenset(x for x in st if x[0] != a)
        return (st,)


def raw(c, p, an):
    fl = Raw(p, an)
    k = 0
    an.lockvars = {}
    for F in an.fns:
        sites = [n for n in F.walk() if n.k == "CXXMemberCallExpr" and fl.which(F, n)[0] in ("lock", "lock_shared")]
        if not sites:
            continue
        k += len(sites)
        if F.decl.k == "CXXConstructor" or F.decl.n in ("lock", "lock_shared", "acquire", "operator()"):
            continue
        for kind, st, nid in fl.run(F, frozenset()):
            for a, i in st:
                mu = "/".join(sorted("%s.%s" % (showpath(x), name(p, m)) if x else name(p, m) for x, m in a))
                at = F.nodes[nid] if nid is not None and nid >= 0 else None
                # an exception unwinds through scope guards that live at the throw
                if kind == "throw" and guarded_throw(an, fl, F, a):
                    continue
                c.report("%s:raw:%s" % (F.q, mu), F.loc(F.nodes[i]), "%s locks %s by hand and leaves (%s at %s) without unlocking it"
                         % (F.q, mu, "by an exception" if kind == "throw" else "normally", F.loc(at) if at is not None else "its end"))
    c.count("manual lock calls", k)


def guarded_throw(an, fl, F, a):
    for n in F.walk():
        if n.k == "DeclStmt":
            for ds in n.get("ds", []):
                ae = an.at_exit(ds[0])
                if ae is not None:
                    for g in an.lambda_fns(ae[1]):
                        if any(fl.which(g, x) == ("unlock", a) or fl.which(g, x) == ("unlock_shared", a) for x in g.walk()):
                            return True
    return False
