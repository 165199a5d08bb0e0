"""Check-then-act across lock sessions, and worker tasks that outlive the lock they rely on."""
from collections import defaultdict
from . import model
from .lockset import strip, CALLS, call_parts, is_fatal_elem, LockAnalysis, is_viewish


def read_fields(an):
    """fn usr -> guarded field names read (transitively, through any callee)."""
    direct, calls = defaultdict(set), defaultdict(set)
    for F in an.fns:
        for n in F.nodes:
            if n.k in ("MemberExpr", "DeclRefExpr") and n.d is not None and n.d.u in an.guards:
                direct[F.u].add(n.d.n)
            if n.k in CALLS:
                for g in an.callees(n):
                    calls[F.u].add(g.u)
    changed = True
    while changed:
        changed = False
        for u in list(calls):
            new = set(direct[u])
            for g in calls[u]:
                new |= direct[g]
            if new != direct[u]:
                direct[u] = new
                changed = True
    return direct


def written_fields(an):
    """fn usr -> guarded field names written without the function taking the lock itself (its lock requirements)."""
    out = {}
    for F in an.fns:
        out[F.u] = {k[4] for k in an.summ[F.u] if k[2] == "W"}
    return out


class Sessions:
    """One function: which lock session each guarded read/write and each local definition happened in."""

    def __init__(self, an, F, rf, wf, monotone):
        self.an, self.F, self.rf, self.wf, self.mono = an, F, rf, wf, monotone

    def taint(self, n, st, env):
        """guarded fields (with session) the value of n depends on: set of (field, session)"""
        out = set()
        for x in self.F.walk(n):
            if x.k in ("MemberExpr", "DeclRefExpr") and x.d is not None and x.d.u in self.an.guards:
                if x.d.n not in self.mono:
                    out.add((x.d.n, st))
            elif x.k == "DeclRefExpr" and x.d in env:
                out |= env[x.d]
            elif x.k in CALLS:
                for g in self.an.callees(x):
                    locks_itself = bool(self.an.acq[g.u])
                    for f in self.rf.get(g.u, ()):
                        if f not in self.mono:
                            out.add((f, st if (st or not locks_itself) else ("call", x.i)))
            elif x.k == "LambdaExpr":
                pass
        return out

    def run(self):
        an, F = self.an, self.F
        an.lockvars = {}
        for d, (F2, n2) in an._linit.items():
            if F2 is F:
                from .lockset import LOCKT
                if LOCKT.match(d.t.strip()):
                    lc = an.lock_ctor(F, n2)
                    if lc is not None and lc[0] not in ("move", "call"):
                        an.lockvars[d] = (lc[0], lc[1])
        an.aliases = an._alias_map(F)
        # state: (locks, session, env, conds) ; session = node id of the acquisition or None
        def join_env(a, b):
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, frozenset()) | v
            return r
        init = (frozenset(), None, {}, frozenset())
        self.condinfo = {}
        writes = {}
        inst = {F.entry: init}
        work = [F.entry]
        rounds = 0
        found = {}
        self.nwrites = 0
        while work:
            rounds += 1
            if rounds > 5000:
                raise model.AnalysisBroken("session flow does not converge in " + F.q)
            b = work.pop()
            B = F.blocks[b]
            locks, ses, env, conds = inst[b]
            env = dict(env)
            fatal = False
            for el in B.elems:
                if el[0] == "s" and el[1] is not None and is_fatal_elem(el[1]):
                    fatal = True
                    break
                nl = an.step(F, locks, el, {}, {}, False)
                if nl != locks:
                    if not nl:
                        ses = None
                    elif nl - locks:
                        ses = el[1].i
                    locks = nl
                if el[0] != "s" or el[1] is None:
                    continue
                n = el[1]
                if n.k == "DeclStmt":
                    for ds in n.get("ds", []):
                        i = F.node(ds[1]) if ds[1] is not None and ds[1] >= 0 else None
                        if i is not None and not is_viewish(ds[0].t):
                            env[ds[0]] = frozenset(self.taint(i, ses, env))
                elif n.k == "BinaryOperator" and n.op == "=":
                    l = strip(n.c[0])
                    if l is not None and l.k == "DeclRefExpr" and not l.d.get("gs"):
                        env[l.d] = frozenset(self.taint(n.c[1], ses, env))
                if ses is not None:
                    self._writes(F, n, b, ses, env, found, writes)
            if fatal:
                continue
            if B.cond is not None and len([s for s in B.succs if s is not None and s >= 0]) > 1:
                self.condinfo[b] = self.condinfo.get(b, frozenset()) | frozenset(self.taint(B.cond, ses, env))
            for i, s in enumerate(B.succs):
                if s is None or s < 0 or s == F.exit:
                    continue
                nc = conds
                ns = (locks, ses, env, nc)
                if s not in inst:
                    inst[s] = ns
                    work.append(s)
                else:
                    o = inst[s]
                    # conditions seen: those of session-1 (may: union); re-checks must hold on all paths, so keep both
                    j = (o[0] & locks, o[1] if o[1] == ses else (o[1] if ses is None else ses), join_env(o[2], env), o[3] | nc)
                    if j != o:
                        inst[s] = j
                        work.append(s)
        if writes and any(s not in (None,) for v in self.condinfo.values() for _, s in v):
            fatalb = {B.id for B in F.blocks.values() for e in B.elems
                      if e[0] == "s" and e[1] is not None and is_fatal_elem(e[1])}
            ctl = {}
            for (f, b, ses), n in writes.items():
                if b not in ctl:
                    ctl[b] = self._controllers(F, b, fatalb)
                info = [self.condinfo.get(x, frozenset()) for x in ctl[b]]
                old = {a for v in info for a, s in v if s not in (ses, None)}
                new = {a for v in info for a, s in v if s == ses}
                if f in old and not (new & old):
                    found[(f, "decision", n.l)] = (n, "modifies %s because of what an earlier lock session read, without "
                                                   "reading it again in this session" % f)
        return found

    def _controllers(self, F, b, fatalb):
        """Branch blocks that decide whether block b is executed."""
        def succs(x):
            B = F.blocks[x]
            if x in fatalb:
                return []
            return [s for i, s in enumerate(B.succs) if s is not None and s >= 0 and not (B.term is None and i == 1)]
        pred = defaultdict(set)
        for x in F.blocks:
            for s in succs(x):
                pred[s].add(x)
        up = set()
        st = [b]
        while st:
            x = st.pop()
            for y in pred[x]:
                if y not in up:
                    up.add(y)
                    st.append(y)
        # blocks from which the exit can be reached without passing b
        esc = {F.exit}
        st = [F.exit]
        while st:
            x = st.pop()
            for y in pred[x]:
                if y != b and y not in esc:
                    esc.add(y)
                    st.append(y)
        return [x for x in up if x in esc and x in self.condinfo]

    def _writes(self, F, n, b, ses, env, found, writes):
        an = self.an
        items = []
        if n.k in ("MemberExpr", "DeclRefExpr") and n.d is not None and n.d.u in an.guards and an.classify(F, n) == "W":
            # the whole statement's index/value operands
            top = n
            while top.par is not None and top.par.k not in ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt", "DeclStmt",
                                                            "CXXForRangeStmt", "LambdaExpr", "ReturnStmt"):
                top = top.par
            items.append((n.d.n, top))
        elif n.k in CALLS:
            for g in an.callees(n):
                for f in self.wf.get(g.u, ()):
                    items.append((f, n))
        for f, expr in items:
            if f in self.mono and False:
                continue
            self.nwrites += 1
            writes[(f, b, ses)] = n
            used = set()
            for x in F.walk(expr):
                if x.k == "DeclRefExpr" and x.d in env:
                    stale = {(a, s) for a, s in env[x.d] if s not in (ses, None)}
                    fresh = {(a, s) for a, s in env[x.d] if s == ses}
                    if stale and not fresh:
                        used.add((x.d.n, tuple(sorted({a for a, _ in stale}))))
            for v, fs in used:
                found[(f, "value " + v, n.l)] = (n, "modifies %s using '%s', which was derived from %s under an earlier "
                                                 "lock session" % (f, v, ", ".join(fs)))


JOINS = {"join", "get", "wait", "run_and_wait"}
ASYNC = ("std::thread", "std::async", "threading", "task_group", "std::jthread")


def task_escapes(an, F):
    """Launches of worker tasks relying on a lock of F that may be released before the tasks are waited for."""
    out = []
    launches = []
    for n in F.walk():
        if n.k in CALLS and n.fn is not None:
            les = an.lambdas_in_args(n)
            if not les:
                continue
            q = n.fn.q
            asy = q.startswith(ASYNC) or "std::thread" in n.t or "future<" in n.t
            if not asy and n.k == "CXXMemberCallExpr" and n.fn.n in ("emplace_back", "push_back", "emplace", "run"):
                obj, _ = call_parts(n)
                ot = strip(obj).t if obj is not None and strip(obj) is not None else ""
                asy = "std::thread" in ot or "future" in ot or "task_group" in ot
            if not asy:
                continue
            for le in les:
                for g in an.lambda_fns(le):
                    if an.summ[g.u]:
                        launches.append((n, g))
    if not launches:
        return out, 0
    # barrier blocks: contain a join, or head a loop whose body contains one
    barrier = set()
    joinn = {n.i for n in F.walk() if n.k == "CXXMemberCallExpr" and n.fn is not None and n.fn.n in JOINS}
    for B in F.blocks.values():
        if any(e[0] == "s" and e[1] is not None and e[1].i in joinn for e in B.elems):
            barrier.add(B.id)
        if B.term is not None and B.term.k in ("CXXForRangeStmt", "ForStmt", "WhileStmt"):
            if any(x.i in joinn for x in F.walk(B.term)):
                # only if the launch itself is not inside the loop
                barrier.add(B.id)
    where = {}
    for B in F.blocks.values():
        for j, e in enumerate(B.elems):
            if e[0] == "s" and e[1] is not None:
                where.setdefault(e[1].i, (B.id, j))
    for n, g in launches:
        need = {(k[0], k[1]) for k in an.summ[g.u]}
        pos = where.get(n.i)
        if pos is None:
            continue
        seen = set()
        st = [(pos[0], pos[1] + 1)]
        while st:
            b, j = st.pop()
            B = F.blocks[b]
            stop = False
            for e in B.elems[j:]:
                if e[0] == "s" and e[1] is not None and (is_fatal_elem(e[1]) or e[1].i in joinn):
                    stop = True
                    break
                rel = None
                if e[0] == "d" and e[1] is not None and e[1] in an._linit:
                    lc = an.lock_ctor(F, an._linit[e[1]][1])
                    if lc is not None and lc[0] not in ("move", "call"):
                        rel = lc[0]
                elif e[0] == "s" and e[1] is not None and e[1].k == "CXXMemberCallExpr" and e[1].fn is not None and e[1].fn.n == "unlock":
                    obj, _ = call_parts(e[1])
                    o = strip(obj)
                    if o is not None and o.k == "DeclRefExpr" and o.d in an._linit:
                        lc = an.lock_ctor(F, an._linit[o.d][1])
                        if lc is not None and lc[0] not in ("move", "call"):
                            rel = lc[0]
                if rel:
                    for alts in rel:
                        if alts and any(a in need for a in alts):
                            out.append((n, g, "a worker started here uses state guarded by %s, which can be released at "
                                        "line %s before the worker is waited for" % (sorted(a[1] for a in alts)[0], B.term.l if B.term else "?")))
                            stop = True
            if stop or (b in barrier and b != pos[0]):
                continue
            for i, s in enumerate(B.succs):
                if s is None or s < 0 or s in seen or s == F.exit:
                    continue
                if B.term is None and i == 1:
                    continue
                seen.add(s)
                st.append((s, 0))
    return out, len(launches)
