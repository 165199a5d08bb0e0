"""C13: the buffer pool is safe under concurrent use."""
from collections import namedtuple
from vlib import model, lockset, lockrun, sessions, flow
from vlib.lockset import strip, CALLS, call_parts, LOCKT

B = "DataMgr/BufferMgr/"
TUS = [B + x for x in ("BufferMgr.cpp", "Buffer.cpp", "CpuBufferMgr/CpuBufferMgr.cpp", "CpuBufferMgr/TieredCpuBufferMgr.cpp",
                       "CpuBufferMgr/CpuBuffer.cpp", "GpuBufferMgr/GpuBufferMgr.cpp", "GpuBufferMgr/GpuBuffer.cpp")]
GUARD = {"chunk_index_": "chunk_index_mutex_", "in_progress_buffer_cvs_": "chunk_index_mutex_", "slab_segments_": "sized_segs_mutex_",
         "slabs_": "sized_segs_mutex_", "unsized_segs_": "unsized_segs_mutex_", "max_buffer_id_": "buffer_id_mutex_",
         "num_pages_allocated_": "sized_segs_mutex_", "current_max_slab_page_size_": "sized_segs_mutex_",
         "allocations_capped_": "sized_segs_mutex_", "buffer_epoch_": "sized_segs_mutex_"}
POOL, BUF = "Buffer_Namespace::BufferMgr", "Buffer_Namespace::Buffer"


def run(c):
    c.rule = ("interprocedural lockset dataflow for the pool's state; typestate over all normal and exceptional paths for the "
              "in-progress table (every entry is notified and erased) and for pins (a returned buffer is pinned once, nothing else "
              "stays pinned); abstract segment state (free, unpinned, pinned) at every eviction and deletion")
    p = model.load(TUS)
    pool, buf = p.record(POOL), p.record(BUF)
    g = {f.u: GUARD[f.n] for f in pool.fields if f.n in GUARD}
    g2 = {f.u: "pin_mutex_" for f in buf.fields if f.n in ("pin_count_", "delete_on_unpin_")}
    if len(g) != len(GUARD) or len(g2) != 2:
        raise model.AnalysisBroken("the pool's shared members are not those known")
    g.update(g2)
    c.count("guarded members", len(g))
    an = lockset.LockAnalysis(p, g)
    held = []
    an.probe = lambda F, n, st: held.append((F, n, st)) if n.k in ("CXXMemberCallExpr", "CXXDeleteExpr") else None
    an.run()
    c.count("functions", len(an.fns))
    c.count("guarded accesses", an.nacc)
    c.count("lock acquisitions", len(an.events))
    base = lockrun.is_root(an)

    def root(F):
        return base(F) and not hands_out(F, g)
    c.count("entry points", sum(1 for F in an.fns if root(F)))
    lockrun.report(c, an, root, {})
    c.notes.append("an accessor that only returns a reference to the segment lists leaves the locking to its caller and is not judged")
    rf, wf = sessions.read_fields(an), sessions.written_fields(an)
    for F in an.fns:
        s = sessions.Sessions(an, F, rf, wf, set())
        for (fld, kind, line), (n, msg) in sorted(s.run().items(), key=lambda x: str(x[0])):
            if lookup_only(n, g):
                continue
            c.report("%s:%s:%s" % (F.q, fld, kind), F.loc(n), "%s %s" % (F.q, msg))
    locks(c, p, an, held)
    Segments(c, p, pool, an).check()
    Fetch(c, p, pool, buf, an).check()
    c.need("guarded accesses", 150)
    c.need("entry points", 60)
    c.need("pin sites", 1)
    c.need("waits", 1)
    c.need("evictions and deletions", 4)
    c.need("in-progress entries", 2)


def hands_out(F, g):
    if F.cls is None or not (F.decl.get("ret") or "").rstrip().endswith("&"):
        return False
    body = [x for x in F.walk() if x.k not in ("CompoundStmt", "ImplicitCastExpr", "ParenExpr", "CXXThisExpr")]
    return len(body) == 2 and body[0].k == "ReturnStmt" and body[1].k == "MemberExpr" and body[1].d is not None and body[1].d.u in g


def lookup_only(n, g):
    """m[key]->... : looks up an entry made earlier"""
    for x in ([n] if n is not None else []):
        q = strip(x)
        if q is not None and q.k == "MemberExpr" and q.d is not None and q.d.u in g:
            up = q
            while up.par is not None and up.par.k in ("ImplicitCastExpr", "ParenExpr"):
                up = up.par
            q = up.par
        if q is not None and q.k == "CXXOperatorCallExpr" and q.op == "[]":
            y = q.par
            while y is not None and y.k in ("ImplicitCastExpr", "ParenExpr"):
                y = y.par
            if y is not None and (y.k == "MemberExpr" or y.k == "CXXOperatorCallExpr" and y.op in ("->", "*")):
                return True
    return False


def mutexes(st):
    return {m for _, alts, _ in st for (_, m) in alts}


def locks(c, p, an, held):
    for F, n, st in held:
        if n.k == "CXXDeleteExpr":
            s = strip(n.c[0])
            if s is not None and s.k == "CXXThisExpr":
                c.count("self deletions")
                mine = [m for _, alts, _ in st for (pa, m) in alts if pa and pa[0] == "this"]
                if mine:
                    c.report("%s:delete" % F.q, F.loc(n), "%s deletes the object while it holds the object's own %s" % (F.q, mine[0]))
            continue
        if n.fn is None:
            continue
        if n.fn.n == "pin" and in_pool(F):
            c.count("pin sites")
            if "sized_segs_mutex_" not in mutexes(st):
                c.report("%s:pin" % F.q, F.loc(n), "%s pins a buffer of the pool without holding sized_segs_mutex_: it can be evicted first" % F.q)
        if n.fn.n in ("wait", "wait_for", "wait_until") and "condition_variable" in (n.fn.q or "") and in_pool(F):
            c.count("waits")
            _, args = call_parts(n)
            lk = strip(args[0]) if args else None
            mine = {h for h, _, _ in st}
            if lk is None or lk.k != "DeclRefExpr" or lk.d not in mine:
                c.report("%s:wait-unlocked" % F.q, F.loc(n), "%s waits with a lock it does not hold" % F.q)
            elif any(h != lk.d for h in mine):
                other = sorted(mutexes(frozenset(x for x in st if x[0] != lk.d)))
                c.report("%s:wait-holding" % F.q, F.loc(n), "%s waits for another thread's fetch while it holds %s" % (F.q, other))
            else:
                ms = {m for h, alts, _ in st if h == lk.d for (_, m) in alts}
                if ms != {"chunk_index_mutex_"}:
                    c.report("%s:wait-mutex" % F.q, F.loc(n), "%s waits on %s, the in-progress table is guarded by chunk_index_mutex_" % (F.q, sorted(ms)))
            obj, _ = call_parts(n)
            v = rootvar(obj)
            if v is None or v.k != "Var" or v.t.rstrip().endswith("&") or "shared_ptr" not in v.t:
                c.report("%s:wait-object" % F.q, F.loc(n), "%s waits on a condition variable it does not own: the entry is erased by the thread that signals it" % F.q)
            x, loop = n, False
            while x is not None:
                if x.k in ("WhileStmt", "ForStmt", "DoStmt"):
                    loop = True
                x = x.par
            if not loop and len(args) < 2:
                c.report("%s:wait-loop" % F.q, F.loc(n), "%s does not look again at the in-progress table after waiting" % F.q)


def in_pool(F):
    q = F.q
    return q.startswith(POOL + "::") or F.cls is not None and "BufferMgr" in (F.cls.q or "")


def rootvar(n):
    """the variable a chain of ->, *, member accesses starts from"""
    n = strip(n)
    while n is not None:
        if n.k == "DeclRefExpr":
            return n.d
        if n.k == "MemberExpr" and n.c:
            n = strip(n.c[0])
        elif n.k == "CXXOperatorCallExpr" and n.op in ("->", "*") and len(n.c) > 1:
            n = strip(n.c[1])
        elif n.k == "UnaryOperator" and n.op in ("*", "&"):
            n = strip(n.c[0])
        elif n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(n.c) == 1:
            n = strip(n.c[0])
        elif n.k == "CXXMemberCallExpr" and n.fn is not None and n.fn.n == "get":
            n = strip(call_parts(n)[0])
        else:
            return None
    return None


def const(n):
    n = strip(n)
    if n is None:
        return None
    for v in (n.cv, n.v):
        try:
            return int(v)
        except (TypeError, ValueError):
            pass
    return None


CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b,
       "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
# abstract segment: free; used and unpinned; used and pinned (a null buffer only occurs in a free segment or before it is handed out)
ALL = frozenset("FUP")


class Segments(flow.Flow):
    """state: frozenset of (variable, possible segment states)"""

    def __init__(self, c, p, pool, an):
        flow.Flow.__init__(self, p)
        self.c, self.pool, self.linit = c, pool, an._linit
        self.assigned = set()
        for F in p.fns.values():
            for n in F.nodes:
                l = None
                if n.k == "BinaryOperator" and n.op == "=" or n.k == "CompoundAssignOperator" or n.k == "UnaryOperator" and n.op in ("++", "--"):
                    l = strip(n.c[0])
                elif n.k == "CXXOperatorCallExpr" and n.op in ("=", "++", "--", "+=", "-=") and len(n.c) > 1:
                    l = strip(n.c[1])
                if l is not None and l.k == "DeclRefExpr":
                    self.assigned.add(l.d)
        # functions that delete the buffer of a key they are given
        self.explicit = set()
        self.judged = set()

    def canon(self, d, depth=0):
        if d is None or d in self.assigned or d not in self.linit or depth > 5:
            return d
        r = rootvar(self.linit[d][1])
        return self.canon(r, depth + 1) if r is not None else d

    def root(self, n, env):
        d = rootvar(n)
        d = env.get(d, d)
        return self.canon(d)

    # -- truth of a condition when segment `v` is in abstract state s: True, False or None
    def truth(self, n, v, s, env, depth=0):
        n = strip(n)
        if n is None or depth > 6:
            return None
        if n.k == "CallExpr" and n.fn is not None and n.fn.n == "__builtin_expect":
            return self.truth(n.c[1], v, s, env, depth)
        if n.k == "CXXConstructExpr" and len(n.c) == 1:
            return self.truth(n.c[0], v, s, env, depth)
        if n.k == "UnaryOperator" and n.op == "!":
            t = self.truth(n.c[0], v, s, env, depth)
            return None if t is None else not t
        if n.k == "BinaryOperator" and n.op in ("&&", "||"):
            a, b = self.truth(n.c[0], v, s, env, depth), self.truth(n.c[1], v, s, env, depth)
            if n.op == "&&":
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        if n.k == "BinaryOperator" and n.op in CMP:
            a, b = self.deref(n.c[0]), self.deref(n.c[1])
            for x, y, op in ((a, b, n.op), (b, a, FLIP[n.op])):
                if self.ispin(x):
                    if self.root(call_parts(x)[0], env) is not v:
                        return None
                    k = const(y)
                    if k is None or s == "F":
                        return None
                    if s == "U":
                        return CMP[op](0, k)
                    r = {CMP[op](i, k) for i in (1, 2, 3, 1000)}
                    return r.pop() if len(r) == 1 else None
                if x is not None and x.k == "MemberExpr" and x.d is not None and x.d.n == "mem_status" and y is not None and y.d is not None and y.d.n in ("FREE", "USED"):
                    if self.root(x, env) is not v:
                        return None
                    eq = (s == "F") == (y.d.n == "FREE")
                    return eq if op == "==" else not eq if op == "!=" else None
                if x is not None and x.k == "MemberExpr" and x.d is not None and x.d.n == "buffer" and y is not None and y.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr", "IntegerLiteral"):
                    if self.root(x, env) is not v:
                        return None
                    if s == "P":
                        return op == "!="
                    return None
            return None
        if self.ispin(n):
            if self.root(call_parts(n)[0], env) is not v or s == "F":
                return None
            return s == "P"
        if n.k == "MemberExpr" and n.d is not None and n.d.n == "buffer":
            return True if s == "P" and self.root(n, env) is v else None
        if n.k == "DeclRefExpr" and n.d is not None and n.d in self.linit and n.d not in self.assigned:
            return self.truth(self.linit[n.d][1], v, s, env, depth + 1)
        if n.k in CALLS and n.fn is not None and n.fn.u in self.p.fns:
            g = self.p.fns[n.fn.u]
            rets = [x for x in g.walk() if x.k == "ReturnStmt"]
            obj, args = call_parts(n)
            if len(rets) == 1 and rets[0].c:
                e2 = {pr: self.root(a, env) for pr, a in zip(g.params, args) if a is not None}
                return self.truth(rets[0].c[0], v, s, e2, depth + 1)
        return None

    def deref(self, n):
        """what a local that is set once stands for"""
        n = strip(n)
        for _ in range(4):
            if n is None or n.k != "DeclRefExpr" or n.d not in self.linit or n.d in self.assigned:
                break
            i = strip(self.linit[n.d][1])
            if i is None:
                break
            n = i
        return n

    @staticmethod
    def ispin(n):
        return n is not None and n.k == "CXXMemberCallExpr" and n.fn is not None and n.fn.n == "getPinCount"

    def vars_in(self, n, env, F, depth=0):
        out = set()
        for x in F.walk(n):
            if x.k == "DeclRefExpr" and x.d is not None:
                d = env.get(x.d, x.d)
                cd = self.canon(d)
                out.add(cd)
                if d in self.linit and d not in self.assigned and depth < 3:
                    G, i = self.linit[d]
                    if i is not None:
                        out |= self.vars_in(i, env, G, depth + 1)
        return out

    def branch(self, F, B, cond, taken, st):
        d = dict(st)
        for v in self.vars_in(cond, {}, F):
            if v is None:
                continue
            cur = d.get(v, ALL)
            new = frozenset(s for s in cur if self.truth(cond, v, s, {}) in (None, taken))
            if not new:
                return None
            if new != ALL:
                d[v] = new
        return frozenset(d.items())

    def kill(self, st, v):
        return frozenset(x for x in st if x[0] is not v)

    def possible(self, st, v):
        return dict(st).get(v, ALL)

    def event(self, F, n, st):
        if n.k == "CXXOperatorCallExpr" and n.op in ("=", "++", "--", "+=", "-=") and len(n.c) > 1 or \
           n.k == "UnaryOperator" and n.op in ("++", "--") or n.k == "BinaryOperator" and n.op == "=":
            l = strip(n.c[1] if n.k == "CXXOperatorCallExpr" else n.c[0])
            if l is not None and l.k == "DeclRefExpr":
                st2 = self.kill(st, l.d)
                if n.op == "=":
                    r = rootvar(n.c[-1])
                    r = self.canon(r)
                    if r is not None and r in dict(st) and plaincopy(n.c[-1]):
                        st2 = st2 | {(l.d, dict(st)[r])}
                st = st2
        if n.k == "DeclStmt":
            for ds in n.get("ds", []):
                st = self.kill(st, ds[0])
                i = F.node(ds[1])
                if i is not None and ds[0] in self.assigned and plaincopy(i):
                    r = self.canon(rootvar(i))
                    if r is not None and r in dict(st):
                        st = st | {(ds[0], dict(st)[r])}
        if n.k == "CompoundAssignOperator" and n.op == "+=":
            l, r = strip(n.c[0]), strip(n.c[1])
            if l is not None and l.k == "DeclRefExpr" and r is not None and r.k == "MemberExpr" and r.d is not None and r.d.n == "num_pages":
                self.judged.add((F.u, n.i))
                v = self.root(r, {})
                if v is not None and "P" in self.possible(st, v):
                    self.c.report("%s:reclaim" % F.q, F.loc(n), "%s counts the pages of a segment as reclaimable without having seen that it is free or unpinned" % F.q)
        if n.k == "CXXDeleteExpr" and n.c:
            e = strip(n.c[0])
            if e is not None and e.k != "CXXThisExpr" and "Buffer" in e.t:
                self.judged.add((F.u, n.i))
                v = self.root(e, {})
                if self.bykey(F, e, v):
                    self.explicit.add(F.u)
                elif v is None or "P" in self.possible(st, v):
                    self.c.report("%s:delete-pinned" % F.q, F.loc(n), "%s deletes a buffer of the pool that may be pinned" % F.q)
        if n.k in CALLS and n.fn is not None and n.fn.u in self.explicit:
            for a in call_parts(n)[1]:
                s = strip(a)
                if s is not None and s.k == "MemberExpr":
                    v = self.root(s, {})
                    if v is not None and v.k == "Var" and ("BufferSeg" in v.t or "terator" in v.t or v.t.startswith("auto")):
                        self.judged.add((F.u, n.i))
                        if "P" in self.possible(st, v):
                            self.c.report("%s:delete-pinned" % F.q, F.loc(n), "%s deletes the buffer of a segment that may be pinned" % F.q)
        return (st,)

    def bykey(self, F, e, v):
        """the buffer of a key the caller names"""
        i = None
        if v is not None and v in self.linit and v not in self.assigned:
            i = self.linit[v][1]
        for x in F.walk(i if i is not None else e):
            if x.k == "CXXMemberCallExpr" and x.fn is not None and x.fn.n in ("find", "at"):
                o, args = call_parts(x)
                o = strip(o)
                k = strip(args[0]) if args else None
                if o is not None and o.d is not None and o.d.n == "chunk_index_" and k is not None and k.k == "DeclRefExpr" and k.d in F.params:
                    return True
        return False

    def check(self):
        fs = [F for F in self.p.fns.values() if F.blocks and in_pool(F)]
        self.c.count("pool functions", len(fs))
        for _ in range(3):
            k = len(self.explicit)
            self._sum.clear()
            for F in fs:
                self.run(F, frozenset())
            if len(self.explicit) == k:
                break
        self.c.count("evictions and deletions", len(self.judged))


def plaincopy(n):
    n = strip(n)
    while n is not None and n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(n.c) == 1:
        n = strip(n.c[0])
    return n is not None and n.k == "DeclRefExpr"


St = namedtuple("St", "bal notify erase guards null")


class Fetch(flow.Flow):
    """pins balance and the in-progress table is always cleaned up"""

    def __init__(self, c, p, pool, buf, an):
        self.table = next(f for f in pool.fields if f.n == "in_progress_buffer_cvs_")
        self.parent = next((f for f in pool.fields if f.n == "parent_mgr_"), None)
        if self.parent is None:
            raise model.AnalysisBroken("the pool has no parent_mgr_")
        self.c, self.an = c, an
        self.prim = {"createBuffer", "createZeroCopyBuffer", "deleteBuffer", "fetchBuffer", "getBuffer", "alloc"}
        rel = set()
        for F in p.fns.values():
            if in_pool(F) and F.blocks and F.decl.n not in self.prim and not F.is_lambda and F.decl.k == "CXXMethod":
                for n in F.nodes:
                    if n.k == "MemberExpr" and n.d is self.table or n.k == "CXXMemberCallExpr" and n.fn is not None and n.fn.n in {"pin", "unPin"} | self.prim:
                        rel.add(F.u)
        rel = {u for u in flow.relevant_closure(p, rel) if u in p.fns and in_pool(p.fns[u]) and p.fns[u].decl.n not in self.prim}
        flow.Flow.__init__(self, p, relevant=rel)
        self.entries = set()

    def viaparent(self, n):
        if n.k != "CXXMemberCallExpr":
            return False
        o = strip(call_parts(n)[0])
        return o is not None and o.k == "MemberExpr" and o.d is self.parent

    def targets(self, n):
        if self.viaparent(n):
            return []
        return flow.Flow.targets(self, n)

    def intable(self, n, F):
        """n is a chain that starts at the table"""
        return any(x.k == "MemberExpr" and x.d is self.table for x in F.walk(n))

    def event(self, F, n, st):
        if self.viaparent(n):
            # whatever the parent does, it may fail
            B = self.block_of(F, n)
            self._throw(F, B, n, st, self._exits, self._states, self._work)
            return (st,)
        if n.k in CALLS and n.fn is not None:
            obj, args = call_parts(n)
            nm = n.fn.n
            if nm == "pin" and args == []:
                st = st._replace(bal=min(st.bal + 1, 4))
            elif nm == "unPin" and args == []:
                st = st._replace(bal=max(st.bal - 1, -4))
            elif nm in ("createBuffer", "createZeroCopyBuffer") and n.k == "CXXMemberCallExpr":
                st = st._replace(bal=min(st.bal + 1, 4))
            elif nm == "deleteBuffer":
                st = st._replace(bal=max(st.bal - 1, -4))
            elif nm == "notify_all":
                st = st._replace(notify=False)
            if n.k == "CXXMemberCallExpr" and obj is not None:
                o = strip(obj)
                if o is not None and o.k == "MemberExpr" and o.d is self.table:
                    if nm in ("erase", "clear", "extract"):
                        st = st._replace(erase=False)
                    elif nm in ("emplace", "insert", "try_emplace", "insert_or_assign"):
                        self.entries.add((F.u, n.i))
                        st = st._replace(notify=True, erase=True)
            if n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.c) > 2:
                l = strip(n.c[1])
                if l is not None and l.k == "CXXOperatorCallExpr" and l.op == "[]" and self.intable(l, F):
                    self.entries.add((F.u, n.i))
                    st = st._replace(notify=True, erase=True)
        if n.k == "DeclStmt":
            for ds in n.get("ds", []):
                st = self.bindnull(st, ds[0], F.node(ds[1]))
                if self.an.at_exit(ds[0]) is not None or self.dtor_of(ds[0]) is not None:
                    st = st._replace(guards=st.guards + (ds[0],))
        if n.k == "BinaryOperator" and n.op == "=":
            l = strip(n.c[0])
            if l is not None and l.k == "DeclRefExpr":
                st = self.bindnull(st, l.d, n.c[1])
        return (st,)

    def bindnull(self, st, d, i):
        if not d.t.rstrip().endswith("*"):
            return st
        s = strip(i) if i is not None else None
        rest = frozenset(x for x in st.null if x[0] is not d)
        if s is not None and (s.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or s.k == "IntegerLiteral" and s.v in (0, "0")):
            return st._replace(null=rest | {(d, True)})
        return st._replace(null=rest | {(d, False)} if s is not None else rest)

    def branch(self, F, B, cond, taken, st):
        x, neg = strip(cond), False
        while x is not None and x.k == "UnaryOperator" and x.op == "!":
            x, neg = strip(x.c[0]), not neg
        if x is not None and x.k == "BinaryOperator" and x.op in ("==", "!="):
            a, b = strip(x.c[0]), strip(x.c[1])
            if a is not None and b is not None and b.k == "CXXNullPtrLiteralExpr":
                neg ^= x.op == "=="
                x = a
        if x is not None and x.k == "DeclRefExpr":
            for d, isnull in st.null:
                if d is x.d:
                    # the condition says "not null" when taken (and not negated)
                    if isnull == (taken != neg):
                        return None
        return st

    def dtor_of(self, d):
        for r in self.p.rec_by_u.values():
            if r.q and (d.t or "").replace("const ", "").strip() in (r.q, r.q.split("::")[-1]):
                for F in self.p.fns.values():
                    if F.decl.k == "CXXDestructor" and F.cls is not None and F.cls.u == r.u and F.blocks:
                        if any(x.k == "CXXMemberCallExpr" and x.fn is not None and x.fn.n in ("notify_all", "unPin", "erase") for x in F.nodes):
                            return F
        return None

    def close(self, d, st):
        ae = self.an.at_exit(d)
        gs = self.an.lambda_fns(ae[1]) if ae is not None else [x for x in (self.dtor_of(d),) if x]
        out = set()
        for g in gs:
            for kind, s2, _ in self.run(g, st._replace(guards=())):
                out.add(s2)
        return out or {st}

    def dtor(self, F, var, st):
        if var in st.guards:
            rest = tuple(x for x in st.guards if x is not var)
            return {s._replace(guards=rest) for s in self.close(var, st)}
        return (st,)

    def leave(self, F, st):
        own = [d for d in st.guards if self.an._linit.get(d, (None,))[0] is F]
        for d in reversed(own):
            # an exception leaves the function: the guards still alive run now
            res = self.close(d, st._replace(guards=tuple(x for x in st.guards if x is not d)))
            res = sorted(res, key=lambda s: (-s.notify, -s.erase, str(s)))
            st = res[0]._replace(guards=tuple(x for x in st.guards if x is not d))
        return st

    def block_of(self, F, n):
        m = getattr(F, "_blkof", None)
        if m is None:
            m = {}
            for B in F.blocks.values():
                for el in B.elems:
                    if el[0] == "s" and el[1] is not None:
                        m[el[1].i] = B
            F._blkof = m
        return m[n.i]

    def _throw(self, F, B, n, s, exits, states, work):
        return flow.Flow._throw(self, F, B, n, s, exits, states, work)

    def check(self):
        c, p = self.c, self.p
        init = St(0, False, False, (), frozenset())
        subj = [F for F in p.fns.values() if F.blocks and in_pool(F) and F.decl.n in ("getBuffer", "fetchBuffer") and F.q.startswith(POOL)]
        if len(subj) != 2:
            raise model.AnalysisBroken("the pool's getBuffer and fetchBuffer are not where they were")
        for F in subj:
            ends = self.run(F, init)
            c.count("path ends", len(ends))
            if not any(k == "ret" for k, _, _ in ends):
                raise model.AnalysisBroken("no way out of " + F.q)
            want = 1 if F.decl.n == "getBuffer" else 0
            for kind, st, nid in sorted(ends, key=str):
                at = F.loc(F.nodes[nid]) if nid >= 0 else F.loc()
                if st.notify or st.erase:
                    how = "returns" if kind == "ret" else "fails"
                    c.report("%s:%s-unfinished" % (F.q, how), at, "%s %s on some path with its entry in the in-progress table not %s"
                             % (F.q, how, "erased" if st.erase else "notified (notify_all): threads waiting for it are never woken"))
                if kind == "throw" and nid < 0:
                    continue          # an exception type no handler of the function names
                if kind == "ret" and st.bal != want:
                    c.report("%s:pins" % F.q, at, "%s returns on some path with %d pins taken on the buffer instead of %d" % (F.q, st.bal, want))
                if kind == "throw" and st.bal > 0:
                    c.report("%s:pin-leak" % F.q, at, "%s fails on some path and leaves a buffer pinned" % F.q)
        c.count("in-progress entries", len(self.entries))
        # a new buffer is pinned once by its constructor
        n = 0
        for F in p.fns.values():
            if F.decl.k == "CXXConstructor" and F.cls is not None and F.cls.q == BUF and F.blocks:
                n += 1
                for kind, st, nid in self.run(F, init):
                    if kind == "ret" and st.bal != 1:
                        c.report("%s:ctor" % F.q, F.loc(), "a new buffer starts with %d pins instead of one" % st.bal)
        if n < 2:
            raise model.AnalysisBroken("the constructors of Buffer are gone")
        c.count("functions followed", len(self.visited))
