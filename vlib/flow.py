"""Path-sensitive (disjunctive) forward dataflow over a function's CFG, with call inlining through summaries.

A client subclasses Flow and gives
  event(F, node, state)         -> iterable of successor states for a node that is not an inlined call
  branch(F, block, cond, taken, state) -> state or None (infeasible)
  dtor(F, var, state)           -> iterable of states when a local goes out of scope
States must be hashable.  Exits are ('ret'|'throw', state, node)."""
from collections import defaultdict
from . import model
from .lockset import strip, CALLS, call_parts, is_fatal_elem

EXT_THROW = ()


class Flow:
    LIMIT = 4000

    def __init__(self, prog, relevant=None, maxdepth=6):
        self.p = prog
        self.maxdepth = maxdepth
        self._sum = {}
        self._thr = None
        self._rel = relevant      # set of fn usrs worth inlining (None: none)
        self.visited = set()

    # -------- hooks
    def event(self, F, n, st):
        return (st,)

    def branch(self, F, B, cond, taken, st):
        return st

    def dtor(self, F, var, st):
        return (st,)

    def enter(self, F, st):
        return st

    def leave(self, F, st):
        return st

    def at_call(self, F, n, g, st):
        """state with which callee g is entered"""
        return st

    def after_call(self, F, n, g, st0, st):
        return st

    # -------- may-throw
    def may_throw(self, u):
        if self._thr is None:
            self._thr = set()
            direct = set()
            calls = defaultdict(set)
            for F in self.p.fns.values():
                if not F.blocks:
                    continue
                if "noexcept" in F.t and "noexcept(false)" not in F.t or F.decl.get("noexcept"):
                    continue
                intry = set()
                for n in F.walk():
                    if n.k == "CXXTryStmt" and catches_all(F, n):
                        for x in F.walk(n.c[0]):
                            intry.add(x.i)
                for n in F.walk():
                    if n.i in intry:
                        continue
                    if n.k == "CXXThrowExpr":
                        direct.add(F.u)
                    elif n.k in CALLS:
                        for g in self.targets(n):
                            calls[F.u].add(g.u)
            self._thr = set(direct)
            ch = True
            while ch:
                ch = False
                for u2, cs in calls.items():
                    if u2 not in self._thr and cs & self._thr:
                        self._thr.add(u2)
                        ch = True
        return u in self._thr

    def targets(self, n):
        fn = n.fn
        if fn is None:
            return []
        us = {fn.u}
        if fn.get("virt") and n.k == "CXXMemberCallExpr":
            me = strip(n.c[0])
            if not (me is not None and me.get("qual")):
                us |= self.p.overriders.get(fn.u, set())
        return [self.p.fns[u] for u in us if u in self.p.fns]

    def local_lambda(self, F, n):
        """call of a local lambda variable: its operator() is n.fn already"""
        return None

    # -------- engine
    def run(self, F, init, depth=0):
        """-> set of (kind, state, nodeid)"""
        key = (F.u, init)
        if key in self._sum:
            return self._sum[key]
        self._sum[key] = set()           # recursion: assume no effect
        self.visited.add(F.u)
        exits = set()
        init = self.enter(F, init)
        states = defaultdict(set)
        work = [(F.entry, init)]
        saved = getattr(self, "_exits", None), getattr(self, "_states", None), getattr(self, "_work", None)
        states[F.entry].add(init)
        cnt = 0
        while work:
            b, st = work.pop()
            self._exits, self._states, self._work = exits, states, work
            cnt += 1
            if cnt > 200000:
                raise model.AnalysisBroken("flow does not converge in " + F.q)
            B = F.blocks[b]
            cur = {st}
            dead = False
            last = None
            for el in B.elems:
                if el[0] == "s" and el[1] is not None:
                    n = el[1]
                    if is_fatal_elem(n):
                        dead = True
                        break
                    last = n
                    nxt = set()
                    for s in cur:
                        if n.k == "CXXThrowExpr":
                            nxt.update(self.event(F, n, s))
                            continue
                        inl = False
                        if n.k in CALLS and depth < self.maxdepth:
                            for g in self.targets(n):
                                if self._rel is not None and g.u in self._rel and g.blocks:
                                    inl = True
                                    for kind, s2, nid in self.run(g, self.at_call(F, n, g, s), depth + 1):
                                        s3 = self.after_call(F, n, g, s, s2)
                                        if s3 is None:
                                            continue
                                        if kind == "throw":
                                            self._throw(F, B, n, s3, exits, states, work)
                                        else:
                                            nxt.add(s3)
                        if not inl:
                            if n.k in CALLS and any(self.may_throw(g.u) for g in self.targets(n)):
                                self._throw(F, B, n, s, exits, states, work)
                            nxt.update(self.event(F, n, s))
                    cur = nxt
                elif el[0] == "i" and el[1] is not None:
                    nxt = set()
                    for s in cur:
                        nxt.update(self.event(F, el[1], s))
                    cur = nxt
                elif el[0] == "d":
                    nxt = set()
                    for s in cur:
                        nxt.update(self.dtor(F, el[1], s))
                    cur = nxt
                if not cur:
                    break
                if len(cur) > self.LIMIT:
                    raise model.AnalysisBroken("too many states in " + F.q)
            if dead or not cur:
                continue
            isthrow = any(e[0] == "s" and e[1] is not None and e[1].k == "CXXThrowExpr" for e in B.elems[-3:])
            succs = B.succs
            two = B.term is not None and len(succs) == 2 and B.cond is not None
            for i, s in enumerate(succs):
                if s is None or s < 0:
                    continue
                if B.term is None and i == 1:
                    # EH edge of a try body: taken only by what we know can throw (handled in _throw)
                    continue
                for x in cur:
                    y = x
                    if two:
                        y = self.branch(F, B, B.cond, i == 0, x)
                        if y is None:
                            continue
                    if s == F.exit:
                        y = self.leave(F, y)
                        unc = B.term is not None and B.term.k == "CXXTryStmt"      # no handler matches
                        exits.add(("throw" if isthrow or unc else "ret", y, last.i if last is not None else -1))
                        continue
                    if y not in states[s]:
                        states[s].add(y)
                        if len(states[s]) > self.LIMIT:
                            raise model.AnalysisBroken("too many states in " + F.q)
                        work.append((s, y))
        self._exits, self._states, self._work = saved
        self._sum[key] = exits
        return exits

    def _throw(self, F, B, n, s, exits, states, work):
        if B.term is None and len(B.succs) == 2 and B.succs[1] is not None and B.succs[1] >= 0 and B.succs[1] != F.exit:
            t = B.succs[1]
            if s not in states[t]:
                states[t].add(s)
                work.append((t, s))
            return
        exits.add(("throw", self.leave(F, s), n.i))


def catches_all(F, t):
    for h in t.c[1:]:
        if h is not None and h.k == "CXXCatchStmt":
            if not any(x is not None and x.k == "DeclStmt" for x in h.c) and not h.get("d") and h.d is None:
                # catch(...): handled unless it rethrows
                if not any(x.k == "CXXThrowExpr" for x in F.walk(h)):
                    return True
    return False


def relevant_closure(prog, seeds):
    """functions that (transitively) call/are a function in seeds"""
    rev = defaultdict(set)
    for F in prog.fns.values():
        for n in F.nodes:
            if n.k in CALLS and n.fn is not None:
                us = {n.fn.u}
                if n.fn.get("virt"):
                    us |= prog.overriders.get(n.fn.u, set())
                for u in us:
                    rev[u].add(F.u)
    out = set(seeds)
    st = list(seeds)
    while st:
        u = st.pop()
        for v in rev[u]:
            if v not in out:
                out.add(v)
                st.append(v)
    return out
