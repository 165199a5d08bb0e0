import re
from collections import defaultdict
from vlib import model, lockset, flow
from vlib.lockset import strip, CALLS, call_parts, LOCKT

CLEARERS = {"clear"}
LOOKUP = {"find", "get", "at", "count", "contains"}
INSERT = {"insert", "emplace", "put", "try_emplace", "insert_or_assign"}


def is_keyed(t):
    return bool(re.match(r"^(mutable )?(std::(unordered_)?(multi)?map<|DictionaryCache<)", t))


def callee_obj_field(n):
    """field MemberExpr on which method call n is made (obj.field.method(...)), or None"""
    if n.k == "CXXMemberCallExpr":
        obj, _ = call_parts(n)
    elif n.k == "CXXOperatorCallExpr" and len(n.c) > 1:
        obj = n.c[1]
    else:
        return None
    o = strip(obj)
    return o if o is not None and o.k == "MemberExpr" and o.d is not None and o.d.k == "Field" else None


def fresh_empty(linit, n):
    """expression is a newly default-constructed container (possibly a local declared that way)"""
    s = strip(n)
    while s is not None and s.k in ("CXXConstructExpr",) and len(s.c) == 1:
        s = strip(s.c[0])
    if s is None:
        return False
    if s.k in ("CXXTemporaryObjectExpr", "CXXConstructExpr", "CXXScalarValueInitExpr") and not [x for x in s.c if x is not None and x.k != "CXXDefaultArgExpr"]:
        return True
    if s.k == "InitListExpr" and not s.c:
        return True
    if s.k == "DeclRefExpr" and s.d in linit:
        return fresh_empty(linit, linit[s.d][1]) if linit[s.d][1] is not None else False
    return False


def cleared_by(linit, n):
    """fields (decl usr) certainly emptied by node n"""
    if n.k == "CXXMemberCallExpr" and n.fn is not None:
        f = callee_obj_field(n)
        if n.fn.n == "clear" and f is not None:
            return {f.d.u}
        if n.fn.n == "swap":
            obj, args = call_parts(n)
            a = strip(args[0]) if args else None
            if f is not None and args and fresh_empty(linit, args[0]):
                return {f.d.u}
            if a is not None and a.k == "MemberExpr" and a.d is not None and fresh_empty(linit, obj):
                return {a.d.u}
    if n.k == "CallExpr" and n.fn is not None and n.fn.q == "std::swap":
        x, y = strip(n.c[1]), strip(n.c[2])
        for a, b in ((x, y), (y, x)):
            if a is not None and a.k == "MemberExpr" and a.d is not None and fresh_empty(linit, b):
                return {a.d.u}
    if n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.c) > 2:
        l = strip(n.c[1])
        if l is not None and l.k == "MemberExpr" and l.d is not None and l.d.k == "Field":
            r = strip(n.c[2])
            if fresh_empty(linit, n.c[2]):
                return {l.d.u}
    return set()


def empty_test(cond):
    """(field usr, True if the condition being true means empty) for `f.empty()` / `!f.empty()` / size()==0"""
    neg = False
    c = strip(cond)
    while c is not None and c.k == "UnaryOperator" and c.op == "!":
        neg = not neg
        c = strip(c.c[0])
    if c is None:
        return None
    if c.k == "CXXMemberCallExpr" and c.fn is not None and c.fn.n in ("empty", "is_empty"):
        f = callee_obj_field(c)
        if f is not None:
            return f.d.u, not neg
    if c.k == "CXXMemberCallExpr" and c.fn is not None and c.fn.n == "size":
        f = callee_obj_field(c)
        if f is not None:
            return f.d.u, neg
    if c.k == "BinaryOperator" and c.op in ("==", "!=", ">"):
        l, r = strip(c.c[0]), strip(c.c[1])
        if l is not None and l.k == "CXXMemberCallExpr" and l.fn is not None and l.fn.n == "size" and r is not None and r.cv in (0, "0"):
            f = callee_obj_field(l)
            if f is not None:
                return f.d.u, (c.op == "==") != neg
    return None


class Clears(flow.Flow):
    """does a method leave the given container fields of its object empty on every normal exit?"""

    def __init__(self, p, linit, fields):
        super().__init__(p)
        self.linit = linit
        self.fields = fields

    def event(self, F, n, st):
        return (st - cleared_by(self.linit, n),)

    def branch(self, F, B, cond, taken, st):
        e = empty_test(cond)
        if e and e[0] in st and taken == e[1]:
            return st - {e[0]}
        return st


class Inval(flow.Flow):
    """state: (dirty caches, known bool locals, locals whose snapshot of the count is late)"""

    def __init__(self, p, an, c, caches, count, relevant):
        super().__init__(p, relevant=relevant)
        self.an, self.c, self.caches, self.count = an, c, caches, count
        self.linit = an._linit
        self.assigned_to_count = set()
        self.cleared_methods = {}
        self.nwr = set()
        self.nclr = set()
        for F in p.fns.values():
            for n in F.nodes:
                if n.k == "BinaryOperator" and n.op == "=":
                    l, r = strip(n.c[0]), strip(n.c[1])
                    if l is not None and l.k == "MemberExpr" and l.d is not None and l.d.u == count and r is not None and r.k == "DeclRefExpr":
                        self.assigned_to_count.add(r.d)

    def method_clears(self, n):
        f = callee_obj_field(n)
        if f is None or f.d.u not in self.caches or n.k != "CXXMemberCallExpr":
            return set()
        g = self.p.fns.get(n.fn.u) if n.fn is not None else None
        if g is None or not g.blocks or g.cls is None:
            return set()
        if g.u not in self.cleared_methods:
            rec = self.p.rec_by_u.get(g.cls.u)
            flds = frozenset(x.u for x in rec.fields if is_keyed(x.t)) if rec else frozenset()
            # fields may be declared in the template pattern: compare by name
            names = {x.n for x in rec.fields if is_keyed(x.t)} if rec else set()
            ok = False
            if names:
                used = {n2.d.u for n2 in g.walk() if n2.k == "MemberExpr" and n2.d is not None and n2.d.k == "Field" and n2.d.n in names}
                if used:
                    cl = Clears(self.p, self.linit, used)
                    ex = cl.run(g, frozenset(used))
                    ok = bool(ex) and len({self.p.decls[u].n for u in used if u in self.p.decls} | {n2.d.n for n2 in g.walk() if n2.k == "MemberExpr" and n2.d is not None and n2.d.u in used}) >= len(names) \
                        and all(not s for k, s, _ in ex if k == "ret")
            self.cleared_methods[g.u] = ok
        return {f.d.u} if self.cleared_methods[g.u] else set()

    def reads_count(self, F, n):
        return any(x.k == "MemberExpr" and x.d is not None and x.d.u == self.count for x in F.walk(n))

    def event(self, F, n, st):
        dirty, flags, late = st
        if n.k == "MemberExpr" and n.d is not None and n.d.u == self.count and self.an.classify(F, n) == "W" \
                and F.decl.k != "CXXConstructor":
            self.nwr.add((F.u, n.i))
            dirty = frozenset(self.caches)
        cl = cleared_by(self.linit, n) & set(self.caches)
        if n.k in CALLS:
            cl |= self.method_clears(n)
        if cl:
            self.nclr.add((F.u, n.i))
            dirty = dirty - cl
        if n.k == "DeclStmt":
            for ds in n.get("ds", []):
                d = ds[0]
                i = F.node(ds[1]) if ds[1] is not None and ds[1] >= 0 else None
                if i is None:
                    continue
                if dirty and self.reads_count(F, i):
                    late = late | {d}
                s = strip(i)
                if d.t in ("bool", "const bool") and s is not None and s.k == "CXXBoolLiteralExpr":
                    flags = frozenset(x for x in flags if x[0] is not d) | {(d, bool(int(s.v)) if str(s.v).isdigit() else s.v in (True, "true"))}
        if n.k == "BinaryOperator" and n.op == "=":
            l, r = strip(n.c[0]), strip(n.c[1])
            if l is not None and l.k == "DeclRefExpr" and l.t == "bool":
                flags = frozenset(x for x in flags if x[0] is not l.d)
                if r is not None and r.k == "CXXBoolLiteralExpr":
                    flags = flags | {(l.d, r.v in (1, True, "1", "true"))}
        if n.k == "CXXMemberCallExpr" and n.fn is not None and n.fn.n == "unlock" and dirty:
            self.bad(F, n, dirty, "the lock is released")
        return ((dirty, flags, late),)

    def bad(self, F, n, dirty, what):
        names = sorted(self.caches[u] for u in dirty)
        self.c.report("%s:stale:%s" % (F.q, ",".join(names)), F.loc(n),
                      "strings may have been added in %s and %s without discarding %s" % (F.q, what, ", ".join(names)))

    def dtor(self, F, var, st):
        if var is not None and LOCKT.match(var.t.strip()) and st[0]:
            self.bad(F, None, st[0], "the lock is released")
        return (st,)

    def countlike(self, n):
        """'now' for the counter itself, a local decl for a snapshot/shadow of it, None otherwise"""
        s = strip(n)
        if s is None:
            return None
        if s.k == "MemberExpr" and s.d is not None and s.d.u == self.count:
            return "now"
        if s.k == "DeclRefExpr" and s.d is not None:
            if s.d in self.linit:
                i = strip(self.linit[s.d][1])
                if i is not None and (i.k == "MemberExpr" and i.d is not None and i.d.u == self.count):
                    return s.d
                if i is not None and i.k == "DeclRefExpr" and self.countlike(i):
                    return s.d
            if s.d in self.assigned_to_count:
                return s.d
        return None

    def added_pred(self, cond, st):
        """True/False: the truth value of cond which means that nothing was added; None if not such a condition"""
        neg = False
        c = strip(cond)
        while c is not None and c.k == "UnaryOperator" and c.op == "!":
            neg = not neg
            c = strip(c.c[0])
        if c is None:
            return None
        pair = None
        nothing = None
        zero = lambda x: strip(x) is not None and str(strip(x).cv if strip(x).cv is not None else strip(x).v) == "0"
        one = lambda x: strip(x) is not None and str(strip(x).cv if strip(x).cv is not None else strip(x).v) == "1"
        if c.k == "BinaryOperator" and c.op in (">", "<", "!=", "==", ">=", "<="):
            l, r, op = c.c[0], c.c[1], c.op
            if (zero(l) or one(l)) and not (zero(r) or one(r)):
                l, r = r, l
                op = {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(op, op)
            if zero(r) and op in (">", "!=") or one(r) and op == ">=":
                pair, nothing = self.diff(l), False
            elif zero(r) and op in ("==", "<=") or one(r) and op == "<":
                pair, nothing = self.diff(l), True
            else:
                a, b = self.countlike(l), self.countlike(r)
                if a and b:
                    if op in ("!=", "==") and b == "now":
                        a, b = b, a
                    if op in (">", "!="):
                        pair, nothing = (a, b, None), False
                    elif op in ("==", "<="):
                        pair, nothing = (a, b, None), True
                    elif op == "<":
                        pair, nothing = (b, a, None), False
        else:
            pair, nothing = self.diff(c), False
        if not pair:
            return None
        a, b, via = pair
        late = st[2]
        if via is not None and via in late:
            # the difference itself was taken after the counter moved: its base must be an early snapshot
            if b == "now" or b in late:
                return None
        elif b in late or (b == "now" and via is None):
            return None
        if a == b:
            return None
        return nothing != neg

    def diff(self, n, depth=0):
        s = strip(n)
        if s is None or depth > 3:
            return None
        if s.k == "BinaryOperator" and s.op == "-":
            a, b = self.countlike(s.c[0]), self.countlike(s.c[1])
            if a and b:
                return (a, b, None)
        if s.k == "DeclRefExpr" and s.d in self.linit:
            r = self.diff(self.linit[s.d][1], depth + 1)
            if r:
                return (r[0], r[1], s.d)
        return None

    def branch(self, F, B, cond, taken, st):
        dirty, flags, late = st
        e = empty_test(cond)
        if e and e[0] in dirty and taken == e[1]:
            dirty = dirty - {e[0]}
        c = strip(cond)
        neg = False
        while c is not None and c.k == "UnaryOperator" and c.op == "!":
            neg = not neg
            c = strip(c.c[0])
        if c is not None and c.k == "DeclRefExpr":
            for d, v in flags:
                if d is c.d and (v != neg) != taken:
                    return None
        pr = self.added_pred(cond, st)
        if pr is not None and taken == pr:
            dirty = frozenset()
        return (dirty, flags, late)

    def leave(self, F, st):
        # only the caches matter to the caller (locals of a lambda's enclosing function stay)
        return st


def params_of(an, F, n, depth=0, seen=None):
    seen = set() if seen is None else seen
    out = set()
    if n is None or depth > 12:
        return out
    lossy = set()
    for x in F.walk(n):
        if x.i in lossy:
            continue
        if x.k == "ConditionalOperator":
            # the value of an argument is part of the key only if both alternatives carry it
            a, b = (params_of(an, F, y, depth + 1, set(seen)) for y in x.c[1:3])
            out |= a & b
            lossy |= {y.i for y in F.walk(x)}
            continue
        if x.k == "BinaryOperator" and x.op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
            lossy |= {y.i for y in F.walk(x)}
            continue
        if x.k == "DeclRefExpr" and x.d is not None:
            if x.d.k == "ParmVar" and x.d in F.params:
                out.add(x.d)
            elif x.d in an._linit and x.d not in seen and an._linit[x.d][0] is F:
                seen.add(x.d)
                out |= params_of(an, F, an._linit[x.d][1], depth + 1, seen)
    return out


def conds_above(F, n, stop=None):
    out = []
    x = n
    while x is not None:
        p = x.par
        if p is not None and p.k in ("IfStmt", "ForStmt", "WhileStmt", "ConditionalOperator", "SwitchStmt", "CXXForRangeStmt"):
            for ch in p.c:
                if ch is not None and ch is not x and ch.k not in ("CompoundStmt",):
                    if p.k == "IfStmt" and ch.k in ("IfStmt",):
                        continue
                    out.append(ch)
        x = p
    return out


def value_params(an, F, val):
    """parameters of F on which the value of expression val depends (flow-insensitive backward slice)"""
    S = set()
    P = set()

    def add_expr(n):
        for x in F.walk(n):
            if x.k == "DeclRefExpr" and x.d is not None and x.d.k in ("ParmVar", "Var", "Binding") and not x.d.get("gs"):
                if x.d in F.params:
                    P.add(x.d)
                elif x.d not in S:
                    S.add(x.d)
            if x.k == "LambdaExpr":
                for cap in x.get("caps", []) or []:
                    if isinstance(cap[0], model.Decl):
                        (P if cap[0] in F.params else S).add(cap[0])
                for g in an.lambda_fns(x):
                    for y in g.walk():
                        if y.k == "DeclRefExpr" and y.d is not None and (y.d in F.params):
                            P.add(y.d)
    add_expr(val)
    first = set(S)
    done = set()
    while True:
        n0 = (len(S), len(P))
        for n in F.walk():
            tgt = None
            if n.k == "DeclStmt":
                for ds in n.get("ds", []):
                    if ds[0] in S and ds[1] is not None and ds[1] >= 0:
                        add_expr(F.node(ds[1]))
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and (n.op == "=" or n.k != "BinaryOperator") or \
               n.k == "CXXOperatorCallExpr" and n.op in ("=", "+="):
                l = n.c[0] if n.k != "CXXOperatorCallExpr" else n.c[1]
                root = base_var(l)
                if root in S and (n.i not in done):
                    add_expr(n)
                    for c in conds_above(F, n):
                        add_expr(c)
            if n.k in CALLS:
                obj, args = call_parts(n)
                touched = False
                if n.k == "CXXMemberCallExpr" and obj is not None and base_var(obj) in S and n.fn is not None and not n.fn.get("const") \
                        and n.fn.n not in lockset.READ_METHODS:
                    touched = True
                for i, a in enumerate(args):
                    if a is not None and base_var(a) in S and an._arg_mode(n, i) == "W":
                        touched = True
                for le in an.lambdas_in_args(n):
                    for cap in le.get("caps", []) or []:
                        if cap[0] in S and cap[1]:
                            touched = True
                if touched:
                    add_expr(n)
                    for c in conds_above(F, n):
                        add_expr(c)
        if (len(S), len(P)) == n0:
            return P


def base_var(n):
    s = strip(n)
    while s is not None:
        if s.k == "DeclRefExpr":
            return s.d
        if s.k == "MemberExpr" and s.c:
            s = strip(s.c[0])
        elif s.k in ("ArraySubscriptExpr", "UnaryOperator") and s.c:
            s = strip(s.c[0])
        elif s.k == "CXXOperatorCallExpr" and s.op in ("[]", "*", "->") and len(s.c) > 1:
            s = strip(s.c[1])
        elif s.k == "CXXMemberCallExpr":
            s = strip(call_parts(s)[0])
        else:
            return None
    return None


def check_keys(c, p, an, F, caches):
    looks, ins = [], []
    for n in F.walk():
        f = callee_obj_field(n) if n.k in ("CXXMemberCallExpr", "CXXOperatorCallExpr") else None
        if f is None or f.d.u not in caches:
            continue
        if n.k == "CXXMemberCallExpr":
            _, args = call_parts(n)
            if n.fn.n in LOOKUP and args:
                looks.append((f.d, n, args[0]))
            elif n.fn.n in INSERT and args:
                if len(args) >= 2:
                    ins.append((f.d, n, args[0], args[1]))
                else:
                    s = strip(args[0])
                    while s is not None and s.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") and len(s.c) == 1:
                        s = strip(s.c[0])
                    if s is not None and s.k == "CallExpr" and s.fn is not None and s.fn.n == "make_pair":
                        ins.append((f.d, n, s.c[1], s.c[2]))
                    elif s is not None and len(s.c) == 2:
                        ins.append((f.d, n, s.c[0], s.c[1]))
        elif n.op == "[]" and n.par is not None:
            q = n.par
            while q is not None and q.k in ("ParenExpr", "ImplicitCastExpr"):
                q = q.par
            if q is not None and q.k == "CXXOperatorCallExpr" and q.op == "=" and strip(q.c[1]) is n or \
               q is not None and q.k == "BinaryOperator" and q.op == "=" and strip(q.c[0]) is n:
                ins.append((f.d, n, n.c[2], q.c[-1]))
            else:
                looks.append((f.d, n, n.c[2]))
    for d, n, key in looks:
        c.count("cache lookups")
        K = params_of(an, F, key)
        for d2, n2, key2, val in ins:
            if d2.u != d.u:
                continue
            c.count("cache insertions")
            K2 = params_of(an, F, key2)
            nm = lambda s: sorted(x.n for x in s)
            if K != K2:
                c.report("%s:%s:keys" % (F.q, d.n), F.loc(n2), "%s looks %s up by (%s) but stores by (%s)"
                         % (F.q, d.n, ", ".join(nm(K)), ", ".join(nm(K2))))
            P = value_params(an, F, val)
            miss = P - K2
            vvars = {x.d for x in F.walk(val) if x.k == "DeclRefExpr" and x.d is not None}
            if miss:
                # only successful searches are stored: the bound of the search may then differ
                guarded = any(any(x.k == "DeclRefExpr" and x.d in vvars for x in F.walk(cc)) for cc in conds_above(F, n2))
                if not (guarded and all(is_int(x.t) for x in miss)):
                    c.report("%s:%s:key" % (F.q, d.n), F.loc(n2), "%s caches a result in %s that depends on argument(s) %s, "
                             "which are not part of the cache key (%s)" % (F.q, d.n, ", ".join(nm(miss)), ", ".join(nm(K2))))
            # a by-value copy must be complete when stored
            root = base_var(val)
            if root is not None and not lockset.is_ptr(root.t):
                for x in after(F, n2):
                    if mutates(an, F, x, root):
                        c.report("%s:%s:early" % (F.q, d.n), F.loc(x), "%s changes the result after storing it in %s" % (F.q, d.n))


def is_int(t):
    return t.replace("const ", "").strip() in ("long", "int", "unsigned long", "unsigned int", "int64_t", "size_t", "long long")


def after(F, n):
    """nodes that can execute after n"""
    pos = None
    for B in F.blocks.values():
        for j, e in enumerate(B.elems):
            if e[0] == "s" and e[1] is n:
                pos = (B.id, j)
    if pos is None:
        return
    seen = set()
    st = [(pos[0], pos[1] + 1)]
    while st:
        b, j = st.pop()
        for e in F.blocks[b].elems[j:]:
            if e[0] == "s" and e[1] is not None:
                yield e[1]
        for s in F.blocks[b].succs:
            if s is not None and s >= 0 and s not in seen:
                seen.add(s)
                st.append((s, 0))


def mutates(an, F, n, d):
    if n.k == "DeclRefExpr" and n.d is d and an.classify(F, n) == "W":
        # a move out / a return is not a change
        q = n.par
        while q is not None and q.k in ("ParenExpr", "ImplicitCastExpr"):
            q = q.par
        if q is not None and q.k == "CallExpr" and q.fn is not None and q.fn.q in ("std::move", "std::forward"):
            return False
        return True
    return False


def run(c):
    c.rule = ("(a) path-sensitive dataflow: from every change of the string count, on every path (also through throws) to the next "
              "lock release or return, every keyed result cache is emptied; (b) dependence analysis: each argument a cached "
              "result depends on is part of its cache key, look-up and store use the same key, and the result is complete when stored")
    p = model.load(["StringDictionary/StringDictionary.cpp"])
    rec = p.record("legacy::StringDictionary")
    caches = {f.u: f.n for f in rec.fields if is_keyed(f.t)}
    cnt = [f for f in rec.fields if f.n == "str_count_"]
    if not cnt or len(caches) < 1:
        raise model.AnalysisBroken("string count or result caches not found in legacy::StringDictionary")
    count = cnt[0].u
    an = lockset.LockAnalysis(p, {u: "rw_mutex_" for u in list(caches) + [count]})
    c.notes.append("caches: %s" % sorted(caches.values()))
    c.count("result caches", len(caches))
    seeds = set()
    for F in p.fns.values():
        for n in F.nodes:
            if n.k == "MemberExpr" and n.d is not None and (n.d.u == count or n.d.u in caches) and F.cls is not None and an.classify(F, n) == "W":
                seeds.add(F.u)
    rel = flow.relevant_closure(p, seeds)
    fl = Inval(p, an, c, caches, count, rel)
    roots = [F for F in p.fns.values() if F.u in rel and F.blocks and not F.is_lambda and F.decl.k != "CXXConstructor"
             and F.decl.get("acc") in (0, 3)]
    for F in roots:
        for kind, st, nid in fl.run(F, (frozenset(), frozenset(), frozenset())):
            if st[0]:
                fl.bad(F, F.nodes[nid] if nid >= 0 else None, st[0], "the call %s" % ("fails" if kind == "throw" else "returns"))
    c.count("entry points", len(roots))
    c.count("string count changes", len(fl.nwr))
    c.count("cache discards", len(fl.nclr))
    for F in p.fns.values():
        if F.blocks and F.cls is not None and F.cls.u == rec.u:
            check_keys(c, p, an, F, caches)
    c.need("string count changes", 1)
    c.need("cache discards", 1)
    c.need("cache lookups", 1)
    c.need("cache insertions", 1)
