"""Interprocedural lockset analysis over the extracted program.

State = the locks certainly held.  A function's summary is the set of guarded accesses it (or its callees)
makes without holding the guard itself, phrased over its `this`, parameters and globals; at a call site the
summary is translated to the caller's expressions and either discharged by a held lock or passed on.  A summary
entry that survives at an entry point (a function anyone may call) is a violation.
"""
import re
from collections import defaultdict
from . import model

LOCKT = re.compile(r"^(const )?std::(lock_guard|unique_lock|shared_lock|scoped_lock)<(.*)>$")
MUTEXT = re.compile(r"^(mutable )?(std::(shared_mutex|shared_timed_mutex|mutex|recursive_mutex|timed_mutex|recursive_timed_mutex)|folly::SharedMutex)$")
READ_METHODS = {"find", "begin", "end", "cbegin", "cend", "rbegin", "rend", "at", "front", "back", "data", "size",
                "empty", "count", "get", "c_str", "lower_bound", "upper_bound", "equal_range", "capacity", "top",
                "length", "substr", "max_size", "load", "use_count", "value", "has_value", "contains", "hash_function",
                "operator bool", "compare", "use_count", "first", "second"}
WRITE_OPS = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=", "++", "--"}


def strip(n):
    while n is not None and n.k in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr",
                                    "CXXBindTemporaryExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXConstCastExpr",
                                    "CXXFunctionalCastExpr", "CXXReinterpretCastExpr", "ConstantExpr",
                                    "SubstNonTypeTemplateParmExpr", "CXXDefaultArgExpr", "CXXDefaultInitExpr"):
        n = n.c[0] if n.c else None
    return n


def call_parts(n):
    """(object node or None, [argument nodes]) of a call node."""
    if n.k == "CXXMemberCallExpr":
        me = strip(n.c[0])
        obj = me.c[0] if me is not None and me.k == "MemberExpr" and me.c else None
        return obj, [x for x in n.c[1:]]
    if n.k == "CXXOperatorCallExpr":
        args = n.c[1:]
        if n.fn is not None and n.fn.k in ("CXXMethod", "CXXConversion") and not n.fn.get("static"):
            return (args[0] if args else None), args[1:]
        return None, args
    if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        return None, list(n.c)
    if n.k in ("CallExpr", "UserDefinedLiteral"):
        return None, n.c[1:]
    return None, []


CALLS = {"CXXMemberCallExpr", "CXXOperatorCallExpr", "CallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"}


def is_fatal_elem(n):
    """LOG(FATAL)/CHECK failure: the process aborts from here on."""
    if n.k == "DeclStmt":
        for ds in n.get("ds", []):
            if ds[0].t == "logger::Severity":
                init = n.F.node(ds[1])
                init = strip(init)
                if init is not None and init.d is not None and init.d.n == "FATAL":
                    return True
    return False


class FnCtx:
    """Per-function alias information."""

    def __init__(self, an, F):
        self.an = an
        self.F = F
        self.init = {}       # local Decl -> init node (single-assignment)
        self.assigned = set()
        for n in F.walk():
            if n.k == "DeclStmt":
                for ds in n.get("ds", []):
                    self.init[ds[0]] = F.node(ds[1])
            if n.k == "BinaryOperator" and n.op == "=" or n.k == "CompoundAssignOperator":
                l = strip(n.c[0])
                if l is not None and l.k == "DeclRefExpr":
                    self.assigned.add(l.d)
            if n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.c) > 1:
                l = strip(n.c[1])
                if l is not None and l.k == "DeclRefExpr":
                    self.assigned.add(l.d)
            if n.k == "UnaryOperator" and n.op in ("++", "--"):
                l = strip(n.c[0])
                if l is not None and l.k == "DeclRefExpr":
                    self.assigned.add(l.d)
        self._pc = {}

    def path(self, n, depth=0):
        """Access path of an expression: tuple(root, field, ...) or None."""
        n = strip(n)
        if n is None or depth > 25:
            return None
        k = n.k
        if k == "CXXThisExpr":
            return ("this",)
        if k == "DeclRefExpr":
            d = n.d
            if d.k in ("ParmVar",):
                return (d,)
            if d.k in ("Var", "Binding", "Decomposition"):
                if d.get("gs"):
                    return (d,)
                init = self.an.local_init(d)
                if init is not None:
                    F2, i2 = init
                    if is_ref(d.t) or is_ptr(d.t):
                        c2 = self.an.ctx(F2)
                        if d not in c2.assigned:
                            p = c2.path(i2, depth + 1)
                            if p is not None:
                                return p
                return (d,)
            return (d,)
        if k == "MemberExpr":
            if n.d is not None and n.d.k == "Field":
                b = self.path(n.c[0], depth + 1) if n.c else None
                return b + (n.d.n,) if b is not None else None
            if n.d is not None and n.d.k == "Var":
                return (n.d,)
            return self.path(n.c[0], depth + 1) if n.c else None
        if k == "UnaryOperator" and n.op in ("*", "&"):
            return self.path(n.c[0], depth + 1)
        if k == "ArraySubscriptExpr":
            b = self.path(n.c[0], depth + 1)
            return b + ("[]",) if b is not None else None
        if k == "CXXOperatorCallExpr":
            if n.op in ("*", "->"):
                return self.path(n.c[1], depth + 1)
            if n.op == "[]":
                b = self.path(n.c[1], depth + 1)
                return b + ("[]",) if b is not None else None
            return None
        if k == "CXXMemberCallExpr":
            obj, args = call_parts(n)
            if n.fn is not None and n.fn.n == "get" and n.fn.q.startswith("std::"):
                return self.path(obj, depth + 1)
            # accessor: body is `return <path over this>;`
            if n.fn is not None:
                rp = self.an.accessor_path(n.fn)
                if rp is not None and rp[0] == "this":
                    b = self.path(obj, depth + 1) if obj is not None else ("this",)
                    return b + rp[1:] if b is not None else None
            return None
        if k == "CallExpr":
            if n.fn is not None and n.fn.q in ("std::move", "std::forward", "std::addressof", "std::ref", "std::as_const"):
                return self.path(n.c[1], depth + 1)
            if n.fn is not None and n.fn.n in ("static_pointer_cast", "dynamic_pointer_cast"):
                return self.path(n.c[1], depth + 1)
            return None
        if k in ("CXXDynamicCastExpr",):
            return self.path(n.c[0], depth + 1)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(n.c) == 1 and (
                n.fn.get("ctor") in ("copy", "move") or "_ptr<" in n.t):
            return self.path(n.c[0], depth + 1)
        return None


def is_ref(t):
    return t.endswith("&")


def is_ptr(t):
    t = t.rstrip()
    return t.endswith("*") or t.endswith("*const") or "shared_ptr<" in t.split("<")[0] + "<" or t.startswith(
        ("std::shared_ptr<", "const std::shared_ptr<", "std::unique_ptr<", "const std::unique_ptr<"))


def is_viewish(t):
    return (is_ref(t) or t.rstrip().endswith(("*", "*const")) or "iterator" in t or "_Bit_reference" in t
            or "basic_string_view<" in t.split(">")[0] or "span<" in t)


class Req:
    __slots__ = ("path", "mutex", "mode", "site", "field", "chain")

    def __init__(self, path, mutex, mode, site, field, chain):
        self.path, self.mutex, self.mode, self.site, self.field, self.chain = path, mutex, mode, site, field, chain

    def key(self):
        return (self.path, self.mutex, self.mode, self.site, self.field)


class LockAnalysis:
    probe = None          # called with (function, node, locks held) for every element in the final pass

    def __init__(self, prog, guards, scope_fn=None, rootmode=None):
        """guards: field/global Decl usr -> mutex: either the name of a sibling mutex field, or ("global", usr)."""
        self.p = prog
        self.guards = guards
        self._ctx = {}
        self._linit = {}
        self._acc = {}
        self.scope_fn = scope_fn or (lambda F: True)
        self.nacc = 0
        self.fns = [F for F in prog.fns.values() if self.scope_fn(F) and F.blocks]
        for F in self.fns:
            for n in F.walk():
                if n.k == "DeclStmt":
                    for ds in n.get("ds", []):
                        if ds[1] is not None and ds[1] >= 0:
                            self._linit[ds[0]] = (F, F.node(ds[1]))
        self.lambda_of = {}   # Var Decl -> LambdaExpr node
        for d, (F, n) in self._linit.items():
            s = strip(n)
            if s is not None and s.k in ("CXXConstructExpr",) and len(s.c) == 1:
                s2 = strip(s.c[0])
                if s2 is not None and s2.k == "LambdaExpr":
                    s = s2
            if s is not None and s.k == "LambdaExpr":
                self.lambda_of[d] = s
        self.callers = defaultdict(set)
        self.summ = {F.u: {} for F in self.fns}
        self.acq = {F.u: {} for F in self.fns}       # acquisitions made (transitively): (path, mutexid, mode) -> site
        self.retlock = {}                            # fn usr -> (path, mutex, mode) held in the returned lock object
        self.events = []                             # (F, node, acquired, held) for lock-order
        self.used_lambdas = set()
        self._roots_cache = None

    def ctx(self, F):
        c = self._ctx.get(F.u)
        if c is None:
            c = self._ctx[F.u] = FnCtx(self, F)
        return c

    def local_init(self, d):
        return self._linit.get(d)

    def accessor_path(self, fn):
        if fn.u in self._acc:
            return self._acc[fn.u]
        self._acc[fn.u] = None
        F = self.p.fns.get(fn.u)
        if F is not None and F.root is not None and F.root.k == "CompoundStmt" and len(F.root.c) == 1:
            r = F.root.c[0]
            if r is not None and r.k == "ReturnStmt" and r.c and (is_ref(F.decl.get("ret") or "") or is_ptr(F.decl.get("ret") or "")):
                p = self.ctx(F).path(r.c[0])
                if p is not None and p[0] == "this":
                    self._acc[fn.u] = p
        return self._acc[fn.u]

    # ------------------------------------------------------------------ access classification
    def classify(self, F, n):
        """'R', 'W' or ('A', var) (becomes an alias)."""
        cur = n
        ptrmode = False
        while True:
            p = cur.par
            if p is None:
                return "R"
            k = p.k
            if k == "ImplicitCastExpr":
                ck = p.get("ck")
                if ck == "LValueToRValue":
                    if is_ptr(p.t) and p.t.rstrip().endswith(("*", "*const")):
                        ptrmode = True
                        cur = p
                        continue
                    return "R"
                if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "ArrayToPointerDecay", "BitCast"):
                    if not ptrmode and p.t.startswith("const ") and "*" not in p.t:
                        # const view: only reads (but may become a const alias)
                        cur = p
                        q = self._const_climb(F, p)
                        return q
                    cur = p
                    continue
                return "R"
            if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
                     "CXXStaticCastExpr", "CStyleCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr"):
                cur = p
                continue
            if k == "MemberExpr":
                if p.d is not None and p.d.k == "Field":
                    cur = p
                    continue
                # method
                call = p.par
                while call is not None and call.k in ("ParenExpr", "ImplicitCastExpr"):
                    call = call.par
                if call is None or call.k != "CXXMemberCallExpr":
                    return "R"
                m = p.d
                if m.get("const"):
                    # a const method returning a reference/pointer may still create a (const) alias
                    return self._const_climb(F, call)
                if m.n in READ_METHODS:
                    if is_viewish(call.t) or call.lv:
                        cur = call
                        ptrmode = ptrmode or call.t.rstrip().endswith("*")
                        continue
                    return "R"
                return "W"
            if k == "CXXOperatorCallExpr":
                args = p.c[1:]
                if cur in args:
                    i = args.index(cur)
                    op = p.op
                    if i == 0:
                        if op in WRITE_OPS:
                            return "W"
                        if op == "[]":
                            if p.fn is not None and not p.fn.get("const") and re.search(r"\b(map|unordered_map)<", p.fn.q):
                                return "W"
                            cur = p
                            continue
                        if op in ("*", "->"):
                            cur = p
                            continue
                        if op in ("==", "!=", "<", ">", "<=", ">=", "-", "+", "!"):
                            return "R"
                        if op == "()":
                            return "R"
                    return self._arg_mode(p, args.index(cur), is_op=True)
                return "R"
            if k in ("BinaryOperator", "CompoundAssignOperator"):
                if p.op == "=" or k == "CompoundAssignOperator":
                    if p.c[0] is cur and not (ptrmode and cur.k == "ImplicitCastExpr"):
                        return "W"
                    return "R"
                if ptrmode and p.op in ("+", "-") and "*" in p.t:
                    cur = p
                    continue
                if p.op == ",":
                    if p.c[1] is cur:
                        cur = p
                        continue
                return "R"
            if k == "UnaryOperator":
                if p.op in ("++", "--"):
                    return "W"
                if p.op == "&":
                    ptrmode = True
                    cur = p
                    continue
                if p.op == "*":
                    cur = p
                    continue
                return "R"
            if k == "ArraySubscriptExpr":
                cur = p
                continue
            if k == "ConditionalOperator":
                if p.c[0] is cur:
                    return "R"
                cur = p
                continue
            if k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                obj, args = call_parts(p)
                if cur in args:
                    return self._arg_mode(p, args.index(cur))
                return "R"
            if k == "DeclStmt":
                for ds in p.get("ds", []):
                    if F.node(ds[1]) is cur:
                        if is_viewish(ds[0].t):
                            return ("A", ds[0])
                return "R"
            if k == "CXXDeleteExpr":
                return "W"
            if k == "LambdaExpr":
                return "R"
            return "R"

    def _const_climb(self, F, n):
        cur = n
        while True:
            p = cur.par
            if p is None:
                return "R"
            if p.k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "ImplicitCastExpr",
                       "CXXBindTemporaryExpr", "CXXStaticCastExpr"):
                if p.k == "ImplicitCastExpr" and p.get("ck") == "LValueToRValue":
                    return "R"
                cur = p
                continue
            if p.k == "MemberExpr":
                if p.d.k == "Field":
                    cur = p
                    continue
                call = p.par
                while call is not None and call.k in ("ParenExpr", "ImplicitCastExpr"):
                    call = call.par
                if call is not None and call.k == "CXXMemberCallExpr" and (call.lv or is_viewish(call.t)):
                    cur = call
                    continue
                return "R"
            if p.k == "CXXOperatorCallExpr" and len(p.c) > 1 and p.c[1] is cur and p.op in ("[]", "*", "->"):
                cur = p
                continue
            if p.k == "UnaryOperator" and p.op in ("*", "&"):
                cur = p
                continue
            if p.k == "DeclStmt":
                for ds in p.get("ds", []):
                    if F.node(ds[1]) is cur and is_viewish(ds[0].t):
                        return ("A", ds[0])
                return "R"
            return "R"

    def _arg_mode(self, call, i, is_op=False):
        fn = call.fn
        if fn is None:
            return "R"
        if is_op and fn.k in ("CXXMethod", "CXXConversion") and not fn.get("static"):
            i -= 1
        if fn.q in ("std::swap", "std::exchange"):
            return "W"
        if fn.q in ("std::move", "std::forward"):
            return "W" if fn.q == "std::move" else "R"
        if 0 <= i < len(fn.params):
            t = fn.params[i].t
        else:
            return "R"
        if t.endswith("&&"):
            return "R"
        if t.endswith("&"):
            b = t[:-1].rstrip()
            return "R" if b.startswith("const ") or b.endswith("const") else "W"
        if t.rstrip().endswith(("*", "*const")):
            return "R" if t.startswith("const ") else "W"
        return "R"

    # ------------------------------------------------------------------ mutex expressions
    def mutex_alts(self, F, n):
        """set of (objpath, mutexname) a mutex expression may denote; for a global ((), usr)."""
        n = strip(n)
        if n is None:
            return None
        if n.k == "ConditionalOperator":
            a = self.mutex_alts(F, n.c[1])
            b = self.mutex_alts(F, n.c[2])
            return (a | b) if a and b else None
        if n.k == "UnaryOperator" and n.op in ("*", "&"):
            return self.mutex_alts(F, n.c[0])
        if n.k == "DeclRefExpr" and n.d.k in ("Var", "Binding") and n.d.get("gs"):
            return frozenset([((), n.d.u)])
        if n.k == "MemberExpr" and n.d is not None and n.d.k == "Var":
            return frozenset([((), n.d.u)])
        p = self.ctx(F).path(n)
        if p is None:
            return None
        if len(p) >= 2:
            return frozenset([(p[:-1], p[-1])])
        return frozenset([(p, "")])

    def lock_ctor(self, F, n):
        """n: initialiser of a lock variable -> (alts list, mode, locked) or None.  alts list: one per mutex."""
        s = n
        while s is not None and s.k in ("ExprWithCleanups", "ImplicitCastExpr", "MaterializeTemporaryExpr",
                                        "CXXBindTemporaryExpr", "ParenExpr", "CXXFunctionalCastExpr"):
            s = s.c[0] if s.c else None
        if s is None:
            return None
        m = LOCKT.match(s.t.strip())
        if s.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and m:
            if s.fn is not None and s.fn.get("ctor") in ("move", "copy"):
                return ("move", s.c[0])
            kind = m.group(2)
            mode = "S" if kind == "shared_lock" else "X"
            args = [a for a in s.c if a is not None]
            locked = True
            muts = []
            for a in args:
                t = a.t.replace("const ", "")
                if "defer_lock_t" in t:
                    locked = False
                elif "try_to_lock_t" in t:
                    locked = False
                elif "adopt_lock_t" in t:
                    pass
                elif "chrono" in t:
                    locked = False
                else:
                    muts.append(self.mutex_alts(F, a))
            if not muts:
                return ([], mode, False)
            return (muts, mode, locked)
        if s.k == "InitListExpr" and m:
            return None
        if s.k in ("CallExpr", "CXXMemberCallExpr") and m:
            if s.fn is not None and s.fn.q in ("std::move", "std::forward"):
                return ("move", s.c[1])
            return ("call", s)
        return None

    # ------------------------------------------------------------------ per function flow
    def bind(self, F, call, callee, path, limit=8):
        """Translate a path of the callee's to the caller's at this call; None if impossible."""
        root = path[0]
        obj, args = call_parts(call)
        c = self.ctx(F)
        if root == "this":
            if call.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                return ("fresh",)
            if obj is None:
                b = ("this",) if callee.decl.k in ("CXXMethod", "CXXDestructor") else None
            else:
                b = c.path(obj)
        elif isinstance(root, model.Decl) and root.k == "ParmVar" and root in callee.params:
            i = callee.params.index(root)
            b = c.path(args[i]) if i < len(args) and args[i] is not None else None
            if b is None and i < len(args) and args[i] is not None:
                s = strip(args[i])
                if s is not None and s.k == "ConditionalOperator":
                    b = None
        elif isinstance(root, model.Decl) and root.get("gs"):
            b = (root,)
        else:
            # local of an enclosing function (lambda) or of the callee itself
            b = (root,)
        if b is None:
            return None
        r = b + path[1:]
        return r if len(r) <= limit else None

    @staticmethod
    def collapse(path):
        """a.f.f.f... -> a.f.f.+ (three or more times f), so that recursion along a chain converges"""
        out = []
        for e in path:
            if e != "+" and len(out) >= 2 and out[-1] == e and out[-2] == e:
                out.append("+")
            elif out and out[-1] == "+" and (e == "+" or len(out) > 1 and e == out[-2]):
                continue
            else:
                out.append(e)
        return tuple(out)

    def callees(self, call):
        fn = call.fn
        if fn is None:
            return []
        out = []
        us = {fn.u}
        if fn.get("virt") and call.k == "CXXMemberCallExpr":
            me = strip(call.c[0])
            if not (me is not None and me.get("qual")):
                us |= self.p.overriders.get(fn.u, set())
        for u in us:
            g = self.p.fns.get(u)
            if g is not None and g.u in self.summ:
                out.append(g)
        return out

    def lambdas_in_args(self, call):
        out = []
        obj, args = call_parts(call)
        for a in args:
            st = [a]
            while st:
                x = st.pop()
                x = strip(x)
                if x is None:
                    continue
                if x.k == "LambdaExpr":
                    out.append(x)
                elif x.k == "DeclRefExpr" and x.d in self.lambda_of:
                    out.append(self.lambda_of[x.d])
                elif x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") or (
                        x.k == "CallExpr" and x.fn is not None and x.fn.q in ("std::move", "std::ref", "std::cref", "std::forward")):
                    st.extend(c for c in x.c if c is not None)
        return out

    def lambda_fns(self, le):
        out = []
        for d in [le.fn] + list(le.get("fns", []) or []):
            if d is not None and d.u in self.summ:
                out.append(self.p.fns[d.u])
        return out

    def holds(self, held, path, mutex, mode):
        cnt = defaultdict(list)
        for (h, alts, m) in held:
            if mode == "W" and m != "X":
                continue
            if (path, mutex) in alts:
                if len(alts) == 1:
                    return True
                cnt[alts].append(h)
        # two holders over the same pair of alternatives (ordered double locking)
        return any(len(v) >= len(k) for k, v in cnt.items())

    def step(self, F, st, el, reqs, acqs, record):
        """st: frozenset of (holder, alts, mode)."""
        kind = el[0]
        if kind == "d":
            v = el[1]
            ae = self.at_exit(v)
            if ae is not None:
                for g in self.lambda_fns(ae[1]):
                    self.callers[g.u].add(F.u)
                    self.used_lambdas.add(g.u)
                    self._import(F, st, self._linit[v][1], g, reqs, acqs, record, is_lambda=True)
            if v is not None and any(h == v for h, _, _ in st):
                st = frozenset(x for x in st if x[0] != v)
            return st
        if kind not in ("s", "i"):
            return st
        n = el[1]
        if n is None:
            return st
        c = self.ctx(F)
        if record and self.probe is not None:
            self.probe(F, n, st)
        if n.k == "DeclStmt":
            for ds in n.get("ds", []):
                if LOCKT.match(ds[0].t.strip()) and ds[1] is not None and ds[1] >= 0:
                    lc = self.lock_ctor(F, F.node(ds[1]))
                    st = self._apply_lock(F, st, ds[0], lc, n, acqs, record)
            return st
        # guarded field access
        if n.k == "MemberExpr" and n.d is not None and n.d.u in self.guards or \
           n.k == "DeclRefExpr" and n.d is not None and n.d.u in self.guards:
            self._access(F, st, n, n.d, reqs, record)
        elif n.k == "DeclRefExpr" and n.d is not None and n.d in self.aliases:
            for (af, fld, bpath) in self.aliases[n.d]:
                self._alias_access(F, st, n, fld, bpath, reqs, record)
        if n.k in CALLS:
            st = self._call(F, st, n, reqs, acqs, record)
        return st

    def _need(self, F, st, path, mutex, mode, site, field, reqs, chain):
        if path is not None and path[0] == "fresh":
            return
        if isinstance(mutex, tuple):  # global
            if self.holds(st, (), mutex[1], mode):
                return
            path = ("global",)
            m = mutex
        else:
            if path is None:
                path = ("?",)
            elif self.holds(st, path, mutex, mode):
                return
            m = mutex
        k = (path, m, mode, site, field)
        if k not in reqs:
            reqs[k] = chain

    def _access(self, F, st, n, fld, reqs, record):
        mode = self.classify(F, n)
        if record:
            self.nacc += 1
        mutex = self.guards[fld.u]
        path = None
        if n.k == "MemberExpr":
            path = self.ctx(F).path(n.c[0]) if n.c else None
        m = "W" if mode == "W" else "R"
        self._need(F, st, path, mutex, m, (F.u, n.i), fld.n, reqs, (F.loc(n),))

    def _alias_access(self, F, st, n, fld, path, reqs, record):
        d = n.d
        t = d.t
        mode = None
        p = n.par
        while p is not None and p.k in ("ParenExpr",):
            p = p.par
        if is_ref(t):
            mode = self.classify(F, n)
        else:
            # pointer / iterator / view: only dereferences touch the data
            q = n
            while q.par is not None and q.par.k in ("ParenExpr", "ImplicitCastExpr"):
                q = q.par
            p = q.par
            if p is None:
                return
            if p.k == "CXXOperatorCallExpr" and p.op in ("*", "->", "[]") and len(p.c) > 1 and p.c[1] is q:
                mode = self.classify(F, p) if True else None
            elif p.k == "UnaryOperator" and p.op == "*" or p.k == "ArraySubscriptExpr" or (p.k == "MemberExpr" and p.get("arrow")):
                mode = self.classify(F, p)
            elif "basic_string_view" in t or "span<" in t:
                mode = "R"
            else:
                return
        m = "W" if mode == "W" else "R"
        if record:
            self.nacc += 1
        self._need(F, st, path, self.guards[fld.u], m, (F.u, n.i), fld.n, reqs, (F.loc(n),))

    def _acquire(self, F, st, holder, alts, mode, n, acqs, record, st0=None):
        for a in alts:
            k = (a, mode)
            if k not in acqs:
                acqs[k] = (F.loc(n),)
        if record:
            # locks taken together by the deadlock-avoiding algorithm do not wait for one another
            self.events.append((F, n, alts, mode, st if st0 is None else st0))
        return st | {(holder, alts, mode)}

    def _apply_lock(self, F, st, var, lc, n, acqs, record):
        if lc is None:
            return st
        if lc[0] == "move":
            src = strip(lc[1])
            if src is not None and src.k == "CallExpr" and src.fn is not None and src.fn.q == "std::move":
                src = strip(src.c[1])
            if src is not None and src.k == "DeclRefExpr":
                mv = [x for x in st if x[0] == src.d]
                return frozenset(x for x in st if x[0] != src.d) | {(var, x[1], x[2]) for x in mv}
            if src is not None and src.k in CALLS:
                return self._apply_lock(F, st, var, self.lock_ctor(F, src), n, acqs, record)
            return st
        if lc[0] == "call":
            call = lc[1]
            for g in self.callees(call):
                rl = self.retlock.get(g.u)
                if rl:
                    for (path, mut, mode) in rl:
                        p2 = self.bind(F, call, g, path) if path else path
                        if p2 is not None:
                            st = self._acquire(F, st, var, frozenset([(p2, mut)]), mode, n, acqs, record)
            return st
        muts, mode, locked = lc
        self.lockvars[var] = (muts, mode)
        if locked:
            st0 = st
            for i, alts in enumerate(muts):
                if alts:
                    st = self._acquire(F, st, var, alts, mode, n, acqs, record, st0)
        return st

    def lockvar(self, d):
        """(mutexes, mode) of a lock variable; one captured by a lambda was set up by the enclosing function"""
        if d in self.lockvars:
            return self.lockvars[d]
        if d in self._linit:
            G, init = self._linit[d]
            lc = self.lock_ctor(G, init)
            if lc is not None and lc[0] not in ("move", "call"):
                return lc[0], lc[1]
        return [], "X"

    def at_exit(self, d):
        """lambda that runs when the local d (a scope guard) is destroyed"""
        if d is None or "ScopeGuard" not in (d.t or "") or d not in self._linit:
            return None
        G, init = self._linit[d]
        st = [init]
        while st:
            x = strip(st.pop())
            if x is None:
                continue
            if x.k == "LambdaExpr":
                return G, x
            if x.k == "DeclRefExpr" and x.d in self.lambda_of:
                return G, self.lambda_of[x.d]
            if x.k in CALLS:
                st.extend(y for y in x.c if y is not None)
        return None

    def _call(self, F, st, n, reqs, acqs, record):
        obj, args = call_parts(n)
        fn = n.fn
        # lock object / mutex methods
        if n.k == "CXXMemberCallExpr" and obj is not None and fn is not None:
            o = strip(obj)
            ot = o.t.strip() if o is not None else ""
            if LOCKT.match(ot) and o.k == "DeclRefExpr":
                if fn.n == "unlock" or fn.n == "release":
                    return frozenset(x for x in st if x[0] != o.d)
                if fn.n == "lock":
                    muts, mode = self.lockvar(o.d)
                    for alts in muts:
                        if alts:
                            st = self._acquire(F, st, o.d, alts, mode, n, acqs, record)
                    return st
                return st
            if MUTEXT.match(ot):
                alts = self.mutex_alts(F, obj)
                if alts and fn.n in ("lock", "lock_shared"):
                    return self._acquire(F, st, ("raw",) + tuple(sorted(map(str, alts))), alts, "X" if fn.n == "lock" else "S", n, acqs, record)
                if alts and fn.n in ("unlock", "unlock_shared"):
                    return frozenset(x for x in st if not (isinstance(x[0], tuple) and x[1] == alts))
                return st
        if n.k == "CXXOperatorCallExpr" and n.op == "=" and len(n.c) > 2:
            l = strip(n.c[1])
            if l is not None and LOCKT.match(l.t.strip()) and l.k == "DeclRefExpr":
                st = frozenset(x for x in st if x[0] != l.d)
                return self._apply_lock(F, st, l.d, self.lock_ctor(F, n.c[2]), n, acqs, record)
        if fn is not None and fn.q == "std::lock":
            st0 = st
            for a in args:
                s = strip(a)
                if s is not None and s.k == "DeclRefExpr" and LOCKT.match(s.t.strip()):
                    muts, mode = self.lockvar(s.d)
                    for alts in muts:
                        if alts:
                            st = self._acquire(F, st, s.d, alts, mode, n, acqs, record, st0)
                else:
                    alts = self.mutex_alts(F, a)
                    if alts:
                        st = self._acquire(F, st, ("raw",) + tuple(sorted(map(str, alts))), alts, "X", n, acqs, record, st0)
            return st
        # interprocedural
        for g in self.callees(n):
            if g.is_lambda and self.foreign_lambda(F, n, g):
                continue      # accounted for where the lambda was passed in
            self.callers[g.u].add(F.u)
            if g.is_lambda:
                self.used_lambdas.add(g.u)
            self._import(F, st, n, g, reqs, acqs, record)
        if "ScopeGuard" in n.t and n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return st         # runs when the guard is destroyed
        for le in self.lambdas_in_args(n):
            for g in self.lambda_fns(le):
                self.callers[g.u].add(F.u)
                self.used_lambdas.add(g.u)
                self._import(F, st, n, g, reqs, acqs, record, is_lambda=True)
        return st

    def foreign_lambda(self, F, n, g):
        obj, _ = call_parts(n)
        o = strip(obj)
        while o is not None and o.k == "CallExpr" and o.fn is not None and o.fn.q in ("std::forward", "std::move"):
            o = strip(o.c[1])
        return o is not None and o.k == "DeclRefExpr" and o.d in F.params

    def _import(self, F, st, call, g, reqs, acqs, record, is_lambda=False):
        for k, chain in list(self.summ[g.u].items()):
            path, mutex, mode, site, field = k
            if len(chain) > 12:
                continue
            if isinstance(mutex, tuple):
                np = ("global",)
            elif path[0] == "?":
                np = path
            elif is_lambda or g.is_lambda:
                if path[0] in g.params:
                    np = None
                else:
                    np = path
                    c = self.ctx(F)
            else:
                np = self.bind(F, call, g, path)
            if np is None:
                np = ("?",) + tuple(path[1:])
            self._need(F, st, np if np[0] not in ("global",) else None, mutex, mode, site, field, reqs, (F.loc(call),) + chain)
        for (alt, mode), site in list(self.acq[g.u].items()):
            path, mut = alt
            if not path:
                np = ()
            elif is_lambda or g.is_lambda:
                np = path if path[0] not in g.params else None
            else:
                np = self.bind(F, call, g, path, 14)
                np = self.collapse(np) if np is not None else None
            if np is None:
                # identity of the object unknown: keep the class-level fact with an unknown object
                np = ("?",)
            if np and np[0] == "fresh":
                continue
            if len(site) > 10:
                continue
            k = ((np, mut), mode)
            if k not in acqs:
                acqs[k] = (F.loc(call),) + site
            if record:
                self.events.append((F, call, frozenset([(np, mut)]), mode, st))

    def flow(self, F, record=False):
        reqs, acqs = {}, {}
        self.lockvars = {}
        for d, (F2, n2) in self._linit.items():
            if F2 is F and LOCKT.match(d.t.strip()):
                lc = self.lock_ctor(F, n2)
                if lc is not None and lc[0] not in ("move", "call"):
                    self.lockvars[d] = (lc[0], lc[1])
        self.aliases = self._alias_map(F)
        instate = {F.entry: frozenset()}
        work = [F.entry]
        outs = {}
        rounds = 0
        trydecls = self._try_decls(F)
        while work:
            rounds += 1
            if rounds > 20000:
                raise model.AnalysisBroken("lock flow does not converge in " + F.q)
            b = work.pop()
            B = F.blocks[b]
            st = instate[b]
            fatal = False
            for el in B.elems:
                if el[0] == "s" and is_fatal_elem(el[1]):
                    fatal = True
                    break
                st = self.step(F, st, el, reqs, acqs, False)
            if fatal:
                continue
            for i, s in enumerate(B.succs):
                if s is None or s < 0:
                    continue
                eh = B.term is None and i == 1
                so = st
                if eh or (B.elems and B.elems[-1][0] == "s" and B.elems[-1][1].k == "CXXThrowExpr"):
                    if s == F.exit:
                        continue
                    inner = trydecls.get(s, set())
                    so = frozenset(x for x in st if x[0] not in inner)
                if s not in instate:
                    instate[s] = so
                    work.append(s)
                else:
                    j = instate[s] & so
                    if j != instate[s]:
                        instate[s] = j
                        work.append(s)
        # final pass on fixpoint states
        reqs, acqs = {}, {}
        ret = None
        for b, st in instate.items():
            B = F.blocks[b]
            for el in B.elems:
                if el[0] == "s" and is_fatal_elem(el[1]):
                    break
                if el[0] == "s" and el[1].k == "ReturnStmt" and LOCKT.match((F.decl.get("ret") or "").strip()):
                    r = self._ret_locks(F, st, el[1])
                    ret = r if ret is None else ret & r
                st = self.step(F, st, el, reqs, acqs, record)
        return reqs, acqs, ret

    def _ret_locks(self, F, st, n):
        e = n.c[0] if n.c else None
        if e is None:
            return frozenset()
        lc = self.lock_ctor(F, e)
        out = set()
        if lc and lc[0] == "move":
            s = strip(lc[1])
            if s is not None and s.k == "CallExpr":
                s = strip(s.c[1])
            if s is not None and s.k == "DeclRefExpr":
                for h, alts, m in st:
                    if h == s.d and len(alts) == 1:
                        (p, mu), = alts
                        out.add((p, mu, m))
        elif lc and lc[0] == "call":
            pass
        elif lc:
            muts, mode, locked = lc
            if locked:
                for alts in muts:
                    if alts and len(alts) == 1:
                        (p, mu), = alts
                        out.add((p, mu, mode))
        return frozenset(out)

    def _try_decls(self, F):
        """dispatch block id -> variables declared inside that try body."""
        out = {}
        for B in F.blocks.values():
            if B.term is not None and B.term.k == "CXXTryStmt":
                vs = set()
                body = B.term.c[0]
                for n in F.walk(body):
                    if n.k == "DeclStmt":
                        for ds in n.get("ds", []):
                            vs.add(ds[0])
                out[B.id] = vs
        return out

    def _alias_map(self, F):
        """local view variables of F (and of the functions enclosing a lambda) -> guarded data they refer to."""
        if not hasattr(self, "_alias_all"):
            self._alias_all = {}
            changed = True
            rounds = 0
            while changed and rounds < 6:
                changed = False
                rounds += 1
                for G in self.fns:
                    c = self.ctx(G)
                    for n in G.nodes:
                        if n.k in ("MemberExpr", "DeclRefExpr") and n.d is not None:
                            if n.d.u in self.guards:
                                m = self.classify(G, n)
                                if isinstance(m, tuple):
                                    path = c.path(n.c[0]) if n.k == "MemberExpr" and n.c else None
                                    e = (G.u, n.d, path)
                                    if e not in self._alias_all.setdefault(m[1], set()):
                                        self._alias_all[m[1]].add(e)
                                        changed = True
                            elif n.k == "DeclRefExpr" and n.d in self._alias_all:
                                m = self.classify(G, n)
                                if isinstance(m, tuple) and m[1] is not n.d:
                                    for e in list(self._alias_all[n.d]):
                                        if e not in self._alias_all.setdefault(m[1], set()):
                                            self._alias_all[m[1]].add(e)
                                            changed = True
        return self._alias_all

    def run(self):
        order = [F.u for F in self.fns]
        work = list(order)
        inq = set(work)
        rounds = 0
        while work:
            u = work.pop()
            inq.discard(u)
            F = self.p.fns[u]
            rounds += 1
            if rounds > 60000:
                raise model.AnalysisBroken("summaries do not converge")
            reqs, acqs, ret = self.flow(F)
            reqs = self._filter(F, reqs)
            ch = False
            if set(reqs) != set(self.summ[u]):
                self.summ[u] = {**reqs}
                ch = True
            if set(acqs) != set(self.acq[u]):
                self.acq[u] = acqs
                ch = True
            if ret is not None and self.retlock.get(u) != ret:
                self.retlock[u] = ret
                ch = True
            if ch:
                for c in self.callers[u]:
                    if c not in inq:
                        inq.add(c)
                        work.append(c)
        self.events = []
        self.nacc = 0
        for F in self.fns:
            self.flow(F, record=True)

    def _filter(self, F, reqs):
        """Drop what cannot be a race: objects under construction/destruction and objects private to F."""
        out = {}
        isc = F.decl.k in ("CXXConstructor", "CXXDestructor")
        for k, chain in reqs.items():
            path, mutex, mode, site, field = k
            if isc and path == ("this",):
                continue
            if path and path[0] == "fresh":
                continue
            if path and isinstance(path[0], model.Decl) and len(path) == 1 and path[0].k == "Var" and not path[0].get("gs"):
                d = path[0]
                if not is_ref(d.t) and not is_ptr(d.t):
                    continue          # a local value object
                if self._fresh_ptr(d):
                    continue
            out[k] = chain
        return out

    def _fresh_ptr(self, d):
        i = self._linit.get(d)
        if i is None:
            return False
        s = strip(i[1])
        while s is not None and s.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and s.c:
            s = strip(s.c[0])
        return s is not None and (s.k == "CXXNewExpr" or s.k == "CallExpr" and s.fn is not None and s.fn.n in ("make_shared", "make_unique"))

    # ------------------------------------------------------------------ verdict
    def violations(self, is_root):
        out = {}
        for F in self.fns:
            if not is_root(F):
                continue
            for k, chain in self.summ[F.u].items():
                path, mutex, mode, site, field = k
                sF = self.p.fns[site[0]]
                key = (sF.q, field, mode, site[1], sF.u)
                out.setdefault(key, []).append((F, path, chain))
        return out


def auto_guards(prog, rec, mutex, exempt=()):
    """Every field of rec that is not const/atomic/a mutex and is written outside constructors/destructors."""
    an = LockAnalysis(prog, {}, scope_fn=lambda F: True)
    cand = {}
    for f in rec.fields:
        if MUTEXT.match(f.t) or f.t.startswith("const ") or is_ref(f.t) or "std::atomic" in f.t or "condition_variable" in f.t:
            continue
        if f.n in exempt:
            continue
        cand[f.u] = f
    an.guards = {u: mutex for u in cand}
    al = an._alias_map(None)
    written = set()
    for F in prog.fns.values():
        inctor = F.decl.k in ("CXXConstructor", "CXXDestructor") and F.cls is not None and F.cls.u == rec.u
        for n in F.nodes:
            if n.k == "MemberExpr" and n.d is not None and n.d.u in cand:
                m = an.classify(F, n)
                if m == "W" and not (inctor and strip(n.c[0]).k == "CXXThisExpr"):
                    written.add(n.d.u)
            elif n.k == "DeclRefExpr" and n.d in al:
                q = n
                while q.par is not None and q.par.k in ("ParenExpr", "ImplicitCastExpr") and not is_ref(n.d.t):
                    q = q.par
                tgt = n if is_ref(n.d.t) else q.par
                if tgt is not None and an.classify(F, tgt) == "W" and not inctor:
                    for (_, fld, _p) in al[n.d]:
                        written.add(fld.u)
    return {u: mutex for u in cand if u in written}, {cand[u].n for u in cand if u not in written}
