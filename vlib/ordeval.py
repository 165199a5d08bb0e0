"""Which of two objects is locked first?

The choice is written as a comparison of two objects (addresses, or their positions in a chain of objects that are
based on one another).  The comparison expression is evaluated over every arrangement of two objects on a small
finite domain of order relations: their chains' lengths, whether one lies in the other's chain, and their addresses."""
from .lockset import strip, call_parts


class Unknown(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Obj:
    def __init__(self, name, addr, base):
        self.name, self.addr, self.base = name, addr, base

    @property
    def depth(self):
        return 0 if self.base is None else 1 + self.base.depth


def arrangements(chain):
    """[(A, B)]: every arrangement of two distinct objects"""
    out = []

    def mk(name, depth, lo, end=None):
        o = end
        n = depth if end is None else depth - end.depth - 1
        for i in range(n):
            o = Obj("%s%d" % (name, i), lo + i, o)
        return o
    for flip in (False, True):
        la, lb = (200, 100) if flip else (100, 200)
        for da in range(3 if chain else 1):
            for db in range(3 if chain else 1):
                A = Obj("A", la + 50, mk("a", da, la))
                B = Obj("B", lb + 50, mk("b", db, lb))
                out.append((A, B))
                # A somewhere below B, and the other way round
                if db > da:
                    A = Obj("A", la + 50, mk("a", da, la))
                    out.append((A, Obj("B", lb + 50, mk("b", db, lb, A) if db - da > 1 else A)))
                if da > db:
                    B = Obj("B", lb + 50, mk("b", db, lb))
                    out.append((Obj("A", la + 50, mk("a", da, la, B) if da - db > 1 else B), B))
                if da == db and da > 0:
                    x = mk("c", da, 300)
                    out.append((Obj("A", la + 50, x), Obj("B", lb + 50, x)))
    return out


class Eval:
    def __init__(self, an, F, chain, env):
        self.an, self.F, self.chain, self.env0 = an, F, chain, env
        self.steps = 0

    def look(self, n, env):
        d = n.d
        if d in env:
            return env[d]
        i = self.an.local_init(d)
        if i is not None and i[0] is self.F and d not in self.an.ctx(self.F).assigned:
            return self.ev(i[1], env)
        raise Unknown()

    def truth(self, v):
        if isinstance(v, Obj):
            return True
        if v is None:
            return False
        return bool(v)

    def cmp(self, op, a, b):
        if isinstance(a, Obj) and isinstance(b, Obj):
            if op == "==":
                return a is b
            if op == "!=":
                return a is not b
            a, b = a.addr, b.addr
        elif isinstance(a, Obj) or isinstance(b, Obj) or a is None or b is None:
            if op == "==":
                return a is b
            if op == "!=":
                return a is not b
            raise Unknown()
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]

    def ev(self, n, env):
        self.steps += 1
        if self.steps > 3000:
            raise Unknown()
        n = strip(n)
        if n is None:
            raise Unknown()
        k = n.k
        if n.cv is not None and k not in ("DeclRefExpr", "MemberExpr"):
            try:
                return int(n.cv)
            except ValueError:
                pass
        if k == "CXXThisExpr":
            if "this" in env:
                return env["this"]
            raise Unknown()
        if k == "CXXNullPtrLiteralExpr":
            return None
        if k in ("IntegerLiteral", "CXXBoolLiteralExpr"):
            v = str(n.v)
            return {"true": 1, "false": 0}.get(v, None) if v in ("true", "false") else int(v)
        if k == "DeclRefExpr":
            return self.look(n, env)
        if k == "MemberExpr":
            b = self.ev(n.c[0], env) if n.c else None
            if isinstance(b, Obj) and n.d.n in self.chain:
                return b.base
            raise Unknown()
        if k == "UnaryOperator":
            if n.op in ("*", "&", "+"):
                return self.ev(n.c[0], env)
            if n.op == "!":
                return not self.truth(self.ev(n.c[0], env))
            if n.op in ("++", "--"):
                l = strip(n.c[0])
                if l.k != "DeclRefExpr" or l.d not in env or not isinstance(env[l.d], int):
                    raise Unknown()
                env[l.d] += 1 if n.op == "++" else -1
                return env[l.d]
            if n.op == "-":
                return -self.ev(n.c[0], env)
        if k == "ConditionalOperator":
            return self.ev(n.c[1] if self.truth(self.ev(n.c[0], env)) else n.c[2], env)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            op = n.op
            if op in ("&&", "||"):
                try:
                    a = self.truth(self.ev(n.c[0], env))
                except Unknown:
                    b = self.truth(self.ev(n.c[1], env))
                    if b == (op == "||"):
                        return b
                    raise
                if a == (op == "||"):
                    return a
                return self.truth(self.ev(n.c[1], env))
            if op in ("=", "+=", "-="):
                l = strip(n.c[0])
                if l.k != "DeclRefExpr" or l.d not in env:
                    raise Unknown()
                v = self.ev(n.c[1], env)
                if op != "=":
                    v = env[l.d] + v if op == "+=" else env[l.d] - v
                env[l.d] = v
                return v
            if op == ",":
                self.ev(n.c[0], env)
                return self.ev(n.c[1], env)
            a, b = self.ev(n.c[0], env), self.ev(n.c[1], env)
            if op in ("<", ">", "<=", ">=", "==", "!="):
                return self.cmp(op, a, b)
            if isinstance(a, int) and isinstance(b, int) and op in ("+", "-", "*", "^", "&", "|"):
                return {"+": a + b, "-": a - b, "*": a * b, "^": a ^ b, "&": a & b, "|": a | b}[op]
            raise Unknown()
        if k == "CXXOperatorCallExpr":
            if n.op in ("*", "->"):
                return self.ev(n.c[1], env)
            if n.op in ("<", ">", "<=", ">=", "==", "!=") and len(n.c) == 3:
                return self.cmp(n.op, self.ev(n.c[1], env), self.ev(n.c[2], env))
            if n.op == "=" and len(n.c) == 3:
                l = strip(n.c[1])
                if l is not None and l.k == "DeclRefExpr" and l.d in env:
                    env[l.d] = self.ev(n.c[2], env)
                    return env[l.d]
                raise Unknown()
            if n.op == "()":
                if n.fn is not None and n.fn.q.startswith("std::less"):
                    return self.cmp("<", self.ev(n.c[2], env), self.ev(n.c[3], env))
                if n.fn is not None and n.fn.q.startswith("std::greater"):
                    return self.cmp(">", self.ev(n.c[2], env), self.ev(n.c[3], env))
                G = self.an.p.fns.get(n.fn.u) if n.fn is not None else None
                if G is not None:
                    return self.call(G, None, n.c[2:], env)
            raise Unknown()
        if k == "CXXMemberCallExpr":
            obj, args = call_parts(n)
            if n.fn is not None and (n.fn.n in ("get", "operator bool") and n.fn.q.startswith("std::")):
                return self.ev(obj, env)
            G = self.an.p.fns.get(n.fn.u) if n.fn is not None else None
            if G is not None:
                return self.call(G, self.ev(obj, env) if obj is not None else env.get("this"), args, env)
            raise Unknown()
        if k == "CallExpr":
            obj, args = call_parts(n)
            if n.fn is not None and n.fn.q in ("std::move", "std::forward", "std::addressof", "std::as_const", "__builtin_expect"):
                return self.ev(args[0], env)
            if n.fn is not None and n.fn.q in ("std::min", "std::max") and len(args) == 2:
                a, b = self.ev(args[0], env), self.ev(args[1], env)
                lt = self.cmp("<", b, a) if n.fn.q == "std::min" else self.cmp("<", a, b)
                return b if lt else a
            G = self.an.p.fns.get(n.fn.u) if n.fn is not None else None
            if G is not None:
                return self.call(G, None, args, env)
            raise Unknown()
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(n.c) == 1:
            return self.ev(n.c[0], env)
        raise Unknown()

    def call(self, G, this, args, env):
        if G.root is None or self.steps > 2500:
            raise Unknown()
        e = {}
        if G.is_lambda:
            e.update(env)
        if this is not None:
            e["this"] = this
        for p, a in zip(G.params, args):
            e[p] = self.ev(a, env)
        oldF = self.F
        self.F = G
        try:
            self.stmt(G.root, e)
        except Ret as r:
            return r.v
        finally:
            self.F = oldF
        return None

    def stmt(self, n, env):
        self.steps += 1
        if self.steps > 3000:
            raise Unknown()
        if n is None:
            return
        k = n.k
        if k == "CompoundStmt":
            for c in n.c:
                self.stmt(c, env)
            return
        if k == "ReturnStmt":
            raise Ret(self.ev(n.c[0], env) if n.c and n.c[0] is not None else None)
        if k == "IfStmt":
            if self.truth(self.ev(n.get("cond"), env)):
                self.stmt(n.get("then"), env)
            else:
                self.stmt(n.get("else"), env)
            return
        if k == "DeclStmt":
            for ds in n.get("ds", []):
                i = n.F.node(ds[1])
                env[ds[0]] = self.ev(i, env) if i is not None else 0
            return
        if k in ("WhileStmt", "ForStmt"):
            if k == "ForStmt":
                self.stmt(n.get("init"), env)
            while n.get("cond") is None or self.truth(self.ev(n.get("cond"), env)):
                self.stmt(n.get("body"), env)
                if k == "ForStmt" and n.get("inc") is not None:
                    self.ev(n.get("inc"), env)
                self.steps += 1
                if self.steps > 3000:
                    raise Unknown()
            return
        if k == "NullStmt":
            return
        self.ev(n, env)

    # ---- is node n of F reached in this arrangement?
    def reached(self, n):
        """False if the arrangement certainly does not get to n"""
        cur = n
        while cur is not None:
            par = cur.par
            if par is None:
                break
            if par.k == "IfStmt" and par.get("cond") is not cur:
                try:
                    t = self.truth(self.ev(par.get("cond"), dict(self.env0)))
                    if t and par.get("else") is cur or not t and par.get("then") is cur:
                        return False
                except Unknown:
                    pass
            if par.k == "CompoundStmt":
                for s in par.c:
                    if s is cur:
                        break
                    if s is not None and s.k == "IfStmt" and self.leaves(s.get("then")):
                        try:
                            if self.truth(self.ev(s.get("cond"), dict(self.env0))):
                                return False
                        except Unknown:
                            pass
            cur = par
        return True

    def leaves(self, s):
        if s is None:
            return False
        if s.k == "CompoundStmt":
            return bool(s.c) and self.leaves(s.c[-1])
        e = strip(s)
        return s.k == "ReturnStmt" or e is not None and e.k == "CXXThrowExpr"
