"""Linear forms over symbols: {sym: coef, 1: const}; used to compare index arithmetic."""
from .lockset import strip, CALLS, call_parts


def add(a, b, k=1):
    r = dict(a)
    for s, c in b.items():
        r[s] = r.get(s, 0) + k * c
        if r[s] == 0:
            del r[s]
    return r


def const_of(n):
    for x in (n.cv, n.v):
        if x is not None:
            try:
                return int(x)
            except (ValueError, TypeError):
                pass
    return None


class Lin:
    def __init__(self, prog, linit, assigned, sym):
        """sym(node) -> symbol or None for fields/locals the client names itself"""
        self.p, self.linit, self.assigned, self.sym = prog, linit, assigned, sym

    def of(self, n, env=None, depth=0):
        s = strip(n)
        if s is None or depth > 12:
            return None
        x = self.sym(s)
        if x is not None:
            return {x: 1}
        if s.k in ("IntegerLiteral", "CharacterLiteral", "CXXBoolLiteralExpr") or (s.cv is not None and s.k != "DeclRefExpr"):
            c = const_of(s)
            return None if c is None else ({1: c} if c else {})
        if s.k == "DeclRefExpr":
            if env and s.d in env:
                return env[s.d]
            if s.cv is not None and const_of(s) is not None:
                c = const_of(s)
                return {1: c} if c else {}
            if s.d in self.linit and s.d not in self.assigned:
                r = self.of(self.linit[s.d][1], env, depth + 1)
                if r is not None:
                    return r
            return {s.d: 1}
        if s.k == "BinaryOperator" and s.op in ("+", "-"):
            a, b = self.of(s.c[0], env, depth + 1), self.of(s.c[1], env, depth + 1)
            if a is None or b is None:
                return None
            return add(a, b, 1 if s.op == "+" else -1)
        if s.k == "UnaryOperator" and s.op == "-":
            a = self.of(s.c[0], env, depth + 1)
            return None if a is None else add({}, a, -1)
        if s.k == "UnaryOperator" and s.op in ("++", "--"):
            a = self.of(s.c[0], env, depth + 1)
            if a is None:
                return None
            return a if s.get("post") else add(a, {1: 1 if s.op == "++" else -1})
        if s.k in ("CallExpr", "CXXMemberCallExpr") and s.fn is not None:
            g = self.p.fns.get(s.fn.u)
            if g is not None and g.root is not None and g.root.k == "CompoundStmt" and len(g.root.c) == 1 and g.root.c[0] is not None \
                    and g.root.c[0].k == "ReturnStmt" and g.root.c[0].c:
                obj, args = call_parts(s)
                e2 = {}
                for pr, a in zip(g.params, args):
                    v = self.of(a, env, depth + 1)
                    if v is None:
                        return None
                    e2[pr] = v
                return self.of(g.root.c[0].c[0], e2, depth + 1)
        return None
