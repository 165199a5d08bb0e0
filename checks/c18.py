"""C18: catalogue storage errors surface and leave the connection usable.

Abstract interpretation of the connector's public operations over the outcomes of the embedded database's calls: every call that can fail
does so in turn; statements, transactions and the connection itself are resources whose state is carried along every path, exceptional ones
included."""
import re
from vlib import model

TUS = ["SqliteConnector/SqliteConnector.cpp"]
OK, ROW, DONE = 0, 100, 101
ERRS = (1, 5, 19)         # a general error, a busy database, a violated constraint
WRAP = {"ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CStyleCastExpr",
        "CXXFunctionalCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr", "ConstantExpr", "CXXDefaultArgExpr",
        "SubstNonTypeTemplateParmExpr"}
HARMLESS = re.compile(r"^sqlite3_(column_\w+|errmsg|errcode|extended_errcode|errstr|reset|clear_bindings|changes\w*|last_insert_rowid|free|sql|"
                      r"db_handle|next_stmt|bind_parameter_\w+|data_count|stmt_\w+|get_autocommit|busy_timeout|interrupt|total_changes\w*|"
                      r"malloc\w*|libversion\w*|threadsafe|extended_result_codes|limit|db_filename|errstr|msize)$")
SMART = re.compile(r"^(const )?std::(unique_ptr|shared_ptr)<(struct )?sqlite3_stmt\b")
DBSMART = re.compile(r"^(const )?std::(unique_ptr|shared_ptr)<(struct )?sqlite3\b")
LIMIT = 60000


class St(tuple):
    """env (frozenset of items), live statements, transaction, pending failures, escaped, db"""


def mk(env=frozenset(), live=frozenset(), txn=0, pend=frozenset(), esc=frozenset(), db=0):
    return (env, live, txn, pend, esc, db)


class Interp:
    def __init__(self, c, p):
        self.c, self.p = c, p
        self.dtor = {}
        for F in p.fns.values():
            if F.decl.k == "CXXDestructor" and F.cls is not None:
                self.dtor[F.cls.u] = F
        self.steps = 0
        self.sites = set()
        self.bad = {}

    def report(self, key, F, n, msg):
        self.bad.setdefault(key, (F.loc(n), msg))

    # ---- state helpers
    @staticmethod
    def get(st, key):
        for k, v in st[0]:
            if k == key:
                return v
        return None

    @staticmethod
    def put(st, key, v):
        env = frozenset(x for x in st[0] if x[0] != key)
        if v is not None:
            env = env | {(key, v)}
        return (env,) + st[1:]

    def fresh(self, st, key):
        """Forget everything recorded under an object's key."""
        return (frozenset(x for x in st[0] if not (x[0] == key or (isinstance(x[0], tuple) and x[0][0] == key))),) + st[1:]

    # ---- lvalues
    def lval(self, n, fr, st):
        while n is not None and n.k in WRAP and n.c:
            n = n.c[0]
        if n is None:
            return None
        if n.k == "DeclRefExpr" and n.d is not None:
            k = ("v", id(n.d))
            v = self.get(st, k)
            if isinstance(v, tuple) and v[0] == "ref":
                return v[1]
            return k
        if n.k == "MemberExpr" and n.d is not None:
            b = n.c[0] if n.c else None
            while b is not None and b.k in WRAP and b.c:
                b = b.c[0]
            if b is None or b.k == "CXXThisExpr":
                return (fr["this"], n.d.n)
            bk = self.lval(b, fr, st)
            if bk is None:
                return None
            if n.get("arrow"):
                v = self.get(st, bk)
                bk = v[1] if isinstance(v, tuple) and v[0] == "addr" else None
            return (bk, n.d.n) if bk is not None else None
        if n.k == "UnaryOperator" and n.op == "*":
            k = self.lval(n.c[0], fr, st)
            v = self.get(st, k) if k is not None else None
            return v[1] if isinstance(v, tuple) and v[0] == "addr" else None
        return None

    # ---- expressions: list of (kind, state, value)
    def ev(self, n, fr, st):
        self.steps += 1
        if self.steps > LIMIT * 20:
            raise model.AnalysisBroken("too many states in %s" % fr["F"].q)
        if n is None:
            return [("next", st, None)]
        k = n.k
        if n.cv is not None and k not in ("CXXMemberCallExpr", "CallExpr"):
            try:
                return [("next", st, ("i", int(n.cv)))]
            except (TypeError, ValueError):
                pass
        if k in WRAP:
            r = self.ev(n.c[0], fr, st) if n.c else [("next", st, None)]
            if k == "ImplicitCastExpr" and n.get("ck") == "NullToPointer":
                r = [(a, b, ("null",)) for a, b, _ in r]
            return r
        if k == "IntegerLiteral":
            return [("next", st, ("i", int(n.v)))]
        if k == "CXXBoolLiteralExpr":
            return [("next", st, ("i", 1 if str(n.v).lower() in ("1", "true") else 0))]
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return [("next", st, ("null",))]
        if k == "StringLiteral":
            return [("next", st, ("s", n.v))]
        if k in ("DeclRefExpr", "MemberExpr"):
            if n.d is not None and n.d.k == "EnumConstant":
                return [("next", st, ("i", int(n.d.get("v"))))]
            if n.d is not None and n.d.k == "Function":
                return [("next", st, ("fn", n.d.q))]
            key = self.lval(n, fr, st)
            return [("next", st, self.get(st, key) if key is not None else None)]
        if k == "LambdaExpr":
            return [("next", st, ("lam", n.fn.u))] if n.fn is not None else [("next", st, None)]
        if k == "CXXThrowExpr":
            out = []
            for kind, s, _ in (self.ev(n.c[0], fr, st) if n.c else [("next", st, None)]):
                out.append(("exc", s, None))
            return out
        if k == "UnaryOperator":
            if n.op == "&":
                key = self.lval(n.c[0], fr, st)
                return [("next", st, ("addr", key) if key is not None else None)]
            if n.op in ("++", "--"):
                key = self.lval(n.c[0], fr, st)
                return [("next", self.put(st, key, None) if key is not None else st, None)]
            out = []
            for kind, s, v in self.ev(n.c[0], fr, st):
                if kind == "next":
                    if n.op == "!":
                        b = self.truth(v)
                        v = None if b is None else ("i", 0 if b else 1)
                    elif n.op == "*":
                        v = self.get(s, v[1]) if isinstance(v, tuple) and v[0] == "addr" else None
                    else:
                        v = ("i", -v[1]) if n.op == "-" and isinstance(v, tuple) and v[0] == "i" else None
                out.append((kind, s, v))
            return out
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            return self.binop(n, fr, st)
        if k == "ConditionalOperator":
            out = []
            for kind, s, v in self.ev(n.c[0], fr, st):
                if kind != "next":
                    out.append((kind, s, v))
                    continue
                b = self.truth(v)
                if b is not False:
                    out += self.ev(n.c[1], fr, s)
                if b is not True:
                    out += self.ev(n.c[2], fr, s)
            return self.uniq(out)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            return self.call(n, fr, st)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if len(n.c) >= 1 and ("basic_string" in n.t or "std::function" in n.t or all(
                    x is None or x.k == "CXXDefaultArgExpr" for x in n.c[1:])):
                r = self.ev(n.c[0], fr, st)
                return r
            return self.seq(n.c, fr, st)
        if k in ("UnaryExprOrTypeTraitExpr", "CXXThisExpr", "CXXDefaultInitExpr"):
            return [("next", st, None)]
        return self.seq(n.c, fr, st)

    def seq(self, ch, fr, st):
        cur = [("next", st, None)]
        done = []
        for x in ch:
            nxt = []
            for kind, s, _ in cur:
                for k2, s2, _ in self.ev(x, fr, s):
                    (nxt if k2 == "next" else done).append((k2, s2, None))
            cur = self.uniq(nxt)
        return done + cur

    @staticmethod
    def uniq(l):
        seen, out = set(), []
        for x in l:
            if x not in seen:
                seen.add(x)
                out.append(x)
        return out

    @staticmethod
    def truth(v):
        if not isinstance(v, tuple):
            return None
        if v[0] == "i":
            return v[1] != 0
        if v[0] == "null":
            return False
        if v[0] in ("h", "lam", "addr", "s", "fn"):
            return True
        return None

    def binop(self, n, fr, st):
        op = n.op
        if op in ("&&", "||"):
            out = []
            for kind, s, v in self.ev(n.c[0], fr, st):
                if kind != "next":
                    out.append((kind, s, v))
                    continue
                b = self.truth(v)
                if b is (op == "||"):
                    out.append(("next", s, ("i", 1 if op == "||" else 0)))
                    continue
                for k2, s2, v2 in self.ev(n.c[1], fr, s):
                    if k2 != "next":
                        out.append((k2, s2, v2))
                        continue
                    b2 = self.truth(v2)
                    if b is not None:
                        out.append((k2, s2, None if b2 is None else ("i", int(b2))))
                    else:
                        out.append((k2, s2, ("i", int(b2)) if b2 is (op == "||") else None))
            return self.uniq(out)
        if op == "=":
            out = []
            for kind, s, v in self.ev(n.c[1], fr, st):
                if kind == "next":
                    s = self.store(n.c[0], v, fr, s)
                out.append((kind, s, v))
            return self.uniq(out)
        if op and op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            out = []
            for kind, s, v in self.ev(n.c[1], fr, st):
                if kind == "next":
                    key = self.lval(n.c[0], fr, s)
                    if key is not None:
                        s = self.put(s, key, None)
                out.append((kind, s, None))
            return self.uniq(out)
        out = []
        for kind, s, a in self.ev(n.c[0], fr, st):
            if kind != "next":
                out.append((kind, s, a))
                continue
            for k2, s2, b in self.ev(n.c[1], fr, s):
                v = None
                if k2 == "next":
                    v = self.compare(op, a, b)
                out.append((k2, s2, v))
        return self.uniq(out)

    @staticmethod
    def compare(op, a, b):
        if a is None or b is None:
            return None
        if a[0] == "i" and b[0] == "i":
            f = {"==": a[1] == b[1], "!=": a[1] != b[1], "<": a[1] < b[1], ">": a[1] > b[1], "<=": a[1] <= b[1], ">=": a[1] >= b[1]}
            return ("i", int(f[op])) if op in f else None
        pt = ("null", "h", "addr", "lam")
        if a[0] in pt and b[0] in pt and op in ("==", "!="):
            if (a[0] == "null") != (b[0] == "null"):
                return ("i", int(op == "!="))
            if a[0] == "null":
                return ("i", int(op == "=="))
        return None

    def store(self, lhs, v, fr, st):
        key = self.lval(lhs, fr, st)
        if key is None:
            if isinstance(v, tuple) and v[0] == "h":
                return st[:4] + (st[4] | {v[1]},) + st[5:]
            return st
        if isinstance(v, tuple) and v[0] == "h" and isinstance(key, tuple) and key[0] == "this":
            return self.put(st[:4] + (st[4] | {v[1]},) + st[5:], key, v)     # kept in the connector beyond this operation
        return self.put(st, key, v)

    # ---- calls
    def call(self, n, fr, st):
        fn = n.fn
        name = fn.n if fn is not None else ""
        args = n.c[1:]
        base = None
        if n.k == "CXXMemberCallExpr":
            b = n.c[0]
            base = b.c[0] if b is not None and b.k == "MemberExpr" and b.c else None
        elif n.k == "CXXOperatorCallExpr":
            base = n.c[1] if len(n.c) > 1 else None
            args = n.c[2:] if fn is not None and fn.k == "CXXMethod" else n.c[1:]
        # evaluate the arguments
        cur = [(st, ())]
        done = []
        for a in args:
            nxt = []
            for s, vs in cur:
                for k2, s2, v in self.ev(a, fr, s):
                    if k2 == "next":
                        nxt.append((s2, vs + (v,)))
                    else:
                        done.append((k2, s2, None))
            cur = self.uniq(nxt)
        out = done
        for s, vs in cur:
            out += self.apply(n, fn, name, base, args, vs, fr, s)
        return self.uniq(out)

    def apply(self, n, fn, name, base, args, vs, fr, st):
        F = fr["F"]
        if fn is None:
            return [("next", st, None)]
        if name.startswith("sqlite3_"):
            return self.sqlite(n, name, vs, fr, st)
        if name in ("abort", "exit", "_exit", "terminate"):
            return []
        if fn.get("nr") and fn.u not in self.p.fns:
            return [("exc", st, None)] if "throw" in name else []
        # smart pointers to statements
        bk = self.lval(base, fr, st) if base is not None else None
        bt = base.t if base is not None else ""
        if base is not None and SMART.match(bt.replace("&", "").strip()) and bk is not None:
            pk = (bk, "ptr")
            v = self.get(st, pk)
            if name in ("get", "operator->", "operator*"):
                return [("next", st, v)]
            if name == "operator bool":
                return [("next", st, None if v is None else ("i", int(v[0] == "h")))]
            if name == "release":
                return [("next", self.put(st, pk, ("null",)), v)]
            if name in ("reset", "operator="):
                st = self.release(st, v, F, n)
                return [("next", self.put(st, pk, vs[0] if vs and vs[0] else ("null",)), None)]
        if name == "operator()" and base is not None:
            v = self.get(st, bk) if bk is not None else None
            if isinstance(v, tuple) and v[0] == "lam":
                fn = self.p.fns[v[1]].decl if v[1] in self.p.fns else fn
                return self.invoke(self.p.fns.get(v[1]), args, vs, fr, fr["this"], st)
            if isinstance(v, tuple) and v[0] == "fn" and v[1].startswith("sqlite3_"):
                return self.sqlite(n, v[1], vs, fr, st)
            if fn.u in self.p.fns:
                return self.invoke(self.p.fns[fn.u], args, vs, fr, fr["this"], st)
        if name in ("c_str", "data", "str", "move", "forward", "ref", "cref", "to_string") and (base is not None or vs):
            if base is not None and name in ("c_str", "data", "str"):
                r = self.ev(base, fr, st)
                return r
            if vs:
                return [("next", st, vs[0])]
        G = self.p.fns.get(fn.u)
        if G is None and fn.u in self.p.overriders:
            pass
        if G is not None and not G.f.startswith("/usr"):
            this = fr["this"]
            if base is not None:
                b = base
                while b is not None and b.k in WRAP and b.c:
                    b = b.c[0]
                if b is not None and b.k != "CXXThisExpr":
                    if fn.k == "CXXMethod" and bk is not None:
                        this = bk
            return self.invoke(G, args, vs, fr, this, st)
        # a container of statements keeps them
        for v in vs:
            if isinstance(v, tuple) and v[0] == "h" and name in ("push_back", "emplace_back", "insert", "emplace", "push"):
                st = st[:4] + (st[4] | {v[1]},) + st[5:]
        for a, v in zip(args, vs):           # written through a reference
            if isinstance(v, tuple) and v[0] == "addr" and v[1] is not None:
                st = self.put(st, v[1], None)
        if name == "operator=" and n.k == "CXXOperatorCallExpr" and bk is not None:
            st = self.put(st, bk, vs[0] if vs else None)
        elif base is not None and bk is not None and name.startswith("operator") and name.endswith("=") and name not in ("operator==", "operator!="):
            st = self.put(st, bk, None)
        return [("next", st, None)]

    def invoke(self, G, args, vs, fr, this, st):
        if G is None or G.root is None:
            return [("next", st, None)]
        if G.u in fr["stack"]:
            return [("next", st, None)]
        keep = frozenset(k for k, _ in st[0])
        s = st
        for q, a, v in zip(G.params, list(args) + [None] * len(G.params), list(vs) + [None] * len(G.params)):
            if a is not None and q.t.rstrip().endswith("&"):
                lk = self.lval(a, fr, st)
                if lk is not None:
                    s = self.put(s, ("v", id(q)), ("ref", lk))
                    if self.get(s, lk) is None and v is not None:
                        s = self.put(s, ("v", id(q)), v)
                    continue
            s = self.put(s, ("v", id(q)), v)
        f2 = {"F": G, "this": this, "stack": fr["stack"] + (G.u,)}
        out = []
        res = []
        cur = [s]
        if G.decl.k == "CXXConstructor":
            cur = []
            for kind, s1 in self.ctorinits(G, f2, s):
                if kind == "next":
                    cur.append(s1)
                else:
                    res.append(("exc", s1, None))
        for s1 in cur:
            res += self.ex(G.root, f2, s1)
        for kind, s2, v in res:
            if isinstance(v, tuple) and v[0] == "ref":
                v = None
            env = frozenset(x for x in s2[0] if x[0] in keep or x[0][0] != "v" or self.kept(x[0], keep))
            env = frozenset(x for x in env if x[0] in keep or not self.local(x[0], G))
            s2 = (env,) + s2[1:]
            if kind == "exc":
                out.append(("exc", s2, None))
            else:
                out.append(("next", s2, v if kind == "ret" else None))
        return self.uniq(out)

    @staticmethod
    def kept(k, keep):
        return k in keep

    @staticmethod
    def local(k, G):
        return k[0] == "v"

    def ctorinits(self, G, f2, st):
        cur = [("next", st)]
        for ci in G.ctorinits:
            fd = ci.get("field")
            if fd is None or ci.get("n", -1) < 0:
                continue
            node = G.nodes[ci["n"]]
            nxt = []
            for kind, s in cur:
                if kind != "next":
                    nxt.append((kind, s))
                    continue
                if SMART.match(fd.t):
                    for k2, s2, _ in self.smart((f2["this"], fd.n), node, f2, s):
                        nxt.append((k2, s2))
                    continue
                if fd.t.rstrip().endswith("&"):
                    lk = self.lval(node, f2, s)
                    nxt.append(("next", self.put(s, (f2["this"], fd.n), ("ref", lk) if lk is not None else None)))
                    continue
                for k2, s2, v in self.ev(node, f2, s):
                    nxt.append((k2, self.put(s2, (f2["this"], fd.n), v) if k2 == "next" else s2))
            cur = nxt
        return cur

    # ---- the embedded database
    def sqlite(self, n, name, vs, fr, st):
        F = fr["F"]
        site = "%s:%d" % (name, n.l)
        self.sites.add(site)
        env, live, txn, pend, esc, db = st

        def fail(s, rc):
            return ("next", s[:3] + (s[3] | {(name, F.loc(n))},) + s[4:], ("i", rc))

        def good(s, rc):
            return ("next", s[:3] + (frozenset(x for x in s[3] if x != (name, F.loc(n))),) + s[4:], ("i", rc))
        h = next((v for v in vs if isinstance(v, tuple) and v[0] == "h"), None)
        if h is not None and h[1] not in live and h[1] not in esc and name != "sqlite3_finalize":
            self.report("use-after-finalize:%s:%s" % (F.q, name), F, n, "%s uses a statement that was already released (%s)" % (F.q, name))
        if name in ("sqlite3_open", "sqlite3_open_v2", "sqlite3_open16"):
            s = st[:5] + (1,)
            return [good(s, OK)] + [fail(s, e) for e in ERRS[:1]]
        if name in ("sqlite3_close", "sqlite3_close_v2"):
            return [("next", st[:5] + (2,), None)]
        if name.startswith("sqlite3_prepare"):
            tgt = next((v[1] for v in vs[2:] if isinstance(v, tuple) and v[0] == "addr"), None)
            sql = next((v[1] for v in vs if isinstance(v, tuple) and v[0] == "s"), None)
            hid = (n.l, fr["stack"], sql if self.kind(sql) else None)
            if hid in live and hid not in esc:
                self.report("leak:%s" % F.q, F, n, "%s prepares a statement again without releasing the one prepared before" % F.q)
            s = (env, live | {hid}) + st[2:]
            if tgt is not None:
                s = self.put(s, tgt, ("h", hid))
            out = [good(s, OK)]
            for e in ERRS[:2]:
                s = self.put(st, tgt, ("null",)) if tgt is not None else st
                out.append(fail(s, e))
            return out
        if name == "sqlite3_finalize":
            v = vs[0] if vs else None
            return [("next", self.release(st, v, F, n), None)]
        if name == "sqlite3_step":
            kind = self.kind(h[1][2]) if h else None
            out = [good(self.txn(st, kind), DONE)]
            if kind is None:
                out.append(good(st, ROW))
            if kind == "rollback":
                return out + [("next", self.txn(st, kind), ("i", e)) for e in ERRS[:1]]
            return out + [fail(st, e) for e in ERRS]
        if name == "sqlite3_exec":
            sql = next((v[1] for v in vs if isinstance(v, tuple) and v[0] == "s"), None)
            kind = self.kind(sql)
            if kind == "rollback":
                return [("next", self.txn(st, kind), ("i", e)) for e in (OK,) + ERRS[:1]]
            return [good(self.txn(st, kind), OK)] + [fail(st, e) for e in ERRS]
        if name.startswith("sqlite3_column_"):
            for nm, loc in pend:
                if nm == "sqlite3_step":
                    self.bad.setdefault("unreported:%s:row" % F.q, (loc, "after a failed sqlite3_step %s goes on to read a row" % F.q))
        if HARMLESS.match(name):
            return [("next", st, None)]
        return [good(st, OK)] + [fail(st, e) for e in ERRS[:2]]

    @staticmethod
    def kind(sql):
        if not sql:
            return None
        w = re.split(r"[\s;]+", sql.strip().upper())[0]
        return {"BEGIN": "begin", "SAVEPOINT": "begin", "COMMIT": "end", "END": "end", "RELEASE": "end", "ROLLBACK": "rollback"}.get(w)

    @staticmethod
    def txn(st, kind):
        if kind == "begin":
            return st[:2] + (1,) + st[3:]
        if kind in ("end", "rollback"):
            return st[:2] + (0,) + st[3:]
        return st

    def release(self, st, v, F, n):
        if not isinstance(v, tuple) or v[0] != "h":
            return st
        if v[1] not in st[1] and v[1] not in st[4]:
            self.report("finalize-twice:%s" % F.q, F, n, "%s releases the same statement twice" % F.q)
            return st
        return (st[0], st[1] - {v[1]}) + st[2:]

    # ---- statements: list of (kind, state, value)
    def ex(self, n, fr, st):
        if n is None:
            return [("next", st, None)]
        k = n.k
        if k == "CompoundStmt":
            return self.block(n, fr, st)
        if k == "DeclStmt":
            return self.decl(n, fr, st)
        if k == "IfStmt":
            out = []
            pre = [("next", st, None)]
            for x in (n.get("init"),):
                if isinstance(x, model.Node):
                    pre = self.ex(x, fr, st)
            for k0, s0, v0 in pre:
                if k0 != "next":
                    out.append((k0, s0, v0))
                    continue
                c0 = n.get("cond")
                for kind, s, v in self.cond(c0, fr, s0):
                    if kind != "next":
                        out.append((kind, s, v))
                        continue
                    b = self.truth(v)
                    if b is not False:
                        out += self.ex(n.get("then"), fr, s)
                    if b is not True:
                        out += self.ex(n.get("else"), fr, s) if n.get("else") is not None else [("next", s, None)]
            return self.uniq(out)
        if k in ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt"):
            return self.loop(n, fr, st)
        if k == "SwitchStmt":
            return self.switch(n, fr, st)
        if k == "ReturnStmt":
            return [("ret" if a == "next" else a, s, v) for a, s, v in (self.ev(n.c[0], fr, st) if n.c else [("next", st, None)])]
        if k == "BreakStmt":
            return [("brk", st, None)]
        if k == "ContinueStmt":
            return [("cont", st, None)]
        if k == "CXXTryStmt":
            out = []
            for kind, s, v in self.ex(n.c[0], fr, st):
                if kind == "exc" and len(n.c) > 1:
                    for h in n.c[1:]:
                        out += self.ex(h.c[-1], fr, s)
                else:
                    out.append((kind, s, v))
            return self.uniq(out)
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt"):
            return self.ex(n.c[-1], fr, st)
        if k == "NullStmt":
            return [("next", st, None)]
        return [(a, s, None) for a, s, _ in self.ev(n, fr, st)]

    def cond(self, n, fr, st):
        return self.ev(n, fr, st)

    def decl(self, n, fr, st):
        cur = [("next", st, None)]
        for ds in n.get("ds", []):
            d = ds[0]
            init = fr["F"].nodes[ds[1]] if len(ds) > 1 and isinstance(ds[1], int) and ds[1] >= 0 else None
            key = ("v", id(d))
            if d.t == "logger::Severity" and init is not None and any(x.d is not None and x.d.n == "FATAL" for x in fr["F"].walk(init)):
                return []
            nxt = []
            for kind, s, v in cur:
                if kind != "next":
                    nxt.append((kind, s, v))
                    continue
                s = self.fresh(s, key)
                if SMART.match(d.t):
                    nxt += self.smart(key, init, fr, s)
                    continue
                rec = self.p.records.get(d.t.replace("const ", "").strip())
                if rec is not None and init is not None and not rec.f.startswith("/usr"):
                    nxt += self.construct(key, rec, init, fr, s)
                    continue
                if d.t.rstrip().endswith("&") and init is not None:
                    lk = self.lval(init, fr, s)
                    if lk is not None:
                        nxt.append(("next", self.put(s, key, ("ref", lk)), None))
                        continue
                for k2, s2, v2 in (self.ev(init, fr, s) if init is not None else [("next", s, None)]):
                    nxt.append((k2, self.put(s2, key, v2) if k2 == "next" else s2, None))
            cur = self.uniq(nxt)
        return cur

    def smart(self, key, init, fr, s):
        x = init
        while x is not None and x.k in WRAP and x.c:
            x = x.c[0]
        args = list(x.c) if x is not None and x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") else ([x] if x is not None else [])
        frees = self.deleter(init, fr)
        out = []
        for k2, s2, v in (self.ev(args[0], fr, s) if args else [("next", s, ("null",))]):
            if k2 == "next":
                if frees is False and isinstance(v, tuple) and v[0] == "h":
                    self.report("deleter:%s" % fr["F"].q, fr["F"], init, "%s hands a statement to a pointer that does not finalize it" % fr["F"].q)
                s2 = self.put(s2, (key, "ptr"), v)
                s2 = self.put(s2, key, ("smart",))
            out.append((k2, s2, None))
        return out

    def deleter(self, init, fr):
        """Whether the smart pointer's deleter releases the statement (None: unknown)."""
        if init is None:
            return None
        t = ""
        for x in fr["F"].walk(init):
            if x.d is not None and x.d.q == "sqlite3_finalize":
                return True
            if x.k == "LambdaExpr" and x.fn is not None and self.calls(x.fn.u, "sqlite3_finalize"):
                return True
            if SMART.match(x.t):
                t = x.t
        m = re.search(r"unique_ptr<(?:struct )?sqlite3_stmt, (.+)>", t)
        if m:
            rec = self.p.records.get(m.group(1).strip())
            if rec is not None:
                return any(self.calls(q.u, "sqlite3_finalize") for q in rec.methods)
            if "default_delete" in t:
                return False
        return None

    def calls(self, u, name, seen=()):
        G = self.p.fns.get(u)
        if G is None or u in seen:
            return False
        return any(x.fn is not None and (x.fn.n == name or self.calls(x.fn.u, name, seen + (u,))) for x in G.walk())

    def construct(self, key, rec, init, fr, s):
        x = init
        while x is not None and x.k in WRAP and x.c:
            x = x.c[0]
        # a copy elided from T x = T(...)
        while x is not None and x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(x.c) == 1 and x.fn is not None and x.fn.u not in self.p.fns:
            x = x.c[0]
            while x is not None and x.k in WRAP and x.c:
                x = x.c[0]
        out = []
        if x is not None and x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and x.fn is not None and x.fn.u in self.p.fns:
            cur = [(s, ())]
            for a in x.c:
                nxt = []
                for s1, vs in cur:
                    for k2, s2, v in self.ev(a, fr, s1):
                        if k2 == "next":
                            nxt.append((s2, vs + (v,)))
                        else:
                            out.append((k2, s2, None))
                cur = nxt
            for s1, vs in cur:
                for k2, s2, _ in self.invoke(self.p.fns[x.fn.u], list(x.c), vs, fr, key, s1):
                    out.append((k2, s2, None))
            return self.uniq(out)
        if x is not None and x.k == "InitListExpr":
            cur = [("next", s, None)]
            for f, a in zip(rec.fields, x.c):
                nxt = []
                for k1, s1, _ in cur:
                    if k1 != "next":
                        nxt.append((k1, s1, None))
                    elif f.t.rstrip().endswith("&"):
                        lk = self.lval(a, fr, s1)
                        nxt.append(("next", self.put(s1, (key, f.n), ("ref", lk) if lk is not None else None), None))
                    else:
                        for k2, s2, v in self.ev(a, fr, s1):
                            nxt.append((k2, self.put(s2, (key, f.n), v) if k2 == "next" else s2, None))
                cur = nxt
            return self.uniq(cur)
        return [(k2, s2, None) for k2, s2, _ in self.ev(init, fr, s)]

    def block(self, n, fr, st):
        cur = [st]
        done = []
        objs = []
        for x in n.c:
            if x is None:
                continue
            nxt = []
            for s in cur:
                for kind, s2, v in self.ex(x, fr, s):
                    if kind == "next":
                        nxt.append(s2)
                    else:
                        done.append((kind, s2, v, tuple(objs)))
            if x.k == "DeclStmt":
                objs += [ds[0] for ds in x.get("ds", [])]
            cur = self.uniq(nxt)
            if len(cur) > LIMIT:
                raise model.AnalysisBroken("too many states in %s" % fr["F"].q)
        res = done + [("next", s, None, tuple(objs)) for s in cur]
        out = []
        for kind, s, v, os_ in res:
            sts = [(kind, s, v)]
            for d in reversed(os_):
                nx = []
                for kd, s1, v1 in sts:
                    nx += [(kd if k2 == "next" else "exc", s2, v1) for k2, s2 in self.destroy(d, fr, s1)]
                sts = nx
            for kd, s1, v1 in sts:
                for d in os_:
                    s1 = self.fresh(s1, ("v", id(d)))
                out.append((kd, s1, v1))
        return self.uniq(out)

    def destroy(self, d, fr, st):
        key = ("v", id(d))
        if SMART.match(d.t):
            st = self.release(st, self.get(st, (key, "ptr")), fr["F"], fr["F"].root)
            return [("next", st)]
        if DBSMART.match(d.t) and any(x.d is not None and x.d.n.startswith("sqlite3_close") or (
                x.k == "LambdaExpr" and x.fn is not None and self.calls(x.fn.u, "sqlite3_close")) for x in fr["F"].walk()):
            return [("next", st[:5] + (2,))]
        rec = self.p.records.get(d.t.replace("const ", "").strip())
        if rec is None:
            return [("next", st)]
        G = self.dtor.get(rec.u)
        out = []
        cur = [("next", st, None)]
        if G is not None and G.root is not None and not G.f.startswith("/usr"):
            cur = self.invoke(G, [], (), fr, key, st)
        for kind, s, _ in cur:
            for f in rec.fields:
                if SMART.match(f.t):
                    s = self.release(s, self.get(s, ((key, f.n), "ptr")), fr["F"], fr["F"].root)
            out.append((kind, s))
        return out

    def loop(self, n, fr, st):
        if n.k == "DoStmt":
            n.a.setdefault("body", n.c[0])
            n.a.setdefault("cond", n.c[1])
        out, heads, seen = [], [], set()
        first = [("next", st, None)]
        if n.k == "ForStmt" and isinstance(n.get("init"), model.Node):
            first = self.ex(n.get("init"), fr, st)
        if n.k == "CXXForRangeStmt":
            first = self.ev(n.get("range"), fr, st) if isinstance(n.get("range"), model.Node) else first
        for kind, s, v in first:
            (heads.append((s, n.k == "DoStmt")) if kind == "next" else out.append((kind, s, v)))
        while heads:
            s, skip = heads.pop()
            if (s, skip) in seen:
                continue
            seen.add((s, skip))
            if len(seen) > LIMIT:
                raise model.AnalysisBroken("too many states in a loop of %s" % fr["F"].q)
            bodies = []
            if skip:
                bodies.append(s)
            else:
                cnd = n.get("cond")
                if isinstance(cnd, model.Node) and n.k != "CXXForRangeStmt":
                    for kind, s1, v in self.ev(cnd, fr, s):
                        if kind != "next":
                            out.append((kind, s1, v))
                            continue
                        b = self.truth(v)
                        if b is not True:
                            out.append(("next", s1, None))
                        if b is not False:
                            bodies.append(s1)
                elif n.k == "CXXForRangeStmt":
                    out.append(("next", s, None))
                    bodies.append(self.put(s, ("v", id(n.get("lvar"))), None))
                else:
                    bodies.append(s)
            for s1 in bodies:
                for kind, s2, v in self.ex(n.get("body"), fr, s1):
                    if kind in ("next", "cont"):
                        nx = [s2]
                        if n.k == "ForStmt" and isinstance(n.get("inc"), model.Node):
                            nx = []
                            for k3, s3, v3 in self.ev(n.get("inc"), fr, s2):
                                nx.append(s3) if k3 == "next" else out.append((k3, s3, v3))
                        heads += [(x, False) for x in nx]
                    elif kind == "brk":
                        out.append(("next", s2, None))
                    else:
                        out.append((kind, s2, v))
        return self.uniq(out)

    def switch(self, n, fr, st):
        out = []
        body = n.c[-1]
        stm = list(body.c) if body is not None and body.k == "CompoundStmt" else [body]
        # flatten labels
        flat = []
        for x in stm:
            labels = []
            while x is not None and x.k in ("CaseStmt", "DefaultStmt"):
                labels.append(x)
                x = x.c[-1]
            flat.append((labels, x))
        for kind, s, v in self.ev(n.get("cond") or n.c[-2], fr, st):
            if kind != "next":
                out.append((kind, s, v))
                continue
            starts, dflt = [], None
            for i, (labels, _) in enumerate(flat):
                for lb in labels:
                    if lb.k == "DefaultStmt":
                        dflt = i
                    else:
                        cv = self.ev(lb.c[0], fr, s)[0][2]
                        if not isinstance(v, tuple) or v[0] != "i" or cv == v:
                            starts.append(i)
            known = isinstance(v, tuple) and v[0] == "i"
            if not known or not starts:
                if dflt is not None:
                    starts.append(dflt)
                else:
                    out.append(("next", s, None))
            for i in set(starts):
                cur = [s]
                for _, x in flat[i:]:
                    nxt = []
                    for s1 in cur:
                        for k2, s2, v2 in self.ex(x, fr, s1):
                            if k2 == "next":
                                nxt.append(s2)
                            elif k2 == "brk":
                                out.append(("next", s2, None))
                            else:
                                out.append((k2, s2, v2))
                    cur = self.uniq(nxt)
                out += [("next", s1, None) for s1 in cur]
        return self.uniq(out)


def run(c):
    c.rule = ("every public operation is interpreted with each embedded-database call succeeding and failing in turn: a failure may not end in "
              "a normal return, every prepared statement is released exactly once, every transaction begun is closed and an opened connection "
              "is closed when the constructor fails, on normal and exceptional exits")
    p = model.load(TUS)
    I = Interp(c, p)
    roots = []
    for F in p.fns.values():
        if not F.f.startswith(model.ODB + "SqliteConnector/") or F.is_lambda or F.impl or F.root is None or F.decl.k == "CXXDestructor":
            continue
        if F.cls is None or F.cls.q != "SqliteConnector" or F.decl.get("acc", 0) != 0:
            continue
        if any(I.calls(F.u, x) for x in ("sqlite3_step", "sqlite3_prepare_v2", "sqlite3_prepare_v3", "sqlite3_exec", "sqlite3_open", "sqlite3_open_v2")):
            roots.append(F)
    c.count("public operations", len(roots))
    c.need("public operations", 4)
    exits = 0
    for F in roots:
        fr = {"F": F, "this": "this", "stack": (F.u,)}
        I.steps = 0
        st = mk()
        starts = [("next", st)]
        if F.decl.k == "CXXConstructor":
            starts = I.ctorinits(F, fr, st)
        for k0, s0 in starts:
            for kind, s, v in (I.ex(F.root, fr, s0) if k0 == "next" else [(k0, s0, None)]):
                exits += 1
                how = "fails" if kind == "exc" else "returns"
                for h in s[1] - s[4]:
                    I.report("leak:%s" % F.q, F, None, "%s %s without releasing the statement it prepared" % (F.q, how))
                if s[2]:
                    I.report("transaction:%s" % F.q, F, None, "%s %s and leaves its transaction open" % (F.q, how))
                if kind != "exc":
                    for name, loc in sorted(s[3]):
                        I.bad.setdefault("unreported:%s:%s" % (F.q, name), (loc, "a failure of %s is not reported: %s can return normally" % (name, F.q)))
                if kind == "exc" and F.decl.k == "CXXConstructor" and s[5] == 1 and not any(
                        DBSMART.match(f.t) for f in p.rec_by_u[F.cls.u].fields):
                    I.report("connection:%s" % F.q, F, None, "%s fails without closing the connection it opened" % F.q)
    c.count("database call sites", len(I.sites))
    c.need("database call sites", 8)
    c.count("exits explored", exits)
    rec = p.record("SqliteConnector")
    D = I.dtor.get(rec.u)
    if not any(DBSMART.match(f.t) for f in rec.fields):
        if D is None or not (I.calls(D.u, "sqlite3_close") or I.calls(D.u, "sqlite3_close_v2")):
            I.bad.setdefault("close", ((D.loc() if D else "SqliteConnector.h"), "the connection is never closed"))
    for key, (loc, msg) in sorted(I.bad.items()):
        c.report(key, loc, msg)
