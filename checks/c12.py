"""C12: every configuration option sets its own setting and defaults to that setting's value."""
import os, re
from vlib import model

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TUS = ["ConfigBuilder/ConfigBuilder.cpp", "Logger/Logger.cpp"]
WRAP = {"ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CStyleCastExpr",
        "CXXFunctionalCastExpr", "CXXStaticCastExpr", "ConstantExpr", "CXXDefaultArgExpr"}
CALLS = {"CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"}
# settings that are not meant to be changed by an option
INTERNAL = set(l.split("#")[0].strip() for l in open(HERE + "/spec/config_internal.txt") if l.split("#")[0].strip())


def viol(c, key, text):
    loc, _, msg = text.partition(": ")
    c.report(key, loc, msg)


def strip(n):
    while n is not None:
        if n.k in WRAP and n.c:
            n = n.c[0]
        elif n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.c and all(
                x is None or x.k == "CXXDefaultArgExpr" for x in n.c[1:]):
            n = n.c[0]
        elif n.k == "InitListExpr" and len(n.c) == 1:
            n = n.c[0]
        else:
            break
    return n


class Ctx:
    """A function with its parameters bound to the caller's expressions."""

    def __init__(self, F, env, depth=0):
        self.F = F
        self.env = env          # param usr/id -> (node, Ctx)
        self.depth = depth
        self.init = {}
        for n in F.walk():
            if n.k == "DeclStmt":
                for d in n.get("ds", []):
                    if len(d) > 1 and isinstance(d[1], int) and d[1] >= 0:
                        self.init[id(d[0])] = F.nodes[d[1]]


class Reader:
    def __init__(self, c, p):
        self.c, self.p = c, p
        self.opts = []
        self.reg = {}

    # -- which functions register options (transitively)
    def registers(self, u, seen=()):
        if u in self.reg:
            return self.reg[u]
        F = self.p.fns.get(u)
        if F is None or u in seen:
            return False
        r = False
        for n in F.walk():
            if n.k in CALLS and n.fn is not None:
                if self.is_reg(n) or self.registers(n.fn.u, seen + (u,)):
                    r = True
                    break
            if n.k == "LambdaExpr" and n.fn is not None and self.registers(n.fn.u, seen + (u,)):
                r = True
                break
        self.reg[u] = r
        return r

    def is_reg(self, n):
        return n.k == "CXXOperatorCallExpr" and n.fn is not None and n.fn.q.endswith("options_description_easy_init::operator()")

    # -- the setting an expression denotes
    def path(self, n, cx, deref=True):
        n = strip(n)
        if n is None:
            return None
        if n.k == "CXXThisExpr":
            return "this"
        if n.k == "UnaryOperator" and n.op in ("&", "*"):
            return self.path(n.c[0], cx)
        if n.k == "CXXOperatorCallExpr" and n.fn is not None and re.search(r"operator(->|\*)$", n.fn.q):
            return self.path(n.c[1] if len(n.c) > 1 else n.c[0], cx)
        if n.k in CALLS and n.fn is not None and n.fn.n in ("get", "value") and n.k == "CXXMemberCallExpr":
            b = strip(n.c[0])
            return self.path(b.c[0] if b is not None and b.k == "MemberExpr" and b.c else b, cx)
        if n.k in CALLS and n.fn is not None and n.fn.n in ("addressof", "ref", "cref", "move", "as_const") and n.c:
            return self.path(n.c[-1], cx)
        if n.k == "MemberExpr":
            b = self.path(n.c[0], cx) if n.c else "this"
            if b is None or n.d is None:
                return None
            return b + "." + n.d.n
        if n.k == "DeclRefExpr" and n.d is not None:
            d = n.d
            if id(d) in cx.env:
                m, c2 = cx.env[id(d)]
                return self.path(m, c2)
            x = cx
            while x is not None:
                if id(d) in x.init:
                    return self.path(x.init[id(d)], x)
                if id(d) in x.env:
                    m, c2 = x.env[id(d)]
                    return self.path(m, c2)
                x = getattr(x, "outer", None)
            return "::" + (d.q or d.n)
        if n.k in CALLS and n.fn is not None and n.fn.u in self.p.fns and cx.depth < 6:
            # an accessor: the setting its single return statement denotes
            G = self.p.fns[n.fn.u]
            rets = [r for r in G.walk() if r.k == "ReturnStmt" and r.c]
            if len(rets) == 1:
                return self.path(rets[0].c[0], self.enter(n, G, cx))
        return None

    def enter(self, n, G, cx):
        args = self.args(n)
        env = {}
        for q, a in zip(G.params, args):
            env[id(q)] = (a, cx)
        c2 = Ctx(G, env, cx.depth + 1)
        if G.is_lambda:
            c2.outer = cx
        return c2

    def args(self, n):
        if n.k == "CXXMemberCallExpr" or n.k == "CallExpr":
            return list(n.c[1:])
        return list(n.c[2:])

    def const(self, n, cx):
        n = strip(n)
        if n is None:
            return None
        if n.cv is not None:
            return n.cv
        if n.k in ("StringLiteral", "IntegerLiteral", "CXXBoolLiteralExpr", "FloatingLiteral"):
            return n.v
        if n.k == "DeclRefExpr" and n.d is not None:
            x = cx
            while x is not None:
                if id(n.d) in x.env:
                    m, c2 = x.env[id(n.d)]
                    return self.const(m, c2)
                if id(n.d) in x.init:
                    return self.const(x.init[id(n.d)], x)
                x = getattr(x, "outer", None)
        if n.k in CALLS and n.fn is not None and n.fn.n in ("c_str", "data") and n.c:
            b = strip(n.c[0])
            return self.const(b.c[0] if b is not None and b.k == "MemberExpr" and b.c else b, cx)
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.c:
            return self.const(n.c[0], cx)
        return None

    # -- po::value<T>(&x)->default_value(..)->...
    def chain(self, n, cx):
        """(target node, ctx), {method: (args, ctx)}"""
        n = strip(n)
        if n is None:
            return None, {}
        if n.k == "DeclRefExpr" and n.d is not None:
            x = cx
            while x is not None:
                if id(n.d) in x.env:
                    m, c2 = x.env[id(n.d)]
                    return self.chain(m, c2)
                if id(n.d) in x.init:
                    t, ms = self.chain(x.init[id(n.d)], x)
                    ms = dict(ms)
                    for m in x.F.walk():       # v->default_value(...) as statements of their own
                        if m.k == "CXXMemberCallExpr" and m.fn is not None and "typed_value" in m.fn.q:
                            b = m
                            while b is not None and b.k == "CXXMemberCallExpr":
                                b = strip(b.c[0])
                                if b is not None and b.k == "MemberExpr":
                                    b = strip(b.c[0])
                            if b is not None and b.k == "DeclRefExpr" and b.d is n.d:
                                ms.setdefault(m.fn.n, (self.args(m), x, m))
                    return t, ms
                x = getattr(x, "outer", None)
            return None, {}
        if n.k == "CXXMemberCallExpr" and n.fn is not None and "typed_value" in n.fn.q:
            b = strip(n.c[0])
            t, ms = self.chain(b.c[0] if b.k == "MemberExpr" else b, cx)
            ms = dict(ms)
            ms[n.fn.n] = (self.args(n), cx, n)
            return t, ms
        if n.k in CALLS and n.fn is not None:
            if n.fn.n in ("value", "wvalue", "bool_switch") and n.fn.q.startswith("boost::program_options"):
                a = self.args(n)
                return ((a[0], cx, n) if a else None), ({"bool_switch": ([], cx, n)} if n.fn.n == "bool_switch" else {})
            G = self.p.fns.get(n.fn.u)
            if G is not None and cx.depth < 6:
                rets = [r for r in G.walk() if r.k == "ReturnStmt" and r.c]
                if len(rets) == 1:
                    return self.chain(rets[0].c[0], self.enter(n, G, cx))
        return None, {}

    def walk(self, cx, stack=()):
        F = cx.F
        for n in F.walk():
            if n.k not in CALLS or n.fn is None:
                continue
            if self.is_reg(n):
                self.option(n, cx)
            elif n.fn.u not in stack and self.registers(n.fn.u) and cx.depth < 8:
                self.walk(self.enter(n, self.p.fns[n.fn.u], cx), stack + (n.fn.u,))

    def option(self, n, cx):
        a = self.args(n)
        name = self.const(a[0], cx) if a else None
        o = {"name": name, "loc": cx.F.loc(n), "F": cx.F, "n": n, "cond": None, "target": None, "ms": {}, "cx": cx, "value": False}
        m = n
        while m is not None:
            if m.k == "IfStmt":
                o["cond"] = m
            m = m.par
        if len(a) > 1:
            t, ms = self.chain(a[1], cx)
            if t is not None or ms or "value_semantic" in (strip(a[1]).t if strip(a[1]) is not None else ""):
                o["value"] = True
                o["ms"] = ms
                o["target"] = self.path(t[0], t[1]) if t is not None else None
                o["tn"] = t
        self.opts.append(o)


def leaves(p, rec, prefix, out):
    for f in rec.fields:
        r = p.records.get(f.t.replace("struct ", ""))
        if r is not None and r.fields and not f.t.startswith("std::") and ("/Config.h" in r.f):
            leaves(p, r, prefix + "." + f.n, out)
        else:
            out[prefix + "." + f.n] = f
    return out


def run(c):
    c.rule = ("every registration of a program option is resolved, through helpers, references and locals, to the setting it stores into; "
              "name, target, default, implicit value and range check are compared with each other and with the settings declared in Config")
    p = model.load(TUS)
    R = Reader(c, p)
    callers = set()
    regs = [F for F in p.fns.values() if R.registers(F.u)]
    for F in regs:
        for n in F.walk():
            if n.k in CALLS and n.fn is not None and n.fn.u != F.u and R.registers(n.fn.u):
                callers.add(n.fn.u)
    groups = []
    for F in regs:
        if F.u in callers or F.is_lambda:
            continue
        R.opts = []
        R.walk(Ctx(F, {}))
        groups.append((F, R.opts))
    # LogOptions::set_options is called by the configuration builder, and so is not a root: its options are read in the LogOptions object
    allopts = [o for _, os_ in groups for o in os_]
    c.count("options", len(allopts))
    c.need("options", 60)
    cfg = leaves(p, p.record("Config"), "config", {})
    c.count("settings", len(cfg))
    c.need("settings", 60)
    table, valued = {}, set()
    for l in open(HERE + "/spec/options.txt"):
        l = l.split("#")[0].split()
        if l:
            table[l[0]] = l[1]
            if "value-required" in l:
                valued.add(l[0])

    def canon(t):
        if t is None:
            return None
        t = re.sub(r"^this\.config_\b", "config", t)
        t = re.sub(r"^this\.", "log.", t)
        return t
    names, targets = {}, {}
    for o in allopts:
        if o["name"] is None:
            c.count("options whose name is not constant")
            continue
        nm = o["name"].strip('"')
        o["nm"] = nm
        for part in nm.split(","):
            part = part.strip()
            if part in names and names[part]["loc"] != o["loc"]:
                viol(c, "option:%s" % part, "%s: the option '%s' is registered twice (also at %s)" % (o["loc"], part, names[part]["loc"]))
            names[part] = o
        if not o["value"]:
            continue
        t = canon(o["target"])
        o["t"] = t
        if t is None:
            c.count("options whose setting is not resolved")
            if o.get("tn") is None:
                viol(c, "option:%s:target" % nm, "%s: the value of the option '%s' is not stored in any setting" % (o["loc"], nm))
            continue
        if t in targets and targets[t]["nm"] != nm:
            viol(c, "option:%s:shared" % nm, "%s: the options '%s' and '%s' store into the same setting %s" % (o["loc"], nm, targets[t]["nm"], t))
        targets.setdefault(t, o)
        want = table.get(nm)
        if want and want != t and (want in cfg or not want.startswith("config.")) and t in table.values():
            viol(c, "option:%s:setting" % nm, "%s: the option '%s' stores into %s; it is the option for %s" % (o["loc"], nm, t, want))
        dv = o["ms"].get("default_value")
        if dv:
            c.count("obligations: default")
            d = canon(R.path(dv[0][0], dv[1])) if dv[0] else None
            if d != t:
                k = R.const(dv[0][0], dv[1]) if dv[0] else None
                what = d if d and not d.startswith("::") else ("the constant %s" % k if k is not None else "another value")
                viol(c, "option:%s:default" % nm, "%s: the option '%s' sets %s, but when it is not given that setting is overwritten with %s" % (
                    o["loc"], nm, t, what))
        f = cfg.get(t)
        typ = f.t if f is not None else (o["tn"][2].t if o.get("tn") else "")
        isbool = typ == "bool" or "typed_value<bool" in typ
        iv = o["ms"].get("implicit_value")
        if isbool:
            if iv:
                c.count("obligations: implicit value")
                k = R.const(iv[0][0], iv[1]) if iv[0] else None
                if str(k).lower() in ("0", "false"):
                    viol(c, "option:%s:implicit" % nm, "%s: giving the option '%s' without a value switches the setting off" % (o["loc"], nm))
            elif t.startswith("config.") and "bool_switch" not in o["ms"] and nm in table and nm not in valued:
                viol(c, "option:%s:implicit" % nm, "%s: the switch '%s' can no longer be given without a value" % (o["loc"], nm))
        if t.startswith("config.") and o["cond"] is not None and o["cond"].get("cond") is not None and strip(o["cond"].get("cond")).cv is None:
            viol(c, "option:%s:conditional" % nm, "%s: the option '%s' is only known under a condition" % (o["loc"], nm))
        nt = o["ms"].get("notifier")
        if nt:
            notifier(c, p, R, nm, o, nt)
    for nm, want in sorted(table.items()):
        if nm not in names and (want in cfg or want.startswith("log.")):
            viol(c, "option:%s:gone" % nm, "%s: there is no option '%s' any more: %s cannot be set through it" % (
                groups[0][0].loc() if groups else "ConfigBuilder", nm, want))
    unresolved = [o for o in allopts if o["name"] is None or (o["value"] and o.get("t") is None)]
    for t, f in sorted(cfg.items()):
        c.count("obligations: option")
        if t not in targets and t not in INTERNAL and not unresolved:
            viol(c, "setting:%s" % t, "%s:%d: no option sets %s" % (f.f.replace(model.REPO + "/", ""), f.l, t))
    parser(c, p, R)
    c.count("options bound to a setting", len(targets))
    c.need("options bound to a setting", 60)


# -- range checks ------------------------------------------------------------
def notifier(c, p, R, nm, o, nt):
    args, cx, n = nt
    a = strip(args[0]) if args else None
    lam, env = None, {}
    while a is not None and a.k in CALLS and a.fn is not None and a.fn.u in p.fns:
        G = p.fns[a.fn.u]
        for q, x in zip(G.params, R.args(a)):
            env[q.n] = R.const(x, cx)
        rets = [r for r in G.walk() if r.k == "ReturnStmt" and r.c]
        if len(rets) != 1:
            return
        a = strip(rets[0].c[0])
    if a is not None and a.k == "LambdaExpr":
        lam = next((x for x in p.fns.values() if a.fn is not None and x.u == a.fn.u), None)
    if lam is None or len(lam.params) != 1:
        c.count("range checks not judged")
        return
    strs = [v for v in env.values() if isinstance(v, str) and not re.match(r'^[-+0-9.]', v)]
    for s in strs:
        if s.strip('"') != nm and re.match(r'^"?[a-z][a-z-]+"?$', s):
            viol(c, "option:%s:range-name" % nm, "%s: a value rejected for the option '%s' is reported as one of '%s'" % (
                o["loc"], nm, s.strip('"')))
    nums = []
    for k in list(env):
        try:
            env[k] = float(str(env[k]).rstrip("uUlLfF"))
            nums.append(env[k])
        except (TypeError, ValueError):
            env.pop(k)
    if len(nums) != 2:
        c.count("range checks not judged")
        return
    lo, hi = min(nums), max(nums)
    c.count("obligations: range")
    for v, bad in ((lo - 1, True), (lo, False), ((lo + hi) / 2, False), (hi, False), (hi + 1, True)):
        r = run_body(lam, dict(env, **{lam.params[0].n: v}))
        if r is None:
            c.count("range checks not judged")
            return
        if (r == "throw") != bad:
            viol(c, "option:%s:range" % nm, "%s: the range check of the option '%s' %s the value %g (range %g to %g)" % (
                o["loc"], nm, "accepts" if bad else "rejects", v, lo, hi))
            return


def run_body(F, env):
    def ex(n):
        n = strip(n)
        if n is None:
            raise KeyError
        if n.k == "DeclRefExpr" and n.d is not None and n.d.n in env:
            return env[n.d.n]
        if n.k in ("IntegerLiteral", "FloatingLiteral"):
            return float(n.v)
        if n.k == "CXXBoolLiteralExpr":
            return str(n.v).lower() in ("1", "true")
        if n.k == "UnaryOperator" and n.op == "!":
            return not ex(n.c[0])
        if n.k == "UnaryOperator" and n.op == "-":
            return -ex(n.c[0])
        if n.k == "BinaryOperator":
            if n.op == "&&":
                return ex(n.c[0]) and ex(n.c[1])
            if n.op == "||":
                return ex(n.c[0]) or ex(n.c[1])
            a, b = ex(n.c[0]), ex(n.c[1])
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[n.op]
        raise KeyError

    def st(n):
        if n is None:
            return None
        if n.k == "CompoundStmt":
            for x in n.c:
                r = st(x)
                if r:
                    return r
            return None
        if n.k == "IfStmt":
            return st(n.get("then")) if ex(n.get("cond")) else st(n.get("else"))
        if n.k == "ReturnStmt":
            return "ok"
        if any(x.k == "CXXThrowExpr" for x in F.walk(n)):
            return "throw"
        if n.k == "DeclStmt":
            for d in n.get("ds", []):
                if len(d) > 1 and isinstance(d[1], int) and d[1] >= 0:
                    env[d[0].n] = ex(F.nodes[d[1]])
            return None
        if n.k == "NullStmt":
            return None
        raise KeyError
    try:
        return st(F.root) or "ok"
    except (KeyError, TypeError):
        return None


# -- parsing -----------------------------------------------------------------
def parser(c, p, R):
    fns = [F for F in p.fns.values() if F.f.endswith("ConfigBuilder/ConfigBuilder.cpp")]
    store = []
    for F in fns:
        cx = Ctx(F, {})
        for n in F.walk():
            if n.k in CALLS and n.fn is not None:
                if n.fn.q == "boost::program_options::store":
                    store.append((F, n))
                if n.fn.n == "allow_unregistered":
                    viol(c, "parse:unregistered", "%s: options that do not exist are silently accepted" % F.loc(n))
            # a setting written other than by its option
            tgt = None
            if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
                tgt = n.c[0]
            elif n.k == "CXXOperatorCallExpr" and n.fn is not None and n.fn.n == "operator=":
                tgt = n.c[1]
            elif n.k == "UnaryOperator" and n.op in ("++", "--"):
                tgt = n.c[0]
            if tgt is not None:
                t = R.path(tgt, cx)
                if t and t.startswith("this.config_."):
                    viol(c, "write:%s" % t[5:], "%s: %s changes %s, whatever its option says" % (F.loc(n), F.q, t[13:]))
    if not store:
        raise model.AnalysisBroken("no call of program_options::store in ConfigBuilder")
    for F, n in store:
        # every way from the parsed options to a normal return passes notify()
        blk = None
        for b in F.blocks.values():
            for i, e in enumerate(b.elems):
                if e[0] == "s" and e[1] is n:
                    blk = (b.id, i)
        if blk is None:
            continue
        seen, st = set(), [blk]
        bad = False
        while st and not bad:
            b, i = st.pop()
            B = F.blocks[b]
            hit = False
            for e in B.elems[i:]:
                if e[0] == "s" and e[1] is not None and e[1].k in CALLS and e[1].fn is not None and (
                        e[1].fn.n == "notify" or notifies(p, e[1].fn.u)):
                    hit = True
                if e[0] == "s" and e[1] is not None and e[1].k == "CXXThrowExpr":
                    hit = True
            if hit:
                continue
            for i, s in enumerate(B.succs):
                if s is None or s < 0 or s in seen or (B.term is None and i == 1):
                    continue
                if s == F.exit and not B.nr:
                    # returning without notify is fine only on the way out after printing the help
                    bad = True
                seen.add(s)
                st.append((s, 0))
        c.count("obligations: parsed options are applied")
        if bad and not callers_notify(p, F):
            viol(c, "parse:notify", "%s: %s can return without applying the parsed options (no notify)" % (F.loc(n), F.q))


def notifies(p, u, depth=0):
    F = p.fns.get(u)
    if F is None or depth > 3:
        return False
    return any(n.k in CALLS and n.fn is not None and (n.fn.q == "boost::program_options::notify" or notifies(p, n.fn.u, depth + 1)) for n in F.walk())


def callers_notify(p, F):
    for G in p.fns.values():
        if G.u != F.u and any(n.k in CALLS and n.fn is not None and n.fn.u == F.u for n in G.walk()) and notifies(p, G.u):
            return any(n.k in CALLS and n.fn is not None and n.fn.q == "boost::program_options::notify" for n in G.walk())
    return False
