"""C19: detected errors are raised, not dropped."""
import os, re
from collections import defaultdict
from vlib import model
from vlib.lockset import strip, is_fatal_elem, CALLS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STDEXC = re.compile(r"^std::(runtime_error|logic_error|invalid_argument|out_of_range|domain_error|length_error|overflow_error|"
                    r"underflow_error|range_error|exception|bad_\w+|system_error|exception_ptr|__exception_ptr::exception_ptr)$")
WRAP = ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr", "ImplicitCastExpr",
        "ParenExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr")
STM = {"CompoundStmt", "IfStmt", "ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt", "CaseStmt", "DefaultStmt", "LabelStmt"}
# handlers that deliberately turn an exception into a result, by file and type caught: how many, and why that loses nothing
ALLOWED = {
    ("DataMgr/BufferMgr/BufferMgr.cpp", "std::runtime_error"): (1, "no new slab: eviction of cached chunks is tried next"),
    ("DataMgr/BufferMgr/GpuBufferMgr/GpuBufferMgr.cpp", "std::runtime_error"): (1, "device error while a destructor frees slabs; logged"),
    ("QueryEngine/CostModel/CostModel.cpp", "std::exception"): (1, "no measurements available: logged, the model stays uncalibrated"),
    ("Utils/Regexp.cpp", "std::runtime_error"): (1, "a pattern the regex engine gives up on does not match"),
    ("ResultSet/QueryMemoryDescriptor.cpp", "..."): (2, "no size recorded for the slot means the size is unknown"),
    ("Shared/StringTransform.cpp", "std::exception"): (1, "text that cannot be scanned has no literals; logged"),
    ("Shared/file_path_util.h", "std::exception"): (4, "file names that do not match the pattern sort last"),
}
NORETURN = {"abort", "exit", "_exit", "quick_exit", "terminate", "__builtin_unreachable", "__assert_fail", "rethrow_exception",
            "rethrow_if_nested", "__builtin_trap", "longjmp"}


def run(c):
    c.rule = ("syntax-tree and CFG rules over every translation unit that parses here: an exception object that is built is thrown, stored or "
              "returned; no function with a result can run off its end; no exception handler drops the exception except a listed few; the "
              "outcome of an asynchronous task is collected with get(), not only waited for; a stored exception is rethrown; a status every "
              "other caller inspects is not ignored")
    tus = [l.strip() for l in open(HERE + "/spec/tus.txt") if l.strip()]
    tus = [t for t in tus if os.path.exists(model.ODB + t)]
    p = model.load(tus)
    c.count("translation units", len(tus))
    c.need("translation units", 95)
    fns = [F for F in p.fns.values() if "ThirdParty" not in F.f]
    c.count("functions", len(fns))
    excs = {}

    def isexc(t):
        t = t.replace("const ", "").replace("volatile ", "").rstrip("&* ").strip()
        if t not in excs:
            excs[t] = False
            if STDEXC.match(t):
                excs[t] = True
            else:
                r = p.records.get(t)
                if r is not None:
                    excs[t] = any(isexc(str(getattr(b, "q", b))) for b in (r.bases or []))
        return excs[t]
    handlers = defaultdict(list)
    status = defaultdict(lambda: [0, []])
    for F in fns:
        built(c, F, isexc)
        falls(c, F)
        for n in F.walk():
            if n.k == "CXXCatchStmt":
                c.count("exception handlers")
                if swallows(F, n):
                    t = n.d.t if n.d is not None else "..."
                    t = t.replace("const ", "").rstrip("& ").strip()
                    handlers[(F.f.replace(model.ODB, ""), t)].append((F, n))
        futures(c, F)
        statuses(F, p, status)
    for (f, t), hs in sorted(handlers.items()):
        uniq = {}
        for F, n in hs:
            uniq.setdefault(n.l, (F, n))
        ok = ALLOWED.get((f, t), (0, ""))[0]
        c.count("handlers that absorb", len(uniq))
        if len(uniq) > ok:
            for l in sorted(uniq):
                F, n = uniq[l]
                c.report("%s:catch:%s" % (f, t), F.loc(n), "%s catches %s and can go on without raising it again (%d such handlers in this file, %d expected): "
                         "the error is dropped" % (F.q, t, len(uniq), ok))
    rethrow(c, fns)
    for u, (used, ign) in sorted(status.items()):
        if ign and used >= 2:
            F, n = ign[0]
            c.report("%s:ignored:%s" % (F.q, n.fn.q), F.loc(n), "%s ignores the outcome of %s, which all %d other calls inspect" % (F.q, n.fn.q, used))
    c.need("functions", 3000)
    c.need("exceptions built", 300)
    c.need("exception handlers", 30)


def outer(n):
    q = n
    while q.par is not None:
        p = q.par
        if p.k in WRAP:
            q = p
        elif p.k == "CXXOperatorCallExpr" and p.op in ("<<", "+") and len(p.c) > 1 and p.c[1] is q:
            q = p
        elif p.k == "BinaryOperator" and p.op == ",":
            if p.c[1] is not q:
                return q, True
            q = p
        elif p.k in ("CXXStaticCastExpr", "CStyleCastExpr"):
            if p.t == "void":
                return q, True
            q = p
        elif p.k == "ConditionalOperator":
            q = p
        else:
            break
    return q, False


def discarded(q):
    p = q.par
    if p is None or p.k not in STM:
        return False
    return not (p.get("cond") is q)


def built(c, F, isexc):
    uses = None
    for n in F.walk():
        if n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CallExpr") or not isexc(n.t):
            continue
        if n.k == "CallExpr" and (n.fn is None or n.fn.n not in ("make_exception_ptr", "current_exception")):
            # a helper that makes an error
            if n.t.rstrip().endswith(("&", "*")):
                continue
        c.count("exceptions built")
        q, dropped = outer(n)
        if dropped or discarded(q):
            c.report("%s:dropped:%s" % (F.q, n.t), F.loc(n), "%s builds an error (%s) and does nothing with it" % (F.q, n.t))
            continue
        # a local that only holds it
        if q.par is not None and q.par.k == "DeclStmt":
            if uses is None:
                uses = {x.d for x in F.walk() if x.k == "DeclRefExpr"}
                lam = any(x.k == "LambdaExpr" for x in F.walk())
            for ds in q.par.get("ds", []):
                if isexc(ds[0].t) and ds[0] not in uses and not lam:
                    c.report("%s:dropped:%s" % (F.q, n.t), F.loc(n), "%s builds an error (%s %s) and never raises it" % (F.q, n.t, ds[0].n))


def dead_elem(n):
    if is_fatal_elem(n):
        return True
    return n.k in CALLS and n.fn is not None and (n.fn.n in NORETURN or n.fn.get("noreturn"))


def exits(F, start):
    """blocks reached from start that leave the function by running off its end: [(block, last node)]"""
    out = []
    st, seen = [start], set()
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        B = F.blocks[b]
        es = [e[1] for e in B.elems if e[0] == "s" and e[1] is not None]
        if any(dead_elem(x) for x in es):
            continue
        ends = any(x.k in ("ReturnStmt", "CXXThrowExpr", "CoreturnStmt") for x in es)
        for i, s in enumerate(B.succs):
            if s is None or s < 0:
                continue
            if s == F.exit:
                if B.term is not None and B.term.k == "CXXTryStmt" or B.term is None and i == 1 or ends:
                    continue
                out.append((b, es[-1] if es else None))
            else:
                st.append(s)
    return out


def falls(c, F):
    ret = F.decl.get("ret") or ""
    if not F.blocks or ret in ("void", "") or F.decl.k in ("CXXConstructor", "CXXDestructor") or F.decl.n == "main":
        return
    if F.root is None or F.root.k not in ("CompoundStmt", "CXXTryStmt"):
        return
    c.count("functions with a result")
    for b, last in exits(F, F.entry):
        c.report("%s:falls-off" % F.q, F.loc(last), "%s can reach its end without returning a value (after %s)"
                 % (F.q, F.loc(last) if last is not None else "entry"))


def swallows(F, h):
    """can control leave the handler other than by an exception or abort?"""
    body = h.c[-1] if h.c else None
    if body is None or not F.blocks:
        return True
    inside = {x.i for x in F.walk(body)}
    if not any(x.k == "CXXThrowExpr" or dead_elem(x) for x in F.walk(body)):
        return True
    # blocks of the handler
    hb = {b.id for b in F.blocks.values() if any(e[0] == "s" and e[1] is not None and e[1].i in inside for e in b.elems)
          or b.term is not None and b.term.i in inside}
    if not hb:
        return True
    preds = defaultdict(set)
    for b in F.blocks.values():
        for s in b.succs:
            if s is not None and s >= 0:
                preds[s].add(b.id)
    starts = [b for b in hb if not (preds[b] & hb)] or [min(hb)]
    st, seen = list(starts), set()
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        B = F.blocks[b]
        es = [e[1] for e in B.elems if e[0] == "s" and e[1] is not None and e[1].i in inside]
        if any(dead_elem(x) or x.k == "CXXThrowExpr" for x in es):
            continue
        if any(x.k == "ReturnStmt" for x in es):
            return True
        for i, s in enumerate(B.succs):
            if s is None or s < 0 or B.term is None and i == 1:
                continue
            if s in hb:
                st.append(s)
            elif empty_join(F, s, hb, inside):
                st.append(s)
            else:
                return True
    return False


def empty_join(F, s, hb, inside):
    """an empty block between two parts of the handler"""
    B = F.blocks[s]
    return s != F.exit and not B.elems and B.term is None and any(x in hb for x in B.succs if x is not None)


def futures(c, F):
    waits, gets = {}, set()
    for n in F.walk():
        if n.k == "CXXMemberCallExpr" and n.fn is not None and re.match(r"^std::(__basic_future|future|shared_future)<", n.fn.q):
            me = strip(n.c[0])
            o = strip(me.c[0]) if me is not None and me.c else None
            k = origin(F, o)
            if n.fn.n in ("wait", "wait_for", "wait_until"):
                waits.setdefault(k, n)
            elif n.fn.n == "get":
                gets.add(k)
    for k, n in waits.items():
        c.count("futures waited for")
        if k is None or k in gets or escapes(F, k):
            continue
        c.report("%s:future:%s" % (F.q, k.n), F.loc(n), "%s only waits for the tasks in %s: an exception thrown by a task is dropped (get() would raise it)" % (F.q, k.n))
    c.count("futures collected", len(gets))


def origin(F, o):
    """the variable (container) a future expression belongs to"""
    for _ in range(10):
        if o is None:
            return None
        if o.k == "DeclRefExpr":
            d = o.d
            # range-for element -> the container
            for n in F.walk():
                if n.k == "CXXForRangeStmt" and n.get("loopvar") is d or n.k == "CXXForRangeStmt" and any(
                        x.k == "DeclStmt" and any(ds[0] is d for ds in x.get("ds", [])) for x in n.c if x is not None):
                    r = n.get("range")
                    o2 = strip(r) if r is not None else None
                    if o2 is not None:
                        o = o2
                        break
            else:
                return d
            continue
        if o.k == "MemberExpr":
            return o.d
        if o.k in ("CXXOperatorCallExpr", "ArraySubscriptExpr", "CXXMemberCallExpr", "UnaryOperator"):
            nx = [x for x in o.c if x is not None]
            if o.k == "CXXOperatorCallExpr":
                nx = nx[1:]
            o = strip(nx[0]) if nx else None
            if o is not None and o.k == "MemberExpr" and o.d is not None and o.d.k != "Field":
                o = strip(o.c[0]) if o.c else None
            continue
        return None
    return None


def escapes(F, d):
    """the futures are handed to someone else"""
    for n in F.walk():
        if n.k == "ReturnStmt" and any(x.k == "DeclRefExpr" and x.d is d for x in F.walk(n)):
            return True
        if n.k in ("CallExpr", "CXXMemberCallExpr") and n.fn is not None:
            args = n.c[1:]
            for a in args:
                s = strip(a)
                if s is not None and s.k == "DeclRefExpr" and s.d is d:
                    return True
    return d.k != "Var"


def rethrow(c, fns):
    stored, raised = None, False
    for F in fns:
        for n in F.walk():
            if n.k == "CallExpr" and n.fn is not None:
                if n.fn.n == "current_exception":
                    stored = stored or (F, n)
                elif n.fn.n == "rethrow_exception":
                    raised = True
    if stored and not raised:
        F, n = stored
        c.report("%s:stored" % F.q, F.loc(n), "%s stores the current exception, but nothing ever raises it again" % F.q)


def statuses(F, p, status):
    for n in F.walk():
        if n.k in ("CXXMemberCallExpr", "CallExpr") and n.fn is not None and n.t == "bool":
            g = p.fns.get(n.fn.u)
            if g is None or "ThirdParty" in g.f:
                continue
            q = n
            while q.par is not None and q.par.k in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr"):
                q = q.par
            p2 = q.par
            if p2 is not None and p2.k in STM and not (p2.get("cond") is q or p2.get("inc") is q):
                status[n.fn.u][1].append((F, n))
            else:
                status[n.fn.u][0] += 1
