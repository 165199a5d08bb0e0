"""Path enumeration over the compiler's intermediate representation of small, loop-free functions.

clang lowers the translation unit, `sroa` promotes locals to SSA values, and every function is then described by its
paths: the comparisons decided on the way, the term returned and the memory cells written.  Integer +,-,* are kept as
polynomials over the function's inputs, width changes are explicit, calls to functions of the same unit are followed.
Comparisons are atoms; nothing is solved: an atom and its negation are the only contradictions, plus trichotomy."""
import json, os, subprocess, tempfile
from . import model

IRDUMP = model.BUILD + "/irdump"
NAMES = {}


def build_irdump():
    src = model.VERIF + "/extractor/irdump.cpp"
    if os.path.exists(IRDUMP) and os.path.getmtime(IRDUMP) >= os.path.getmtime(src):
        return
    os.makedirs(model.BUILD, exist_ok=True)
    tmp = IRDUMP + ".tmp%d" % os.getpid()
    r = subprocess.run(["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-I" + model.LLVM + "/include", src, "-o", tmp,
                        model.LLVM + "/lib/libLLVM-18.so"], capture_output=True, text=True)
    if r.returncode:
        raise model.AnalysisBroken("irdump does not build:\n" + r.stderr[-4000:])
    os.replace(tmp, IRDUMP)


class Module:
    def __init__(self):
        self.fns = {}


def load(*tus, passes="function(sroa<modify-cfg>)", opts=()):
    """Lower the given files (relative to omniscidb) and return one Module of all their functions."""
    build_irdump()
    m = Module()
    d = tempfile.mkdtemp(prefix="irx")
    try:
        procs = []
        for k, tu in enumerate(tus):
            tu, defs = tu if isinstance(tu, tuple) else (tu, [])
            fl = defs + [x for x in model.flags() if x not in ("-fsyntax-only", "clang++")]
            cmd = ["clang++-18"] + fl + ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-S",
                                         "-fno-discard-value-names", "-ffp-contract=off", "-emit-llvm",
                                         tu if tu.startswith("/") else model.ODB + tu, "-o", "%s/%d.ll" % (d, k)]
            procs.append((tu, k, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        for tu, k, p in procs:
            err = p.communicate()[1]
            if p.returncode:
                raise model.AnalysisBroken("%s does not compile to IR:\n%s" % (tu, err[-3000:]))
            r = subprocess.run(["opt-18", "-S", "-passes=" + passes, *opts, "%s/%d.ll" % (d, k), "-o",
                                "%s/%d.o.ll" % (d, k)], capture_output=True, text=True)
            if r.returncode:
                raise model.AnalysisBroken("opt failed on %s: %s" % (tu, r.stderr[-2000:]))
            r = subprocess.run([IRDUMP, "%s/%d.o.ll" % (d, k)], capture_output=True, text=True)
            if r.returncode:
                raise model.AnalysisBroken("irdump failed on %s: %s" % (tu, r.stderr[-2000:]))
            for line in r.stdout.splitlines():
                f = json.loads(line)
                if f["name"] not in m.fns or m.fns[f["name"]]["decl"]:
                    f["tu"] = tu
                    m.fns[f["name"]] = f
    finally:
        subprocess.run(["rm", "-r", d])
    return m


class Loopy(Exception):
    pass


class TooComplex(Exception):
    pass


# ---- terms -----------------------------------------------------------------
def wid(ty):
    if ty == "ptr":
        return 64
    return int(ty[1:]) if ty[0] == "i" and ty[1:].isdigit() else None


def typ(t):
    k = t[0]
    if k == "arg":
        return t[2]
    if k == "int":
        return "i%d" % t[2]
    if k == "fp":
        return t[2]
    if k == "null" or k == "gep" or k in ("obj", "glob", "fn"):
        return "ptr"
    if k == "cell":
        return "i%d" % (8 * t[2])
    if k in ("sext", "zext", "trunc"):
        return "i%d" % t[1]
    if k == "cv":
        return t[2]
    if k == "bc":
        return t[1]
    if k == "op":
        return t[2]
    if k == "poly":
        return "i%d" % t[1]
    if k == "call":
        return t[3]
    return "?"


def INT(v, w):
    v &= (1 << w) - 1
    if v >> (w - 1) and w > 1:
        v -= 1 << w
    return ("int", v, w)


def as_poly(t, w):
    if t[0] == "poly":
        return dict(t[2])
    if t[0] == "int":
        return {(): t[1]} if t[1] else {}
    if t[0] == "null":
        return {}
    return {(t,): 1}


def mk_poly(p, w):
    q = {}
    for m, c in p.items():
        c = INT(c, w)[1]
        if c:
            q[m] = c
    if not q:
        return INT(0, w)
    if len(q) == 1:
        (m, c), = q.items()
        if m == ():
            return INT(c, w)
        if len(m) == 1 and c == 1:
            return m[0]
    return ("poly", w, tuple(sorted(q.items(), key=repr)))


def add(a, b, w, sgn=1):
    p = as_poly(a, w)
    for m, c in as_poly(b, w).items():
        p[m] = p.get(m, 0) + sgn * c
    return mk_poly(p, w)


def mul(a, b, w):
    r = {}
    for m1, c1 in as_poly(a, w).items():
        for m2, c2 in as_poly(b, w).items():
            m = tuple(sorted(m1 + m2, key=repr))
            r[m] = r.get(m, 0) + c1 * c2
    if len(r) > 64:
        return ("op", "mul", "i%d" % w, a, b)
    return mk_poly(r, w)


def ext(kind, t, w):
    if t[0] == "int":
        return INT(t[1] if kind == "sext" and t[2] > 1 else t[1] & ((1 << t[2]) - 1), w) if kind == "zext" or t[2] > 1 \
            else INT(-t[1], w)
    if t[0] == kind:
        return (kind, w, t[2])
    if t[0] == "zext":
        return ("zext", w, t[2])
    return (kind, w, t)


def trunc(t, w):
    if t[0] == "int":
        return INT(t[1], w)
    if wid(typ(t)) == w:
        return t
    if t[0] in ("sext", "zext"):
        iw = wid(typ(t[2]))
        if iw == w:
            return t[2]
        return trunc(t[2], w) if iw > w else (t[0], w, t[2])
    if t[0] == "trunc":
        return trunc(t[2], w)
    if t[0] == "poly":
        r = INT(0, w)
        for m, c in t[2]:
            x = INT(c, w)
            for a in m:
                x = mul(x, trunc(a, w), w)
            r = add(r, x, w)
        return r
    if t[0] == "op" and t[1] in ("and", "or", "xor"):
        return binop(t[1], "i%d" % w, trunc(t[3], w), trunc(t[4], w))
    if t[0] == "op" and t[1] == "sdiv":
        ab = []
        for x in t[3:5]:
            if x[0] == "sext" and wid(typ(x[2])) <= w:
                ab.append(trunc(x, w))
            elif x[0] == "int" and INT(x[1], w)[1] == x[1]:
                ab.append(INT(x[1], w))
        if len(ab) == 2:
            return ("op", t[1], "i%d" % w, ab[0], ab[1])
    return ("trunc", w, t)


def binop(op, ty, a, b):
    w = wid(ty)
    if w is not None:
        if op == "add":
            return add(a, b, w)
        if op == "sub":
            return add(a, b, w, -1)
        if op == "mul":
            return mul(a, b, w)
        if op == "shl" and b[0] == "int":
            return mul(a, INT(1 << b[1], w), w)
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            if op == "and":
                return INT(x & y, w)
            if op == "or":
                return INT(x | y, w)
            if op == "xor":
                return INT(x ^ y, w)
            if op == "ashr":
                return INT(x >> y, w)
            if op == "lshr":
                return INT((x & ((1 << w) - 1)) >> y, w)
            if op in ("sdiv", "srem") and y:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return INT(q if op == "sdiv" else x - q * y, w)
            if op in ("udiv", "urem") and y:
                x, y = x & ((1 << w) - 1), y & ((1 << w) - 1)
                return INT(x // y if op == "udiv" else x % y, w)
        if op == "srem":
            return add(a, mul(b, ("op", "sdiv", ty, a, b), w), w, -1)
        if op == "xor":
            for p, q in ((a, b), (b, a)):
                if q == INT(-1, w):          # ~x
                    return add(INT(-1, w), p, w, -1)
        if op in ("and", "or") and a == b:
            return a
        if op == "urem" and b[0] == "int" and b[1] > 0 and b[1] & (b[1] - 1) == 0:
            op, b = "and", INT(b[1] - 1, w)
        if op == "udiv" and b[0] == "int" and b[1] > 0 and b[1] & (b[1] - 1) == 0:
            op, b = "lshr", INT(b[1].bit_length() - 1, w)
        if op == "and" or op == "or" or op == "xor":
            a, b = sorted((a, b), key=repr)
    elif op == "fsub" and b[0] == "fp":
        return binop("fadd", ty, a, ("fp", -b[1], b[2]))
    elif op == "fsub" and a[0] == "fp" and str(a[1]) == "-0.0":
        return ("op", "fneg", ty, b)
    elif op in ("fadd", "fmul"):
        a, b = sorted((a, b), key=repr)
    return ("op", op, ty, a, b)


def bitcast(t, ty):
    while t[0] == "bc":
        t = t[2]
    if typ(t) == ty or (wid(typ(t)) == wid(ty) and wid(ty) is not None):
        return t
    return ("bc", ty, t)


def gep(base, off):
    if base[0] == "gep":
        off = add(base[2], off, 64)
        base = base[1]
    if off == INT(0, 64):
        return base
    return ("gep", base, off)


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def show(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "arg":
        return NAMES.get(t[1]) or "arg%d" % t[1]
    if k == "int" or k == "fp":
        return str(t[1])
    if k == "cell":
        return "*" + show(t[1])
    if k in ("sext", "zext", "trunc"):
        return "%s%d(%s)" % (k, t[1], show(t[2]))
    if k == "cv":
        return "%s(%s)" % (t[1], show(t[4]))
    if k == "bc":
        return "%s(%s)" % (t[1], show(t[2]))
    if k == "op":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[3:]))
    if k == "poly":
        return " + ".join(("" if c == 1 and m else str(c)) + ("*" if c != 1 and m else "") + "*".join(show(a) for a in m)
                          for m, c in t[2])
    if k == "gep":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "call":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2]))
    if k in ("eq", "lt", "ult", "feq", "flt", "fle"):
        return "%s %s %s" % (show(t[1]), {"eq": "==", "feq": "==", "lt": "<", "ult": "<u", "flt": "<", "fle": "<="}[k], show(t[2]))
    return k


# ---- comparisons -----------------------------------------------------------
def atom(pred, a, b):
    """-> (atom, polarity) or bool"""
    fp = {"oeq": ("feq", 1, 0), "une": ("feq", 0, 0), "olt": ("flt", 1, 0), "uge": ("flt", 0, 0), "ogt": ("flt", 1, 1),
          "ule": ("flt", 0, 1), "ole": ("fle", 1, 0), "ugt": ("fle", 0, 0), "oge": ("fle", 1, 1), "ult": ("fle", 0, 1)}
    ic = {"eq": ("eq", 1, 0), "ne": ("eq", 0, 0), "slt": ("lt", 1, 0), "sge": ("lt", 0, 0), "sgt": ("lt", 1, 1),
          "sle": ("lt", 0, 1), "Ult": ("ult", 1, 0), "Uge": ("ult", 0, 0), "Ugt": ("ult", 1, 1), "Ule": ("ult", 0, 1)}
    if pred[0] == "f":
        if pred[1:] not in fp:
            return ("f" + pred[1:], a, b), True
        n, pol, sw = fp[pred[1:]]
        if all(x[0] == "cv" and x[1] == "fpext" for x in (a, b)) and a[3] == b[3]:
            a, b = a[4], b[4]
        if sw:
            a, b = b, a
        if n == "feq":
            a, b = sorted((a, b), key=repr)
        return (n, a, b), bool(pol)
    n, pol, sw = ic[pred]
    if sw:
        a, b = b, a
    if a[0] == "null":
        a = INT(0, 64)
    if b[0] == "null":
        b = INT(0, 64)
    if "gep" in (a[0], b[0]) and root(a) == root(b):
        # two places in the same object: compare the offsets
        x, y = (t[2] if t[0] == "gep" else INT(0, 64) for t in (a, b))
        d = add(x, y, 64, -1)
        if d[0] == "int":
            v = {"eq": d[1] == 0, "ult": d[1] < 0, "lt": d[1] < 0}[n]
            return None, v == bool(pol)
    # same extension on both sides: compare the narrow values
    for e in ("sext", "zext"):
        for x, y in ((a, b), (b, a)):
            if x[0] == e:
                iw = wid(typ(x[2]))
                if y[0] == e and wid(typ(y[2])) == iw:
                    if x is a:
                        a, b = x[2], y[2]
                        if e == "zext" and n == "lt":
                            n = "ult"
                elif y[0] == "int":
                    lo, hi = (-(1 << (iw - 1)), (1 << (iw - 1)) - 1) if e == "sext" else (0, (1 << iw) - 1)
                    if n in ("eq", "lt") and lo <= y[1] <= hi:
                        if e == "sext" or y[1] <= (1 << (iw - 1)) - 1 and n == "eq":
                            nx, ny = x[2], INT(y[1], iw)
                            a, b = (nx, ny) if x is a else (ny, nx)
                    elif n == "eq":
                        return None, not pol
                break
    if a[0] == "int" and b[0] == "int":
        w = a[2]
        v = {"eq": a[1] == b[1], "lt": a[1] < b[1],
             "ult": (a[1] & ((1 << w) - 1)) < (b[1] & ((1 << w) - 1))}[n]
        return None, v == bool(pol)
    if a == b:
        return None, (n == "eq") == bool(pol)
    if n == "eq":
        # a marker passed in a wider type is a value of the narrow type: x == (T)marker is x == marker
        for x, y in ((a, b), (b, a)):
            if y[0] == "trunc" and y[2][0] == "arg" and x[0] in ("arg", "cell"):
                a, b = ext("sext", x, wid(typ(y[2]))), y[2]
                break
        # x - y == 0, x + c == d
        w = wid(typ(a)) or 64
        d = add(a, b, w, -1)
        if d[0] == "int":
            return None, (d[1] == 0) == bool(pol)
        if "poly" in (a[0], b[0]) and typ(a) != "ptr" and typ(b) != "ptr":
            pd = as_poly(d, w)
            ms = sorted((m for m in pd if m), key=repr)
            if pd[ms[0]] < 0:
                pd = {m: -c for m, c in pd.items()}
            if len(ms) == 1 and len(ms[0]) == 1 and pd[ms[0]] == 1:
                a, b = ms[0][0], INT(-pd.get((), 0), w)
            elif len(ms) == 2 and () not in pd and all(len(m) == 1 for m in ms) and pd[ms[0]] == 1 and pd[ms[1]] == -1:
                a, b = ms[0][0], ms[1][0]
            else:
                a, b = mk_poly(pd, w), INT(0, w)
        a, b = sorted((a, b), key=repr)
    elif n == "lt" and b[0] == "int" and b[1] > -(1 << 30) and a[0] != "int":
        # x < c  is  !(c-1 < x): keep the form with the constant the source most often uses
        if b[1] == 1:
            return ("lt", INT(0, b[2]), a), not pol
    elif n == "lt" and a[0] == "int" and a[1] == -1:
        return ("lt", b, INT(0, a[2])), not pol
    return (n, a, b), bool(pol)


def known(facts, at):
    v = facts.get(at)
    if v is not None:
        return v
    n, a, b = at
    if n == "eq":
        if facts.get(("lt", a, b)) or facts.get(("lt", b, a)) or facts.get(("ult", a, b)) or facts.get(("ult", b, a)):
            return False
        if facts.get(("lt", a, b)) is False and facts.get(("lt", b, a)) is False:
            return True
        for x, y in ((a, b), (b, a)):
            if y[0] == "int":
                for (m, p, q), t in facts.items():
                    if m == "eq" and t and x in (p, q):
                        o = q if p == x else p
                        if o[0] == "int" and o[1] != y[1]:
                            return False
                    if t and m == "lt" and p == x and q[0] == "int" and y[1] >= q[1]:
                        return False
                    if t and m == "lt" and q == x and p[0] == "int" and y[1] <= p[1]:
                        return False
    if n in ("lt", "ult"):
        if facts.get((n, b, a)) or facts.get(("eq",) + tuple(sorted((a, b), key=repr))):
            return False
        if facts.get((n, b, a)) is False and facts.get(("eq",) + tuple(sorted((a, b), key=repr))) is False:
            return True
        if n == "lt":
            for x, y, up in ((a, b, True), (b, a, False)):
                if y[0] == "int":
                    for (m, p, q), t in facts.items():
                        if m == "eq" and t and x in (p, q):
                            o = q if p == x else p
                            if o[0] == "int":
                                return o[1] < y[1] if up else y[1] < o[1]
    if n in ("flt", "fle"):
        if facts.get(("flt", b, a)):
            return False
        if n == "fle" and facts.get(("flt", a, b)):
            return True
        if facts.get(("feq",) + tuple(sorted((a, b), key=repr))):
            return n == "fle"
    if n == "feq":
        if facts.get(("flt", a, b)) or facts.get(("flt", b, a)):
            return False
    return None


def equalities(facts):
    """Substitution implied by the equalities decided on a path: list of (term, replacement)."""
    sub = []
    eqs = [(a[1], a[2]) for a, v in facts.items() if a[0] in ("eq", "feq") and v]
    for a, v in facts.items():          # neither less nor greater
        if a[0] in ("lt", "flt") and v is False and facts.get((a[0], a[2], a[1])) is False:
            eqs.append((a[1], a[2]))
    for a, b in eqs:
        a, b = rewrite(a, sub), rewrite(b, sub)
        if a == b:
            continue
        if a[0] in ("int", "fp"):
            a, b = b, a
        if a[0] == "poly" and b == INT(0, a[1]):
            ms = [m for m, c in a[2] if c in (1, -1) and len(m) > 1]
            if ms:
                c = dict(a[2])[ms[0]]
                rest = mk_poly({m: -c * k for m, k in a[2] if m != ms[0]}, a[1])
                sub.append((("mono",) + ms[0], rest))
                continue
        if b[0] not in ("int", "fp") and a[0] not in ("arg", "cell"):
            a, b = b, a
        if b[0] in ("int", "fp") and a[0] in ("sext", "zext") and b[0] == "int":
            a, b = a[2], INT(b[1], wid(typ(a[2])))
        if a[0] in ("int", "fp") or any(x == a for x in subterms(b)):
            continue
        sub = [(x, rewrite(y, [(a, b)])) for x, y in sub] + [(a, b)]
    return sub


def rewrite(t, sub):
    if not sub or not isinstance(t, tuple):
        return t
    for x, y in sub:
        if t == x:
            return y
    k = t[0]
    if k in ("sext", "zext"):
        return ext(k, rewrite(t[2], sub), t[1])
    if k == "trunc":
        return trunc(rewrite(t[2], sub), t[1])
    if k == "poly":
        r = INT(0, t[1])
        for m, c in t[2]:
            x = INT(c, t[1])
            whole = [y for z, y in sub if z == ("mono",) + m]
            if whole:
                x = mul(x, whole[0], t[1])
            else:
                for a in m:
                    x = mul(x, rewrite(a, sub), t[1])
            r = add(r, x, t[1])
        return r
    if k == "op":
        xs = [rewrite(x, sub) for x in t[3:]]
        return binop(t[1], t[2], *xs) if len(xs) == 2 else t[:3] + tuple(xs)
    if k == "gep":
        return gep(rewrite(t[1], sub), rewrite(t[2], sub))
    if k == "bc":
        return bitcast(rewrite(t[2], sub), t[1])
    if k == "cell":
        return ("cell", rewrite(t[1], sub), t[2])
    if k == "cv":
        return t[:4] + (rewrite(t[4], sub),)
    if k == "call":
        return t[:2] + (tuple(rewrite(x, sub) for x in t[2]),) + t[3:]
    return t


PRED = {"eq": "eq", "lt": "slt", "ult": "Ult", "feq": "foeq", "flt": "folt", "fle": "fole"}


def merge(f1, f2):
    """The two paths' decisions taken together, or None if they contradict each other."""
    f = dict(f1)
    for a, v in f2.items():
        kn = known(f, a)
        if kn is not None and kn != v:
            return None
        f[a] = v
    for a, v in f.items():
        rest = {x: y for x, y in f.items() if x != a}
        kn = known(rest, a) if a[0] in PRED else None
        if kn is not None and kn != v:
            return None
    sub = equalities(f)
    if sub:
        g = {}
        for a, v in f.items():
            if a[0] not in PRED:
                continue
            x, y = rewrite(a[1], sub), rewrite(a[2], sub)
            if x[0] == "fp" and y[0] == "fp":
                c = {"feq": x[1] == y[1], "flt": x[1] < y[1], "fle": x[1] <= y[1]}[a[0]]
                if c != v:
                    return None
                continue
            if a[0][0] == "f" and x == y:
                if (a[0] != "flt") != v:
                    return None
                continue
            at, pol = atom(PRED[a[0]], x, y)
            if at is None:
                if pol != v:
                    return None
                continue
            tv = v == pol
            kn = known(g, at)
            if kn is not None and kn != tv:
                return None
            g[at] = tv
    return f, sub


def strip_bc(t):
    while t[0] == "bc":
        t = t[2]
    return t


def same_effect(p, q, sub):
    """None, or what differs between two paths taken on the same inputs."""
    if (p.ret is None) != (q.ret is None):
        return "one returns a value"
    if p.ret is not None:
        a, b = rewrite(p.ret, sub), rewrite(q.ret, sub)
        if a != b:
            return "returns %s, not %s" % (show(a), show(b))
    pm = {rewrite(a, sub): (z, rewrite(v, sub)) for a, (z, v) in p.mem.items()}
    qm = {rewrite(a, sub): (z, rewrite(v, sub)) for a, (z, v) in q.mem.items()}
    for a in set(pm) | set(qm):
        z = (pm.get(a) or qm.get(a))[0]
        cell = rewrite(("cell", a, z), sub)
        v, w = pm.get(a, (z, cell)), qm.get(a, (z, cell))
        if v[0] != w[0] or strip_bc(v[1]) != strip_bc(w[1]):
            return "leaves %s in *%s, not %s" % (show(v[1]), show(a), show(w[1]))
    pc = [(n, tuple(rewrite(x, sub) for x in a)) for n, a in p.calls]
    qc = [(n, tuple(rewrite(x, sub) for x in a)) for n, a in q.calls]
    if pc != qc:
        return "calls %s, not %s" % (pc and show(("call",) + pc[-1]), qc and show(("call",) + qc[-1]))
    return None


def rename_objects(p):
    """Number the local objects that appear in a path in the order in which it passes them on."""
    num = {}
    for t in [x for _, a in p.calls for x in a] + [p.ret or ()]:
        for x in subterms(t):
            if isinstance(x, tuple) and x and x[0] == "obj" and x not in num:
                num[x] = ("obj", "local%d" % len(num))
    if not num:
        return

    def ren(t):
        if not isinstance(t, tuple):
            return t
        return num.get(t) or tuple(ren(x) for x in t)
    p.calls, p.ret = tuple((n, ren(a)) for n, a in p.calls), ren(p.ret)
    p.facts = {ren(a): v for a, v in p.facts.items()}
    p.mem = {ren(a): ren(v) for a, v in p.mem.items()}


def difference(impl, spec):
    """First disagreement between two path tables, as (impl path, message), or None."""
    same = {frozenset(q.facts.items()): q for q in spec}
    for p in impl:
        twin = same.get(frozenset(p.facts.items()))    # taken on exactly the same inputs: no other path of spec can be
        if twin is not None and twin.kind == p.kind and same_effect(p, twin, []) is None:
            continue
        for q in [twin] if twin is not None else spec:
            if q.kind == "abort":
                continue
            pf, qf = p.facts, q.facts
            if any(a in qf and qf[a] != v for a, v in pf.items()):
                continue
            m = merge(pf, qf)
            if m is None:
                continue
            if p.kind != q.kind:
                return p, "aborts"
            d = same_effect(p, q, m[1])
            if d is not None:
                return p, d + "  when " + (" and ".join(("" if v else "not ") + show(a) for a, v in m[0].items()) or "always")
    return None


class Path:
    __slots__ = ("facts", "ret", "mem", "calls", "kind", "line")


class S:
    __slots__ = ("env", "mem", "facts", "calls", "n", "wild")

    def __init__(self):
        self.env, self.mem, self.facts, self.calls, self.n, self.wild = {}, {}, {}, (), 0, False

    def copy(self):
        s = S()
        s.env, s.mem, s.facts, s.calls, s.n, s.wild = dict(self.env), dict(self.mem), dict(self.facts), self.calls, self.n, self.wild
        return s


class Exec:
    def __init__(self, mod, opaque=(), max_paths=3000, depth=10):
        self.mod, self.opaque, self.max_paths, self.depth = mod, opaque, max_paths, depth
        self.objs = 0
        self.loopy = set()
        self.steps = 0

    def paths(self, name):
        f = self.mod.fns.get(name)
        if f is None or f["decl"]:
            raise model.AnalysisBroken("runtime function %s not found" % name)
        args = [("arg", i, p["t"]) for i, p in enumerate(f["params"])]
        NAMES.clear()
        NAMES.update({i: p["n"] for i, p in enumerate(f["params"])})
        self.steps = 0
        r = []
        for kind, ret, s, line in self.call(f, args, S(), 0):
            p = Path()
            p.facts, p.ret, p.calls, p.kind, p.line = s.facts, ret, s.calls, kind, line
            p.mem = {a: v for a, v in s.mem.items() if root(a)[0] != "obj"}
            rename_objects(p)
            r.append(p)
        return r

    def call(self, f, args, s, depth):
        out = []
        st = s.copy()
        saved = st.env
        st.env = {("arg", i): a for i, a in enumerate(args)}
        work = [(0, -1, st, frozenset())]
        while work:
            b, prev, s1, seen = work.pop()
            if b in seen:
                raise Loopy(f["name"])
            self.steps += 1
            if self.steps > 50000 or len(out) > self.max_paths:
                raise TooComplex(f["name"])
            for o in self.block(f, b, prev, s1, depth):
                if o[0] == "goto":
                    work.append((o[1], b, o[2], seen | {b}))
                else:
                    o[2].env = saved
                    out.append(o)
        return out

    def val(self, o, s):
        k = o["k"]
        if k == "arg":
            return s.env[("arg", o["i"])]
        if k == "v":
            return s.env[o["i"]]
        if k == "int":
            return INT(int(o["v"]), o["w"])
        if k == "fp":
            return ("fp", float(o["v"]), o["t"])
        if k == "null":
            return ("null",)
        if k == "undef":
            return ("undef",)
        if k == "glob":
            return ("glob", o["n"])
        if k == "fn":
            return ("fn", o["n"])
        if k == "gep":
            return self.gepval(o, s)
        return ("other", o.get("s", ""))

    def gepval(self, g, s):
        base = self.val(g["base"], s)
        if g.get("bad"):
            return ("other", "gep")
        off = INT(g["off"], 64)
        for v, c in g["var"]:
            x = self.val(v, s)
            w = wid(typ(x)) or 64
            if w < 64:
                x = ext("sext", x, 64)
            off = add(off, mul(x, INT(c, 64), 64), 64)
        return gep(base, off)

    def block(self, f, b, prev, s, depth):
        insts = f["blocks"][b]
        s = s.copy()
        # phis read the values of the predecessor simultaneously
        new = {}
        k = 0
        while k < len(insts) and insts[k]["op"] == "phi":
            for pb, o in insts[k]["ops"]:
                if pb == prev:
                    new[insts[k]["i"]] = self.val(o, s)
            k += 1
        s.env.update(new)
        return self.seq(f, insts, k, s, depth)

    def seq(self, f, insts, k, s, depth):
        outs = []
        while k < len(insts):
            x = insts[k]
            op = x["op"]
            if op == "br":
                if len(x["ops"]) == 1:
                    return outs + [("goto", x["ops"][0]["i"], s)]
                for v, s2 in self.truth(self.val(x["ops"][0], s), s):
                    # operands are printed condition, false target, true target
                    outs.append(("goto", x["ops"][2 if v else 1]["i"], s2))
                return outs
            if op == "switch":
                c = self.val(x["ops"][0], s)
                rest = s
                alive = True
                for cv, tgt in x["cases"]:
                    at, pol = atom("eq", c, INT(int(cv), wid(typ(c)) or 64))
                    if not alive:
                        break
                    if at is None:
                        if pol:
                            outs.append(("goto", tgt, rest))
                            alive = False
                        continue
                    kn = known(rest.facts, at)
                    if kn is not False:
                        t = rest.copy()
                        t.facts[at] = True
                        outs.append(("goto", tgt, t))
                        if kn:
                            alive = False
                            continue
                    rest = rest.copy()
                    rest.facts[at] = False
                if alive:
                    outs.append(("goto", x["default"], rest))
                return outs
            if op == "ret":
                outs.append(("ret", self.val(x["ops"][0], s) if x["ops"] else None, s, x.get("l", 0)))
                return outs
            if op == "unreachable" or op == "resume":
                outs.append(("abort", None, s, x.get("l", 0)))
                return outs
            forks = self.inst(f, x, s, depth)
            if forks is None and op == "invoke":
                forks = [s]
            if forks is None:
                k += 1
                continue
            if op == "invoke":
                return outs + [("goto", x["normal"], s2) for s2 in forks]
            if not forks:
                return outs
            for s2 in forks[1:]:
                outs += self.seq(f, insts, k + 1, s2, depth)
            s = forks[0]
            k += 1
        return outs

    def truth(self, c, s):
        """Branch on an i1 value."""
        if c[0] == "int":
            return [(c[1] != 0, s)]
        at = ("eq", INT(0, wid(typ(c)) or 1), c)
        at = ("eq",) + tuple(sorted(at[1:], key=repr))
        kn = known(s.facts, at)
        if kn is not None:
            return [(not kn, s)]
        a, b = s.copy(), s.copy()
        a.facts[at], b.facts[at] = False, True
        return [(True, a), (False, b)]

    def inst(self, f, x, s, depth):
        """Executes x in place and returns None, or returns the successor states."""
        op, i, ty = x["op"], x["i"], x["t"]
        if op in ("icmp", "fcmp"):
            a, b = (self.val(o, s) for o in x["ops"])
            pred = x["pred"]
            if op == "icmp":
                pred = {"ult": "Ult", "ule": "Ule", "ugt": "Ugt", "uge": "Uge"}.get(pred, pred)
            else:
                pred = "f" + pred
            at, pol = atom(pred, a, b)
            if at is None:
                s.env[i] = INT(1 if pol else 0, 1)
                return None
            kn = known(s.facts, at)
            if kn is not None:
                s.env[i] = INT(1 if kn == pol else 0, 1)
                return None
            r = []
            for v in (True, False):
                s2 = s.copy()
                s2.facts[at] = v
                s2.env[i] = INT(1 if v == pol else 0, 1)
                r.append(s2)
            return r
        if op == "select":
            c, a, b = (self.val(o, s) for o in x["ops"])
            r = []
            for v, s2 in self.truth(c, s):
                s2 = s2.copy()
                s2.env[i] = a if v else b
                r.append(s2)
            return r
        if op in ("sext", "zext"):
            t = self.val(x["ops"][0], s)
            if x["from"] == "i1" and t[0] != "int":
                r = []
                for v, s2 in self.truth(t, s):
                    s2 = s2.copy()
                    s2.env[i] = INT((1 if op == "zext" else -1) if v else 0, wid(ty))
                    r.append(s2)
                return r
            s.env[i] = ext(op, t, wid(ty))
            return None
        if op == "trunc":
            s.env[i] = trunc(self.val(x["ops"][0], s), wid(ty))
            return None
        if op in ("bitcast",):
            s.env[i] = bitcast(self.val(x["ops"][0], s), ty)
            return None
        if op in ("inttoptr", "ptrtoint", "addrspacecast", "freeze"):
            s.env[i] = self.val(x["ops"][0], s)
            return None
        if op in ("fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc"):
            t = self.val(x["ops"][0], s)
            if t[0] == "fp" and op in ("fpext", "fptrunc"):
                s.env[i] = ("fp", t[1], ty)
                return None
            if t[0] == "int" and op == "sitofp":
                s.env[i] = ("fp", float(t[1]), ty)
                return None
            if t[0] == "int" and op == "uitofp" and t[1] >= 0:
                s.env[i] = ("fp", float(t[1]), ty)
                return None
            if op == "fptrunc" and t[0] == "cv" and t[1] == "fpext" and t[3] == ty:
                s.env[i] = t[4]
                return None
            if op == "sitofp" and t[0] == "sext":
                t = t[2]
            if op == "sitofp" and t[0] == "zext":
                op, t = "uitofp", t[2]
            s.env[i] = ("cv", op, ty, typ(t), t)
            return None
        if op == "fneg":
            t = self.val(x["ops"][0], s)
            s.env[i] = ("fp", -t[1], t[2]) if t[0] == "fp" else ("op", "fneg", ty, t)
            return None
        if op == "getelementptr":
            s.env[i] = self.gepval(x["gep"], s)
            return None
        if op == "alloca":
            self.objs += 1
            s.env[i] = ("obj", self.objs)
            return None
        if op == "load":
            s.env[i] = self.load(self.val(x["ops"][0], s), ty, x["sz"], s)
            if ty == "i1":
                pass
            return None
        if op == "store":
            v, a = (self.val(o, s) for o in x["ops"])
            self.store(a, v, x["sz"], s)
            return None
        if op in ("call", "invoke"):
            return self.docall(f, x, s, depth)
        if op in ("extractvalue", "insertvalue", "landingpad"):
            s.env[i] = ("other", op, tuple(self.val(o, s) for o in x["ops"]))
            return None
        if op == "fence":
            return None
        if op in ("atomicrmw", "cmpxchg"):
            s.env[i] = ("other", op)
            return None
        ops = [self.val(o, s) for o in x["ops"]]
        if len(ops) == 2:
            if ty == "i1":
                return self.boolop(op, ops, i, s)
            s.env[i] = binop(op, ty, ops[0], ops[1])
            return None
        s.env[i] = ("other", op, tuple(ops))
        return None

    def boolop(self, op, ops, i, s):
        r = []
        for v, s1 in self.truth(ops[0], s):
            for w, s2 in self.truth(ops[1], s1):
                s2 = s2.copy()
                z = {"and": v and w, "or": v or w, "xor": v != w, "add": v != w, "sub": v != w, "mul": v and w}[op]
                s2.env[i] = INT(1 if z else 0, 1)
                r.append(s2)
        return r

    def load(self, a, ty, sz, s):
        c = s.mem.get(a)
        if c is not None and c[0] == sz:
            return bitcast(c[1], ty)
        if c is None and not s.wild and not self.clobbered(a, s):
            return bitcast(("cell", a, sz), ty)
        s.n += 1
        return bitcast(("cell", ("other", "mem%d" % s.n), sz), ty)

    def clobbered(self, a, s):
        """A store through the same base at an offset that may overlap."""
        for b in s.mem:
            if root(a) == root(b) and a != b:
                oa, ob = (x[2] if x[0] == "gep" else INT(0, 64) for x in (a, b))
                if add(oa, ob, 64, -1)[0] != "int":
                    return True
        return False

    def store(self, a, v, sz, s):
        while v[0] == "bc":
            v = v[2]
        for b in list(s.mem):
            if b != a and root(a) == root(b):
                oa, ob = (x[2] if x[0] == "gep" else INT(0, 64) for x in (a, b))
                d = add(oa, ob, 64, -1)
                if d[0] != "int" or -sz < d[1] < s.mem[b][0]:
                    s.mem[b] = (s.mem[b][0], ("other", "overwritten"))
        s.mem[a] = (sz, v)

    def docall(self, f, x, s, depth):
        i, ty = x["i"], x["t"]
        c = self.val(x["callee"], s)
        args = [self.val(o, s) for o in x["ops"]]
        nm = c[1] if c[0] == "fn" else ""
        if nm.startswith("llvm."):
            base = nm.split(".")[1]
            if base in ("lifetime", "assume", "dbg", "experimental", "donothing", "invariant"):
                return None
            if base in ("expect", "launder", "strip"):
                s.env[i] = args[0]
                return None
            if base in ("memcpy", "memmove") and args[2][0] == "int":
                n = args[2][1]
                self.store(args[0], self.load(args[1], "i%d" % (8 * n), n, s), n, s)
                return None
            if base == "memset" and args[2][0] == "int" and args[1][0] == "int":
                self.store(args[0], INT(0 if args[1][1] == 0 else -1, 8 * args[2][1]) if args[1][1] in (0, -1)
                           else ("other", "memset"), args[2][1], s)
                return None
            s.env[i] = ("call", "llvm." + base + "." + ".".join(nm.split(".")[2:]), tuple(args), ty)
            return None
        g = self.mod.fns.get(nm)
        if g is not None and not g["decl"] and depth < self.depth and nm not in self.opaque and nm not in self.loopy \
                and nm != f["name"]:
            try:
                r = []
                env = s.env
                for kind, ret, s2, line in self.call(g, args, s, depth + 1):
                    if kind != "ret":
                        continue
                    s2.env = dict(env)
                    if ret is not None:
                        s2.env[i] = ret
                    r.append(s2)
                return r
            except Loopy as e:
                self.loopy.add(nm)
        if g is not None and g.get("noret"):
            return []
        s.calls = s.calls + ((nm, tuple(args)),)
        pure = (g is not None and g.get("readnone"))
        n = "" if pure else len([1 for z in s.calls if z[0] == nm and z[1] == tuple(args)])
        s.env[i] = ("call", nm, tuple(args), ty) if n in ("", 1) else ("call", nm, tuple(args), ty, n)
        if not pure:
            for a in args:
                rt = root(a)
                for b in list(s.mem):
                    if root(b) == rt:
                        s.mem[b] = (s.mem[b][0], ("other", "after " + nm))
        return None


def root(a):
    return a[1] if a[0] == "gep" else a
