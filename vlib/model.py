"""Runs the extractor over /repo's current sources and loads the resolved program."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ODB = REPO + "/omniscidb/"
BUILD = VERIF + "/build"
EXTRACT = BUILD + "/extract"
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis could not run (vanished anchor, source does not parse ...): never a verdict."""


def build_extractor():
    src = VERIF + "/extractor/extract.cpp"
    if os.path.exists(EXTRACT) and os.path.getmtime(EXTRACT) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = EXTRACT + ".tmp%d" % os.getpid()
    r = subprocess.run(["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", src, "-o", tmp,
                        LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so"],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("extractor does not build:\n" + r.stderr[-4000:])
    os.replace(tmp, EXTRACT)


def flags(extra=()):
    f = ["clang++", "-resource-dir", LLVM + "/lib/clang/18", "-std=gnu++17", "-I/opt/vp/cmake/without-arrow",
         "-I" + REPO + "/_build", "-I/usr/lib/llvm-16/include", "-I" + REPO + "/omniscidb",
         "-I" + REPO + "/omniscidb/ThirdParty/rapidjson", "-I" + REPO + "/omniscidb/ThirdParty/googletest",
         "-I" + REPO + "/_build/omniscidb/QueryEngine", "-I" + REPO + "/src", "-I" + VERIF + "/extractor/stubs",
         "-DNDEBUG", "-DENABLE_SHARED_LIBS", "-DHAVE_ARMADILLO", "-DRAPIDJSON_HAS_STDSTRING",
         "-DRAPIDJSON_NOMEMBERITERATORCLASS", "-DTBB_PREVIEW_TASK_GROUP_EXTENSIONS=1", "-D_GNU_SOURCE",
         "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-DBOOST_LOG_DYN_LINK",
         "-w", "-fsyntax-only"]
    return f + list(extra)


class Decl:
    __slots__ = ("k", "q", "n", "u", "f", "l", "t", "p", "a", "params", "ov")

    def __repr__(self):
        return "<%s %s>" % (self.k, self.q or self.n)

    def get(self, key, default=None):
        return self.a.get(key, default)


GLOBALK = {"Function", "CXXMethod", "CXXConstructor", "CXXDestructor", "CXXConversion", "CXXRecord",
           "ClassTemplateSpecialization", "Field", "EnumConstant", "Enum", "Record"}


class Node:
    __slots__ = ("i", "k", "l", "t", "c", "a", "d", "fn", "op", "v", "cv", "lv", "par", "F")

    def get(self, key, default=None):
        return self.a.get(key, default)

    def __repr__(self):
        return "<%s@%s %s>" % (self.k, self.l, self.d or self.fn or self.op or self.v or "")


class Fn:
    def __repr__(self):
        return "<Fn %s>" % self.q

    def node(self, i):
        return self.nodes[i] if i is not None and i >= 0 else None

    def walk(self, n=None):
        """All nodes under n (default the body + constructor initialisers), pre-order."""
        if n is None:
            st = [self.root] + [self.nodes[x["n"]] for x in self.ctorinits if x["n"] >= 0]
        else:
            st = [n]
        seen = set()
        st.reverse()
        while st:
            x = st.pop()
            if x is None or x.i in seen:
                continue
            seen.add(x.i)
            yield x
            for c in reversed(x.c):
                st.append(c)

    def loc(self, n=None):
        f = self.f.replace(REPO + "/", "")
        return "%s:%d" % (f, n.l if n is not None and n.l else self.l)


class Record:
    def __repr__(self):
        return "<Record %s>" % self.q


class Program:
    def __init__(self):
        self.decls = {}      # usr -> Decl
        self.fns = {}        # usr -> Fn
        self.records = {}    # qualified type string -> Record
        self.rec_by_u = {}
        self.enums = {}      # q -> [(name, value)]
        self.enum_loc = {}
        self.globals = {}    # usr -> (Decl, Fn-like)
        self.tus = []

    # ---- loading -------------------------------------------------------
    def add_tu(self, data, tu):
        types = data["types"]
        raw = data["decls"]
        dl = []
        for r in raw:
            u = r["u"]
            glob = r["k"] in GLOBALK or r.get("gs")
            d = self.decls.get(u) if glob and u else None
            if d is None:
                d = Decl()
                d.k = r["k"]; d.q = r.get("q", ""); d.n = r.get("n", ""); d.u = u
                d.f = r.get("f", ""); d.l = r.get("l", 0)
                d.t = types[r["t"]] if "t" in r else ""
                d.a = r
                d.p = None; d.params = []; d.ov = []
                if glob and u:
                    self.decls[u] = d
            dl.append(d)
        for r, d in zip(raw, dl):
            if "p" in r and d.p is None:
                d.p = dl[r["p"]] if r["p"] >= 0 else None
            if "ret" in r and isinstance(r["ret"], int):
                d.a = dict(d.a); d.a["ret"] = types[r["ret"]]
                r["ret"] = None
            if "params" in r and not d.params:
                d.params = [dl[x] for x in r["params"]]
            if "ov" in r and not d.ov:
                d.ov = [dl[x] for x in r["ov"]]
        for fj in data["functions"]:
            if fj["u"] in self.fns:
                continue
            f = Fn()
            f.u = fj["u"]; f.q = fj["q"]; f.f = fj["f"]; f.l = fj["l"]; f.tu = tu
            f.decl = dl[fj["d"]]
            f.t = types[fj["ft"]]
            f.impl = fj.get("impl", False) or fj.get("dflt", False)
            f.targs = fj.get("targs", [])
            f.params = [dl[x] for x in fj["params"]]
            f.cls = dl[fj["cls"]] if "cls" in fj else None
            f.is_lambda = fj.get("lambda", False)
            f.nodes = self._nodes(fj["nodes"], dl, types, f)
            f.root = f.nodes[fj["root"]] if fj["root"] >= 0 else None
            f.ctorinits = []
            for ci in fj.get("ctorinits", []):
                ci = dict(ci)
                for key in ("field", "base"):
                    if key in ci:
                        ci[key] = dl[ci[key]]
                f.ctorinits.append(ci)
            for ci in f.ctorinits:
                pass
            self._cfg(f, fj.get("cfg"), dl)
            self.fns[f.u] = f
        for rj in data["records"]:
            if rj["u"] in self.rec_by_u:
                continue
            r = Record()
            r.q = rj["q"]; r.t = types[rj["t"]]; r.u = rj["u"]; r.f = rj["f"]; r.l = rj["l"]
            r.decl = dl[rj["d"]]
            r.bases = [dl[x] for x in rj["bases"]]
            r.fields = [dl[x] for x in rj["fields"]]
            r.methods = [dl[x] for x in rj["methods"]]
            r.abs = rj.get("abs", False); r.union = rj.get("union", False)
            r.inits = {dl[x].u for x in rj["inits"]}
            self.records[r.t] = r
            self.rec_by_u[r.u] = r
        for ej in data["enums"]:
            if ej["q"] not in self.enums:
                self.enums[ej["q"]] = [tuple(x) for x in ej["c"]]
                self.enum_loc[ej["q"]] = (ej["f"], ej["l"])
        for gj in data["globals"]:
            d = dl[gj["d"]]
            if d.u in self.globals or "nodes" not in gj:
                continue
            g = Fn()
            g.u = d.u; g.q = d.q; g.f = d.f; g.l = d.l; g.decl = d; g.params = []; g.ctorinits = []
            g.nodes = self._nodes(gj["nodes"], dl, types, g)
            g.root = g.nodes[gj["root"]]
            self.globals[d.u] = g

    def _nodes(self, raw, dl, types, F):
        out = []
        for i, r in enumerate(raw):
            n = Node()
            n.i = i; n.k = r["k"]; n.l = r.get("l", 0)
            n.t = types[r["t"]] if "t" in r else ""
            n.c = r.get("c", ())
            n.a = r
            n.d = dl[r["d"]] if r.get("d", -1) >= 0 else None
            n.fn = dl[r["fn"]] if r.get("fn", -1) >= 0 else None
            n.op = r.get("op"); n.v = r.get("v"); n.cv = r.get("cv"); n.lv = r.get("lv", False)
            n.par = None; n.F = F
            if "ds" in r:
                r["ds"] = [[dl[x[0]]] + x[1:2] + [dl[y] for y in x[2:]] for x in r["ds"]]
            if "caps" in r:
                r["caps"] = [[dl[x[0]] if isinstance(x[0], int) and x[0] >= 0 else x[0], x[1]] for x in r["caps"]]
            if "fns" in r:
                r["fns"] = [dl[x] for x in r["fns"]]
            if "lvar" in r:
                r["lvar"] = dl[r["lvar"]]
            if "ct" in r:
                r["ct"] = types[r["ct"]]
            out.append(n)
        for n in out:
            n.c = [out[x] if x >= 0 else None for x in n.c]
        for n in out:
            for ch in n.c:
                if ch is not None and ch.par is None:
                    ch.par = n
            a = n.a
            for key in ("cond", "then", "else", "body", "range", "init", "inc"):
                if key in a and isinstance(a[key], int):
                    a[key] = out[a[key]] if a[key] >= 0 else None
        return out

    def _cfg(self, f, c, dl):
        f.blocks = {}
        f.entry = f.exit = None
        if not c:
            return
        f.entry = c["entry"]; f.exit = c["exit"]
        for b in c["blocks"]:
            B = Block()
            B.id = b["id"]
            B.elems = []
            for e in b["e"]:
                if e[0] in ("s", "i"):
                    B.elems.append((e[0], f.nodes[e[1]], dl[e[2]] if len(e) > 2 and e[2] >= 0 else None))
                elif e[0] in ("t", "x"):
                    B.elems.append((e[0], f.nodes[e[1]] if e[1] >= 0 else None, dl[e[2]] if e[2] >= 0 else None))
                else:  # d, md, bd: var decl, dtor
                    B.elems.append((e[0], dl[e[1]] if e[1] >= 0 else None, dl[e[2]] if e[2] >= 0 else None))
            B.term = f.nodes[b["term"]] if "term" in b else None
            B.tk = b.get("tk")
            B.cond = f.nodes[b["cond"]] if "cond" in b else None
            B.label = f.nodes[b["label"]] if "label" in b else None
            B.nr = b.get("nr", False)
            B.succs = b["s"]
            f.blocks[B.id] = B

    # ---- queries ---------------------------------------------------------
    def finish(self):
        self.by_q = {}
        for f in self.fns.values():
            self.by_q.setdefault(f.q, []).append(f)
        # overriders: method usr -> set of overriding Fn decls (transitive)
        self.overriders = {}
        for d in self.decls.values():
            if d.ov:
                st = list(d.ov)
                seen = set()
                while st:
                    o = st.pop()
                    if o.u in seen:
                        continue
                    seen.add(o.u)
                    self.overriders.setdefault(o.u, set()).add(d.u)
                    st.extend(o.ov)
        self.derived = {}
        for r in self.rec_by_u.values():
            for b in r.bases:
                self.derived.setdefault(b.u, set()).add(r.u)

    def fn(self, q, required=True):
        """The functions with qualified name q."""
        r = self.by_q.get(q, [])
        if not r and required:
            raise AnalysisBroken("no definition of %s found in the analysed sources" % q)
        return r

    def record(self, q):
        for r in self.rec_by_u.values():
            if r.q == q:
                return r
        raise AnalysisBroken("no definition of class %s found" % q)

    def subclasses(self, u, out=None):
        out = set() if out is None else out
        for d in self.derived.get(u, ()):
            if d not in out:
                out.add(d)
                self.subclasses(d, out)
        return out

    def all_fields(self, rec):
        """Fields including inherited ones (base first)."""
        out = []
        for b in rec.bases:
            br = self.rec_by_u.get(b.u)
            if br:
                out += self.all_fields(br)
        return out + rec.fields


class Block:
    __slots__ = ("id", "elems", "term", "tk", "cond", "label", "nr", "succs")


def run_extract(src, out, roots, extra):
    r = subprocess.run([EXTRACT, src, out, roots, "--"] + flags(extra), capture_output=True, text=True)
    return r.returncode, r.stderr


def load(sources, extra=(), roots=None, quiet=False):
    """sources: paths relative to /repo/omniscidb (or absolute)."""
    build_extractor()
    roots = roots or ODB
    tmp = tempfile.mkdtemp(prefix="vx", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        jobs = []
        for i, s in enumerate(sources):
            p = s if s.startswith("/") else ODB + s
            if not os.path.exists(p):
                raise AnalysisBroken("source file %s is gone" % p)
            jobs.append((p, "%s/%d.json" % (tmp, i)))
        jobs_sorted = jobs
        prog = Program()
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(lambda j: run_extract(j[0], j[1], roots, extra), jobs_sorted))
        for (p, o), (rc, err) in zip(jobs, res):
            if rc or not os.path.exists(o):
                raise AnalysisBroken("cannot parse %s:\n%s" % (p, err[-3000:]))
            with open(o) as fh:
                data = json.load(fh)
            if data.get("errors"):
                raise AnalysisBroken("errors parsing %s:\n%s" % (p, err[-3000:]))
            prog.add_tu(data, p)
            prog.tus.append(p)
        prog.finish()
        return prog
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
