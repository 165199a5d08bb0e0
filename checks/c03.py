from collections import namedtuple, defaultdict
from vlib import model, lockset, flow
from vlib.lin import Lin, add
from vlib.lockset import strip, CALLS, call_parts, LOCKT

# one "round" adds one string.  app: bytes+offset stored at the current index; slot: id in the table; cnt: counter moved;
# hsh: hash recorded; mh: what is known about materialize_hashes_.  pend: strings collected under the shadow counter that are
# in the table but not stored; stored: they have been stored but not counted.  p,m,u: payload copied / entry built / offset moved.
# cp,co: capacity of payload / offsets ensured since the function was entered.
St = namedtuple("St", "app slot cnt hsh mh pslot pmem pcnt phsh pend stored p m u cp co prev stale")
ZERO = St(False, False, False, False, None, False, False, False, False, False, False, False, False, False, False, False, frozenset(), frozenset())


class Add(flow.Flow):
    def __init__(self, c, p, an, F0):
        self.c, self.an = c, an
        self.F = F0
        rec = p.record("legacy::StringDictionary")
        fld = {f.n: f.u for f in rec.fields}
        need = ("str_count_", "string_id_uint32_table_", "hash_cache_", "offset_map_", "payload_map_", "payload_file_off_", "materialize_hashes_", "base_generation_")
        for x in need:
            if x not in fld:
                raise model.AnalysisBroken("legacy::StringDictionary has no field " + x)
        self.u = {fld[x]: x for x in need}
        self.fld = fld
        self.linit = an._linit
        self.nev = defaultdict(set)
        # shadow counters: locals started from str_count_ and later assigned back to it (or passed by reference as such)
        self.shadow = set()
        self.alias = {}
        assigned = set()
        for F in p.fns.values():
            for n in F.nodes:
                if n.k == "BinaryOperator" and n.op == "=":
                    l, r = strip(n.c[0]), strip(n.c[1])
                    if self.isf(l, "str_count_") and r is not None and r.k == "DeclRefExpr":
                        self.shadow.add(r.d)
                    if l is not None and l.k == "DeclRefExpr":
                        assigned.add(l.d)
                if n.k in ("UnaryOperator", "CompoundAssignOperator") and n.op in ("++", "--", "+=", "-="):
                    l = strip(n.c[0])
                    if l is not None and l.k == "DeclRefExpr":
                        assigned.add(l.d)
        for F in p.fns.values():
            for n in F.nodes:
                if n.k in CALLS and n.fn is not None and n.fn.u in p.fns:
                    g = p.fns[n.fn.u]
                    _, args = call_parts(n)
                    for pr, a in zip(g.params, args):
                        s = strip(a)
                        if s is not None and s.k == "DeclRefExpr" and pr.t.endswith("&"):
                            self.alias[pr] = s.d
        self.assigned = assigned
        self.lin = Lin(p, self.linit, assigned, self.sym)
        # functions that store offsets inside a loop: bulk append
        self.bulk = {}
        self.capP, self.capO = set(), set()
        reallocs = {"payload_map_": set(), "offset_map_": set()}
        calls = defaultdict(set)
        for F in p.fns.values():
            for n in F.nodes:
                if n.k in CALLS and n.fn is not None:
                    calls[F.u].add(n.fn.u)
                    if self.offset_store(F, n) is not None:
                        x = n
                        loop = False
                        while x is not None:
                            if x.k in ("ForStmt", "WhileStmt", "CXXForRangeStmt", "DoStmt"):
                                loop = True
                            x = x.par
                        if loop:
                            self.bulk[F.u] = F
                if n.k == "BinaryOperator" and n.op == "=":
                    for m in reallocs:
                        if self.isf(strip(n.c[0]), m):
                            reallocs[m].add(F.u)
        for m, s in reallocs.items():
            ch = True
            while ch:
                ch = False
                for u, cs in calls.items():
                    F = p.fns.get(u)
                    if u not in s and cs & s:
                        s.add(u)
                        ch = True
        self.realloc = reallocs
        seeds = set()
        for F in p.fns.values():
            if F.cls is None and not F.is_lambda:
                continue
            for n in F.nodes:
                if self.is_event(F, n):
                    seeds.add(F.u)
        super().__init__(p, relevant=None)
        self._rel = flow.relevant_closure(p, seeds)

    def isf(self, n, name):
        return n is not None and n.k == "MemberExpr" and n.d is not None and self.u.get(n.d.u) == name

    def sym(self, s):
        if s.k == "MemberExpr" and s.d is not None and s.d.u in self.u:
            return self.u[s.d.u]
        if s.k == "DeclRefExpr":
            d = self.root(s.d)
            if d in self.shadow:
                return "shadow"
        return None

    def root(self, d):
        seen = set()
        while d in self.alias and d not in seen:
            seen.add(d)
            d = self.alias[d]
        return d

    def offset_store(self, F, n):
        """index node of a store of a string's offset entry: memcpy(offset_map_ + idx, ...) or offset_map_[idx] = ..."""
        if n.k == "CallExpr" and n.fn is not None and n.fn.n in ("memcpy", "memmove") and len(n.c) > 1:
            d = strip(n.c[1])
            if d is not None and d.k == "BinaryOperator" and d.op == "+" and self.has(F, d, "offset_map_"):
                return d
            if d is not None and d.k == "UnaryOperator" and d.op == "&" and self.has(F, d, "offset_map_"):
                return d
        if n.k == "BinaryOperator" and n.op == "=" or n.k == "CXXOperatorCallExpr" and n.op == "=":
            l = strip(n.c[0] if n.k == "BinaryOperator" else n.c[1])
            if l is not None and l.k == "ArraySubscriptExpr" and self.has(F, l.c[0], "offset_map_"):
                return l
        return None

    def has(self, F, n, name):
        return any(self.isf(x, name) for x in F.walk(n))

    def slot_store(self, n):
        """(field name, index node, value node) of `vec_[i] = v` on the id table / hash cache"""
        if n.k == "BinaryOperator" and n.op == "=":
            l = strip(n.c[0])
            if l is not None and l.k == "CXXOperatorCallExpr" and l.op == "[]":
                o = strip(l.c[1])
                for f in ("string_id_uint32_table_", "hash_cache_"):
                    if self.isf(o, f):
                        return f, l.c[2], n.c[1]
            if l is not None and l.k == "CXXMemberCallExpr" and l.fn is not None and l.fn.n == "at":
                o = strip(call_parts(l)[0])
                for f in ("string_id_uint32_table_", "hash_cache_"):
                    if self.isf(o, f):
                        return f, l.c[1], n.c[1]
        return None

    def is_event(self, F, n):
        if self.slot_store(n) or self.offset_store(F, n) or self.replaces_table(n):
            return True
        if n.k in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator") and n.op in ("=", "+=", "-=", "++", "--"):
            l = strip(n.c[0])
            return self.isf(l, "str_count_") or self.isf(l, "payload_file_off_")
        return False

    def replaces_table(self, n):
        """the id table is replaced by another one (swap, assignment)"""
        if n.k == "CXXMemberCallExpr" and n.fn is not None and n.fn.n == "swap":
            obj, args = call_parts(n)
            return self.isf(strip(obj), "string_id_uint32_table_") or bool(args) and self.isf(strip(args[0]), "string_id_uint32_table_")
        if n.k == "CallExpr" and n.fn is not None and n.fn.q == "std::swap":
            return any(self.isf(strip(x), "string_id_uint32_table_") for x in n.c[1:])
        return n.k == "CXXOperatorCallExpr" and n.op == "=" and self.isf(strip(n.c[1]), "string_id_uint32_table_")

    def table_locals(self):
        """locals holding a position in the id table (computed from it)"""
        if not hasattr(self, "_tl"):
            self._tl = {}
            for F in self.p.fns.values():
                for n in F.nodes:
                    if n.k == "DeclStmt":
                        for ds in n.get("ds", []):
                            i = F.node(ds[1]) if ds[1] is not None and ds[1] >= 0 else None
                            if i is not None and self.from_table(F, i):
                                self._tl.setdefault(F.u, set()).add(ds[0])
                    elif n.k == "BinaryOperator" and n.op == "=":
                        l = strip(n.c[0])
                        if l is not None and l.k == "DeclRefExpr" and self.from_table(F, n.c[1]):
                            self._tl.setdefault(F.u, set()).add(l.d)
            self._tlall = set().union(*self._tl.values()) if self._tl else set()
        return self._tlall

    def from_table(self, F, i):
        t = strip(i)
        return t is not None and t.k in CALLS and "vector" not in t.t and any(self.isf(x, "string_id_uint32_table_") for a in call_parts(t)[1] for x in F.walk(a) if a is not None)

    # ------------------------------------------------------------------
    def bad(self, F, n, what, key):
        self.c.report("%s:%s" % (F.q, key), F.loc(n), "%s: %s" % (F.q, what))

    def done(self, st):
        """finish a round if complete"""
        if st.app and st.slot and st.cnt and (st.hsh or st.mh is False):
            st = st._replace(app=False, slot=False, cnt=False, hsh=False, prev=frozenset())
        if st.pslot and st.pmem and st.pcnt and (st.phsh or st.mh is False):
            st = st._replace(pslot=False, pmem=False, pcnt=False, phsh=False, pend=True)
        return st

    def event(self, F, n, st):
        if n.k in CALLS and n.fn is not None:
            if n.fn.u in self.realloc["payload_map_"]:
                st = st._replace(cp=True)
            if n.fn.u in self.realloc["offset_map_"]:
                st = st._replace(co=True)
        if self.replaces_table(n):
            self.nev["table replacements"].add((F.u, n.i))
            if st.slot or st.pslot:
                self.bad(F, n, "the id table is rebuilt while it holds the id of a string that is not counted yet, which loses that id", "rebuild-half")
            st = st._replace(stale=frozenset(self.table_locals()))
        if n.k == "DeclStmt" and st.stale:
            st = st._replace(stale=st.stale - {ds[0] for ds in n.get("ds", [])})
        if n.k == "BinaryOperator" and n.op == "=" and st.stale:
            l = strip(n.c[0])
            if l is not None and l.k == "DeclRefExpr":
                st = st._replace(stale=st.stale - {l.d})
        ss = self.slot_store(n)
        if ss and ss[0] == "string_id_uint32_table_" and st.stale:
            i = strip(ss[1])
            if i is not None and i.k == "DeclRefExpr" and i.d in st.stale:
                self.bad(F, n, "the id is put in a position found before the id table was rebuilt", "stale-slot")
        if ss and ss[0] == "string_id_uint32_table_":
            f, idx, val = ss
            v = self.lin.of(val)
            self.nev["table stores"].add((F.u, n.i))
            if v is not None and set(v) <= {1} and v.get(1, 0) < 0:
                return (st._replace(slot=False, pslot=False),)
            has = lambda s: v is not None and v.get(s) == 1
            inc = any(x.k == "UnaryOperator" and x.op == "++" and x.get("post") for x in F.walk(val))
            pv = strip(val)
            if v is not None and has("shadow"):
                if st.pslot:
                    self.bad(F, n, "a second id is published before the previous one is complete", "slot-twice")
                if v != {"shadow": 1, "base_generation_": 1}:
                    if not (st.pcnt and v == {"shadow": 1, "base_generation_": 1, 1: -1}):
                        self.bad(F, n, "the id put in the table is not the id of the string being added", "slot-value")
                elif st.pcnt and not inc:
                    self.bad(F, n, "the id put in the table is computed after the counter moved", "slot-value")
                st = st._replace(pslot=True)
            elif v is not None and has("str_count_"):
                if st.slot:
                    self.bad(F, n, "a second id is published before the previous one is complete", "slot-twice")
                late = st.cnt and not inc and not (pv is not None and pv.k == "DeclRefExpr" and pv.d not in st.prev)
                if pv is not None and pv.k == "DeclRefExpr":
                    late = pv.d in st.prev
                if v == {"str_count_": 1, "base_generation_": 1} and not late:
                    pass
                elif v == {"str_count_": 1, "base_generation_": 1, 1: -1} and st.cnt:
                    pass
                else:
                    self.bad(F, n, "the id put in the table is not the id of the string being added", "slot-value")
                if st.hsh and False:
                    pass
                st = st._replace(slot=True)
            else:
                # id of unknown origin: counts as the slot of this round
                st = st._replace(slot=True) if not (st.pcnt or st.pmem) else st._replace(pslot=True)
        elif ss and ss[0] == "hash_cache_":
            v = self.lin.of(ss[1])
            self.nev["hash stores"].add((F.u, n.i))
            if v is not None and v.get("shadow") == 1:
                if v == {"shadow": 1} and not st.pcnt or v == {"shadow": 1, 1: -1} and st.pcnt:
                    pass
                else:
                    self.bad(F, n, "the hash is recorded at another string's index", "hash-index")
                st = st._replace(phsh=True)
            elif v is not None and v.get("str_count_") == 1:
                if v == {"str_count_": 1} and not st.cnt or v == {"str_count_": 1, 1: -1} and st.cnt:
                    pass
                else:
                    self.bad(F, n, "the hash is recorded at another string's index", "hash-index")
                st = st._replace(hsh=True)
            else:
                st = st._replace(hsh=True, phsh=True)
        d = self.offset_store(F, n)
        if d is not None and F.u not in self.bulk:
            self.nev["offset stores"].add((F.u, n.i))
            if st.cnt and not self.minus_one(F, d):
                self.bad(F, n, "the string is stored at the index after its own (the counter already moved)", "append-index")
            if st.app:
                self.bad(F, n, "a second string is stored before the previous one is complete", "append-twice")
            if not st.co:
                self.bad(F, n, "the offset table may be too small: its capacity is not ensured before the store", "offset-cap")
            if not (st.u or (st.p and st.m)):
                self.bad(F, n, "an offset entry is stored without its bytes", "no-bytes")
            st = st._replace(app=True, u=False)
        elif d is not None:
            self.nev["offset stores"].add((F.u, n.i))
            if not st.co:
                self.bad(F, n, "the offset table may be too small: its capacity is not ensured before the store", "offset-cap")
            if not (st.u or (st.p and st.m)):
                self.bad(F, n, "an offset entry is stored without its bytes", "no-bytes")
            st = st._replace(u=False)
        # payload copy
        if n.k == "CallExpr" and n.fn is not None and n.fn.n in ("memcpy", "memmove") and len(n.c) > 1 and self.has(F, n.c[1], "payload_map_"):
            self.nev["payload copies"].add((F.u, n.i))
            if st.p:
                self.bad(F, n, "bytes are copied twice to the same place", "payload-twice")
            if not st.cp:
                self.bad(F, n, "the payload buffer may be too small: its capacity is not ensured before the copy", "payload-cap")
            st = st._replace(p=True)
        if n.k in ("InitListExpr",) and "StringIdxEntry" in n.t and self.has(F, n, "payload_file_off_"):
            st = st._replace(m=True)
        if n.k == "DeclStmt":
            for ds in n.get("ds", []):
                i = F.node(ds[1]) if ds[1] is not None and ds[1] >= 0 else None
                if i is not None and "StringIdxEntry" in ds[0].t and self.has(F, i, "payload_file_off_"):
                    st = st._replace(m=True)
                if i is not None:
                    v = self.lin.of(i)
                    post = any(x.k == "UnaryOperator" and x.op == "++" and x.get("post") and self.isf(strip(x.c[0]), "str_count_") for x in F.walk(i))
                    if v is not None and "str_count_" in v and st.cnt and not post:
                        st = st._replace(prev=st.prev | {ds[0]})
        if n.k in ("CompoundAssignOperator", "BinaryOperator", "UnaryOperator") and n.op in ("+=", "=", "-=", "++", "--"):
            l = strip(n.c[0])
            if self.isf(l, "payload_file_off_") and F.decl.k != "CXXConstructor":
                self.nev["payload offset moves"].add((F.u, n.i))
                if st.p and not st.m:
                    self.bad(F, n, "the payload offset moves before the string's entry is built from it", "offset-early")
                if not st.p:
                    self.bad(F, n, "the payload offset moves before the string's bytes are copied", "offset-early")
                st = st._replace(p=False, m=False, u=True)
            elif self.isf(l, "str_count_") and F.decl.k != "CXXConstructor":
                self.nev["count changes"].add((F.u, n.i))
                if n.op == "++" or n.op == "+=" and str(getattr(strip(n.c[1]), "cv", None) or getattr(strip(n.c[1]), "v", None)) == "1":
                    if st.cnt:
                        self.bad(F, n, "the counter moves twice for one string", "count-twice")
                    st = st._replace(cnt=True)
                elif n.op == "=" and self.sym(strip(n.c[1])) == "shadow":
                    if st.pslot or st.pmem or st.pcnt:
                        self.bad(F, n, "strings are counted while one is half added", "count-half")
                    if st.pend and not st.stored:
                        self.bad(F, n, "strings are counted before their bytes are stored", "count-unstored")
                    st = st._replace(pend=False, stored=False)
                elif n.op in ("--", "-="):
                    self.bad(F, n, "the string counter moves backwards", "count-back")
            elif l is not None and l.k == "DeclRefExpr" and self.root(l.d) in self.shadow and n.op in ("++", "+="):
                if st.pcnt:
                    self.bad(F, n, "the counter moves twice for one string", "count-twice")
                st = st._replace(pcnt=True)
        if n.k == "CXXMemberCallExpr" and n.fn is not None and n.fn.n in ("push_back", "emplace_back"):
            o = strip(call_parts(n)[0])
            if o is not None and o.k == "DeclRefExpr" and self.root(o.d) in self.memids():
                st = st._replace(pmem=True)
        if n.k == "CXXMemberCallExpr" and n.fn is not None and n.fn.n == "unlock":
            self.at_release(F, n, st, "the lock is released")
        return (self.done(st),)

    def minus_one(self, F, d):
        return any(x.k == "IntegerLiteral" and str(x.v) == "1" for x in F.walk(d))

    def memids(self):
        if not hasattr(self, "_mem"):
            self._mem = set()
            for F in self.p.fns.values():
                for n in F.nodes:
                    if n.k in CALLS and n.fn is not None and n.fn.u in self.bulk:
                        for a in call_parts(n)[1]:
                            s = strip(a)
                            if s is not None and s.k == "DeclRefExpr" and "vector<unsigned long>" in s.d.t:
                                self._mem.add(self.root(s.d))
        return self._mem

    def at_call(self, F, n, g, st):
        return st._replace(cp=False, co=False)

    def after_call(self, F, n, g, st0, st):
        if g.u in self.bulk:
            if st0.pslot or st0.pmem or st0.pcnt:
                self.bad(F, n, "strings are stored while one is half added", "store-half")
            if st0.stored:
                self.bad(F, n, "the same strings are stored twice", "store-twice")
            st = st._replace(stored=True)
        return st._replace(cp=st0.cp or g.u in self.realloc["payload_map_"], co=st0.co or g.u in self.realloc["offset_map_"])

    def branch(self, F, B, cond, taken, st):
        c = strip(cond)
        neg = False
        while c is not None and c.k == "UnaryOperator" and c.op == "!":
            neg = not neg
            c = strip(c.c[0])
        if self.isf(c, "materialize_hashes_"):
            val = taken != neg
            if st.mh is not None and st.mh != val:
                return None
            return self.done(st._replace(mh=val))
        return st

    def at_release(self, F, n, st, what):
        if st.pend or st.stored:
            if st.pend:
                self.bad(F, n, "%s while ids of strings that are not %s are in the table" % (what, "counted" if st.stored else "stored"), "pending")
        miss = []
        if st.app or st.slot or st.cnt:
            if not st.app:
                miss.append("its bytes are not stored")
            if not st.slot:
                miss.append("its id is not in the table")
            if not st.cnt:
                miss.append("it is not counted")
            if st.app and st.slot and st.cnt:
                miss.append("its hash is not recorded")
        if st.pslot or st.pmem or st.pcnt:
            if not st.pslot:
                miss.append("its id is not in the table")
            if not st.pmem:
                miss.append("its bytes will not be stored")
            if not st.pcnt:
                miss.append("it is not counted")
            if st.pslot and st.pmem and st.pcnt:
                miss.append("its hash is not recorded")
        if miss:
            self.bad(F, n, "%s with a string half added: %s" % (what, ", ".join(miss)), "half:" + ",".join(miss))

    def dtor(self, F, var, st):
        if var is not None and LOCKT.match(var.t.strip()):
            self.at_release(F, None, st, "the lock is released")
        return (st,)


def rehash_loops(c, p, A):
    """functions that build a replacement table and swap it in: every index gets its id"""
    for F in p.fns.values():
        if not F.blocks:
            continue
        new = set()
        for n in F.walk():
            if n.k == "CXXMemberCallExpr" and n.fn is not None and n.fn.n == "swap":
                obj, args = call_parts(n)
                a, b = strip(obj), strip(args[0]) if args else None
                for x, y in ((a, b), (b, a)):
                    if A.isf(x, "string_id_uint32_table_") and y is not None and y.k == "DeclRefExpr":
                        new.add(y.d)
            if n.k == "CXXOperatorCallExpr" and n.op == "=" and A.isf(strip(n.c[1]), "string_id_uint32_table_"):
                for x in F.walk(n.c[2]):
                    if x.k == "DeclRefExpr" and x.d is not None and "vector<int" in x.d.t:
                        new.add(x.d)
        if not new:
            continue
        c.count("rehash functions")
        stores = 0
        for n in F.walk():
            if n.k != "ForStmt":
                continue
            body_store = None
            for x in F.walk(n):
                if x.k == "BinaryOperator" and x.op == "=":
                    l = strip(x.c[0])
                    if l is not None and l.k == "CXXOperatorCallExpr" and l.op == "[]" and strip(l.c[1]) is not None \
                            and strip(l.c[1]).k == "DeclRefExpr" and strip(l.c[1]).d in new:
                        body_store = x
            if body_store is None:
                continue
            stores += 1
            init, cond = n.get("init"), n.get("cond")
            if init is None or cond is None or init.k != "DeclStmt":
                continue
            iv = init.get("ds")[0][0]
            i0 = A.lin.of(F.node(init.get("ds")[0][1]))
            v = A.lin.of(body_store.c[1])
            if v is not None and iv not in v and any(isinstance(x, model.Decl) for x in v) and not any(x in A.assigned for x in v if isinstance(x, model.Decl)):
                c.report("%s:rehash-id" % F.q, F.loc(body_store), "%s: a rebuilt table entry is not the id of its string" % F.q)
            if v is not None and iv in v:
                ok = v.get(iv) == 1 and v.get("base_generation_") == 1 and v.get(1, 0) == 0
                if not ok:
                    c.report("%s:rehash-id" % F.q, F.loc(body_store), "%s: a rebuilt table entry is not the id of its string" % F.q)
            cc = strip(cond)
            if cc is None or cc.k != "BinaryOperator":
                continue
            left, bound, op = A.lin.of(cc.c[0]), A.lin.of(cc.c[1]), cc.op
            if bound is not None and iv in bound:
                left, bound, op = bound, left, {">": "<", ">=": "<="}.get(op, op)
            if left is None or bound is None or left.get(iv) != 1:
                continue
            off = bound.get(1, 0) - left.get(1, 0)
            c.count("rehash loops")
            if i0 not in ({}, {1: 0}):
                c.report("%s:rehash-start" % F.q, F.loc(n), "%s: rebuilding the id table skips the first strings" % F.q)
            if op in ("<", "!=") and off != 0 or op == "<=" and off != -1:
                c.report("%s:rehash-end" % F.q, F.loc(n), "%s: rebuilding the id table does not stop at the last string" % F.q)
        if not stores:
            c.report("%s:rehash-none" % F.q, F.loc(), "%s: the id table is replaced by one that is never filled" % F.q)


def run(c):
    c.rule = ("path-sensitive typestate over every function that adds strings: between two lock releases (also on throwing paths) each "
              "table slot written is matched by exactly one store of the string's bytes and offset at the counter's value and one step of "
              "the counter (per string, or for a batch under a shadow counter), hash and id use the string's own index, buffers are "
              "grown before they are written; rebuilding the table covers all indices")
    p = model.load(["StringDictionary/StringDictionary.cpp"])
    an = lockset.LockAnalysis(p, {})
    A = Add(c, p, an, None)
    roots = [F for F in p.fns.values() if F.u in A._rel and F.blocks and not F.is_lambda and F.decl.k not in ("CXXConstructor", "CXXDestructor")
             and F.decl.get("acc") in (0, 3)]
    for F in roots:
        for kind, st, nid in A.run(F, ZERO):
            A.at_release(F, F.nodes[nid] if nid >= 0 else None, st, "the call " + ("fails" if kind == "throw" else "returns"))
    c.count("entry points", len(roots))
    for k, v in A.nev.items():
        c.count(k, len(v))
    rehash_loops(c, p, A)
    for k in ("table stores", "offset stores", "payload copies", "count changes", "rehash functions"):
        c.need(k)
