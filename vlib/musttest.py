"""Must-test dataflow: a value of interest (possibly null, possibly an error code) is followed until it is tested; uses before a test are reported."""

import re
from vlib.pta import PTA
from vlib.facts import Facts, strip, tup, cval

NULLABLE = {"malloc", "calloc", "realloc", "aligned_alloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_tRKSt9nothrow_t", "memalign", "valloc", "strdup", "mmap",
            "ZSTD_createCCtx", "ZSTD_createDCtx", "ZSTD_createCDict", "ZSTD_createDDict", "ZSTD_createCStream", "ZSTD_createDStream", "_mm_malloc", "fopen", "tmpfile"}
# external functions that accept a null argument
NULLOK = re.compile(r"^(free|_ZdlPv|_ZdaPv|ZSTD_free\w+|realloc|llvm\.(lifetime|dbg|assume|expect|launder|strip|objectsize|prefetch|invariant).*)$|^_ZdlPvm|^_ZdlPvSt")
CASTS = ("bitcast", "freeze", "addrspacecast", "inttoptr", "ptrtoint", "getelementptr", "add")



class Null:
    nullable = NULLABLE
    def __init__(self, m, need, pta=None):
        self.m = m
        self.pta = pta
        self.mn = {}            # node -> source description   node: (fn, ("i",id)) / (fn,("a",k)) / ("ret",fn) / ("cell",obj,off)
        self.facts = {}
        self.sources = []
        self.tests = 0
        self.uses = []
        self.callers = {}
        for f in m.defined():
            for i in f.ins():
                if i.is_call:
                    for c in (pta.callees.get((f.name, i.id), ()) if pta else ([i.callee] if i.callee else [])):
                        self.callers.setdefault(c, []).append((f, i))
        self.vt_users = {}

    def F(self, f):
        if f.name not in self.facts:
            self.facts[f.name] = Facts(f)
        return self.facts[f.name]

    # structural key of a value: loads of the same address expression share a key
    def key(self, f, o, depth=0):
        o = strip(f, o)
        if o[0] != "i" or depth > 10:
            return tup(o)
        i = f.instrs[o[1]]
        if i.op == "load":
            return ("ld", self.akey(f, i.o[0], depth + 1))
        return tup(o)

    def akey(self, f, o, depth=0):
        o = strip(f, o)
        if o[0] != "i" or depth > 10:
            return tup(o)
        i = f.instrs[o[1]]
        if i.op == "getelementptr":
            vo = i.d.get("voff")
            return ("gep", self.akey(f, i.o[0], depth + 1), i.off if i.off is not None else (i.d.get("coff"), tuple((self.key(f, v, depth + 1), k) for v, k in vo or ())))
        if i.op == "load":
            return ("ld", self.akey(f, i.o[0], depth + 1))
        return tup(o)

    def root(self, f, o):
        """strip constant-offset arithmetic: the value a null test would be made on"""
        out = [o]
        while o[0] == "i":
            i = f.instrs[o[1]]
            if i.op in CASTS and i.o and i.o[0][0] in ("i", "a"):
                o = i.o[0]
                out.append(o)
            elif i.is_call and i.callee and i.callee.startswith(("llvm.expect", "llvm.launder", "llvm.strip")):
                o = i.o[0]
                out.append(o)
            else:
                break
        return out

    def nonnull_atoms(self, f, facts):
        r = set()
        for (p, a, b) in facts:
            if b is None:
                continue
            if p == "ne" and b is not None and (cval(b) == 0):
                r.add(a)
            elif p == "ne" and a is not None and cval(a) == 0:
                r.add(b)
        return r

    def guarded(self, f, o, ins=None, edge=None):
        """value o is known non-null at instruction ins or on edge (b,s)"""
        F = self.F(f)
        facts = F.edge(*edge) if edge else F.at(ins)
        if facts is None:
            return True
        nn = self.nonnull_atoms(f, facts)
        if not nn:
            return False
        vals = {tup(x) for x in self.root(f, o)}
        for v in vals:
            if v in nn:
                return True
        keys = {self.key(f, list(v)) for v in vals if v[0] == "i" and f.instrs[v[1]].op == "load"}
        for a in nn:
            if a[0] == "i" and f.instrs[a[1]].op == "load":
                if self.key(f, list(a)) in keys:
                    return True
            # a stored value tested: store a -> address, then load of the address
        for v in vals:
            if v[0] == "i" and f.instrs[v[1]].op == "load":
                ak = self.akey(f, f.instrs[v[1]].o[0])
                for j in f.ins():
                    if j.op == "store" and tup(strip(f, j.o[0])) in nn and self.akey(f, j.o[1]) == ak and f.dominates(j, f.instrs[v[1]]):
                        return True
        return False

    def mark(self, node, why):
        if node not in self.mn:
            self.mn[node] = why
            return True
        return False

    def is_mn(self, f, o):
        if o[0] in ("i", "a"):
            return self.mn.get((f.name, tup(o)))
        return None

    def solve(self, report):
        m = self.m
        ch = True
        rounds = 0
        while ch and rounds < 30:
            ch = False
            rounds += 1
            for f in m.defined():
                if self._fn(f, report):
                    ch = True
        return rounds

    def _fn(self, f, report):
        ch = False
        N = lambda i: (f.name, ("i", i.id))
        for i in f.ins():
            why = None
            if i.is_call:
                c = i.callee
                if c in self.nullable:
                    if self.mark(N(i), "%s at %s in %s" % (c, i.loc(), i.scope())):
                        ch = True
                        self.sources.append((f, i))
                for t in (self.pta.callees.get((f.name, i.id), ()) if self.pta else [c]):
                    g = m_get(self.m, t)
                    if g is not None:
                        w = self.mn.get(("ret", g.name))
                        if w and self.mark(N(i), w):
                            ch = True
                        for k, o in enumerate(i.o):
                            w = self.is_mn(f, o)
                            if w and k < len(g.args) and (g.name, ("a", k)) not in self.mn and not self.guarded_all(f, o, i):
                                ch |= self.mark((g.name, ("a", k)), w)
                if c and c.startswith(("llvm.expect", "llvm.launder", "llvm.strip")):
                    w = self.is_mn(f, i.o[0])
                    if w:
                        ch |= self.mark(N(i), w)
            elif i.op in CASTS or i.op == "select":
                ops = i.o[1:3] if i.op == "select" else i.o[:1]
                for o in ops:
                    w = self.is_mn(f, o)
                    if w and N(i) not in self.mn and not self.guarded_all(f, o, i):
                        ch |= self.mark(N(i), w)
            elif i.op == "phi":
                if N(i) in self.mn:
                    continue
                for o, bi in zip(i.o, i.d["inb"]):
                    w = self.is_mn(f, o)
                    if w and not self.guarded_all(f, o, edge=(f.blocks[bi], i.bb)):
                        ch |= self.mark(N(i), w)
            elif i.op == "load":
                if N(i) in self.mn or i.t != "ptr":
                    continue
                for (ob, off) in (self.pta.vals(f, i.o[0]) if self.pta else ()):
                    w = self.cell(ob, off)
                    if w:
                        ch |= self.mark(N(i), w)
                        break
            elif i.op == "store":
                w = self.is_mn(f, i.o[0])
                if w and self.pta and not self.guarded_all(f, i.o[0], i):
                    for (ob, off) in self.pta.vals(f, i.o[1]):
                        ch |= self.mark(("cell", ob, off), w + ", stored at " + i.loc())
            elif i.op == "ret":
                if i.o:
                    w = self.is_mn(f, i.o[0])
                    if w and ("ret", f.name) not in self.mn and not self.guarded_all(f, i.o[0], i):
                        ch |= self.mark(("ret", f.name), w)
        return ch

    def cell(self, ob, off):
        from vlib.pta import compat
        for n, w in self.mn.items():
            if n[0] == "cell" and n[1] == ob and compat(n[2], off):
                return w
        return None

    def guarded_all(self, f, o, ins=None, edge=None):
        if self.guarded(f, o, ins, edge):
            return True
        at = ins if ins is not None else edge[0].term
        # loads: validated earlier by a loop that leaves when any of the cells is null
        for v in self.root(f, o):
            if v[0] == "i" and f.instrs[v[1]].op == "load":
                j = f.instrs[v[1]]
                cells = {c for c in self.pta.vals(f, j.o[0])} if self.pta else set()
                if cells and self.validated(f, cells, at):
                    return True
        return False

    def validated(self, f, cells, at, depth=0):
        """every path to `at` passed a test of all these cells, or `at` is inside a task pushed after such a test"""
        obs = {c[0] for c in cells}
        for t in f.ins():
            l = self.tested(f, t)
            if l is None:
                continue
            l = strip(f, l)
            k = tup(l)
            if l[0] != "i" or f.instrs[l[1]].op != "load":
                continue
            l = f.instrs[l[1]]
            if not (obs <= {c[0] for c in self.pta.vals(f, l.o[0])} and self._mncell(f, l)):
                continue
            br = t.bb.term
            if br.op != "br" or len(t.bb.succ) != 2:
                continue
            # loop header (or the test itself) dominates the use, and the null edge cannot reach it without testing again
            for s in t.bb.succ:
                at0 = self.F(f).atoms(br.o[0], s.i == br.d["succ"][0])
                if any(self.bad_atom(f, x, k) for x in at0):
                    r = f.reach([s], stop=lambda b: b is t.bb)
                    if at.bb.i in r:
                        break
            else:
                h = self.header(f, t.bb)
                if f.dominates_b(h.i, at.bb.i) and at.bb is not t.bb:
                    return True
        if depth < 3:
            sites = self.push_sites(f)
            if sites and all(self.validated(g, cells, s, depth + 1) for g, s in sites):
                return True
        return False

    def tested(self, f, t):
        """value tested by instruction t, None when t is no test"""
        return t.o[0] if t.op == "icmp" and t.pred in ("eq", "ne") and cval(t.o[1]) == 0 else None

    def bad_atom(self, f, x, k):
        return x[0] == "eq" and x[1] == k and x[2] is not None and cval(x[2]) == 0

    def _mncell(self, f, l):
        return True

    def header(self, f, b):
        """header of the innermost natural loop containing b (b itself when there is none)"""
        best = None
        for x in f.blocks:
            for s in x.succ:
                if f.dominates_b(s.i, x.i) and f.dominates_b(s.i, b.i) and b.i in self._loop(f, s, x):
                    n = len(self._loop(f, s, x))
                    if best is None or n < best[0]:
                        best = (n, s)
        return best[1] if best else b

    def _loop(self, f, h, latch):
        seen = {h.i}
        st = [latch]
        while st:
            y = st.pop()
            if y.i in seen:
                continue
            seen.add(y.i)
            st.extend(y.pred)
        return seen

    def push_sites(self, f):
        """instructions that install the vtable containing f (task creation), in other functions"""
        if not self.vt_users:
            vts = {}
            for g in self.m.globals.values():
                if g["name"].startswith("_ZTV") and g.get("init"):
                    for x in flat(g["init"]):
                        vts.setdefault(x, set()).add(g["name"])
            self.vts = vts
            self.vt_users = {}
            for h in self.m.defined():
                for i in h.ins():
                    if i.op == "store":
                        g = gbase(i.o[0])
                        if g and g.startswith("_ZTV"):
                            self.vt_users.setdefault(g, []).append((h, i))
        out = []
        for v in self.vts.get(f.name, ()):
            out += [(h, i) for h, i in self.vt_users.get(v, ()) if "D0Ev" not in h.name and "D2Ev" not in h.name and h is not f]
        return out

    def check(self, report):
        n = 0
        for f in self.m.defined():
            for i in f.ins():
                ders = []
                if i.op == "load":
                    ders = [i.o[0]]
                elif i.op == "store":
                    ders = [i.o[1]]
                elif i.op in ("atomicrmw", "cmpxchg"):
                    ders = [i.o[0]]
                elif i.is_call:
                    c = i.callee
                    g = m_get(self.m, c) if c else None
                    if g is None and c and not NULLOK.match(c):
                        ders = [o for o in i.o if o[0] in ("i", "a")]
                        if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                            ders = i.o[:2] if "set" not in c else i.o[:1]
                for o in ders:
                    w = self.is_mn(f, o)
                    if not w:
                        continue
                    if i.is_call and o[0] == "i" and f.instrs[o[1]].t != "ptr":
                        continue
                    n += 1
                    ok = self.guarded_all(f, o, i)
                    report(f, i, o, w, ok)
        # the size of a failed allocation must not be recorded as available
        for f in self.m.defined():
            for i in f.ins():
                if not (i.is_call and i.t == "ptr" and (f.name, ("i", i.id)) in self.mn and (i.callee in self.nullable or m_get(self.m, i.callee) is not None)):
                    continue
                sizes = {tup(strip(f, o)) for o in i.o if o[0] in ("i", "a") and not (o[0] == "i" and f.instrs[o[1]].t == "ptr") and not (o[0] == "a" and f.args[o[1]]["t"] == "ptr")}
                kept = {ob for j in i.users if j.op == "store" and j.o[0] == ["i", i.id] for ob in self.pta.objs(f, j.o[1]) if not ob.startswith("A:")}
                if not sizes or not kept:
                    continue
                for j in f.ins():
                    if j.op == "store" and tup(strip(f, j.o[0])) in sizes and f.dominates(i, j) and kept & self.pta.objs(f, j.o[1]):
                        n += 1
                        report(f, j, ["i", i.id], self.mn[(f.name, ("i", i.id))] + " (its size is recorded)", self.guarded_all(f, ["i", i.id], j))
        return n


def m_get(m, n):
    g = m.F.get(n) if n else None
    return g if g is not None and not g.decl else None


def flat(c):
    if isinstance(c, list) and c:
        if c[0] in ("f",):
            yield c[1]
        for x in c[1:]:
            yield from flat(x)


def gbase(o):
    while o[0] == "x" and len(o) > 3:
        o = o[3]
    return o[1] if o[0] == "g" else None


