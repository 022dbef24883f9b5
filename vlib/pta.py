"""Field-sensitive, flow-insensitive inclusion-based points-to analysis over the exported IR.

Objects are strings.  A pointer value is a set of (object, offset); offsets are congruence classes (stride, remainder).

"""
from collections import defaultdict, deque
import re
from math import gcd

ALLOC = {"malloc", "calloc", "_Znwm", "_Znam", "aligned_alloc", "posix_memalign", "_ZnwmRKSt9nothrow_t", "realloc", "__cxa_allocate_exception", "ZSTD_createCCtx", "_ZnwmSt11align_val_t"}
MAXOFF = 10
# allocator wrappers kept as calls by the exporter: each call site is its own object (free lists are not followed)
ALLOC_WRAPPER = re.compile(r"13allocate_taskE|14TaskAllocation8allocate|14aligned_malloc|21handmade_aligned_malloc")


ANY = (1, 0)


# offsets are congruence classes (s, r): s == 0 means exactly r, otherwise r modulo s
def cadd(a, b):
    s = gcd(a[0], b[0])
    r = a[1] + b[1]
    return (s, r % s) if s else (0, r)


def cjoin(a, b):
    s = gcd(gcd(a[0], b[0]), abs(a[1] - b[1]))
    return (s, a[1] % s) if s else a


def contains(a, b):
    return a == b or (a[0] != 0 and b[0] % a[0] == 0 and (a[1] - b[1]) % a[0] == 0)


def compat(a, b):
    """can the two classes denote the same offset (8-byte cells: exact equality of the offset)"""
    g = gcd(a[0], b[0])
    return (a[1] - b[1]) % g == 0 if g else a[1] == b[1]


def gepoff(i):
    if i.off is not None:
        return (0, i.off)
    vo = i.d.get("voff")
    if vo is None:
        return ANY
    s = 0
    for _, k in vo:
        s = gcd(s, abs(k))
    return cadd((s, 0) if s else (0, 0), (0, i.d.get("coff") or 0))


class PTA:
    def __init__(self, mod, funcs=None):
        self.m = mod
        self.virt = []
        self.opaque_alloc = ALLOC_WRAPPER
        self.debug = None
        self.parent = {}
        self.funcs = funcs or mod.defined()
        self.pts = defaultdict(set)        # node -> {(obj, off)}
        self.cells = defaultdict(set)      # obj -> set of offsets used
        self.copy = defaultdict(set)       # node -> {(node, delta)}
        self.loads = defaultdict(set)      # ptr node -> {dest node}
        self.stores = defaultdict(set)     # ptr node -> {src node}
        self.memcpys = defaultdict(set)    # dst ptr node -> {src ptr node} and reverse
        self.icalls = defaultdict(list)    # fn ptr node -> [call]
        self.work = deque()
        self.inw = set()
        self.callees = defaultdict(set)    # (fn,id) -> names
        self.readers = defaultdict(set)    # (obj) -> dest nodes with offset

    # nodes
    def n(self, f, o):
        k = o[0]
        if k == "i":
            return ("v", f.name, o[1])
        if k == "a":
            return ("a", f.name, o[1])
        if k == "g":
            self.add(("g", o[1]), ("G:" + o[1], (0, 0)))
            return ("g", o[1])
        if k == "f":
            self.add(("f", o[1]), ("F:" + o[1], (0, 0)))
            return ("f", o[1])
        if k == "x" and len(o) > 3:
            if o[1] == "getelementptr":
                b = self.n(f, o[3])
                nd = ("x", b, o[2])
                self.edge(b, nd, o[2] if o[2] is not None else ANY)
                return nd
            return self.n(f, o[3])
        return None

    def add(self, node, val, why=None):
        s = self.pts[node]
        if val in s:
            return
        if self.debug is not None and val[0] == self.debug and node not in self.parent:
            self.parent[node] = why
        o, off = val
        same = [x[1] for x in s if x[0] == o]
        for x in same:
            if contains(x, off):
                return
        for x in same:
            if contains(off, x):
                s.discard((o, x))
        same = [x for x in same if (o, x) in s]
        if len(same) >= MAXOFF:
            for x in same:
                s.discard((o, x))
                off = cjoin(off, x)
            val = (o, off)
        s.add(val)
        if node not in self.inw:
            self.inw.add(node)
            self.work.append(node)

    def edge(self, a, b, d=(0, 0)):
        if a is None or b is None:
            return
        if isinstance(d, int):
            d = (0, d)
        if (b, d) in self.copy[a]:
            return
        self.copy[a].add((b, d))
        for v in list(self.pts[a]):
            self.add(b, self.shift(v, d), a)

    @staticmethod
    def shift(v, d):
        return (v[0], cadd(v[1], d))

    def cell(self, o, off):
        """the cell a store at (o, off) writes"""
        c = ("c", o, off)
        if off not in self.cells[o]:
            self.cells[o].add(off)
            for (roff, dst) in list(self.readers[o]):
                if compat(off, roff):
                    self.edge(c, dst)
            for (d, base, doff, ln) in list(self._mc.get(o, ())):
                self._mccell(o, off, d, base, doff, ln)
        return c

    def reader(self, o, off, dst):
        if (off, dst) in self.readers[o]:
            return
        self.readers[o].add((off, dst))
        for k in list(self.cells[o]):
            if compat(k, off):
                self.edge(("c", o, k), dst)

    def seed(self, node, obj):
        self.add(node, (obj, (0, 0)))

    def build(self):
        self._mc = defaultdict(set)
        for g in self.m.globals.values():
            if g.get("init"):
                self._ginit(g["name"], g["init"], 0)
        for f in self.funcs:
            self._fn(f)
        return self

    def _ginit(self, name, c, off):
        k = c[0]
        if k in ("f", "g", "x"):
            class _F: name = "@init"
            nd = self.n(_F, c)
            if nd is not None:
                self.edge(nd, self.cell("G:" + name, (0, off)))
        elif k in ("agg", "cagg"):
            # offsets: pointer arrays only matter here
            o = off
            for e in c[1:]:
                self._ginit(name, e, o if k == "agg" or True else o)
                o += self._csize(e)

    def _csize(self, c):
        k = c[0]
        if k == "c":
            return max(1, (c[2] + 7) // 8)
        if k in ("agg", "cagg"):
            return sum(self._csize(e) for e in c[1:])
        return 8

    def _fn(self, f):
        V = lambda i: ("v", f.name, i.id)
        for i in f.ins():
            op = i.op
            if op == "alloca":
                self.seed(V(i), "A:%s:%d" % (f.name, i.id))
            elif op == "getelementptr":
                b = self.n(f, i.o[0])
                self.edge(b, V(i), gepoff(i))
            elif op in ("bitcast", "addrspacecast", "freeze", "inttoptr", "ptrtoint"):
                self.edge(self.n(f, i.o[0]), V(i))
            elif op in ("add", "and", "or", "xor") or (op == "sub" and not self._isptrint(f, i.o[1])):
                for o in i.o[:2]:
                    self.edge(self.n(f, o), V(i), ANY)
            elif op == "phi":
                for o in i.o:
                    self.edge(self.n(f, o), V(i))
            elif op == "select":
                self.edge(self.n(f, i.o[1]), V(i))
                self.edge(self.n(f, i.o[2]), V(i))
            elif op in ("insertvalue", "extractvalue"):
                for o in i.o:
                    self.edge(self.n(f, o), V(i))
            elif op in ("insertelement", "extractelement", "shufflevector"):
                for o in i.o[:2]:
                    self.edge(self.n(f, o), V(i))
            elif op == "load":
                if i.sz >= 8:
                    p = self.n(f, i.o[0])
                    if p is not None:
                        self.loads[p].add(V(i))
                        self._requeue(p)
            elif op == "store":
                s = self.n(f, i.o[0])
                p = self.n(f, i.o[1])
                if s is not None and p is not None and i.sz >= 8:
                    self.stores[p].add(s)
                    self._requeue(p)
            elif op == "atomicrmw":
                p = self.n(f, i.o[0])
                s = self.n(f, i.o[1])
                if i.sz >= 8:
                    self.loads[p].add(V(i))
                    if s is not None:
                        self.stores[p].add(s)
                    self._requeue(p)
            elif op == "cmpxchg":
                p = self.n(f, i.o[0])
                s = self.n(f, i.o[2])
                if i.sz >= 8:
                    self.loads[p].add(V(i))
                    if s is not None:
                        self.stores[p].add(s)
                    self._requeue(p)
            elif i.is_call:
                self._call(f, i)

    def _isptrint(self, f, o):
        """operand is (a cast of) a pointer: the result of subtracting it is a distance, not a pointer"""
        if o[0] == "x":
            return o[1] == "ptrtoint"
        return o[0] == "i" and f.instrs[o[1]].op == "ptrtoint"

    def _requeue(self, p):
        if self.pts[p] and p not in self.inw:
            self.inw.add(p)
            self.work.append(p)

    def _call(self, f, i):
        V = ("v", f.name, i.id)
        c = i.callee
        if c is None:
            p = self.n(f, i.d["fp"])
            if p is not None:
                self.icalls[p].append((f, i))
                self._requeue(p)
            return
        self._callto(f, i, c)

    def _vt_targets(self, o):
        """functions reachable through the vtables object o may carry, None when it carries none"""
        out = None
        for off in list(self.cells.get(o, ())):
            for (g, goff) in self.pts.get(("c", o, off), ()):
                if g.startswith("G:_ZTV"):
                    out = out or set()
                    for k in self.cells.get(g, ()):
                        for (fn, _) in self.pts.get(("c", g, k), ()):
                            if fn.startswith("F:"):
                                out.add(fn[2:])
        return out

    def _virt_pass(self):
        ch = False
        for (nd, c) in list(self.virt):
            for v in list(self.pts.get(nd, ())):
                t = self._vt_targets(v[0])
                if t is None or c in t:
                    a = ("a", c, 0)
                    if v not in self.pts[a]:
                        n0 = len(self.pts[a])
                        self.add(a, v, nd)
                        ch = ch or len(self.pts[a]) != n0
        return ch

    def _callto(self, f, i, c, virt=False):
        V = ("v", f.name, i.id)
        if c in self.callees[(f.name, i.id)]:
            return
        self.callees[(f.name, i.id)].add(c)
        t = self.m.F.get(c)
        if t is not None and not t.decl and self.opaque_alloc.search(c):
            self.seed(V, "H:%s:%d" % (f.name, i.id))
            for k, o in enumerate(i.o):
                self.edge(self.n(f, o), ("a", c, k))
            return
        if t is not None and not t.decl:
            for k, o in enumerate(i.o):
                if k == 0 and virt:
                    self.virt.append((self.n(f, o), c))   # receiver filtered by its vtable, see solve()
                    continue
                self.edge(self.n(f, o), ("a", c, k))
            self.edge(("r", c), V)
            if not getattr(t, "_retdone", False):
                for j in t.ins():
                    if j.op == "ret" and j.o:
                        s = self.n(t, j.o[0])
                        self.edge(s, ("r", c))
            return
        if c in ALLOC:
            self.seed(V, "H:%s:%d" % (f.name, i.id))
            return
        if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove") or c in ("memcpy", "memmove"):
            d, s = self.n(f, i.o[0]), self.n(f, i.o[1])
            ln = i.o[2][1] if i.o[2][0] == "c" else None
            if d is not None and s is not None:
                self.memcpys[s].add((d, ln))
                self.memcpys[("dst", d)].add((s, ln))
                self._requeue(s)
                self._requeue(d)
            self.edge(d, V)
            return
        if c.startswith("llvm.threadlocal.address") or c.startswith("llvm.launder") or c.startswith("llvm.strip"):
            self.edge(self.n(f, i.o[0]), V)
            return
        if c in ("__cxa_atexit", "__cxa_thread_atexit") and i.o[0][0] == "f":
            self.edge(self.n(f, i.o[1]), ("a", i.o[0][1], 0))
            return
        if c == "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE":
            # runs state->_M_run() : vtable slot 2
            nd = ("tmp", "thr", f.name, i.id)
            a = self.n(f, i.o[1])
            t1 = ("tmp", "thr1", f.name, i.id)
            if a is not None:
                self.loads[a].add(t1)          # state pointer
                t2 = ("tmp", "thr2", f.name, i.id)
                self.loads[t1].add(t2)         # vptr
                t3 = ("tmp", "thr3", f.name, i.id)
                self.edge(t2, t3, 16)
                t4 = ("tmp", "thr4", f.name, i.id)
                self.loads[t3].add(t4)
                self.icalls[t4].append((None, (t1,)))
                for x in (a, t1, t3, t4):
                    self._requeue(x)

    def _mccell(self, o, off, d, base, doff, ln):
        """cell (o,off) copied by memcpy(d+doff, o+base, ln)"""
        (bs, br), (s, r) = base, off
        if bs == 0 and s == 0:
            if r < br or (ln is not None and r >= br + ln):
                return
        elif ln is not None:
            g = gcd(bs, s)
            if g and ln <= g and (r - br) % g >= ln:
                return
        self.edge(("c", o, off), self.cell(d, cadd(doff, cadd(off, (bs, -br)))))

    def solve(self):
        done = defaultdict(set)
        for _ in range(50):
            self._drain(done)
            if not self._virt_pass():
                break
        return self

    def _drain(self, done):
        while self.work:
            nd = self.work.popleft()
            self.inw.discard(nd)
            vals = list(self.pts[nd])
            for v in vals:
                first = v not in done[nd]
                for (b, d) in list(self.copy[nd]):
                    self.add(b, self.shift(v, d), nd)
                o, off = v
                if o.startswith("F:"):
                    for (f, i) in list(self.icalls.get(nd, ())):
                        name = o[2:]
                        if f is None:
                            if name in self.m.F:
                                self.edge(i[0], ("a", name, 0))
                        else:
                            self._callto(f, i, name, True)
                    continue
                for dst in list(self.loads.get(nd, ())):
                    self.reader(o, off, dst)
                for s in list(self.stores.get(nd, ())):
                    self.edge(s, self.cell(o, off))
                for (d, ln) in list(self.memcpys.get(nd, ())):
                    for (do, doff) in list(self.pts[d]):
                        self._mcadd(o, off, do, doff, ln)
                for (s, ln) in list(self.memcpys.get(("dst", nd), ())):
                    for (so, soff) in list(self.pts[s]):
                        self._mcadd(so, soff, o, off, ln)
                done[nd].add(v)

    def _mcadd(self, so, soff, do, doff, ln):
        if so.startswith("F:") or do.startswith("F:"):
            return
        key = (do, soff, doff, ln)
        if key in self._mc[so]:
            return
        self._mc[so].add(key)
        for k in list(self.cells[so]):
            self._mccell(so, k, do, soff, doff, ln)

    # queries
    def objs(self, f, o):
        nd = None
        if o[0] == "i":
            nd = ("v", f.name, o[1])
        elif o[0] == "a":
            nd = ("a", f.name, o[1])
        elif o[0] == "g":
            return {"G:" + o[1]}
        elif o[0] == "x" and len(o) > 3:
            return self.objs(f, o[3])
        if nd is None:
            return set()
        return {x[0] for x in self.pts.get(nd, ())}

    def vals(self, f, o):
        if o[0] == "i":
            return self.pts.get(("v", f.name, o[1]), set())
        if o[0] == "a":
            return self.pts.get(("a", f.name, o[1]), set())
        if o[0] == "g":
            return {("G:" + o[1], (0, 0))}
        if o[0] == "x" and len(o) > 3:
            d = (0, o[2]) if o[1] == "getelementptr" and o[2] is not None else (0, 0) if o[1] != "getelementptr" else ANY
            return {self.shift(v, d) for v in self.vals(f, o[3])}
        return set()
