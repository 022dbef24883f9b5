"""C17: without a time limit nothing that varies between two runs (clock, randomness, addresses, thread count, pool state, other tasks, memory
left by earlier calls) reaches the compressed bytes."""
import re
from vlib.facts import Facts, strip, cval, tup
from pool import Pool, std_module, std_pta
from ctxmodel import CtxModel
from C14 import errconst
import C19, C20

CASTS = ("bitcast", "freeze", "zext", "trunc", "sext")
CLOCK = re.compile(r"^(clock_gettime|gettimeofday|time|clock|times|ftime|timespec_get|clock_\w+|_ZNSt6chrono|rand|random|rand_r|[dlm]rand48|getrandom|arc4random\w*|getentropy|"
                   r"pthread_self|gettid|getpid|getppid|syscall|sched_getcpu|getcpu|getenv|secure_getenv|getrusage|_ZNSt13random_device|uname|sysconf|get_nprocs|"
                   r"llvm\.readcyclecounter|llvm\.x86\.rd|mallinfo\w*|malloc_usable_size|QueryPerformance\w+|GetTickCount\w*|GetCurrentThreadId)")
ALLOC = re.compile(r"^(malloc|calloc|realloc|aligned_alloc|posix_memalign|free|_Zn[wa]|_Zd[la]|__cxa_|_ZSt|__clang_call_terminate|pthread_|_ZNSt18condition|_ZNSt6thread|ZSTD_(create|free)|llvm\.(lifetime|dbg|expect|assume|threadlocal|stacksave|stackrestore|donothing))|aligned_malloc|aligned_free|allocate_task")
STICKY = re.compile(r"^ZSTD_(compress2|compressStream2?\w*|compressBlock\w*|compressContinue|compressEnd|CCtx_refPrefix|compressSequences\w*)$")
SIZED = ("ZSTD_", )


def isint(t):
    return bool(t) and (t[0] == "i" and t[1:].isdigit() or t in ("double", "float"))


class World:
    """what a compression call without time limit can execute"""

    def __init__(self, ctx, M, p):
        self.ctx, self.M, self.p, self.m, self.P = ctx, M, p, M.m, M.P
        self.roots = [f for f in M.ops if any(self.zc(g) for g in self.clos(f))]
        ctx.need(self.roots, "operations that compress")
        self.fns = {}
        for r in self.roots:
            for g in self.clos(r):
                self.fns[g.name] = g
        self.taskfns = set()
        for t in p.tasks:
            if t in self.fns:
                self.taskfns |= {g.name for g in self.clos(self.m.F[t])}

    def zc(self, g):
        c = self.__dict__.setdefault("_zc", {})
        if g.name not in c:
            c[g.name] = self._z(g)
        return c[g.name]

    def _z(self, g):
        return any(i.is_call and (i.callee or "").startswith("ZSTD_compress") for i in g.ins())

    def calls(self, f, i):
        out = []
        if i.is_call:
            for t in self.P.callees.get((f.name, i.id), ()):
                g = self.m.F.get(t)
                if g and not g.decl:
                    out.append(g)
        elif i.op == "store":
            g = self.p.creators.get(f.name, {}).get(i.id)
            for t in self.p.vt.get(g, ()) if g else ():
                out.append(self.m.F[t])
        return out

    def clos(self, f):
        c = self.__dict__.setdefault("_clos", {})
        if f.name not in c:
            c[f.name] = list(self._cl(f))
        return c[f.name]

    def _cl(self, f):
        seen, st = {}, [f]
        while st:
            g = st.pop()
            if g.name in seen:
                continue
            seen[g.name] = g
            for i in self.live(g):
                st += self.calls(g, i)
        return seen.values()

    def live(self, f):
        c = self.__dict__.setdefault("_livel", {})
        if f.name not in c:
            L = self.M.live(f, True)
            c[f.name] = [i for b in f.blocks if b.i in L for i in b.ins]
        return c[f.name]


class Taint:
    """data flow of run-dependent numbers to the codecs and to memory"""

    def __init__(self, W):
        self.W, self.M, self.P, self.m = W, W.M, W.P, W.m
        self.t = {}            # (fname, kind, id) -> set of source kinds
        self.why = {}
        self.cells = {}        # (obj, off) of local variables -> kinds
        self.work = []
        self.readers = None
        self.joins = {}

    def get(self, f, o):
        if o[0] in ("i", "a"):
            return self.t.get((f.name, o[0], o[1]), frozenset())
        return frozenset()

    def add(self, f, kind, k, src, frm):
        key = (f.name, kind, k)
        old = self.t.get(key, frozenset())
        if not src <= old:
            self.t[key] = old | src
            self.why.setdefault(key, frm)
            self.push(f, key)

    def push(self, f, key):
        U = self.uses(f)
        for i in U.get(key[1:], ()):
            if (f.name, i.id) not in self.inq:
                self.inq.add((f.name, i.id))
                self.work.append((f, i))

    def uses(self, f):
        """instructions to look at again when a value changes (with joins below the branches it decides)"""
        U = self.U.get(f.name)
        if U is None:
            U = self.U[f.name] = {}
            live = self.M.live(f, True)
            for b in f.blocks:
                if b.i in live:
                    for i in b.ins:
                        for o in i.o:
                            if o[0] in ("i", "a"):
                                U.setdefault((o[0], o[1]), []).append(i)
        return U

    def local(self, o):
        return o.startswith("A:")

    def run(self, sources):
        self.inq, self.U = set(), {}
        for (f, i, kind) in sources:
            self.add(f, "i", i.id, frozenset([kind]), None)
        while self.work:
            f, i = self.work.pop()
            self.inq.discard((f.name, i.id))
            L = self.M.live(f, True)
            self.ins(f, i, L)
            if i.op in ("icmp", "fcmp", "and", "or", "xor", "select", "zext", "trunc", "phi") or i.is_call:
                # joins and selections decided by it
                for t in self.decided(f, i):
                    if (f.name, t.id) not in self.inq and t is not i:
                        s = frozenset()
                        if t.op == "phi":
                            s = self.implicit(f, t, L)
                        else:
                            s = self.cond(f, t.o[0])
                        if s and isint(t.t):
                            self.add(f, "i", t.id, s, None)

    def decided(self, f, i):
        """phis of the joins of the branches whose condition uses i, selects"""
        D = self.joins.get(f.name)
        if D is None:
            D = {}
            kids = {}
            for b, d in f.dom().items():
                kids.setdefault(d, []).append(b)
            for b in f.blocks:
                t = b.term
                if t.op == "br" and t.o and len(t.d["succ"]) == 2:
                    D[b.i] = [j for k in kids.get(b.i, ()) if k != b.i for j in f.blocks[k].ins if j.op == "phi"]
            self.joins[f.name] = D
        out, st, seen = [], [i], set()
        while st:
            j = st.pop()
            if j.id in seen:
                continue
            seen.add(j.id)
            for u in j.users:
                if u.op == "br":
                    out += D.get(u.bb.i, ())
                elif u.op == "select":
                    out.append(u)
                    if u.t == "i1":
                        st.append(u)
                elif u.op in ("and", "or", "xor", "zext", "trunc", "icmp", "phi", "freeze") and (u.op != "phi" or u.t == "i1") or u.is_call and (u.callee or "").startswith("llvm.expect"):
                    st.append(u)
        return out

    def ins(self, f, i, L):
        op = i.op
        if op in ("getelementptr", "inttoptr", "icmp", "fcmp", "br", "switch"):
            return
        if op == "phi":
            s = frozenset()
            for v, bi in zip(i.o, i.d["inb"]):
                if bi in L:
                    s |= self.get(f, v)
            if isint(i.t):
                s |= self.implicit(f, i, L)
            if s:
                self.add(f, "i", i.id, s, None)
            return
        if op == "select":
            s = self.get(f, i.o[1]) | self.get(f, i.o[2])
            if isint(i.t):
                s |= self.cond(f, i.o[0])
            if s:
                self.add(f, "i", i.id, s, None)
            return
        if op == "load":
            return
        if op == "store":
            s = self.get(f, i.o[0])
            if s and i.d.get("vt") != "ptr":
                v = self.P.vals(f, i.o[1])
                for (o, off) in v:
                    if self.local(o) and not s <= self.cells.get((o, off), frozenset()):
                        self.cells[(o, off)] = self.cells.get((o, off), frozenset()) | s
                        for (g, j, off2) in self.loads().get(o, ()):
                            if C20.overlap(off, 8, off2, j.sz):
                                self.add(g, "i", j.id, s, None)
            return
        if i.is_call:
            for g in self.W.calls(f, i):
                for k, o in enumerate(i.o):
                    s = self.get(f, o)
                    if s and k < len(g.args):
                        self.add(g, "a", k, s, (f, i))
            if (i.callee or "").startswith("llvm.") and isint(i.t):
                s = frozenset().union(*[self.get(f, o) for o in i.o]) if i.o else frozenset()
                if s:
                    self.add(f, "i", i.id, s, None)
            return
        if op == "sub":
            a, b = self.get(f, i.o[0]), self.get(f, i.o[1])
            if "address" in a and "address" in b:
                a, b = a - {"address"}, b - {"address"}
            if a | b:
                self.add(f, "i", i.id, a | b, None)
            return
        if op == "ret":
            s = self.get(f, i.o[0]) if i.o else frozenset()
            for (g, j) in self.callers().get(f.name, ()):
                if s and isint(j.t):
                    self.add(g, "i", j.id, s, (f, i))
            return
        if op in ("atomicrmw", "cmpxchg", "ptrtoint", "alloca", "landingpad"):
            return
        s = frozenset()
        for o in i.o:
            s |= self.get(f, o)
        if s:
            self.add(f, "i", i.id, s, None)

    def callers(self):
        if not hasattr(self, "_callers"):
            self._callers = {}
            for g in self.W.fns.values():
                for j in self.W.live(g):
                    if j.is_call:
                        for h in self.W.calls(g, j):
                            self._callers.setdefault(h.name, []).append((g, j))
        return self._callers

    def loads(self):
        if self.readers is None:
            self.readers = {}
            for g in self.W.fns.values():
                for j in self.W.live(g):
                    if j.op == "load" and j.t != "ptr":
                        for (o, off) in self.P.vals(g, j.o[0]):
                            if self.local(o):
                                self.readers.setdefault(o, []).append((g, j, off))
        return self.readers

    def cond(self, f, o, d=0):
        o = strip(f, o, CASTS)
        if o[0] != "i" or d > 6:
            return self.get(f, o)
        i = f.instrs[o[1]]
        s = self.get(f, o)
        if i.op in ("icmp", "fcmp"):
            s |= self.get(f, i.o[0]) | self.get(f, i.o[1])
            for x in i.o:
                x = strip(f, x, CASTS)
                if x[0] == "i" and f.instrs[x[1]].op in ("icmp", "and", "or", "xor", "select") and f.instrs[x[1]].t == "i1":
                    s |= self.cond(f, x, d + 1)
        elif i.op in ("and", "or", "xor", "select", "phi") and i.t == "i1":
            for x in i.o:
                s |= self.cond(f, x, d + 1)
        return s

    def implicit(self, f, i, L):
        """the join merges different numbers chosen by a run-dependent branch"""
        vals = {tup(strip(f, v, CASTS)) for v, bi in zip(i.o, i.d["inb"]) if bi in L}
        if len(vals) < 2:
            return frozenset()
        idom = f.dom().get(i.bb.i) if callable(getattr(f, "dom", None)) else None
        if idom is None or idom == i.bb.i:
            return frozenset()
        t = f.blocks[idom].term
        if t.op == "br" and t.o and len(t.d["succ"]) == 2 and len(self.M.succ(f, f.blocks[idom], True)) == 2:
            return self.cond(f, t.o[0])
        return frozenset()


class Capacity:
    """does a number depend on the size of the destination other than through a minimum with something that does not"""

    def __init__(self, W, f):
        self.W, self.f, self.P, self.m = W, f, W.P, W.m
        self.leaf = None
        self.memo = {}
        dia = (f.d.get("dia") or [])[1:]
        for k, t in enumerate(dia):
            if k < len(f.args) and k > 0 and f.args[k]["t"] != "ptr" and dia[k - 1].startswith("ptr void"):
                self.leaf = k

    def dep(self, o, seen=None):
        k = str(o)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        self.memo[k] = self._dep(o, seen)
        return self.memo[k]

    def _dep(self, o, seen=None):
        """'free' does not depend on the destination size, 'capped' only through a minimum, 'dep' otherwise"""
        f = self.f
        seen = seen or ()
        o = strip(f, o, CASTS)
        if o[0] == "a":
            return "dep" if o[1] == self.leaf else "free"
        if o[0] != "i":
            return "free"
        if o[1] in seen or len(seen) > 60:
            return None
        seen = seen + (o[1],)
        i = f.instrs[o[1]]
        if i.op in ("phi", "select") or i.is_call and (i.callee or "").startswith("llvm.umin"):
            L = self.W.M.live(f, True)
            ops = [v for v, bi in zip(i.o, i.d["inb"]) if bi in L] if i.op == "phi" else i.o[-2:]
            return self.merge([self.dep(x, seen) for x in ops])
        if i.op == "load":
            if i.t == "ptr":
                return self.merge2(self.stored(i, seen)) or "free"
            v = self.stored(i, seen)
            return self.merge(v) if v else "free"
        if i.op == "getelementptr":
            r = [self.dep(x, seen) for x in i.o]
            return self.worst(r)
        if i.op in ("add", "sub", "and", "or", "mul", "shl", "lshr", "ptrtoint", "inttoptr", "udiv"):
            return self.worst([self.dep(x, seen) for x in i.o])
        return "free"

    def stored(self, i, seen):
        f = self.f
        p = strip(f, i.o[0])
        objs = {o for o, _ in self.P.vals(f, i.o[0])}
        out = []
        if objs and all(o.startswith("A:" + f.name) for o in objs):
            for j in f.ins():
                if j.op == "store":
                    for (o, off) in self.P.vals(f, j.o[1]):
                        if o in objs and any(C20.overlap(off, 8, o2, 8) for ob, o2 in self.P.vals(f, i.o[0]) if ob == o):
                            out.append(self.dep(j.o[0], seen))
                            break
        return out

    @staticmethod
    def worst(r):
        r = [x for x in r if x]
        return "dep" if "dep" in r else "capped" if "capped" in r else "free"

    @staticmethod
    def merge2(r):
        return Capacity.worst(r) if r else None

    @staticmethod
    def merge(r):
        r = [x for x in r if x]
        if not r:
            return None
        if "dep" in r:
            return "capped" if "free" in r or "capped" in r else "dep"
        return "capped" if "capped" in r else "free"


def hashed(W, f, o, seen, d=0):
    """index computed from data that was read: a table look-up"""
    o = strip(f, o, CASTS)
    if o[0] != "i" or o[1] in seen or d > 14:
        return False
    seen.add(o[1])
    i = f.instrs[o[1]]
    if i.op == "load":
        objs = {x for x, _ in W.P.vals(f, i.o[0])}
        return i.t != "ptr" and not (objs and all(x in W.M.objs for x in objs))
    if i.op in ("mul", "lshr", "shl", "xor", "and", "or", "add", "sub", "ashr", "urem"):
        return any(hashed(W, f, x, seen, d + 1) for x in i.o)
    if i.op == "phi":
        return any(hashed(W, f, x, seen, d + 1) for x in i.o)
    if i.op == "select":
        return any(hashed(W, f, x, seen, d + 1) for x in i.o[1:])
    if i.is_call and (i.callee or "").startswith(("llvm.ct", "llvm.bswap", "llvm.x86")):
        return any(hashed(W, f, x, seen, d + 1) for x in i.o)
    return False


def root(f, o):
    """(base operand, constant offset or None, index operands)"""
    off, idx = 0, []
    while True:
        o = strip(f, o)
        if o[0] == "i" and f.instrs[o[1]].op == "getelementptr":
            g = f.instrs[o[1]]
            if "voff" in g.d:
                idx += [v[0] for v in g.d["voff"]]
                off = None
            elif off is not None:
                off += g.d.get("off", 0)
            o = g.o[0]
            continue
        if o[0] == "i" and f.instrs[o[1]].op in ("phi", "select"):
            i = f.instrs[o[1]]
            alt = {tup(strip(f, x)) for x in (i.o if i.op == "phi" else i.o[1:]) if x[0] != "n" and tup(x) != tup(o)}
            if len(alt) == 1:
                o = list(alt.pop())
                continue
        return o, off, idx


def initialised(W, f, load, base, size):
    """the whole object is written (constant stores, memset, memcpy) before the load on every path"""
    cov = set()
    c = W.__dict__.setdefault("_inits", {})
    if f.name not in c:
        c[f.name] = inits(f)
    for j, b0, off in c[f.name]:
        if not same(f, b0, base) or not f.dominates(j, load):
            continue
        n = j.sz if j.op == "store" else cval(j.o[2])
        if size is None:
            return j.op == "call"
        cov |= set(range(off, min(size, off + n)))
        if len(cov) >= size:
            return True
    return False


def inits(f):
    out = []
    for j in f.ins():
        ptr, n = None, None
        if j.op == "store":
            ptr, n = j.o[1], j.sz
        elif j.is_call and (j.callee or "").startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove")):
            ptr, n = j.o[0], cval(j.o[2])
        if ptr is None or not n:
            continue
        b, off, idx = root(f, ptr)
        if off is not None:
            out.append((j, b, off))
    return out


def same(f, a, b):
    if a == b:
        return True
    ia = f.instrs[a[1]] if a[0] == "i" else None
    ib = f.instrs[b[1]] if b[0] == "i" else None
    if ia is not None and ib is not None and ia.is_call and ib.is_call and (ia.callee or "").startswith("llvm.threadlocal") and ia.callee == ib.callee:
        return ia.o == ib.o
    return False


def run(ctx):
    m = std_module(ctx)
    P = std_pta(ctx, m)
    M = CtxModel(ctx, m, P)
    p = Pool(ctx, m, P)
    W = World(ctx, M, p)
    n = {"calls": 0, "loads": 0}
    # 1. no source of variation is called
    for f in W.fns.values():
        for i in W.live(f):
            if i.is_call and i.callee and (m.F.get(i.callee) is None or m.F[i.callee].decl):
                n["calls"] += 1
                bad = CLOCK.match(i.callee) or i.callee == "__asm__" and re.search(r"rdtsc|rdrand|rdseed", i.d.get("asm") or "")
                ctx.ob(not bad)
                if bad:
                    ctx.fail("source:%s:%s" % (C19.short(f.name), i.callee), "a compression without time limit can call %s: its result must not depend on the time, the thread or the environment" % (i.d.get("asm") or i.callee).split(";")[0], i.loc(), ["in " + f.dem.split("(")[0]])
                bad = STICKY.match(i.callee)
                ctx.ob(not bad)
                if bad:
                    ctx.fail("sticky:%s:%s" % (C19.short(f.name), i.callee), "%s uses the parameters and state left in the compression object by earlier calls; use a function that resets them" % i.callee, i.loc())
    # 2. tables and persistent state
    G = C19.guarded(m)
    once = onetime(m, P, G)
    sources = []
    nh = 0
    pool_objs = {p.obj} | {o for g in m.defined() for j in g.ins() if j.is_call and j.callee == "pthread_mutex_lock" for o, _ in P.vals(g, j.o[0]) if o.startswith("G:")}
    thr = [c for c, s in M.params.items() if s == {"stenos_set_threads"}]
    ctx.need(len(thr) == 1, "the cell written by stenos_set_threads")
    shared = shared_cells(ctx, W, p, G, once)
    for f in W.fns.values():
        for i in W.live(f):
            if i.op in ("load", "atomicrmw", "cmpxchg"):
                n["loads"] += 1
                vals = P.vals(f, i.o[0])
                base, off, idx = root(f, i.o[0])
                objs = {o for o, _ in vals}
                # 2a. table look-ups in writable memory
                if i.op == "load" and idx:
                    al = f.instrs[base[1]] if base[0] == "i" else None
                    loc = al is not None and al.op == "alloca"
                    tl = (al is not None and al.is_call and (al.callee or "").startswith("llvm.threadlocal")) or (base[0] == "g" and (m.globals.get(base[1]) or {}).get("tls"))
                    if loc or tl:
                        if any(hashed(W, f, x, set()) for x in idx):
                            nh += 1
                            sz = al.sz if loc else (m.globals.get((al.o[0] if al is not None else base)[1]) or {}).get("sz")
                            ok = initialised(W, f, i, base, sz)
                            ctx.ob(ok)
                            if not ok:
                                ctx.fail("table:%s:%s" % (C19.short(f.name), i.loc().split("/")[-1]), "table look-up in %s memory that is not completely initialised in this call: the result depends on what was there before" % ("stack" if loc else "thread-local"), i.loc(), ["in " + i.scope()])
                # 2b. numbers kept from an earlier call
                if i.op == "load" and isint(i.t):
                    for o in objs:
                        if not o.startswith("G:") or o in pool_objs:
                            continue
                        g = m.globals.get(o[2:])
                        if g and not g.get("const") and not g["name"].startswith("_ZGV") and o not in once and off is not None and not rewritten(W, f, i, base, off):
                            if objs == {o}:
                                sources.append((f, i, "state left by an earlier call"))
                # thread count
                if M.cell(f, i) == thr[0]:
                    sources.append((f, i, "thread count"))
                if i.op == "load" and isint(i.t) and objs & pool_objs:
                    sources.append((f, i, "state of the worker pool"))
                # scheduling
                if f.name in W.taskfns and isint(i.t):
                    for (o, off2) in vals:
                        if any(C20.overlap(off2, i.sz or 8, x, 8) for x in shared.get(o, ())) and o not in pool_objs and (i.op == "load" or i.users):
                            sources.append((f, i, "progress of the other tasks"))
            elif i.op == "ptrtoint":
                sources.append((f, i, "address"))
            elif i.is_call and i.callee == "_ZNSt6thread20hardware_concurrencyEv":
                sources.append((f, i, "number of processors"))
    T = Taint(W)
    T.run(sources)
    nsink = 0
    for f in W.fns.values():
        L = M.live(f, True)
        for i in W.live(f):
            hit = ()
            if i.op == "store" and i.d.get("vt") != "ptr" and isint(i.d.get("vt")):
                nsink += 1
                s = T.get(f, i.o[0]) - {"address"} if isint(i.d.get("vt")) else ()
                objs = {o for o, _ in P.vals(f, i.o[1])}
                if s and objs and not all(T.local(o) or o in pool_objs or o in once or o.startswith("H:") and "llocat" in o for o in objs) and not self_store(f, i, s):
                    if not all(o.startswith("G:") for o in objs) and (not all(o.startswith("H:") for o in objs) or "thread count" in s or "progress of the other tasks" in s):
                        hit = [(s, "is stored in memory that outlives the local variables")]
            elif i.is_call and not ALLOC.search(i.callee or ""):
                g = m.F.get(i.callee or "")
                if g is None or g.decl:
                    if (i.callee or "").startswith("llvm.") and not (i.callee or "").startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                        continue
                    nsink += 1
                    for k, o in enumerate(i.o):
                        s = T.get(f, o)
                        if s and not i.callee.startswith("llvm.mem") and not (g is not None and k < len(g.args) and g.args[k]["t"] == "ptr"):
                            hit = [(s, "is passed to %s" % i.callee)]
                        elif s - {"state of the worker pool", "address"} and i.callee.startswith("llvm.mem"):
                            hit = [(s, "decides how many bytes are copied")]
                elif W.zc(g) or any(W.zc(h) for h in W.clos(g)) or "ompress" in g.name:
                    nsink += 1
                    for k, o in enumerate(i.o):
                        s = T.get(f, o)
                        if s:
                            hit = [(s, "is passed to %s" % g.dem.split("(")[0])]
            elif i.op in ("br", "switch") and i.o and len(i.d.get("succ", ())) >= 2 and len(M.succ(f, i.bb, True)) >= 2:
                nsink += 1
                c = T.cond(f, i.o[0])
                s = c & {"progress of the other tasks", "state left by an earlier call", "address", "number of processors"}
                if s and not cacheregion(W, f, i, L):
                    hit = [(s, "decides a branch")]
                s = c & {"thread count", "state of the worker pool"}
                if s and not hit and not fork(W, p, f, i) and not cacheregion(W, f, i, L):
                    hit = [(s, "decides how a superblock is compressed")]
            for s, what in hit:
                ctx.ob(False)
                ctx.fail("flow:%s:%s" % (C19.short(f.name), i.loc().split("/")[-1]), "without time limit, a number that depends on the %s %s: the output is not determined by the arguments" % (" / ".join(sorted(s)), what), i.loc(), ["in " + i.scope()])
    ctx.ob(True, nsink)
    # 3. uninitialised scalars
    nu = 0
    for f in W.fns.values():
        L = M.live(f, True)
        for i in W.live(f):
            if i.op in ("store", "br", "switch", "ret", "phi", "icmp", "add", "sub", "mul", "and", "or", "call"):
                ops = [v for v, bi in zip(i.o, i.d["inb"]) if bi in L] if i.op == "phi" else i.o
                for o in ops:
                    if o and o[0] == "u":
                        if i.op == "phi" and not (isint(i.t) and used(i)):
                            continue
                        if i.is_call and (i.callee or "").startswith("llvm.") or i.op == "store":
                            continue
                        nu += 1
                        ctx.ob(False)
                        ctx.fail("uninit:%s:%s" % (C19.short(f.name), i.loc().split("/")[-1]), "use of an uninitialised variable", i.loc(), ["in " + i.scope()])
    # 4. the capacity given to a codec
    nc = 0
    for f in W.roots:
        C = Capacity(W, f)
        ctx.need(C.leaf is not None, "destination size of %s" % f.name)
        for i in W.live(f):
            if not i.is_call:
                continue
            g = m.F.get(i.callee or "")
            if not ((i.callee or "").startswith("ZSTD_compress") or g is not None and not g.decl and any(W.zc(h) or "ompress" in h.name for h in [g])):
                continue
            for k, o in enumerate(i.o):
                if o[0] in ("i", "a") and (o[0] == "a" or isint(f.instrs[o[1]].t)):
                    nc += 1
                    r = C.dep(o)
                    ctx.ob(r != "dep")
                    if r == "dep":
                        ctx.fail("capacity:%s:%s" % (f.name, i.callee[:40]), "the room given to %s depends on the size of the destination without bound: the bytes produced differ between the single-threaded and multithreaded paths and between destination sizes" % (g.dem.split("(")[0] if g else i.callee), i.loc())
    ctx.need(nc >= 4, "capacities given to codecs (%d)" % nc)
    # 5. what tasks leave for the submitter
    ns = late(ctx, W, p, shared, pool_objs)
    ctx.need(nh >= 10, "table look-ups (%d)" % nh)
    ctx.need(len(sources) >= 10, "sources of variation (%d)" % len(sources))
    ctx.sample("sources: " + ", ".join("%s x%d" % (k, sum(1 for s in sources if s[2] == k)) for k in sorted({s[2] for s in sources})))
    ctx.cov.update({"functions_reachable_without_time_limit": len(W.fns), "task_functions": len(W.taskfns), "external_calls": n["calls"], "loads": n["loads"], "table_lookups": nh, "sources_of_variation": len(sources), "sinks": nsink, "capacities": nc, "shared_stores": ns})
    ctx.explanation = ("the code reachable from the compressing operations is pruned with 'time limit = 0' folded into every branch; in what remains no clock, random, thread or environment function is called, no codec with sticky parameters; numbers "
                       "that depend on the thread count, the pool, other tasks' progress, addresses or memory kept from earlier calls are followed through values, variables, calls and joins and never reach a codec argument, a copied size, "
                       "lasting memory or (all but the thread count and pool state) a branch; tables indexed by data are completely initialised in the call; no scalar is used uninitialised; the room given to the codecs is bounded independently of the destination.")
    ctx.assumptions += ["zstd functions that reset the object are deterministic for given arguments", "each superblock gets the same arguments on the single- and multithreaded paths (enumeration of superblocks is not compared)",
                        "contents of heap scratch buffers read at loop-counter positions are assumed written in the same call"]


def used(i):
    """some instruction other than phis uses the value"""
    seen, st = set(), [i]
    while st:
        j = st.pop()
        if j.id in seen:
            continue
        seen.add(j.id)
        for u in j.users:
            if u.op == "phi":
                st.append(u)
            else:
                return True
    return False


def self_store(f, i, s):
    return False


def onetime(m, P, G):
    """globals written only by static initialisation or under their guard"""
    bad, allg = set(), {"G:" + n for n in m.globals}
    for f in m.defined():
        init = f.name.startswith(("_GLOBAL__", "__cxx_global_var_init"))
        for i in f.ins():
            for o in C19.written(f, i, m) + ([i.o[1]] if i.op == "store" and i.d.get("ord") else []) + ([i.o[0]] if i.op in ("atomicrmw", "cmpxchg") else []):
                if o[0] not in ("i", "a", "g", "x"):
                    continue
                for ob, off in P.vals(f, o):
                    if ob in allg and not init and (f.name, i.id) not in G:
                        bad.add(ob)
    return allg - bad


def rewritten(W, f, i, base, off):
    """a store of the same cell dominates the load"""
    c = W.__dict__.setdefault("_inits", {})
    if f.name not in c:
        c[f.name] = inits(f)
    for j, b, o2 in c[f.name]:
        n = j.sz if j.op == "store" else cval(j.o[2])
        if o2 <= off and off + (i.sz or 1) <= o2 + n and same(f, b, base) and f.dominates(j, i):
            return True
    return False


def iserr(f, F, i, o):
    if errconst(o):
        return True
    o = strip(f, o, ("bitcast", "freeze"))
    if o[0] in ("i", "a"):
        for x in F.at(i):
            if x[0] in ("ugt", "uge") and x[1] == tup(o) and x[2] is not None and -128 <= (cval(list(x[2])) or 0) < 0:
                return True
        if o[0] == "i" and f.instrs[o[1]].op == "select":
            return all(iserr(f, F, i, x) for x in f.instrs[o[1]].o[1:])
    return False


def shared_cells(ctx, W, p, G, once):
    """cells that several tasks write with something else than an error code: object -> offsets"""
    E = C20.Eff(W.P, W.m)
    pr = C19.Private(p, E)
    out = {}
    W.shared_st = []
    for x in sorted(W.taskfns):
        f = W.m.F[x]
        F = None
        for i in W.live(f):
            ptr = None
            if i.op == "store" and i.d.get("vt") != "ptr":
                ptr, v = i.o[1], i.o[0]
            elif i.op in ("atomicrmw", "cmpxchg"):
                ptr, v = i.o[0], i.o[-1]
            if ptr is None or ptr[0] not in ("i", "a", "g", "x") or pr.deep(f, ptr):
                continue
            objs = W.P.vals(f, ptr)
            if not objs or (f.name, i.id) in G or all(o.startswith("G:_ZGV") or o in once for o, _ in objs):
                continue
            if i.op in ("store",):
                F = F or Facts(f)
                if iserr(f, F, i, v):
                    continue
            W.shared_st.append((f, i))
            for (o, off) in objs:
                out.setdefault(o, set()).add(off)
    return out


def late(ctx, W, p, shared, pool_objs):
    """plain stores by several tasks to one cell: the last one wins"""
    k = 0
    G = C19.guarded(W.m)
    for f, i in W.shared_st:
        objs = {o for o, _ in W.P.vals(f, i.o[1] if i.op == "store" else i.o[0])}
        if objs & pool_objs or (f.name, i.id) in G:
            continue
        k += 1
        comm = i.op == "atomicrmw" and (i.d.get("rmw") or i.d.get("aop") or "") not in ("xchg", "sub0")
        const = i.op == "store" and cval(i.o[0]) is not None
        ok = comm or const
        ctx.ob(ok)
        if not ok:
            ctx.fail("lastwins:%s:%s" % (C19.short(f.name), i.loc().split("/")[-1]), "several tasks store different values in the same place: what remains depends on the schedule", i.loc())
    return k


def codec(W, f, i):
    if not i.is_call or not i.callee or i.callee.startswith("llvm."):
        return False
    g = W.m.F.get(i.callee)
    if g is None or g.decl:
        return i.callee.startswith("ZSTD_compress")
    return any(W.zc(h) for h in W.clos(g)) or "ompress" in g.name


def fork(W, p, f, br):
    """a branch on the number of threads: neither side compresses in this function, or one compresses here without tasks and the other can create tasks"""
    r = []
    for s in W.M.succ(f, br.bb, True):
        c = t = 0
        for b in reach_from(W, f, s, br.bb):
            if b is br.bb and b is not s:
                continue
            for i in b.ins:
                c += codec(W, f, i)
                t += i.id in p.creators.get(f.name, {})
        r.append((c, t))
    if all(c == 0 for c, t in r):
        return f.name not in W.taskfns or not any(codec(W, f, i) for i in W.live(f))
    return any(t for c, t in r) and any(c and not t for c, t in r)


def cacheregion(W, f, br, L):
    """both sides of the branch only manage a cache: allocate, free, remember, and meet again"""
    succ = [s for s in W.M.succ(f, br.bb, True)]
    reach = []
    for s in succ:
        reach.append({b.i for b in reach_from(W, f, s, br.bb)} if not fails(W, f, br.bb, s) else None)
    live = [r for r in reach if r is not None]
    if len(live) < 2:
        return True
    common = set.intersection(*live)
    region = {br.bb.i}
    joins = set()
    for s, r in zip(succ, reach):
        if r is None:
            continue
        seen, st = set(), [s]
        while st:
            b = st.pop()
            if b.i in common:
                joins.add(b.i)
            if b.i in seen or b.i in common:
                continue
            seen.add(b.i)
            region.add(b.i)
            for i in b.ins:
                if i.op == "store":
                    objs = {o for o, _ in W.P.vals(f, i.o[1])}
                    if not objs or not all(o.startswith(("G:", "H:")) or o.startswith("A:" + f.name) for o in objs):
                        return False
                elif i.is_call and not ALLOC.search(i.callee or "") and not (i.callee or "").startswith("llvm.mem"):
                    return False
                elif i.op == "ret" or i.op in ("atomicrmw", "cmpxchg"):
                    return False
            st += [x for x in W.M.succ(f, b, True) if not fails(W, f, b, x)]
    if len(joins) > 1:
        return False
    # numbers merged where the sides meet must not differ
    for c in common:
        b = f.blocks[c]
        if any(q.i in region for q in b.pred):
            for i in b.ins:
                if i.op == "phi" and isint(i.t) and len({tup(v) for v, bi in zip(i.o, i.d["inb"]) if bi in region and bi in L}) > 1 and used(i):
                    return False
    return True


def reach_from(W, f, s, stop):
    seen, st = {}, [s]
    while st:
        b = st.pop()
        if b.i in seen:
            continue
        seen[b.i] = b
        if b is stop:
            continue
        st += [x for x in W.M.succ(f, b, True) if not fails(W, f, b, x)]
    return seen.values()


def fails(W, f, b, s):
    """edge taken when an allocation failed"""
    t = b.term
    if t.op == "invoke":
        return len(t.d.get("succ", ())) == 2 and s.i == t.d["succ"][1]
    if t.op != "br" or not t.o or len(t.d["succ"]) != 2:
        return False
    c = strip(f, t.o[0], CASTS)
    if c[0] != "i" or f.instrs[c[1]].op != "icmp":
        return False
    i = f.instrs[c[1]]
    if i.o[1][0] != "n" and cval(i.o[1]) != 0:
        return False
    return (i.pred == "eq") == (s.i == t.d["succ"][0]) and isalloc(f, i.o[0])


def isalloc(f, o, d=0):
    o = strip(f, o, CASTS)
    if o[0] != "i" or d > 6:
        return False
    i = f.instrs[o[1]]
    if i.is_call and re.search(r"malloc|^_Zn|alloc", i.callee or ""):
        return True
    if i.op == "phi":
        return all(x[0] == "n" or isalloc(f, x, d + 1) for x in i.o)
    return False
