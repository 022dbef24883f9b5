"""C19: no data race: every write to memory that two threads can reach is atomic, under the pool mutex, guarded one-time initialisation,
thread-local, or made through a pointer that is private to the task (its own stack, its own allocation, or a slot selected by the index
captured by value when the task was created)."""
import re
from vlib.facts import cval, strip
import pool
from pool import PX, Pool
import C20, C21

PTRARGS = {  # external functions: positions of the pointer arguments they write through
    "ZSTD_compressCCtx": (0, 1), "ZSTD_compress": (0,), "ZSTD_decompress": (0,), "ZSTD_compress_usingCDict": (0, 1), "ZSTD_compress2": (0, 1),
    "ZSTD_decompressDCtx": (0, 1), "clock_gettime": (1,), "free": (0,), "ZSTD_freeCCtx": (0,)}
IGNORE = re.compile(r"^(__cxa_|_ZSt|__asm__|pthread_|_ZNSt18condition|ZSTD_isError|ZSTD_maxCLevel|ZSTD_getErrorCode|lldiv|malloc|_Zn|_Zd|llvm\.)")


class Private:
    """which SSA values of the task functions are pointers private to the running task (greatest fixpoint over the call sites)"""

    def __init__(self, p, E):
        self.p, self.P, self.m, self.E = p, p.P, p.m, E
        self.fns = E.closure(p.tasks)
        self.argv = {}
        self.cache = {}
        for x in self.fns:
            f = self.m.F[x]
            for k in range(len(f.args)):
                self.argv[(x, k)] = x not in p.tasks
        ch = True
        while ch:
            ch = False
            self.cache = {}
            for x in self.fns:
                f = self.m.F[x]
                for i in f.ins():
                    for c in E.callees(f, i):
                        for k, o in enumerate(i.o):
                            if self.argv.get((c, k)) and not self.deep(f, o):
                                self.argv[(c, k)] = False
                                ch = True

    def index(self, f, o, seen=None):
        """value computed injectively from an integer the closure captured by value"""
        seen = seen if seen is not None else set()
        o = strip(f, o)
        if o[0] != "i" or o[1] in seen:
            return False
        seen.add(o[1])
        i = f.instrs[o[1]]
        if i.op in ("zext", "sext", "trunc", "add", "sub", "mul", "shl", "freeze"):
            return any(self.index(f, x, seen) for x in i.o)
        if i.op == "load" and i.t and i.t[0] == "i" and i.t[1:].isdigit() and f.name in self.p.tasks:
            b = i.o[0]
            while b[0] == "i" and f.instrs[b[1]].op in ("getelementptr", "bitcast"):
                b = f.instrs[b[1]].o[0]
            return b == ["a", 0]
        return False

    def deep(self, f, o):
        """pointer to memory only this task accesses, and so is everything reachable from it"""
        k = (f.name, str(o))
        if k in self.cache:
            return self.cache[k]
        self.cache[k] = True       # optimistic for cycles through phis
        r = self._deep(f, o)
        self.cache[k] = r
        return r

    def _deep(self, f, o):
        if o[0] in ("c", "n", "u", "p", "s"):
            return True
        if o[0] == "a":
            return self.argv.get((f.name, o[1]), False)
        if o[0] == "g":
            g = self.m.globals.get(o[1])
            return bool(g and (g.get("tls") or g.get("const")))
        if o[0] == "x":
            return self.deep(f, o[3]) if len(o) > 3 else False
        if o[0] != "i":
            return True
        i = f.instrs[o[1]]
        op = i.op
        if op == "alloca":
            return True
        if op == "getelementptr":
            if self.deep(f, i.o[0]):
                return True
            return any(self.index(f, x) for x in i.o[1:])
        if op in ("bitcast", "freeze", "addrspacecast", "inttoptr", "ptrtoint"):
            return self.deep(f, i.o[0])
        if op in ("phi",):
            return all(self.deep(f, x) for x in i.o)
        if op == "select":
            return self.deep(f, i.o[1]) and self.deep(f, i.o[2])
        if op in ("and", "add", "sub", "or"):
            # address arithmetic (alignment): private when the pointer part is
            return any(x[0] == "i" and self.deep(f, x) and f.instrs[x[1]].op in ("ptrtoint", "add", "and", "sub", "phi") for x in i.o) or self.index(f, o)
        if op == "load":
            if i.t != "ptr":
                return True
            b = strip(f, i.o[0])
            if not self.deep(f, i.o[0]):
                return False
            root = self.root(f, b)
            if root == "alloca":
                # what was stored there must be private too
                vals = self.P.vals(f, i.o[0])
                for (oo, off) in vals:
                    for g, j in self.stores_to(oo):
                        if j.op == "store" and j.d.get("vt") == "ptr" and any(C20.overlap(off, 8, o2, 8) for (ob, o2) in self.P.vals(g, j.o[1]) if ob == oo):
                            if not self.deep(g, j.o[0]):
                                return False
            return True
        if i.is_call:
            c = i.callee or ""
            if c.startswith("llvm.threadlocal") or re.search(r"malloc|^_Znwm|aligned_alloc|ZSTD_createCCtx|__cxa_begin_catch|__cxa_allocate", c):
                return True
            cs = self.E.callees(f, i)
            if cs:
                return all(self.deep(self.m.F[x], j.o[0]) for x in cs for j in self.m.F[x].ins() if j.op == "ret" and j.o)
            return i.t != "ptr"
        if op in ("extractvalue", "landingpad", "insertvalue"):
            return True
        return i.t != "ptr"

    def root(self, f, o):
        while o[0] == "i":
            i = f.instrs[o[1]]
            if i.op in ("getelementptr", "bitcast", "freeze"):
                o = i.o[0]
            else:
                return i.op
        return o[0]

    def stores_to(self, obj):
        if not hasattr(self, "_st"):
            self._st = {}
            for x in self.fns:
                g = self.m.F[x]
                for j in g.ins():
                    if j.op == "store":
                        for (oo, _) in self.P.vals(g, j.o[1]):
                            self._st.setdefault(oo, []).append((g, j))
        return self._st.get(obj, ())


def written(f, i, m):
    """pointer operands through which instruction i writes non-atomically"""
    if i.op == "store":
        return [] if i.d.get("ord") else [i.o[1]]
    if i.is_call:
        c = i.callee or ""
        if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) or c in ("memcpy", "memmove", "memset"):
            return [i.o[0]]
        if c.startswith("llvm.masked.store"):
            return [i.o[1]]
        t = m.F.get(c)
        if c in PTRARGS:
            return [i.o[k] for k in PTRARGS[c] if k < len(i.o)]
        if (t is None or t.decl) and c and not IGNORE.match(c):
            return [o for o in i.o if o[0] in ("i", "a", "g", "x")]
    return []


def read(f, i):
    if i.op == "load":
        return [] if i.d.get("ord") else [(i.o[0], i.sz)]
    if i.is_call and i.callee and i.callee.startswith(("llvm.memcpy", "llvm.memmove")):
        return [(i.o[1], cval(i.o[2]))]
    return []


def run(ctx):
    m = pool.std_module(ctx)
    P = pool.std_pta(ctx, m)
    p = Pool(ctx, m, P)
    p.notifygate = C21.gatefields(p)
    n = {"paths": 0, "events": 0}
    C21.lockset(ctx, p, n)
    C21.alloc(ctx, p, n)
    E = C20.Eff(P, m)
    # 1. tasks against tasks
    pr = Private(p, E)
    nst = nrd = 0
    shared = {}
    G = guarded(m)
    for x in sorted(pr.fns):
        f = m.F[x]
        for i in f.ins():
            for o in written(f, i, m):
                if o[0] not in ("i", "a", "g", "x"):
                    continue
                if o[0] == "i" and f.instrs[o[1]].t not in ("ptr", None):
                    continue
                nst += 1
                if pr.deep(f, o):
                    for (ob, off) in P.vals(f, o):
                        if not ob.startswith("A:") or ob.split(":")[1] not in pr.fns:
                            shared.setdefault(ob, set()).add((off, i.sz or None))
                    continue
                if i.callee and i.callee == "free":
                    continue
                objs = {ob for ob, _ in P.vals(f, o)}
                if objs and all(mutexed(ob, p, m, f, i) for ob in objs):
                    continue
                if (f.name, i.id) in G:
                    continue
                if objs and all(ob.startswith("G:") and tls(m, ob) for ob in objs):
                    continue
                ctx.ob(False)
                ctx.fail("task:%s" % short(f.name), "a pool task writes memory that is not private to it (neither its stack, its allocations, thread-local, nor selected by its own index) and without atomic operation or lock", i.loc(), [str(sorted(objs))[:200]])
    for x in sorted(pr.fns):
        f = m.F[x]
        for i in f.ins():
            for o, sz in read(f, i):
                nrd += 1
                if pr.deep(f, o):
                    continue
                for (ob, off) in P.vals(f, o):
                    if ob.startswith("G:") or ob.startswith("A:") and ob.split(":")[1] in pr.fns:
                        continue
                    if any(C20.overlap(off, sz, o2, s2) for (o2, s2) in shared.get(ob, ())):
                        ctx.ob(False)
                        ctx.fail("taskread:%s" % short(f.name), "a pool task reads, not through its own index, memory that the other tasks write", i.loc(), [ob])
    ctx.ob(True, nst + nrd)
    # 2. submitter against tasks
    nc = 0
    users = [f for f in p.userfns if f.name in p.creators]
    for f in users:
        sub = type(ctx)("C20", ctx.tier)
        pend = C20.waits(sub, p, f, n)
        nc += conflicts(ctx, p, E, f, pend)
    ctx.ob(True, max(1, nc))
    # 3. process-wide state
    ng = 0
    for f in m.defined():
        init = f.name.startswith(("_GLOBAL__", "__cxx_global_var_init"))
        for i in f.ins():
            for o in written(f, i, m):
                if o[0] not in ("i", "a", "g", "x"):
                    continue
                for ob, off in P.vals(f, o):
                    if not ob.startswith("G:") or tls(m, ob):
                        continue
                    ng += 1
                    if init or (f.name, i.id) in G or mutexed(ob, p, m, f, i) or ob.startswith("G:_ZGV"):
                        continue
                    if o[0] not in ("g", "x") and len({a for a, _ in P.vals(f, o)}) > 1 and ambiguous(f, o, ob, m):
                        continue
                    ctx.ob(False)
                    ctx.fail("global:%s" % ob[2:], "the process-wide variable %s is written outside of its one-time initialisation, without lock or atomic operation" % dem(m, ob), i.loc())
    ctx.ob(True, ng)
    ctx.cov.update({"task_reachable_functions": len(pr.fns), "task_writes": nst, "task_reads": nrd, "global_writes": ng, "submitter_conflict_tests": nc,
                    "globals_writable": sum(1 for g in m.globals.values() if not g.get("const") and not g.get("decl"))})
    ctx.explanation = ("ownership and lockset analysis: each write reachable from a pool task goes through a pointer proved private to the task (stack, own allocation, "
                       "thread-local, or array slot selected injectively by the index captured by value), is atomic, or is made under the mutex that protects the "
                       "object on every path; tasks do not read, except through their index, what other tasks write; the submitting thread does not touch what tasks "
                       "write or write what they read between submission and wait; every process-wide variable is constant, thread-local, atomic, under its mutex, or "
                       "written only during its guarded one-time initialisation")
    ctx.assumptions += ["function-local statics are initialised under the guard emitted by the compiler", "distinct indices captured by distinct tasks", "external zstd functions are thread-safe"]


def conflicts(ctx, p, E, f, pend):
    nc = 0
    P = p.P
    excl = {p.obj}
    for i in f.ins():
        if i.is_call and i.callee and ("allocate_task" in i.callee or "14TaskAllocation8allocate" in i.callee):
            excl |= {o for o, _ in P.vals(f, ["i", i.id])}
        if i.is_call and i.callee == "pthread_mutex_lock":
            excl |= {o for o, _ in P.vals(f, i.o[0]) if o.startswith("G:")}
    for iid in p.creators[f.name]:
        excl |= {o for o, _ in P.vals(f, f.instrs[iid].o[1])}
    mine = set()
    for iid, g in p.creators[f.name].items():
        mine |= p.vt[g]
    tot = E.total(mine)
    for iid in pend:
        i = f.instrs[iid]
        for (k, o, off, sz, at) in E.of_instr(f, i):
            if o in excl or o.startswith(("F:", "G:_ZTV")):
                continue
            nc += 1
            for (k2, off2, sz2, at2), (g2, j2) in tot.get(o, {}).items():
                if k == "r" and k2 == "r" or at and at2:
                    continue
                if C20.overlap(off, sz, off2, sz2):
                    ctx.ob(False)
                    ctx.fail("early:%s:%s" % (f.name, o if not o.startswith(("A:", "H:")) else "local"),
                             "%s %s memory that a submitted task %s at %s, before waiting for the tasks" % (f.name, "reads" if k == "r" else "writes", "writes" if k2 == "w" else "reads", j2.loc()), i.loc())
                    break
    return nc


def ambiguous(f, o, ob, m):
    """a pointer that may point to many objects only includes the global through imprecision when the global is constant data"""
    g = m.globals.get(ob[2:])
    return bool(g and g.get("const"))


def tls(m, ob):
    g = m.globals.get(ob[2:])
    return bool(g and (g.get("tls") or g.get("const")))


def dem(m, ob):
    g = m.globals.get(ob[2:])
    return g["dem"] if g else ob


def short(n):
    return re.sub(r"^_ZN6stenos(6detail)?L?", "", n)[:50]


def mutexed(ob, p, m, f, i):
    """objects protected by their own mutex are covered by the lockset analysis"""
    if ob == p.obj:
        return True
    if not hasattr(p, "_mx"):
        p._mx = set()
        for g in m.defined():
            for j in g.ins():
                if j.is_call and j.callee == "pthread_mutex_lock":
                    p._mx |= {o for (o, off) in p.P.vals(g, j.o[0]) if o.startswith("G:")}
    return ob in p._mx


def guarded(m):
    """(function, instr) executed only between a successful __cxa_guard_acquire and the matching release"""
    out = set()
    from vlib.explore import Explore
    for f in m.defined():
        acq = [i for i in f.ins() if i.is_call and i.callee == "__cxa_guard_acquire"]
        if not acq:
            continue
        held, free = set(), set()
        # forward: block-level states 'held' after the nonzero edge of the test of acquire
        start = {}
        for a in acq:
            start[a.id] = a

        def edge_held(b, s):
            """True when edge b->s is taken only if a guard acquire of this block returned nonzero"""
            t = b.term
            if t.op != "br" or len(t.d.get("succ", ())) != 2 or not t.o:
                return False
            c = strip(f, t.o[0])
            if c[0] != "i":
                return False
            ci = f.instrs[c[1]]
            if ci.op != "icmp" or cval(ci.o[1]) != 0:
                return False
            v = strip(f, ci.o[0])
            if v[0] == "i" and v[1] in start:
                taken = s.i == t.d["succ"][0]
                return (ci.pred == "ne") == taken
            return False
        IN = {0: {0}}
        work = [f.blocks[0]]
        while work:
            b = work.pop()
            for st in list(IN[b.i]):
                cur = st
                for i in b.ins:
                    if i.is_call and i.callee in ("__cxa_guard_release", "__cxa_guard_abort"):
                        cur = max(0, cur - 1)
                for s in b.succ:
                    nx = cur
                    if edge_held(b, s):
                        nx = min(3, cur + 1)
                    if nx not in IN.setdefault(s.i, set()):
                        IN[s.i].add(nx)
                        work.append(s)
        for b in f.blocks:
            if b.i not in IN:
                continue
            lo = min(IN[b.i])
            for i in b.ins:
                if i.is_call and i.callee in ("__cxa_guard_release", "__cxa_guard_abort"):
                    lo = max(0, lo - 1)
                if lo > 0:
                    out.add((f.name, i.id))
    return out
