"""Model of the worker pool extracted from the IR: the worker function, the shared pool object, its mutex, condition variables, task list and
counters, the task functions and the functions that submit tasks.  Shared by C19, C20 and C21."""
import re
from vlib import pta, core
from vlib.explore import Explore
from vlib.facts import strip, cval
import apibuf

START = "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"
CVWAIT = "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"
NALL = "_ZNSt18condition_variable10notify_allEv"
NONE_ = "_ZNSt18condition_variable10notify_oneEv"
JOIN = "_ZNSt6thread4joinEv"


def std_module(ctx, march="haswell"):
    return ctx.mod(march, inline=True, keep=apibuf.KEEP, passes="sroa,globaldce")


def std_pta(ctx, m):
    P = pta.PTA(m).build()
    apibuf.seed(P, m, ctx.need)
    apibuf.seed_opaque(P, m)
    return P.solve()


def flat(c):
    if c[0] == "f":
        yield c[1]
    for x in c[1:]:
        if isinstance(x, list):
            yield from flat(x)


class Pool:
    def __init__(self, ctx, m, P):
        self.ctx, self.m, self.P = ctx, m, P
        self.W = [f for f in m.defined() if f.name.endswith("_M_runEv") and f.name.startswith("_ZNSt6thread11_State_impl")]
        ctx.need(self.W, "a function run by a std::thread")
        self.obj = None
        self.cv1 = None
        for w in self.W:
            for i in w.ins():
                if i.is_call and i.callee == CVWAIT:
                    for (o, off) in P.vals(w, i.o[0]):
                        if o.startswith("G:") and off[0] == 0:
                            self.obj, self.cv1 = o, off[1]
        ctx.need(self.obj, "worker waiting on a condition variable of a global pool")
        # mutex offset(s)
        self.mutex = set()
        for w in self.W:
            for i in w.ins():
                if i.is_call and i.callee == "pthread_mutex_lock":
                    for (o, off) in P.vals(w, i.o[0]):
                        if o == self.obj and off[0] == 0:
                            self.mutex.add(off[1])
        # fields of the pool object accessed: (f, instr) -> offset
        self.acc = {}
        for f in m.defined():
            for i in f.ins():
                if i.op == "load":
                    p = i.o[0]
                elif i.op == "store":
                    p = i.o[1]
                elif i.op in ("atomicrmw", "cmpxchg"):
                    p = i.o[0]
                else:
                    continue
                offs = [off[1] for (o, off) in P.vals(f, p) if o == self.obj and off[0] == 0]
                if offs:
                    self.acc[(f.name, i.id)] = offs
        # counters: integer fields updated relative to themselves
        self.counter = {}        # offset -> set of (in worker?, delta)
        self.setconst = {}
        for f in m.defined():
            for i in f.ins():
                if i.op != "store" or (f.name, i.id) not in self.acc:
                    continue
                for off in self.acc[(f.name, i.id)]:
                    d = self.delta(f, i, off)
                    if d is not None:
                        self.counter.setdefault(off, set()).add((f in self.W, d))
                    else:
                        self.setconst.setdefault(off, []).append((f, i))
        wl = [o for o, s in self.counter.items() if any(w for w, _ in s)]
        self.proc = wl[0] if len(wl) == 1 else None
        gl = [o for o, s in self.counter.items() if not any(w for w, _ in s)]
        self.gates = set(gl)
        # task functions: virtual targets of the worker
        self.apply, self.dtors = set(), set()
        for w in self.W:
            for i in w.ins():
                if i.is_call and not i.callee:
                    for c in P.callees[(w.name, i.id)]:
                        (self.dtors if re.search(r"D[012]Ev$", c) else self.apply).add(c)
        ctx.need(self.apply, "virtual task functions run by the worker")
        # list offsets: pointer fields of the pool stored by the worker while it takes a task
        self.listoff = set()
        for w in self.W:
            for i in w.ins():
                if i.op == "store" and i.d.get("vt") == "ptr" and (w.name, i.id) in self.acc:
                    self.listoff |= set(self.acc[(w.name, i.id)])
        # vtables that contain task functions, and the functions that install them
        self.vt = {}
        for g in m.globals.values():
            if g["name"].startswith("_ZTV") and g.get("init"):
                fs = set(flat(g["init"])) & self.apply
                if fs and not all("8BaseTask" in x for x in fs):
                    self.vt[g["name"]] = fs
        self.creators = {}
        for f in m.defined():
            for i in f.ins():
                if i.op == "store":
                    g = gbase(i.o[0])
                    if g in self.vt and not re.search(r"D[012]Ev", f.name):
                        self.creators.setdefault(f.name, {})[i.id] = g
        # base classes: the vtable of a base is overwritten by the next store
        self.tasks = set()
        for d in self.creators.values():
            for g in d.values():
                self.tasks |= self.vt[g]

        self.userfns = [f for f in m.defined() if f not in self.W and not f.name.startswith(("_GLOBAL", "__cxx_global")) and
                        (f.name in self.creators or any(i.is_call and i.callee == CVWAIT and any(o == self.obj for o, _ in P.vals(f, i.o[0])) for i in f.ins()))]
        ul = set()
        for f in self.userfns:
            for i in f.ins():
                if i.op == "store" and i.d.get("vt") == "ptr":
                    ul |= set(self.acc.get((f.name, i.id), ()))
        self.listoff &= ul

    def field(self, off):
        t = self.poolstruct()
        n = self.m.field(t, off) if t else None
        return n or "+%d" % off

    def poolstruct(self):
        for g in self.m.globals.values():
            if "G:" + g["name"] == self.obj:
                t = g.get("t") or g.get("vt")
                return t
        return None

    def delta(self, f, i, off):
        """c when the store writes (load of the same field) + c"""
        v = strip(f, i.o[0])
        if v[0] != "i":
            return None
        a = f.instrs[v[1]]
        if a.op not in ("add", "sub"):
            return None
        x, y = a.o
        c = cval(y)
        if c is None and a.op == "add":
            x, y = y, x
            c = cval(y)
        if c is None:
            return None
        x = strip(f, x)
        if x[0] == "i" and f.instrs[x[1]].op == "load" and off in self.acc.get((f.name, x[1]), ()):
            return c if a.op == "add" else -c
        return None

    # ---- events ----
    def is_lock(self, f, i, name="pthread_mutex_lock"):
        return i.is_call and i.callee == name and any(o == self.obj and off == (0, x) for x in self.mutex for (o, off) in self.P.vals(f, i.o[0]))

    def cv(self, f, i):
        for (o, off) in self.P.vals(f, i.o[0]):
            if o == self.obj and off[0] == 0:
                return off[1]
        return None

    def fieldof(self, f, iid):
        """pool field whose current value SSA value iid is (loaded from it or stored to it)"""
        if iid not in f.instrs:
            return None
        i = f.instrs[iid]
        if i.op == "load":
            a = self.acc.get((f.name, iid))
            return a[0] if a and len(a) == 1 and a[0] not in self.listoff else None
        for u in i.users:
            if u.op == "store" and u.o[0] == ["i", iid] and (f.name, u.id) in self.acc and len(self.acc[(f.name, u.id)]) == 1:
                return self.acc[(f.name, u.id)][0]
        return None

    def empty_test(self, f, iid):
        """True when the i1 value is 'list link == address inside the pool' (ne: False), None otherwise"""
        i = f.instrs.get(iid)
        if i is None or i.op != "icmp" or i.pred not in ("eq", "ne"):
            return None
        for a, b in ((i.o[0], i.o[1]), (i.o[1], i.o[0])):
            a, b = strip(f, a), strip(f, b)
            if b[0] == "i" and f.instrs[b[1]].op == "load" and set(self.acc.get((f.name, b[1]), ())) & self.listoff:
                if any(o == self.obj for (o, _) in self.P.vals(f, a)):
                    return i.pred == "eq"
        return None

    def learn(self, f, known, out):
        """facts about pool fields implied by the values learned on an edge"""
        k = set(known)
        for key, v in out.items():
            if key[0] != "v":
                continue
            e = self.empty_test(f, key[1])
            if e is not None and v[0] == "c":
                k = {x for x in k if x[0] != "E"}
                k.add(("E", bool(v[1]) == e))
            o = self.fieldof(f, key[1])
            if o is not None and v[0] in ("c", "nz"):
                x = "nz" if v[0] == "nz" else v[1]
                if f.instrs[key[1]].t == "i1":
                    continue
                k = {y for y in k if y[0] != o}
                k.add((o, x))
        return frozenset(k)

    def inject(self, f, i, known, env):
        """value of a reloaded field, or of an emptiness test, that is already known"""
        if i.op == "load":
            a = self.acc.get((f.name, i.id))
            if a and len(a) == 1:
                for k in known:
                    if k[0] == a[0]:
                        env[("v", i.id)] = ("nz",) if k[1] == "nz" else ("c", k[1], 64)
        elif i.op == "icmp":
            e = self.empty_test(f, i.id)
            if e is not None:
                for k in known:
                    if k[0] == "E":
                        env[("v", i.id)] = ("c", 1 if k[1] == e else 0, 1)


class PX(Explore):
    """Explore with the values of pool fields injected after the instruction is executed (Explore.mem forgets redefined values)"""

    def __init__(self, pool, f, step, edge, known_of, **kw):
        self.pool = pool
        self.known_of = known_of
        super().__init__(f, step, edge, **kw)

    def mem(self, i, env):
        super().mem(i, env)
        if self._states and all(self.known_of(s) == self.known_of(self._states[0]) for s in self._states):
            self.pool.inject(self.f, i, self.known_of(self._states[0]), env)


def gbase(o):
    if o[0] == "g":
        return o[1]
    if o[0] == "x" and len(o) > 3:
        return gbase(o[3])
    return None


def isz(known, off):
    return (off, 0) in known and (off, False) in known


def isnz(known, off):
    return any(k[0] == off and k[0] != "E" and (k[1] == "nz" or k[1] != 0) for k in known)
