"""C20: a call that submits tasks waits for all of them on every path, and does not touch what they touch before.

Typestate over the CFG of every function that submits tasks: submitted -> waited, where waited means that in one critical section of the
pool mutex the running counter was seen to be zero and the list to be empty; plus a conflict analysis between what the submitter accesses while
tasks may be running and what the task functions read and write (points-to based)."""
from math import gcd
from vlib.facts import cval, strip
from vlib.pta import compat
import pool
from pool import PX, Pool, isz, isnz, CVWAIT
import C21


class Eff:
    """memory cells read / written by a set of instructions"""

    def __init__(self, P, m):
        self.P, self.m = P, m
        self.cache = {}

    def of_instr(self, f, i):
        """[(kind, obj, off, size or None, atomic)]"""
        r = []
        P = self.P
        if i.op == "load":
            r += [("r", o, off, i.sz, bool(i.d.get("ord"))) for (o, off) in P.vals(f, i.o[0])]
        elif i.op == "store":
            r += [("w", o, off, i.sz, bool(i.d.get("ord"))) for (o, off) in P.vals(f, i.o[1])]
        elif i.op in ("atomicrmw", "cmpxchg"):
            r += [("w", o, off, i.sz, True) for (o, off) in P.vals(f, i.o[0])]
        elif i.is_call:
            c = i.callee or ""
            t = self.m.F.get(c)
            if c.startswith(("llvm.memcpy", "llvm.memmove")) or c in ("memcpy", "memmove"):
                n = cval(i.o[2])
                r += [("w", o, off, n, False) for (o, off) in P.vals(f, i.o[0])]
                r += [("r", o, off, n, False) for (o, off) in P.vals(f, i.o[1])]
            elif c.startswith("llvm.memset") or c == "memset":
                r += [("w", o, off, cval(i.o[2]), False) for (o, off) in P.vals(f, i.o[0])]
            elif c.startswith("llvm.") and ("masked" in c or "store" in c or "load" in c or "prefetch" in c):
                for o in i.o:
                    if o[0] in ("i", "a", "g"):
                        r += [("r" if "load" in c else "w", ob, off, 64, False) for (ob, off) in P.vals(f, o)]
            elif (t is None or t.decl) and c and not c.startswith(("llvm.", "pthread_", "_ZNSt18condition", "__cxa_", "_ZSt", "_ZdlPv", "free")):
                for o in i.o:
                    if o[0] in ("i", "a", "g"):
                        r += [("w" if k else "r", ob, off, None, False) for k in (0, 1) for (ob, off) in P.vals(f, o) if not (k and ob == "SRC")]
        return r

    def callees(self, f, i):
        out = set()
        if i.is_call:
            for c in self.P.callees.get((f.name, i.id), ()):
                t = self.m.F.get(c)
                if t is not None and not t.decl:
                    out.add(c)
        return out

    def closure(self, names):
        seen, st = set(), list(names)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            f = self.m.F[x]
            for i in f.ins():
                st += self.callees(f, i)
        return seen

    def total(self, names):
        """{obj: [(kind, off, size, atomic, f, instr)]} over the functions and everything they call"""
        d = {}
        for x in self.closure(names):
            f = self.m.F[x]
            for i in f.ins():
                for (k, o, off, n, at) in self.of_instr(f, i):
                    d.setdefault(o, {}).setdefault((k, off, n, at), (f, i))
        return d


def overlap(a, na, b, nb):
    if a[0] == 0 and b[0] == 0:
        na = na or 1 << 40
        nb = nb or 1 << 40
        return a[1] < b[1] + nb and b[1] < a[1] + na
    g = gcd(a[0], b[0])
    if g <= 1:
        return True
    x = (b[1] - a[1]) % g
    return x < (na or g) or (g - x) < (nb or g)


def run(ctx):
    m = pool.std_module(ctx)
    P = pool.std_pta(ctx, m)
    p = Pool(ctx, m, P)
    ctx.need(p.mutex, "mutex of the pool taken by the worker")
    n = {"paths": 0, "events": 0}
    if p.proc is None:
        ctx.fail("no-counter", "the worker keeps no counter of running tasks that it increments and decrements: completion cannot be known", p.W[0].loc())
        return
    # the worker counts a task as running from the moment it takes it until it has run
    sub = type(ctx)("C21", ctx.tier)
    p.notifygate = C21.gatefields(p)
    for w in p.W:
        C21.worker(sub, p, w, n)
    for k, msg, loc, det in sub.findings:
        if k.split(":")[1] in ("uncount-early", "not-counted", "apply", "lost", "discard", "pop-unlocked", "exit-lost", "count2", "uncount2", "counter-value"):
            ctx.ob(False)
            ctx.fail(k, msg, loc)
    ctx.ob(True, max(1, sub.obligations))
    E = Eff(P, m)
    tot = E.total(p.tasks)
    users = [f for f in p.userfns if f.name in p.creators]
    ctx.need(users, "functions that submit tasks to the pool")
    pend = {}
    for f in users:
        pend[f.name] = waits(ctx, p, f, n)
    nc = 0
    for f in users:
        excl = {p.obj}
        for i in f.ins():
            if i.is_call and i.callee and ("allocate_task" in i.callee or "14TaskAllocation8allocate" in i.callee):
                excl |= {o for o, _ in P.vals(f, ["i", i.id])}
        # the closures: objects in which a task vtable is installed
        for iid in p.creators[f.name]:
            excl |= {o for o, _ in P.vals(f, f.instrs[iid].o[1])}
        for i in f.ins():
            if i.is_call and i.callee == "pthread_mutex_lock":
                excl |= {o for o, _ in P.vals(f, i.o[0]) if o.startswith("G:")}
        # only the tasks this function submits run on its data
        mine = set()
        for iid, g in p.creators[f.name].items():
            mine |= p.vt[g]
        tot = E.total(mine)
        for iid in pend[f.name]:
            i = f.instrs[iid]
            effs = [(x, f, i) for x in E.of_instr(f, i)]
            for c in E.callees(f, i):
                if c in mine or P.opaque_alloc.search(c):
                    continue
                for o, d in E.total([c]).items():
                    effs += [((k, o, off, sz, at), f, i) for (k, off, sz, at) in d]
            for ((k, o, off, sz, at), g, j) in effs:
                if o in excl or o.startswith(("F:", "G:_ZTV", "A:%s:" % next(iter(mine)))):
                    continue
                nc += 1
                for (k2, off2, sz2, at2), (g2, j2) in tot.get(o, {}).items():
                    if k == "r" and k2 == "r" or at and at2 and k == "w":
                        continue
                    if overlap(off, sz, off2, sz2):
                        ctx.fail("early:%s:%s" % (f.name, o if not o.startswith(("A:", "H:")) else "local"),
                                 "%s %s memory that a submitted task %s at %s, before waiting for the tasks" % (f.name, "reads" if k == "r" else "writes", "writes" if k2 == "w" else "reads", j2.loc()), i.loc())
                        break
    ctx.ob(True, max(1, nc))
    ctx.cov.update({"submitters": [f.name for f in users], "task_functions": len(p.tasks), "functions_reachable_from_tasks": len(E.closure(p.tasks)),
                    "states_explored": n["paths"], "submitter_instructions_while_tasks_run": sum(len(x) for x in pend.values()), "conflict_tests": nc})
    ctx.explanation = ("typestate over every CFG path of the functions that submit tasks: after an insertion in the pool's list every path to a return or to the unwinder "
                       "passes a critical section in which the running counter is known to be zero and the list empty; the worker typestate (a taken task is counted "
                       "before the lock is released and un-counted after it ran) makes this mean completion; and no instruction executed between submission and wait "
                       "reads memory written by the tasks or writes memory they access (points-to based conflict analysis)")
    ctx.assumptions += ["std::mutex and std::condition_variable behave as specified", "external zstd functions only access the buffers they are given"]


def waits(ctx, p, f, n):
    """state: (locked, created, pending, known); returns the ids of instructions executed while tasks may be running"""
    pend = set()

    def step(i, s, env):
        L, cr, pd, known = s
        if pd:
            pend.add(i.id)
        if i.is_call:
            if p.is_lock(f, i):
                return (1, cr, pd, frozenset())
            if p.is_lock(f, i, "pthread_mutex_unlock"):
                if pd == 1 and L and isz(known, p.proc) and ("E", True) in known:
                    n["events"] += 1
                    pd = 0
                return (0, cr, pd, frozenset())
            if i.callee == CVWAIT:
                return (L, cr, pd, frozenset())
            return s
        if i.op == "store":
            if i.id in p.creators.get(f.name, {}):
                n["events"] += 1
                return (L, 1, pd, known)
            offs = p.acc.get((f.name, i.id))
            if offs:
                if set(offs) & p.listoff and i.d.get("vt") == "ptr":
                    return (L, 0, 1, frozenset(k for k in known if k[0] != "E"))
                known = frozenset(k for k in known if k[0] not in offs)
                if p.proc in offs:
                    ctx.fail("%s:proc" % f.name, "the counter of running tasks is changed outside the worker", i.loc())
            return (L, cr, pd, known)
        if i.op in ("ret", "resume") and pd:
            ctx.ob(False)
            ctx.fail("%s:nowait" % f.name, "the function returns while tasks it submitted may still be queued or running (no critical section in which the running counter is zero and the list is empty)", i.loc())
        return s

    def edge(b, s, u, e, out):
        L, cr, pd, known = u
        if L:
            known = p.learn(f, known, out)
        return (L, cr, pd, known)

    x = PX(p, f, step, edge, lambda s: s[3])
    x.run((0, 0, 0, frozenset()))
    n["paths"] += x.n
    ctx.ob(True, x.n)
    ctx.sample("%s: %d states, %d instructions while tasks may run" % (f.name, x.n, len(pend)))
    return pend
