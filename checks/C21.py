"""C21: typestate of the worker pool.

Path exploration (property simulation over the CFG of the optimised-away-nothing IR) of the worker function and of every function that submits
tasks or waits, with the lock state of the pool mutex, the facts known about the pool fields in the current critical section, and the
life cycle of a task as abstract state."""
from vlib.facts import cval, strip
import pool
from pool import PX, Pool, isz, isnz, CVWAIT, NALL, NONE_, JOIN, START


def run(ctx):
    m = pool.std_module(ctx)
    P = pool.std_pta(ctx, m)
    p = Pool(ctx, m, P)
    ctx.need(len(p.mutex) >= 1, "mutex of the pool taken by the worker")
    n = {"paths": 0, "events": 0}
    if p.proc is None:
        w = p.W[0]
        ctx.fail("no-counter", "the worker keeps no counter of running tasks that it increments and decrements: completion cannot be known", w.loc())
        return
    deltas = {d for w, d in p.counter[p.proc]}
    ctx.ob(deltas >= {1, -1})
    if not deltas >= {1, -1}:
        ctx.fail("counter-deltas", "the counter '%s' of running tasks is changed by %s only: it must be incremented when a task is taken and decremented when it is finished"
                 % (p.field(p.proc), sorted(deltas)), p.W[0].loc())
        return
    init = {}
    p.notifygate = gatefields(p)
    for w in p.W:
        init[w.name] = worker(ctx, p, w, n)
    users = list(p.userfns)
    ctx.need(users, "functions that submit tasks to the pool")
    for f in users:
        user(ctx, p, f, n)
        if f.name in p.creators:
            # a waiter is released only when nothing is queued and nothing is running
            import C20
            C20.waits(ctx, p, f, n)
    lockset(ctx, p, n)
    dtor(ctx, p, n)
    ctor(ctx, p, n, init)
    alloc(ctx, p, n)
    ctx.cov.update({"pool": p.obj, "worker_functions": [w.dem[:80] for w in p.W], "task_functions": len(p.tasks), "submitters": [f.name for f in users],
                    "states_explored": n["paths"], "events_checked": n["events"],
                    "fields": {p.field(o): "counter" for o in p.counter}})
    ctx.explanation = ("typestate and lockset analysis of the worker pool on the IR: every feasible CFG path of the worker, of the submitting functions, of the "
                       "constructor and of the destructor is covered; rules: pool fields only under the mutex, a task is taken only when the list is known to be non "
                       "empty, counted in the same critical section, run and destroyed exactly once, un-counted afterwards, and every un-count is followed by "
                       "notify_all on the waiters' condition variable unless no waiter, running task count or queued task makes it useless; every insertion is "
                       "followed by a notification of the workers; waiters announce themselves before they sleep; the destructor raises the stop flag under the "
                       "lock, wakes everybody and joins")
    ctx.assumptions += ["std::mutex, std::condition_variable and std::thread behave as specified by the C++ standard"]


def worker(ctx, p, w, n, init=1, dry=False):
    """state: (locked, task phase, counted, notify duty, known facts)
    phase: 0 none, 1 taken, 2 run, 3 destroyed"""
    fails = []

    def bad(key, msg, i):
        fails.append((key, msg, i))

    def step(i, s, env):
        L, ph, cnt, dn, known = s
        f = w
        if i.is_call:
            c = i.callee
            if p.is_lock(f, i):
                n["events"] += 1
                if L:
                    bad("relock", "the worker locks the pool mutex it already holds", i)
                return (1, ph, cnt, dn, frozenset())
            if p.is_lock(f, i, "pthread_mutex_unlock"):
                n["events"] += 1
                if not L:
                    bad("unlock", "the worker unlocks the pool mutex it does not hold", i)
                leave(i, s)
                return (0, ph, cnt, None, frozenset())
            if c == CVWAIT and p.cv(f, i) is not None:
                n["events"] += 1
                if not L:
                    bad("wait-unlocked", "the worker waits without holding the mutex", i)
                if p.cv(f, i) != p.cv1:
                    bad("cv", "workers wait on several condition variables", i)
                if ph in (1, 2):
                    bad("lost", "the worker goes back to sleep with a task it has taken %s" % ("but not run" if ph == 1 else "but not destroyed"), i)
                if cnt:
                    bad("wait-counted", "the worker sleeps while it is still counted as running a task: waiters never see the end of the work", i)
                leave(i, s)
                return (L, 0, cnt, None, frozenset())
            if c in (NALL, NONE_) and p.cv(f, i) is not None and p.cv(f, i) != p.cv1:
                n["events"] += 1
                if dn == "need" and c == NALL:
                    return (L, ph, cnt, "ok", known)
                return s
            if not c:
                cs = p.P.callees[(f.name, i.id)]
                if cs & p.tasks:
                    n["events"] += 1
                    if ph != 1:
                        bad("apply", "a task is run %s" % ("a second time" if ph == 2 else "without having been taken from the list"), i)
                    return (L, 2, cnt, dn, known)
                if cs & p.dtors:
                    n["events"] += 1
                    if ph == 1:
                        bad("discard", "a task taken from the list is destroyed without having been run", i)
                    elif ph == 3:
                        bad("destroy2", "a task is destroyed twice", i)
                    return (L, 3, cnt, dn, known)
            return s
        if i.op == "store":
            offs = p.acc.get((f.name, i.id))
            if not offs:
                return s
            if set(offs) & p.listoff and i.d.get("vt") == "ptr":
                n["events"] += 1
                if ph == 1:
                    return s            # second link of the same removal
                if ("E", False) not in known:
                    bad("pop-empty", "a task is taken although the list is not known to be non-empty in this critical section (predicate not rechecked after waking up)", i)
                if ph == 2:
                    bad("leak", "the next task is taken before the previous one has been destroyed", i)
                if not L:
                    bad("pop-unlocked", "a task is taken without holding the pool mutex", i)
                return (L, 1, cnt, dn, frozenset(k for k in known if k[0] != "E"))
            for off in offs:
                d = p.delta(f, i, off)
                known = frozenset(k for k in known if k[0] != off)
                if off == p.proc:
                    n["events"] += 1
                    if d == 1:
                        if cnt:
                            bad("count2", "the running counter is incremented twice for one task", i)
                        cnt = 1
                        known = known | {(off, "nz")}
                    elif d == -1:
                        if not cnt:
                            bad("uncount2", "the running counter is decremented without having been incremented for this task", i)
                        if ph == 1:
                            bad("uncount-early", "a task is counted as finished before it has been run", i)
                        cnt, dn = 0, "need"
                    else:
                        bad("counter-value", "the running counter is changed by something else than +1 or -1", i)
                elif d is None and cval(i.o[0]) is not None:
                    known = known | {(off, cval(i.o[0]))}
            return (L, ph, cnt, dn, known)
        if i.op == "ret":
            if L:
                bad("exit-locked", "the worker returns while it holds the pool mutex", i)
            if ph in (1, 2):
                bad("exit-lost", "the worker returns with a task it has taken %s" % ("but not run" if ph == 1 else "but not destroyed"), i)
        return s

    def leave(i, s):
        L, ph, cnt, dn, known = s
        if ph == 1 and not cnt:
            bad("not-counted", "the mutex is released after a task was taken and before it is counted as running: a waiter can see an empty list and no running task while this task is pending", i)
        if dn == "need":
            useless = any(isz(known, g) for g in p.gates | p.notifygate) or isnz(known, p.proc) or ("E", False) in known
            if not useless:
                bad("no-notify", "the mutex is released after the counter of running tasks was decremented, without notify_all on the waiters' condition variable although there may be waiters, nothing running and nothing queued", i)

    def edge(b, s, u, e, out):
        L, ph, cnt, dn, known = u
        if L:
            known = p.learn(w, known, out)
        return (L, ph, cnt, dn, known)

    for init in (1, 0):
        fails.clear()
        x = PX(p, w, step, edge, lambda s: s[4])
        x.run((0, 0, init, None, frozenset()))
        n["paths"] += x.n
        if not any(k in ("uncount2", "count2", "wait-counted") for k, _, _ in fails) or init == 0:
            break
        first = list(fails)
        if init == 1 and not any(k == "count2" or k == "wait-counted" for k, _, _ in fails):
            break
    if init == 0 and fails:
        fails[:] = first
        init = 1
    for k, msg, i in fails:
        ctx.ob(False)
        ctx.fail("worker:" + k, msg, i.loc())
    ctx.ob(True, x.n)
    return init


def user(ctx, p, f, n):
    """state: (locked, created, inserted not notified, gate taken, known)"""
    def bad(key, msg, i):
        ctx.ob(False)
        ctx.fail("%s:%s" % (f.name, key), msg, i.loc())

    def step(i, s, env):
        L, cr, ins, g, known = s
        if i.is_call:
            c = i.callee
            if p.is_lock(f, i):
                if L:
                    bad("relock", "the pool mutex is locked while it is already held", i)
                return (1, cr, ins, g, frozenset())
            if p.is_lock(f, i, "pthread_mutex_unlock"):
                if not L:
                    bad("unlock", "the pool mutex is unlocked while it is not held", i)
                return (0, cr, ins, g, frozenset())
            if c == CVWAIT and p.cv(f, i) is not None:
                n["events"] += 1
                if not L:
                    bad("wait-unlocked", "waiting without holding the mutex", i)
                if ins:
                    bad("lost-wakeup", "the caller waits although the workers have not been notified of an inserted task", i)
                if p.cv(f, i) == p.cv1:
                    bad("wait-cv", "the caller waits on the condition variable of the workers, whose notifications it can steal", i)
                if p.gates and not g:
                    bad("gate", "the caller waits without having announced itself in '%s': the workers do not notify when they believe that nobody waits" % ", ".join(p.field(x) for x in p.gates), i)
                return (L, cr, ins, g, frozenset())
            if c in (NALL, NONE_) and p.cv(f, i) == p.cv1:
                n["events"] += 1
                return (L, cr, 0, g, known)
            return s
        if i.op == "store":
            if i.id in p.creators.get(f.name, {}):
                n["events"] += 1
                if cr:
                    bad("lost-task", "a task is created while the previous one has not been inserted in the list", i)
                if ins:
                    bad("lost-wakeup2", "a second task is submitted before the workers have been notified of the first one", i)
                return (L, 1, ins, g, known)
            offs = p.acc.get((f.name, i.id))
            if not offs:
                return s
            if set(offs) & p.listoff and i.d.get("vt") == "ptr":
                n["events"] += 1
                if not L:
                    bad("insert-unlocked", "the task list is modified without holding the pool mutex", i)
                return (L, 0, 1, g, frozenset(k for k in known if k[0] != "E"))
            for off in offs:
                d = p.delta(f, i, off)
                known = frozenset(k for k in known if k[0] != off)
                if off in p.gates:
                    n["events"] += 1
                    if d == 1:
                        g = g + 1 if g < 3 else 3
                    elif d == -1:
                        if not g:
                            bad("gate-under", "the number of waiters is decremented without having been incremented", i)
                        g = max(0, g - 1)
                    else:
                        bad("gate-const", "the number of waiters is overwritten instead of incremented: concurrent waiters are forgotten", i)
                elif off in p.notifygate and d is None:
                    bad("gate-const", "the field '%s' that tells the workers whether somebody waits is overwritten instead of counted: when one of several waiters leaves, the others are never woken" % p.field(off), i)
                elif off == p.proc:
                    bad("proc", "the counter of running tasks is changed outside the worker", i)
            return (L, cr, ins, g, known)
        if i.op in ("ret", "resume"):
            if L:
                bad("exit-locked", "the function returns while it holds the pool mutex", i)
            if cr:
                bad("exit-lost", "a task has been created but not inserted in the list when the function returns", i)
            if ins:
                bad("exit-notify", "a task has been inserted but the workers have not been notified when the function returns", i)
            if g:
                bad("exit-gate", "the number of waiters is still incremented when the function returns", i)
        return s

    def edge(b, s, u, e, out):
        L, cr, ins, g, known = u
        if L:
            known = p.learn(f, known, out)
        return (L, cr, ins, g, known)

    x = PX(p, f, step, edge, lambda s: s[4])
    x.run((0, 0, 0, 0, frozenset()))
    n["paths"] += x.n
    ctx.ob(True, x.n)
    ctx.sample("%s: %d states" % (f.name, x.n))


def gatefields(p):
    """non-counter fields of the pool that functions waiting for completion store"""
    out = set()
    for f in p.userfns:
        for i in f.ins():
            if i.op == "store":
                for off in p.acc.get((f.name, i.id), ()):
                    if off not in p.counter and off not in p.listoff and i.d.get("vt") != "ptr":
                        out.add(off)
    return out


def lockset(ctx, p, n):
    """every access to a mutable field of the pool is made with the mutex held (worker, submitters, destructor)"""
    shared = set(p.counter) | p.listoff | set(p.gates)
    for w in p.W:
        for i in w.ins():
            a = p.acc.get((w.name, i.id))
            if a and all(o == p.obj for o, _ in p.P.vals(w, i.o[1] if i.op == "store" else i.o[0])):
                shared |= set(a)
    shared = {o for o in shared if o not in p.mutex and any(o in v for v in p.acc.values())}
    fns = list(p.W) + p.userfns
    for f in fns:
        hits = {}

        def step(i, s, env):
            if i.is_call:
                if p.is_lock(f, i):
                    return 1
                if p.is_lock(f, i, "pthread_mutex_unlock"):
                    return 0
                return s
            a = p.acc.get((f.name, i.id))
            if a and set(a) & shared:
                n["events"] += 1
                if not s and i.d.get("ord") is None:
                    hits[i.id] = i
            return s
        x = PX(p, f, step, lambda b, t, u, e, o: u, lambda s: frozenset())
        x.run(0)
        n["paths"] += x.n
        ctx.ob(not hits, max(1, len(hits)))
        for i in hits.values():
            ctx.fail("lockset:%s:%s" % (f.name, p.field(p.acc[(f.name, i.id)][0])), "the pool field '%s' is accessed without holding the pool mutex" % p.field(p.acc[(f.name, i.id)][0]), i.loc())


def threadloops(f, callee):
    return [i for i in f.ins() if i.is_call and i.callee == callee]


def loop_of(f, b):
    """header block of the innermost loop containing b"""
    best = None
    for x in f.blocks:
        for s in x.succ:
            if f.dominates_b(s.i, x.i) and f.dominates_b(s.i, b.i):
                # natural loop body
                seen, st = {s.i}, [x]
                while st:
                    y = st.pop()
                    if y.i in seen:
                        continue
                    seen.add(y.i)
                    st.extend(y.pred)
                if b.i in seen and (best is None or len(seen) < len(best[1])):
                    best = (s, seen)
    return best


def iter_ok(f, h, body):
    """the loop counter starts at 0 and advances by 1 (None when it is no integer counter)"""
    res = None
    for i in h.ins:
        if i.op != "phi" or i.t not in ("i64", "i32"):
            continue
        st, stp = None, None
        for o, b in zip(i.o, i.d["inb"]):
            if b in body:
                x = strip(f, o)
                if x[0] == "i" and f.instrs[x[1]].op == "add" and f.instrs[x[1]].o[0] == ["i", i.id]:
                    stp = cval(f.instrs[x[1]].o[1])
            else:
                st = cval(o)
        if stp is not None and st is not None:
            res = (st == 0 and stp == 1)
    return res


def dtor(ctx, p, n):
    fs = [f for f in p.m.defined() if any(i.is_call and i.callee == JOIN for i in f.ins())]
    ctx.ob(bool(fs))
    if not fs:
        ctx.fail("join", "the threads of the pool are never joined", p.W[0].loc())
        return
    stop = set()
    for w in p.W:
        for i in w.ins():
            if i.op == "load" and i.t != "ptr":
                stop |= set(p.acc.get((w.name, i.id), ())) - set(p.counter) - p.listoff
    for f in fs:
        joins = [i for i in f.ins() if i.is_call and i.callee == JOIN]
        # the joins belong to the pool when the function touches its fields
        if not any(k[0] == f.name for k in p.acc):
            continue
        heads = set()
        for j in joins:
            lp = loop_of(f, j.bb)
            if lp is None:
                ctx.fail("join-loop", "only one of the threads is joined", j.loc())
                continue
            heads.add(lp[0].i)
            ok = iter_ok(f, lp[0], lp[1])
            ctx.ob(ok is not False)
            if ok is False:
                ctx.fail("join-all", "the loop that joins the threads does not start at the first one or skips some", j.loc())

        def step(i, s, env):
            L, fin, nt, jn = s
            if i.bb.i in heads:
                jn = 1
            if i.is_call:
                if p.is_lock(f, i):
                    return (1, fin, nt, jn)
                if p.is_lock(f, i, "pthread_mutex_unlock"):
                    return (0, fin, nt, jn)
                if i.callee == NALL and p.cv(f, i) == p.cv1:
                    return (L, fin, 1 if fin else nt, jn)
                if i.callee == JOIN:
                    n["events"] += 1
                    if L:
                        ctx.fail("join-locked", "the threads are joined while the pool mutex is held", i.loc())
                    if not fin:
                        ctx.fail("join-stop", "the threads are joined before the stop flag is raised", i.loc())
                    elif not nt:
                        ctx.fail("join-notify", "the threads are joined although they have not all been woken up (notify_all) after the stop flag was raised", i.loc())
                return (L, fin, nt, jn)
            if i.op == "store":
                for off in p.acc.get((f.name, i.id), ()):
                    if off in stop and cval(i.o[0]) not in (None, 0):
                        n["events"] += 1
                        if not L:
                            ctx.fail("stop-unlocked", "the stop flag is raised without holding the mutex: a worker between its test and its wait misses it", i.loc())
                        fin = 1
                    elif (off in p.listoff or off in p.counter) and not L and not jn:
                        ctx.fail("dtor-unlocked", "the pool is modified before its threads have been joined and without the mutex", i.loc())
            if i.op == "ret" and not jn:
                ctx.fail("dtor-nojoin", "the pool is destroyed on a path that does not join its threads", i.loc())
            return (L, fin, nt, jn)
        x = PX(p, f, step, lambda b, t, u, e, o: u, lambda s: frozenset())
        x.run((0, 0, 0, 0))
        n["paths"] += x.n
        ctx.ob(True, x.n)
    ctx.ob(bool(stop))
    if not stop:
        ctx.fail("stop", "no stop flag makes the worker return", p.W[0].loc())


def slice_of(f, o):
    seen, st = set(), [o]
    while st:
        x = st.pop()
        if x[0] == "a":
            seen.add(("a", x[1]))
        elif x[0] == "i" and x[1] not in seen:
            seen.add(x[1])
            st += f.instrs[x[1]].o
    return seen


def ctor(ctx, p, n, init):
    for f in p.m.defined():
        starts = [i for i in f.ins() if i.is_call and i.callee == START]
        if not starts:
            continue
        inits = [(i, off) for i in f.ins() if i.op == "store" for off in p.acc.get((f.name, i.id), ()) if off == p.proc]
        if not inits:
            # a thread started elsewhere must be joined in the same function
            js = [i for i in f.ins() if i.is_call and i.callee == JOIN]
            ctx.ob(bool(js))
            if not js:
                ctx.fail("start:%s" % f.name, "a thread is started outside of the pool and never joined", starts[0].loc())
            continue
        for st in starts:
            n["events"] += 1
            lp = loop_of(f, st.bb)
            ok = iter_ok(f, *lp) if lp else None
            ctx.ob(ok is not False)
            if ok is False:
                ctx.fail("start-all", "the loop that starts the threads does not start at the first one or skips some, although they are all counted and joined", st.loc())
        want = max(init.values())
        news = [i for i in f.ins() if i.is_call and i.callee == "_Znwm"]
        sizes = set()
        for i in news:
            sizes |= slice_of(f, i.o[0])
        for i, off in inits:
            v = strip(f, i.o[0])
            c = cval(v)
            n["events"] += 1
            if want == 0:
                ok = c == 0
            else:
                # the workers un-count themselves once before they wait: the counter starts with the number of threads
                v = strip(f, v, ("zext", "sext", "trunc", "freeze"))
                ok = c is not None and c > 0 or v[0] in ("i", "a") and (v[1] if v[0] == "i" else tuple(v)) in sizes
            ctx.ob(ok)
            if not ok:
                ctx.fail("counter-init", "the counter of running tasks does not start with the number of threads although every worker decrements it once before its first wait" if want
                         else "the counter of running tasks does not start with 0", i.loc())


def alloc(ctx, p, n):
    """objects protected by another mutex of the pool's machinery (task buffers): every access under that mutex"""
    m, P = p.m, p.P
    # mutex objects other than the pool, locked in functions reachable from tasks machinery
    objs = {}
    for f in m.defined():
        for i in f.ins():
            if i.is_call and i.callee == "pthread_mutex_lock":
                for (o, off) in P.vals(f, i.o[0]):
                    if o.startswith("G:") and o != p.obj:
                        objs.setdefault(o, set()).add(off)
    for o, offs in objs.items():
        for f in m.defined():
            if f.name.startswith(("_GLOBAL", "__cxx_global")) and not any(i.is_call and i.callee == "pthread_mutex_lock" for i in f.ins()):
                continue
            acc = {}
            for i in f.ins():
                q = i.o[0] if i.op in ("load", "atomicrmw", "cmpxchg") else i.o[1] if i.op == "store" else None
                if q is None:
                    continue
                v = [x for x in P.vals(f, q) if x[0] == o]
                if v and len(P.vals(f, q)) == 1:
                    acc[i.id] = i
            if not acc:
                continue
            hits = {}

            def step(i, s, env):
                if i.is_call and i.callee in ("pthread_mutex_lock", "pthread_mutex_unlock"):
                    if any((o, x) in P.vals(f, i.o[0]) for x in offs):
                        n["events"] += 1
                        lk = i.callee.endswith("_lock")
                        if lk == bool(s):
                            ctx.fail("alloc-lock:%s" % f.name, "unbalanced lock of %s" % o, i.loc())
                        return 1 if lk else 0
                if i.id in acc and not s and i.d.get("ord") is None:
                    hits[i.id] = i
                if i.op in ("ret", "resume") and s:
                    ctx.fail("alloc-exit:%s" % f.name, "a mutex is still held when the function returns", i.loc())
                return s
            x = PX(p, f, step, lambda b, t, u, e, q: u, lambda s: frozenset())
            x.run(0)
            n["paths"] += x.n
            ctx.ob(not hits, len(acc))
            for i in hits.values():
                ctx.fail("alloc:%s" % f.name, "the list of task buffers is accessed without its mutex", i.loc())
