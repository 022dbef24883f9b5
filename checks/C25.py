"""C25: locks of the compressed vector.

1. every function returns, and unwinds, with the locks it was given (path-sensitive typestate; member functions that hand a lock to their caller are
   inlined into it);
2. blocking acquisitions respect one order: a bucket before the list and context locks, none while an exclusive bucket, list or context lock is held;
3. the lock class itself: every transition of its word keeps the protocol, with acquire / release ordering, and waiting ends."""
import re
import time
from vlib import esp
from vlib.mini import Mini, M64
import cvec


class Locks:
    """explores one function; collects imbalance, blocking acquisitions under locks"""

    def __init__(self, m, f, mod):
        self.m, self.f = m, f
        self.bad = {}          # (kind, location) -> text
        self.order = set()     # (held key, held class, held shared, acquired key, class, shared, loc)
        self.acq = set()       # (class, shared, loc) blocking acquisitions
        self.calls = set()     # (callee, frozenset of held (class, shared), loc)
        self.sites = set()
        self.exits = 0
        fx = cvec.Effects(m, f, mod)
        self.rec = cvec.recursive(m, f.name)
        fx.e = self.e = esp.Esp(f, self.step, alias=self.alias, calleffect=fx, cap=30000)
        self.e.post = self.post

    def run(self):
        """refined when the merged exploration finds an imbalance: paths that chose different objects are kept apart, a recursive function is explored
        from its outer calls and from its inner ones"""
        self.limit()
        self.ok = self.e.run(frozenset())
        if not self.bad and self.ok:
            return
        b, k = self.bad, self.ok
        self.bad, self.e.split, self.e.truncated, ok, n = {}, True, False, True, 0
        self.inner = None
        self.limit()
        ctxs = [self.outer()]
        while ctxs and ok:
            old = self.inner
            self.e.n = 0
            ok = self.e.run(frozenset(), self.entry(ctxs.pop()))
            n += self.e.n
            if self.inner is not None and (old is None or self.inner != old):
                ctxs = [self.inner]
        self.e.n = n
        if ok:
            self.ok = True
        else:
            self.bad, self.ok = (b, k) if not self.e.truncated or time.time() < self.e.deadline else ({}, False)

    END = None          # when the whole analysis has to be over

    def limit(self):
        self.e.deadline = time.time() + 25
        if self.END:
            self.e.deadline = min(self.e.deadline, self.END)

    def outer(self):
        """what the other callers of a recursive function pass for sure"""
        facts = {}
        sites = [i for g in self.m.defined() for i in g.ins() if i.is_call and i.callee == self.f.name and g is not self.f]
        if not self.rec or not sites:
            return facts
        for k in range(len(self.f.args)):
            if all(i.o[k][0] == "n" for i in sites):
                facts[("arg", k)] = ("e", 0)
        return facts

    def collect(self, i, env):
        """what is known at an inner call, in terms of the callee's arguments"""
        S, got = self.e.S, {}
        same = set()
        for k in range(len(self.f.args)):
            v = self.e.sym(i.o[k], env)
            if v is S.mk("arg", k):
                same.add(v)
            x = self.e._factof(v, env)
            if x:
                got[("arg", k)] = x
        for a, (v, sz) in env.mem.items():
            if isinstance(a, tuple):
                continue
            p = S.parts(a)[1]
            if p and all(x in same for x in p):
                x = self.e._factof(v, env)
                if x:
                    got[("mem", a, sz)] = x
        if self.inner is None:
            self.inner = got
        else:
            self.inner = {k: j for k, x in self.inner.items() if k in got for j in [esp.fjoin(x, got[k])] if j}

    def entry(self, facts):
        env = esp.Env()
        S, e = self.e.S, self.e
        for k, x in facts.items():
            if k[0] == "arg":
                s = S.mk("arg", k[1])
            else:
                s = S.mk("ldv", k[1], k[2], e.kept.setdefault(("entry", k[1]), e.k0 + len(e.kept)))
                env.mem[k[1]] = (s, k[2])
            if x[0] == "e":
                e.put(s, x[1], env)
            else:
                for c in x[1]:
                    e.putne(s, c, env)
        return env

    def post(self, i, env):
        """the lists are circular: the node before (after) one that is not the first (last) is not the sentinel"""
        if i.op != "load" or i.t != "ptr" or not env.facts:
            return
        S = self.e.S
        a = self.e.sym(i.o[0], env)
        c, p = S.parts(a)
        for k, x in list(env.facts.items()):
            if x != ("e", 0) or k.op != "eq":
                continue
            for n, b in (k.a, k.a[::-1]):
                if b.op in ("ldv", "ld") and S.lin(0, [(a, 1), (n, -1)]).op == "c":
                    d = S.lin(0, [(a, 1), (n, -1)]).a[0]
                    h = S.lin(-(8 - d), [(b.a[0], 1)])
                    if d in (0, 8) and self.listhead(b.a[0]):
                        self.e.learn(S.icmp("eq", self.e.sym(["i", i.id], env), h, "ptr"), False, env)

    def listhead(self, a):
        t = self.e.fld.get(a)
        return t is None or "Iter" in t[0] or "List" in t[0] or "Node" in t[0]

    def alias(self, A, B):
        fa, fb = self.e.fld.get(A), self.e.fld.get(B)
        return not (fa or fb)      # typed fields: another field, or the same field of another object

    def cls(self, i):
        fld = self.e.field(i.o[0])
        if not fld:
            return "?"
        return "%s::%s" % (re.sub(r"^%(struct|class)\.", "", fld[0]).split("::")[-1].split(".")[0], self.m.field(*fld))

    def step(self, i, u, env):
        op = cvec.lockop(i)
        if op:
            self.sites.add(i.id)
            k = self.e.S.erase(self.e.sym(i.o[0], env))
            c = self.cls(i)
            h = dict(u)
            kind, sh = op
            if kind == "lock":
                for (kk, ss), (n, cc) in h.items():
                    self.order.add((kk, cc, ss, k, c, sh, i.loc()))
                self.acq.add((c, sh, i.loc()))
                return self.add(h, k, sh, c)
            if kind == "try":
                s = self.e.S.mk("leaf", i.id)
                dest = 0 if i.op == "invoke" else None
                return [(self.add(h, k, sh, c), {s: 1}, dest), (u, {s: 0}, dest)]
            n = h.get((k, sh))
            if not n:
                self.bad.setdefault(("released", i.loc()), "%s is released%s without being held on this path (held: %s)" % (c, " in shared mode" if sh else "", self.show(u)))
                return None
            if n[0] == 1:
                del h[(k, sh)]
            else:
                h[(k, sh)] = (n[0] - 1, n[1])
            return frozenset(h.items())
        if i.is_call and i.callee in self.m.F and not self.m.F[i.callee].decl:
            if i.callee == self.f.name and self.e.split:
                self.collect(i, env)
            self.calls.add((i.callee, frozenset((c, ss) for (k, ss), (n, c) in u), i.loc()))
        if i.op == "ret" or i.op == "resume":
            self.exits += 1
            if u:
                self.bad.setdefault(("kept", i.loc()), "%s still held at the %s exit" % (self.show(u), "normal" if i.op == "ret" else "exceptional"))
            return None
        return u

    def add(self, h, k, sh, c):
        h = dict(h)
        n = h.get((k, sh), (0, c))[0]
        if n >= 3:
            return None
        h[(k, sh)] = (n + 1, c)
        return frozenset(h.items())

    def show(self, u):
        return ", ".join("%s[%s]%s" % (c, esp.show(k), " shared" if ss else "") for (k, ss), (n, c) in u) or "none"


def analyse(ctx):
    """member functions that leave the locks as they found them stay calls, the others are inlined into their callers (innermost first)"""
    m0 = ctx.mod("x86-64", "cvec", passes="sroa")
    names = {n for n in cvec.members(m0) if len(m0.F[n].instrs) > 30 and not re.search(r"Iter|RefWrapper", m0.F[n].dem)}
    mod = cvec.mods(m0)
    res = {}
    Locks.END = time.time() + 250
    for rnd in range(8):
        m = cvec.module(ctx, names)
        res = {}
        for f in m.defined():
            if not cvec.LOCKOP.match(f.name) and f.instrs:      # roots, kept members, functions that cannot be inlined (recursive)
                L = res[f.name] = Locks(m, f, mod)
                L.run()
        bad = {n for n, L in res.items() if L.bad and n in names and not cvec.recursive(m, n)}
        drop = {n for n in bad if not any(c[0] in bad and c[0] != n for c in res[n].calls)} or bad
        if not drop:
            break
        names -= drop
    return m, res, names


def base(k):
    """the part of a bucket address that identifies the vector"""
    if k.op == "lin":
        b = [x for x, c in k.a[1] if c == 1 and x.op in ("ld", "ldv")]
        return b[0] if len(b) == 1 else None
    return k if k.op in ("ld", "ldv") else None


def run(ctx):
    m, res, names = analyse(ctx)
    ctx.need(any(L.sites for L in res.values()) or time.time() > Locks.END, "lock operations of the compressed vector")
    undecided = []
    for n, L in sorted(res.items()):
        nm = m.F[n].dem
        short = nm if len(nm) < 90 else "..." + nm[-80:]
        for (kind, loc), text in sorted(L.bad.items()):
            ctx.fail("balance:%s:%s" % (kind, loc.split("/")[-1]), "%s: %s" % (short, text), loc)
        ctx.ob(not L.bad, max(1, len(L.sites)))
        if not L.ok:
            undecided.append(short)
    order(ctx, m, res)
    nproto = protocol(ctx, m)
    big = sorted(res.items(), key=lambda x: -x[1].e.n)[:6]
    for n, L in big:
        ctx.sample("%s: %d lock operations, %d states, %d exits" % (m.F[n].dem[:70], len(L.sites), L.e.n, L.exits))
    ctx.cov.update({"functions": len(res), "member_functions_kept_as_calls": len(names), "lock_operations": sum(len(L.sites) for L in res.values()),
                    "states": sum(L.e.n for L in res.values()), "exits": sum(L.exits for L in res.values()), "lock_methods": nproto, "undecided": undecided})
    ctx.explanation = ("lock typestate of cvector<E> with an opaque element type, allocator and functors that may throw: on every path of every public operation, "
                       "normal and exceptional, each lock acquired is released exactly once (locks named by the expression of the bucket's address, reference and "
                       "iterator objects followed through the stack); acquisition order; transitions, memory orders and waiting loops of the lock class by abstract "
                       "interpretation of its methods")
    ctx.assumptions += ["the bucket array is not replaced by another thread while an operation runs (operations that grow or shrink the vector are exclusive)",
                        "stores to a typed field do not change the same field of a structurally different object that the path relies on"]


BUCKET = re.compile(r"ref_count|PackBuffer|\?")


def isbucket(res):
    """the class of locks taken in shared mode is the bucket lock"""
    s = {a[0] for L in res.values() for a in L.acq if a[1]}
    return s


def order(ctx, m, res):
    buckets = isbucket(res)
    # transitive blocking acquisitions of the kept functions
    acq = {n: {(c, s, l) for c, s, l in L.acq} for n, L in res.items()}
    ch = True
    while ch:
        ch = False
        for n, L in res.items():
            for c, h, loc in L.calls:
                if c in acq and not acq[c] <= acq[n]:
                    acq[n] |= acq[c]
                    ch = True
    graph = {}
    n = 0

    def rule(fn, hk, hc, hs, k, c, s, loc, concurrent):
        nonlocal n
        n += 1
        ok = True
        if c in buckets and hc not in buckets:
            ok = False
            why = "%s is waited for while %s is held; other operations take %s while they hold a bucket" % (c, hc, hc)
        elif c in buckets and hc in buckets:
            if concurrent and not (s and hs):
                ok, why = False, "%s is waited for%s while another bucket is held%s: two threads doing so wait for each other" % (
                    c, "" if s else " in exclusive mode", " in shared mode" if hs else " in exclusive mode")
            elif hk is not None and k is not None and not (s and hs) and base(hk) is not None and base(hk) is base(k):
                ok, why = False, "%s of the same vector is waited for while a bucket is held: the thread may wait for itself" % c
        elif c == hc:
            ok, why = False, "%s is waited for while it is held" % c
        else:
            graph.setdefault(hc, {}).setdefault(c, (fn, loc))
        ctx.ob(ok)
        if not ok:
            ctx.fail("order:%s>%s:%s" % (hc.split("::")[-1], c.split("::")[-1], loc.split("/")[-1]), "%s: %s" % (m.F[fn].dem[-90:], why), loc)

    # which kept functions are reachable from the operations allowed concurrently
    conc = {x for x in res if x.startswith("c_")}
    st = list(conc)
    while st:
        for c, h, loc in res[st.pop()].calls:
            if c in res and c not in conc:
                conc.add(c)
                st.append(c)
    for fn, L in res.items():
        for hk, hc, hs, k, c, s, loc in sorted(L.order, key=str):
            rule(fn, hk, hc, hs, k, c, s, loc, fn in conc)
        for cal, held, loc in sorted(L.calls, key=str):
            for hc, hs in held:
                for c, s, l2 in acq.get(cal, ()):
                    rule(fn, None, hc, hs, None, c, s, loc, fn in conc)
    # cycles between the other locks
    for a in graph:
        for b in graph[a]:
            if b != a and a in graph.get(b, {}):
                fn, loc = graph[b][a]
                ctx.fail("order:cycle:%s" % "-".join(sorted((a, b))), "%s and %s are acquired in both orders" % (a, b), loc)
    ctx.cov["order_rules"] = n
    ctx.cov["order"] = sorted("%s > %s" % (a, b) for a in graph for b in graph[a])


ACQ = ("acquire", "acq_rel", "seq_cst")
REL = ("release", "acq_rel", "seq_cst")


def protocol(ctx, m):
    cl = {}
    for f in m.defined():
        x = cvec.LOCKOP.match(f.name)
        if x:
            cl.setdefault(f.name[:x.start(1)], {})[cvec.OPS[x.group(1)]] = f
    n = 0
    for c, fs in cl.items():
        # the exclusive bit and the unit of the reader count
        W = R = None
        vals = {}

        def consts(kind, f):
            out = set()
            Mini(f, lambda k, i, x, u: (out.add((k, x, i.d.get("ord"))), u)[1]).run(0)
            return out
        if ("lock", False) in fs:
            for k, x, o in consts("lock", fs[("lock", False)]):
                if k == "cas" and x[1][0] == "c":
                    W = x[1][1] & -x[1][1]
        if ("unlock", True) in fs:
            for k, x, o in consts("unlock", fs[("unlock", True)]):
                if k == "rmw" and x[1][0] == "c":
                    R = x[1][1] if x[0] == "sub" else (-x[1][1]) & M64 if x[0] == "add" else R
                elif k == "cas" and x[1][0] == "w":
                    R = (-x[1][3]) & M64
        if not W:
            continue
        if not R:
            R = 1 << 63
        low = R - 1
        for op, f in sorted(fs.items()):
            n += 1
            method(ctx, m, f, op, W, R, low)
        progress(ctx, m, fs, W, R, low)
    return n


def method(ctx, m, f, op, W, R, low):
    """on every path exactly the transitions the method stands for"""
    kind, sh = op
    bad = {}

    def say(i, t):
        bad.setdefault(i.loc(), t)

    def event(k, i, x, u):
        o = i.d.get("ord")
        if k == "store":
            say(i, "the word of the lock is overwritten: a transition of another thread can be lost")
            return u
        if k == "ret":
            v = x[0]
            want = {"lock": ("A",), "unlock": ("U",), "try": ("A",)}[kind]
            tag = tuple(t + ("s" if sh else "x") for t in want)
            if kind == "try":
                for r, exp in ((1, tag), (0, ())):
                    if v is not None and (v[0] != "c" or (v[1] & 1) == r) and u != exp:
                        say(i, "returns %s with the lock %s" % ("true" if r else "false", "not acquired" if r else "acquired"))
            elif u != tag:
                say(i, "returns after the transitions (%s) instead of (%s)" % (", ".join(u), ", ".join(tag)))
            return u
        if k == "cas":
            e, n = x
            if e[0] == "c" and n[0] == "c":
                a, b = e[1], n[1]
                if b & W and not a & W:
                    if a & ~low & M64:
                        say(i, "the exclusive lock is taken while readers hold it")
                    if b & ~low & M64:
                        say(i, "taking the exclusive lock changes the reader count")
                    t = "Ax"
                elif a & W and not b & W:
                    t = "Ux"
                elif b - a == R:
                    t = "As" if not a & W else None
                    if a & W:
                        say(i, "a reader enters while a writer holds the lock")
                elif a - b == R:
                    t = "Us"
                elif (a ^ b) & (W | (~low & M64)):
                    say(i, "the word changes from %d to %d: no transition of the lock" % (a, b))
                    return u
                else:
                    return u
            elif e[0] == "w" and n[0] == "w" and e[1] == n[1]:
                d = (n[3] - e[3]) & M64
                if d == R:
                    t = "As"
                    if not e[2] & W:
                        say(i, "a reader enters although a writer may hold the lock")
                elif d == (-R) & M64:
                    t = "Us"
                elif d == W:
                    t = "Ax"
                    if not e[2] & W or (~low & M64) & ~e[2]:
                        say(i, "the exclusive lock is taken although readers or another writer may hold it")
                elif d == (-W) & M64:
                    t = "Ux"
                elif d & (W | ~low) & M64:
                    say(i, "the word changes by %d: no transition of the lock" % d)
                    return u
                else:
                    return u
            elif e[0] == "w" and n[0] == "c" and n[1] & W and not n[1] & ~low & M64:
                t = "Ax"
                if not e[2] & W or (~low & M64) & ~e[2]:
                    say(i, "the exclusive lock is taken although readers or another writer may hold it")
            else:
                say(i, "compare-exchange with values the analysis cannot bound")
                return u
        else:
            rk, v = x
            if v[0] != "c":
                say(i, "the word is changed by an unknown amount")
                return u
            c = v[1]
            if rk == "and":
                if (~c & M64) & (~low & M64):
                    say(i, "the reader count is cleared")
                if c & W:
                    return u
                t = "Ux"
            elif rk == "or":
                if c & (W | (~low & M64)):
                    say(i, "bits of the writer or of the readers are set without holding the lock")
                return u
            elif rk in ("add", "sub"):
                d = c if rk == "add" else (-c) & M64
                t = {R: "As", (-R) & M64: "Us", (-W) & M64: "Ux"}.get(d)
                if t is None:
                    say(i, "the word changes by %d: no transition of the lock" % d)
                    return u
                if t == "As":
                    say(i, "a reader enters whatever the state of the lock")
            else:
                say(i, "the word is overwritten")
                return u
        if t[0] == "A" and o not in ACQ:
            say(i, "acquisition with memory order %s: what the former owner wrote may not be seen" % o)
        if t[0] == "U" and o not in REL:
            say(i, "release with memory order %s: the next owner may not see what was written" % o)
        return u + (t,) if len(u) < 3 else u

    M = Mini(f, event)
    M.run(())
    ctx.ob(not bad)
    for loc, t in bad.items():
        ctx.fail("protocol:%s:%s" % (f.dem.split("::")[-1].split("(")[0], loc.split("/")[-1]), "%s: %s" % (f.dem[:80], t), loc)


def progress(ctx, m, fs, W, R, low):
    """waiting ends: while the word stays compatible with the request every path of the retry loop gets through"""
    flags = low & ~W
    bits = [1 << k for k in range(6) if flags >> k & 1]
    for op, words, text in ((("lock", False), [0] + bits, "the lock is free"), (("lock", True), [0, R] + [b for b in bits] + [b | R for b in bits], "no writer holds the lock")):
        f = fs.get(op)
        if f is None:
            continue
        for w in words:
            got = []
            M = Mini(f, lambda k, i, x, u: (got.append(k) if k == "ret" else None, u if k != "cas" else None)[1], word=w, cap=20000)
            # a successful compare-exchange ends the path; so must every path
            ended = []
            M.event = lambda k, i, x, u: (ended.append(k), None)[1] if k == "cas" else u
            done = M.run(0)
            # a path that loops for ever revisits its state: then some block state has no successor leading to the end
            loop = not ended or lasso(M)
            ctx.ob(not loop)
            if loop:
                ctx.fail("progress:%s:%d" % (f.dem.split("::")[-1].split("(")[0], w), "%s: %s (word %s) but the request is never granted: a thread that waits here while "
                         "another one waits for it does so for ever" % (f.dem[:80], text, bin(w)), f.loc())


def lasso(M):
    """does the explored state graph contain a cycle"""
    g = {}
    for key in M.seen:
        b, pred, env, u = key
        g[key] = [k for k in M.block(M.f.blocks[b], pred, dict(env), u) if k in M.seen]
    col = {}
    for s in g:
        if s in col:
            continue
        st = [(s, iter(g[s]))]
        col[s] = 1
        while st:
            v, it = st[-1]
            for x in it:
                if col.get(x) == 1:
                    return True
                if x not in col:
                    col[x] = 1
                    st.append((x, iter(g[x])))
                    break
            else:
                col[v] = 2
                st.pop()
    return False
