"""C16: the outcome of a call depends on the arguments and on the parameters only: every other context cell is written in the call before it is
read; operations do not write parameters; reset restores what the constructor sets; the size of the buffers changes only with the buffers cleared."""
import re
from vlib.facts import Facts, strip, cval, tup
from pool import Pool, std_module, std_pta, gbase
from vlib.explore import Explore
from ctxmodel import CtxModel, FRESH


def casts(f, o):
    while True:
        o = strip(f, o, ("bitcast", "freeze", "zext", "trunc", "ptrtoint", "inttoptr"))
        if o[0] == "i" and f.instrs[o[1]].op == "getelementptr" and f.instrs[o[1]].d.get("off") == 0:
            o = f.instrs[o[1]].o[0]
            continue
        return o


class MustDef:
    """cells of the context certainly written since the entry of the function; summaries through calls and submitted tasks"""

    def __init__(self, M, zero, creators, vt, rel, constval=None):
        self.rel = rel
        self.M, self.zero, self.creators, self.vt = M, zero, creators, vt
        self.constval = constval
        self.sum = {}
        self.nload = 0

    def summary(self, f):
        if f.name in self.sum:
            return self.sum[f.name]
        self.sum[f.name] = (frozenset(), [])
        M = self.M
        F = Facts(f)
        exp, seen, outs = [], set(), []

        def step(i, s, env):
            ex = []
            s2 = s
            if i.is_call or i.op in ("load", "store", "atomicrmw", "cmpxchg"):
                s2 = self.instr(f, i, s, ex) & self.rel
            for (c, w, g) in ex:
                if (c, g.name, w.id) not in seen:
                    seen.add((c, g.name, w.id))
                    exp.append((c, w, g))
            if i.op == "ret":
                outs.append(s2)
            return s2

        def edge(b, t, s, env, out):
            if self.zero is not None and t not in M.succ(f, b, self.zero) or self.nullpath(f, F, b, t):
                return None
            return s | (self.edge(f, F, b, t) & self.rel)
        E = Explore(f, step, edge, cap=400000)
        E.run(frozenset())
        M.ctx.need(not E.truncated, "exploration of %s" % f.name)
        out = None
        for s in outs:
            out = s if out is None else out & s
        self.sum[f.name] = (out if out is not None else frozenset(), exp)
        return self.sum[f.name]

    def nullpath(self, f, F, b, t):
        """edge on which the context is a null pointer"""
        k = M_arg(self.M, f)
        tr = b.term
        if k is None or tr.op != "br" or not tr.o or len(tr.d["succ"]) != 2:
            return False
        return any(x[0] == "eq" and x[2] is not None and x[1] == ("a", k) and cval(x[2]) == 0 for x in F.atoms(tr.o[0], t.i == tr.d["succ"][0]))

    def edge(self, f, F, b, t):
        tr = b.term
        g = set()
        if tr.op == "br" and tr.o and len(tr.d["succ"]) == 2 and self.constval is None:
            for x in F.atoms(tr.o[0], t.i == tr.d["succ"][0]):
                if x[0] == "eq" and x[2] is not None:
                    for a, o in ((x[1], x[2]), (x[2], x[1])):
                        a = casts(f, list(a))
                        if a[0] == "i" and f.instrs[a[1]].op == "load":
                            c = self.M.cell(f, f.instrs[a[1]])
                            if c is not None:
                                g.add(c)
        return frozenset(g)

    def keyload(self, f, i):
        """a load that only feeds equality tests"""
        st = list(i.users)
        n = 0
        while st:
            u = st.pop()
            n += 1
            if u.op in ("zext", "trunc", "freeze", "bitcast") or (u.is_call and (u.callee or "").startswith("llvm.expect")):
                st += u.users
            elif u.op == "icmp" and u.pred in ("eq", "ne"):
                pass
            else:
                return False
        return n > 0

    def instr(self, f, i, s, exp):
        M = self.M
        s = set(s)

        def need(cell, what, g):
            if exp is not None and cell not in s:
                exp.append((cell, what, g))
        if True:
            if i.op in ("load", "atomicrmw", "cmpxchg", "store"):
                if (f.name, i.id) in M.acc:
                    c, cs = M.acc[(f.name, i.id)]
                    if i.op != "store":
                        if exp is not None:
                            self.nload += 1
                        if not (i.op == "load" and self.keyload(f, i)) and not (i.op == "atomicrmw" and not i.users and False):
                            if c is not None:
                                need(c, i, f)
                            else:
                                for off in cs:
                                    need(off[1] if off[0] == 0 else ("any",) + off, i, f)
                    if i.op != "load" and c is not None:
                        if self.constval is None or (i.op == "store" and c in self.constval and cval(i.o[0]) == self.constval[c]):
                            s.add(c)
                        elif self.constval is not None:
                            s.discard(c)
                if i.op == "store":
                    g = self.creators.get(f.name, {}).get(i.id)
                    for t in self.vt.get(g, ()) if g else ():
                        for (c, w, h) in self.summary(M.m.F[t])[1]:
                            need(c, w, h)
            elif i.is_call:
                c = i.callee
                if c and c in FRESH:
                    for k, n in FRESH[c].items():
                        x = M.exact(f, i.o[k])
                        if x is not None and self.constval is None:
                            s |= {x + d for d in range(0, n, 4)}
                    return frozenset(s)
                if c and c.startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove")):
                    x = M.exact(f, i.o[0])
                    n = cval(i.o[2])
                    if c[5:11] != "memset":
                        for (o, off) in M.P.vals(f, i.o[1]):
                            if o in M.objs:
                                for d in range(0, n or 8, 4):
                                    if off[0] == 0 and off[1] + d in M.allcells:
                                        need(off[1] + d, i, f)
                    if x is not None and n:
                        if self.constval is None:
                            s |= {x + d for d in range(0, n, 4)}
                        elif c[5:11] == "memset" and cval(i.o[1]) == 0:
                            s |= {x + d for d in range(0, n, 4) if self.constval.get(x + d) == 0}
                    return frozenset(s)
                d = None
                for t in M.P.callees.get((f.name, i.id), ()):
                    g = M.m.F.get(t)
                    if g is None or g.decl:
                        return frozenset(s)
                    sd, se = self.summary(g)
                    for (c2, w, h) in se:
                        need(c2, w, h)
                    d = sd if d is None else d & sd
                if d:
                    s |= d
        return frozenset(s)


def M_arg(M, f):
    x = M.api.get(f.name)
    return x[1] if x else None


def consts_of_make(M):
    """cell -> constant the constructor leaves in it (None when it varies)"""
    f = M.make
    out, zero = {}, {}
    hs = {o for i in f.ins() if i.op == "ret" and i.o for o in M.P.objs(f, i.o[0]) if o.startswith("H:")}
    for i in f.ins():
        if i.op == "store":
            for (o, off) in M.P.vals(f, i.o[1]):
                if o in hs and off[0] == 0:
                    v = cval(i.o[0])
                    out[off[1]] = v if out.get(off[1], v) == v else None
        elif i.is_call and (i.callee or "").startswith("llvm.memset") and cval(i.o[1]) == 0 and cval(i.o[2]):
            for (o, off) in M.P.vals(f, i.o[0]):
                if o in hs and off[0] == 0:
                    for d in range(0, cval(i.o[2]), 4):
                        zero[off[1] + d] = 0
    return {**zero, **out}


class Sizes:
    """the buffers of the context always have the size the context records"""

    def __init__(self, M, f, sz):
        self.M, self.f, self.sz = M, f, sz
        self.F = Facts(f)
        self.dirtyat = {}

    def isb(self, o, v):
        return self.M.isload(self.f, casts(self.f, o), v)

    def empty(self, x):
        """vectors an equality atom shows to be empty"""
        f, M = self.f, self.M
        if x[0] not in ("eq", "ule", "uge") or x[2] is None:
            return
        a, b = casts(f, list(x[1])), casts(f, list(x[2]))
        if x[0] == "uge" and cval(a) == 0:
            a, b, x = b, a, ("ule", x[2], x[1])
        if cval(b) == 0 and x[0] == "uge":
            return
        if cval(b) == 0:
            while a[0] == "i" and f.instrs[a[1]].op in ("sdiv", "ashr", "udiv", "lshr", "zext", "trunc"):
                a = casts(f, f.instrs[a[1]].o[0])
            if a[0] == "i" and f.instrs[a[1]].op == "sub":
                a, b = (casts(f, y) for y in f.instrs[a[1]].o[:2])
            else:
                return
        elif x[0] != "eq":
            return
        for v in M.vectors:
            for p, q in ((a, b), (b, a)):
                if self.isb(p, v) and self.isb(q, v + 8):
                    yield v

    def run(self):
        bad = []

        def step(i, s, env):
            if i.op in ("store", "ret"):
                return self.instr(i, s, bad)
            return s
        E = Explore(self.f, step, lambda b, t, s, env, out: self.edge(b, t, s), cap=400000)
        E.run((frozenset(), frozenset(), frozenset()))
        self.M.ctx.need(not E.truncated, "exploration of %s" % self.f.name)
        return bad

    def edge(self, b, t, s):
        tr = b.term
        d, c, q = s
        if tr.op == "br" and tr.o and len(tr.d["succ"]) == 2:
            for x in self.F.atoms(tr.o[0], t.i == tr.d["succ"][0]):
                for v in self.empty(x):
                    d, c = d - {v}, c | {v}
                if x[0] == "eq" and x[2] is not None:
                    for a, o in ((x[1], x[2]), (x[2], x[1])):
                        if self.isb(list(a), self.sz):
                            q = q | {tup(casts(self.f, list(o)))}
        return d, c, q

    def instr(self, i, s, bad):
        f, M = self.f, self.M
        d, c, q = s
        if True:
            if i.op == "store":
                k = M.cell(f, i)
                if k == self.sz:
                    v = tup(casts(f, i.o[0]))
                    if v not in q:
                        d = frozenset(M.vectors) - c
                        for x in d:
                            self.dirtyat.setdefault(x, i)
                        q = frozenset()
                    q = q | {v}
                elif k is not None:
                    for v in M.vectors:
                        if k == v + 8:
                            w = casts(f, i.o[0])
                            if self.isb(w, v) or w[0] == "n":
                                d, c = d - {v}, c | {v}
                            else:
                                c = c - {v}
            elif i.op == "ret" and d:
                bad.append((i, d))
        return d, c, q


def run(ctx):
    m = std_module(ctx)
    P = std_pta(ctx, m)
    M = CtxModel(ctx, m, P)
    M.allcells = {c for v in M.acc.values() for off in v[1] if off[0] == 0 for c in [off[1]]}
    p = Pool(ctx, m, P)
    nload = 0
    # 1. nothing but parameters and the buffer cache is read before it is written in the same call
    for zero in (True, False):
        D = MustDef(M, zero, p.creators, p.vt, frozenset(M.allcells - set(M.params) - M.cache))
        for f in M.ops:
            _, exp = D.summary(f)
            bad = [(c, i, g) for (c, i, g) in exp if c not in M.params and c not in M.cache]
            ctx.ob(not bad, max(1, len(exp)))
            for c, i, g in bad:
                ctx.fail("stale:%s:%s" % (f.name, c), "%s reads the context field %s before this call wrote it: the value left by an earlier call decides the result (%s)" % (f.name, M.name(c) if isinstance(c, int) else "(array)", "no time limit" if zero else "time limit set"), i.loc(), ["in " + g.dem.split("(")[0]])
        nload += D.nload
        # setters and reset: no field at all
        DS = MustDef(M, zero, {}, {}, frozenset(M.allcells))
        for f in M.setters + [M.reset]:
            _, exp = DS.summary(f)
            ctx.ob(not exp)
            for c, i, g in exp:
                ctx.fail("setter:%s:%s" % (f.name, c), "%s uses the previous value of the field %s" % (f.name, M.name(c) if isinstance(c, int) else "?"), i.loc())
    # 2. operations leave the parameters alone
    nst = 0
    own = {f.name for f in M.setters} | {M.reset.name, M.make.name, M.destroy.name}
    for f in m.defined():
        for i in f.ins():
            if i.op in ("store", "atomicrmw", "cmpxchg") and (f.name, i.id) in M.acc and f.name not in own:
                nst += 1
                hit = [off for off in M.acc[(f.name, i.id)][1] if off[0] == 0 and off[1] in M.params or off[0] != 0 and any((c - off[1]) % off[0] == 0 for c in M.params)]
                ctx.ob(not hit)
                for off in hit:
                    ctx.fail("param:%s:%d" % (f.name[:60], off[1]), "an operation modifies the parameter %s of the context: the next call does not use what the user set" % M.name(off[1]), i.loc(), ["in " + f.dem.split("(")[0]])
    # 3. reset restores the values of a fresh context
    K = consts_of_make(M)
    for c in sorted(M.params):
        ctx.need(K.get(c) is not None, "constant initial value of the parameter %s" % M.name(c))
    R = MustDef(M, None, {}, {}, frozenset(M.params), constval={c: K[c] for c in M.params})
    done, _ = R.summary(M.reset)
    for c in sorted(M.params):
        ctx.ob(c in done)
        if c not in done:
            ctx.fail("reset:%d" % c, "stenos_reset_context does not restore the parameter %s to its initial value %s on every path" % (M.name(c), K[c]), M.reset.loc())
        ctx.sample("parameter %s (offset %d): initial value %s, restored by reset: %s" % (M.name(c), c, K[c], c in done))
    # 4. the size of the cached buffers
    sz = sizecell(ctx, M)
    nsz = 0
    for f in m.defined():
        if any(i.op == "store" and M.cell(f, i) == sz for i in f.ins()) and f is not M.make:
            S = Sizes(M, f, sz)
            nsz += 1
            bad = S.run()
            ctx.ob(not bad)
            for i, d in bad:
                ctx.fail("size:%s" % f.name, "%s changes the superblock size of the context and returns with buffers allocated for the previous size still in %s" % (f.name, ", ".join(M.name(v) for v in sorted(d))), S.dirtyat[sorted(d)[0]].loc(), ["returns at " + i.loc()])
    ctx.need(nsz >= 2, "functions that set the size of the buffers")
    ctx.need(nload >= 20, "loads of context fields (%d)" % nload)
    ctx.cov.update({"operations": len(M.ops), "loads_of_context_fields": nload, "stores_by_operations": nst, "parameters": len(M.params), "functions_setting_the_buffer_size": nsz, "buffer_vectors": len(M.vectors)})
    ctx.explanation = ("Must-definition dataflow over the context fields (interprocedural, through submitted tasks), in the two worlds 'time limit set' and 'no time limit': every field other than the user parameters and the buffer cache is written "
                       "in the call before it is read; operations never store to a parameter; setters do not read fields; reset stores the constructor's constant in every parameter on every path; whenever the recorded superblock size may change, "
                       "every vector of buffers is emptied before the function returns.")
    ctx.assumptions = ["the number of cached buffers does not influence results (only compared with the needed number)", "thread-local scratch state is the subject of C17"]


def sizecell(ctx, M):
    """the cell whose value determines the size of the allocated buffers: it flows to malloc and is compared with a new value before the buffers are cleared"""
    cand = {}
    for f in M.m.defined():
        for i in f.ins():
            if i.is_call and i.callee == "malloc":
                seen, st = set(), [i.o[0]]
                while st:
                    o = casts(f, st.pop())
                    if o[0] != "i" or o[1] in seen:
                        continue
                    seen.add(o[1])
                    j = f.instrs[o[1]]
                    if j.op in ("add", "sub", "mul", "shl", "or"):
                        st += j.o
                    elif j.op == "phi":
                        st += j.o
                    elif j.op == "select":
                        st += j.o[1:]
                    elif j.op == "load":
                        c = M.cell(f, j)
                        if c is not None and c not in M.params and c not in M.cache:
                            cand[c] = cand.get(c, 0) + 1
    ctx.need(len(cand) == 1, "the field that gives the size of the temporary buffers (%s)" % cand)
    return next(iter(cand))
