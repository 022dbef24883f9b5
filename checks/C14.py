"""C14: error results of internal stages are tested before they are used as sizes, are not ignored, and end in an error or in another stage's result."""
import re
from vlib.pta import PTA
from vlib.facts import Facts, strip, tup, cval, SWAP
from vlib.musttest import Null, m_get
import apibuf

ERRLIM = -100
CODES = range(-9, -1)          # -2 .. -9; -1 is also a sentinel of other parameters
ISERR = ("ZSTD_isError", "stenos_has_error", "ZSTD_getErrorCode")
ZNOT = re.compile(r"^ZSTD_(isError|getError\w*|maxCLevel|minCLevel|\w*[bB]ound|free\w+|create\w+|versionNumber|versionString|CStreamInSize|\w+OutSize|defaultCLevel|sizeof_\w+|dParam\w*|cParam\w*)$")


def zsource(c):
    return c is not None and c.startswith("ZSTD_") and not ZNOT.match(c)


def errconst(o):
    return o[0] == "c" and len(o) > 2 and o[2] == 64 and not isinstance(o[1], str) and o[1] in CODES


class Err(Null):
    def uge_err(self, b):
        v = cval(b)
        return v is not None and ERRLIM - 60 <= v < 0

    def nonnull_atoms(self, f, facts):
        """values known not to be an error code"""
        r = set()
        for (p, a, b) in facts:
            if b is None:
                continue
            for (q, x, y) in ((p, a, b), (SWAP.get(p, p), b, a)):
                if x[0] not in ("i", "a"):
                    continue
                cy = cval(y)
                small = (cy is not None and 0 <= cy) or (cy is None and y[0] in ("i", "a") and not self.is_mn(f, list(y)))
                if q in ("ult", "ule") and (small or (cy is not None and cy < 0)):
                    r.add(x)
                elif q == "eq" and small:
                    r.add(x)
                    if cy == 0 and x[0] == "i" and f.instrs[x[1]].is_call and f.instrs[x[1]].callee in ISERR:
                        r.add(tup(strip(f, f.instrs[x[1]].o[0])))
                elif q in ("sge", "sgt") and cy is not None and cy >= -1:
                    r.add(x)
        return r

    def root(self, f, o):
        out = [o]
        while o[0] == "i":
            i = f.instrs[o[1]]
            if i.op in ("bitcast", "freeze", "zext", "trunc") or (i.is_call and i.callee and i.callee.startswith("llvm.expect")):
                o = i.o[0]
                out.append(o)
            else:
                break
        return out

    def tested(self, f, t):
        if t.op == "icmp" and self.uge_err(t.o[1]):
            return t.o[0]
        if t.is_call and t.callee in ISERR:
            return t.o[0]
        return None

    def bad_atom(self, f, x, k):
        p, a, b = x
        if b is None:
            return False
        if a == k and p in ("ugt", "uge") and self.uge_err(b):
            return True
        return a[0] == "i" and f.instrs[a[1]].is_call and f.instrs[a[1]].callee in ISERR and p == "ne" and cval(b) == 0 and tup(strip(f, f.instrs[a[1]].o[0])) == k

    def _fn(self, f, report):
        ch = False
        N = lambda i: (f.name, ("i", i.id))
        for i in f.ins():
            if N(i) in self.mn and i.op not in ("store", "ret") and not i.is_call:
                continue
            if i.is_call:
                c = i.callee
                if zsource(c) and i.t == "i64":
                    if self.mark(N(i), "%s at %s" % (c, i.loc())):
                        ch = True
                        self.sources.append((f, i))
                for t in self.pta.callees.get((f.name, i.id), ()):
                    g = m_get(self.m, t)
                    if g is None:
                        continue
                    w = self.mn.get(("ret", g.name))
                    if w and i.t == "i64" and self.mark(N(i), "%s at %s" % (g.dem.split("(")[0], i.loc())):
                        ch = True
                        self.sources.append((f, i))
                    for k, o in enumerate(i.o):
                        w = self.is_mn(f, o)
                        if w and k < len(g.args) and (g.name, ("a", k)) not in self.mn and not self.guarded_all(f, o, i):
                            ch |= self.mark((g.name, ("a", k)), w)
                if c and c.startswith("llvm.expect"):
                    w = self.is_mn(f, i.o[0])
                    if w:
                        ch |= self.mark(N(i), w)
            elif i.op in ("bitcast", "freeze", "zext"):
                w = self.is_mn(f, i.o[0])
                if w and not self.guarded_all(f, i.o[0], i):
                    ch |= self.mark(N(i), w)
            elif i.op in ("phi", "select") and i.t == "i64":
                prs = zip(i.o, i.d["inb"]) if i.op == "phi" else [(o, None) for o in i.o[1:3]]
                for o, bi in prs:
                    w = self.is_mn(f, o)
                    if errconst(o):
                        ch |= self.mark(N(i), "error code %d set in %s" % (o[1], i.scope()))
                    elif w and not self.guarded_all(f, o, *((None, (f.blocks[bi], i.bb)) if bi is not None else (i,))):
                        ch |= self.mark(N(i), w)
            elif i.op == "load" and i.t == "i64":
                for (ob, off) in self.pta.vals(f, i.o[0]):
                    if 0 < off[0] < 16:
                        continue       # byte-wise access to payload
                    w = self.cell(ob, off)
                    if w:
                        ch |= self.mark(N(i), w)
                        break
            elif i.op == "store" and i.sz == 8:
                w = self.is_mn(f, i.o[0])
                if (w and not self.guarded_all(f, i.o[0], i)) or errconst(i.o[0]):
                    for (ob, off) in self.pta.vals(f, i.o[1]):
                        if 0 < off[0] < 16:
                            continue
                        ch |= self.mark(("cell", ob, off), (w or "error code") + ", stored at " + i.loc())
            elif i.op == "ret" and i.o:
                w = self.is_mn(f, i.o[0])
                if (w and not self.guarded_all(f, i.o[0], i)) or errconst(i.o[0]):
                    ch |= self.mark(("ret", f.name), w or "error code")
        return ch

    def check(self, report):
        n = 0
        for f in self.m.defined():
            for i in f.ins():
                us = []
                if i.op == "getelementptr":
                    us = [v for v, k in i.d.get("voff") or []] or (i.o[1:] if i.off is None else [])
                elif i.op in ("add", "sub", "mul", "shl", "lshr", "udiv", "urem", "uitofp", "sitofp"):
                    us = i.o[:2] if i.t != "i1" else []
                elif i.op == "trunc":
                    us = i.o[:1]
                elif i.is_call and i.callee and m_get(self.m, i.callee) is None and i.callee not in ISERR and not i.callee.startswith(("llvm.expect", "llvm.lifetime", "llvm.dbg")):
                    us = [o for o in i.o if o[0] in ("i", "a")]
                for o in us:
                    w = self.is_mn(f, o)
                    if not w:
                        continue
                    n += 1
                    report(f, i, o, w, self.guarded_all(f, o, i))
        return n

    # ---- what happens on the error side of a test ----
    def is_stage(self, f, i):
        """a call that produces (another) result: entropy coder, error-returning function of the library"""
        if not i.is_call or not i.callee:
            return False
        if zsource(i.callee):
            return True
        if i.callee.startswith("llvm.memcpy"):
            return True
        g = m_get(self.m, i.callee)
        return g is not None and ("ret", g.name) in self.mn

    def walk(self, f, b, s, env, stop, on_ret, on_back, seen=None, depth=0):
        """paths from edge b->s; env maps phi ids / alloca ids to operands"""
        F = self.F(f)
        st = [(b, s, env)]
        seen = set()
        n = 0
        while st and n < 4000:
            b, s, env = st.pop()
            n += 1
            if f.dominates_b(s.i, b.i):
                if on_back(b, s, env):
                    continue
            env = dict(env)
            upd = {}
            for p in s.ins:
                if p.op != "phi":
                    break
                for o, bi in zip(p.o, p.d["inb"]):
                    if bi == b.i:
                        upd[("v", p.id)] = self.res(f, o, env)
            env.update(upd)
            key = (s.i, tuple(sorted((k, tup(v)) for k, v in env.items())))
            if key in seen:
                continue
            seen.add(key)
            halt = False
            for i in s.ins:
                if stop(i, env):
                    halt = True
                    break
                if i.op == "store" and i.o[1][0] == "i" and f.instrs[i.o[1][1]].op == "alloca":
                    env[("m", i.o[1][1])] = self.res(f, i.o[0], env)
                elif i.op == "load" and i.o[0][0] == "i" and ("m", i.o[0][1]) in env:
                    env[("v", i.id)] = env[("m", i.o[0][1])]
                elif i.is_call and i.callee and not i.callee.startswith("llvm.") and m_get(self.m, i.callee) is None and i.callee not in ISERR and not i.callee.startswith(("free", "_Zd")):
                    for k in [k for k in env if k[0] == "m"]:
                        del env[k]
                elif i.op == "ret":
                    on_ret(i, env)
            if halt:
                continue
            t = s.term
            succ = s.succ
            if t.op == "br" and t.o and len(succ) == 2:
                c = self.fold(f, t.o[0], env)
                if c is not None:
                    succ = [f.blocks[t.d["succ"][0 if c else 1]]]
            for x in succ:
                st.append((s, x, env))

    def res(self, f, o, env):
        o = strip(f, o)
        if o[0] == "i" and ("v", o[1]) in env:
            return env[("v", o[1])]
        return o

    def fold(self, f, o, env, d=0):
        o = self.res(f, o, env)
        if o[0] == "c":
            return o[1]
        if o[0] != "i" or d > 8:
            return None
        i = f.instrs[o[1]]
        if i.op == "icmp":
            a, b = self.fold(f, i.o[0], env, d + 1), self.fold(f, i.o[1], env, d + 1)
            if a is None and b is not None and ERRLIM <= b < 0 and not self.is_mn(f, self.res(f, i.o[0], env)):
                a = 0                   # a size is never in the error range
            if b is None and a is not None and ERRLIM <= a < 0 and not self.is_mn(f, self.res(f, i.o[1], env)):
                b = 0
            if a is None or b is None:
                return None
            M = (1 << 64) - 1
            ua, ub = a & M, b & M
            return {"eq": a == b, "ne": a != b, "ult": ua < ub, "ule": ua <= ub, "ugt": ua > ub, "uge": ua >= ub, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[i.pred]
        if i.op in ("zext", "sext", "trunc", "freeze"):
            v = self.fold(f, i.o[0], env, d + 1)
            return v
        if i.op == "xor" and i.t == "i1":
            v = self.fold(f, i.o[0], env, d + 1)
            return None if v is None else not v
        if i.is_call and i.callee and i.callee.startswith("llvm.expect"):
            return self.fold(f, i.o[0], env, d + 1)
        return None

    def error_edges(self, f):
        for b in f.blocks:
            t = b.term
            if t.op != "br" or len(b.succ) != 2 or not t.o:
                continue
            for s in b.succ:
                for x in self.F(f).atoms(t.o[0], s.i == t.d["succ"][0]) - self.F(f).IN.get(b.i, frozenset()):
                    if x[2] is None or x[1][0] != "i":
                        continue
                    a = x[1]
                    src = a
                    j = f.instrs[a[1]]
                    if j.is_call and j.callee in ISERR:
                        src = tup(strip(f, j.o[0]))
                    if src[0] != "i" or not self.is_mn(f, list(src)):
                        continue
                    if self.bad_atom(f, x, src):
                        yield b, s, src
                    else:
                        # outside the expected range, not yet known to be no error
                        for (q, u, v) in (x, (SWAP.get(x[0], x[0]), x[2], x[1])):
                            if u == src and q in ("ne", "ugt", "uge") and cval(v) is None and v[0] in ("i", "a") and not self.is_mn(f, list(v)) and src not in self.nonnull_atoms(f, self.F(f).IN[b.i]):
                                yield b, s, src

    def err_store(self, f, i, env, src):
        """an error code (constant or the result itself) is stored for another function to test"""
        if i.op not in ("store", "atomicrmw") or (i.op == "store" and i.o[1][0] == "i" and f.instrs[i.o[1][1]].op == "alloca"):
            return False
        v = self.res(f, i.o[0] if i.op == "store" else i.o[1], env)
        return errconst(v) or tup(v) == src

    def swallowed(self, report):
        n = 0
        for f in self.m.defined():
            for b, s, src in self.error_edges(f):
                n += 1
                bad = []
                w = self.is_mn(f, list(src))

                def on_ret(i, env):
                    if not i.o:
                        # the result already lives in the memory another function tests
                        if not (src[0] == "i" and f.instrs[src[1]].op == "load"):
                            bad.append(i)
                        return
                    v = self.res(f, i.o[0], env)
                    if v[0] == "c" and v[1] < 0 and v[1] >= ERRLIM or v[0] == "n":
                        return
                    if v[0] == "i":
                        j = f.instrs[v[1]]
                        if j.t != "i64":
                            return
                        if self.is_mn(f, v) and tup(v) == src:
                            return
                        if j.op == "load" and self.is_mn(f, v):
                            return
                        if j.op == "load" and f.instrs.get(src[1]).op == "load" and self.key(f, v) == self.key(f, list(src)):
                            return
                    bad.append(i)

                def on_back(p, q, env):
                    # the failing stage is re-entered for other data: the error is dropped
                    h = f.blocks[q.i]
                    if f.dominates_b(h.i, b.i):
                        bad.append(p.term)
                    return True
                self.walk(f, b, s, {}, lambda i, env: self.is_stage(f, i) or self.err_store(f, i, env, src), on_ret, on_back)
                report(f, b.term, w, not bad, bad)
        return n

    def untested(self, report, E):
        """on every path from a call whose result may be an error to a return, the result is tested, stored for another function, returned, or the return is an error"""
        n = 0
        for f in self.m.defined():
            for i in f.ins():
                if not (i.is_call and i.callee and i.t == "i64" and (i.callee in E or zsource(i.callee))):
                    continue
                n += 1
                bad = []
                F = self.F(f)
                me = ["i", i.id]

                def stop(j, env):
                    if self.err_store(f, j, env, tuple(me)):
                        return True
                    return j.is_call and j.callee not in ISERR and not (j.callee or "").startswith("llvm.expect") and any(self.res(f, o, env) == me for o in j.o)

                def thru(x, env):
                    """atom with phis replaced by what they are on this path"""
                    return tuple(tup(self.res(f, list(y), env)) if y is not None and y[0] == "i" else y for y in x[1:])
                st = [(i.bb, i.idx + 1, {}, None)] if i.op != "invoke" else [(f.blocks[i.d["normal"]], 0, {}, i.bb)]
                seen = set()
                while st and len(seen) < 20000:
                    b, k, env, _ = st.pop()
                    halt = False
                    for j in b.ins[k:]:
                        if stop(j, env):
                            halt = True
                            break
                        if j.op == "ret":
                            v = self.res(f, j.o[0], env) if j.o else ["c", 0]
                            if not (errconst(v) or v == me):
                                bad.append(j)
                    if halt:
                        continue
                    t = b.term
                    for s in b.succ:
                        if t.op == "invoke" and s.i == t.d["unwind"]:
                            continue
                        if t.op == "br" and t.o and len(b.succ) == 2:
                            hit = False
                            for x in F.atoms(t.o[0], s.i == t.d["succ"][0]):
                                if x[2] is None:
                                    continue
                                a, c = thru(x, env)
                                for (q, u, v) in ((x[0], a, c), (SWAP.get(x[0], x[0]), c, a)):
                                    if u[0] == "i" and f.instrs[u[1]].is_call and f.instrs[u[1]].callee in ISERR and self.res(f, f.instrs[u[1]].o[0], env) == me and cval(v) == 0 and q in ("eq", "ne", "ugt"):
                                        hit = True
                                    if list(u) != me:
                                        continue
                                    cy = cval(v)
                                    small = (cy is not None and cy >= 0) or (cy is None and v[0] in ("i", "a") and not self.is_mn(f, list(v)))
                                    if self.uge_err(v) and q in ("ult", "ule", "ugt", "uge"):
                                        hit = True
                                    elif small and q in ("ult", "ule", "eq", "ne", "ugt", "uge"):
                                        hit = True
                                    elif q in ("slt", "sle", "sgt", "sge") and cy is not None and cy >= -1:
                                        hit = True
                                    elif q == "eq" and errconst(v):
                                        hit = True          # this error is known: the error side
                            if hit:
                                continue
                            cf = self.fold(f, t.o[0], env)
                            if cf is not None and s.i != t.d["succ"][0 if cf else 1]:
                                continue
                        if f.dominates_b(s.i, b.i) and f.dominates_b(s.i, i.bb.i):
                            bad.append(t)
                            continue
                        e2 = dict(env)
                        for p in s.ins:
                            if p.op != "phi":
                                break
                            for o, bi in zip(p.o, p.d["inb"]):
                                if bi == b.i:
                                    e2[("v", p.id)] = self.res(f, o, env)
                        key = (s.i, tuple(sorted((k2, tup(v)) for k2, v in e2.items())))
                        if key not in seen:
                            seen.add(key)
                            st.append((s, 0, e2, b))
                report(f, i, not bad, bad)
        return n

    def entropy_sizes(self, report):
        """the size an entropy decoder produced is compared with the expected one, or becomes the length of the next stage"""
        n = 0
        for f in self.m.defined():
            for i in f.ins():
                if not (i.is_call and i.callee and re.match(r"ZSTD_decompress", i.callee) and zsource(i.callee) and not i.callee.endswith("Stream")):
                    continue
                n += 1
                bad = []
                F = self.F(f)

                def stop(j, env):
                    if self.err_store(f, j, env, ("i", i.id)):
                        return True
                    if j.is_call and j.callee not in ISERR and any(self.res(f, strip(f, o), env) == ["i", i.id] for o in j.o):
                        return True
                    return False
                # edges on which equality is known end the path
                def go():
                    st = [(i.bb, i.idx + 1, {})]
                    seen = set()
                    while st:
                        b, k, env = st.pop()
                        halt = False
                        for j in b.ins[k:]:
                            if stop(j, env):
                                halt = True
                                break
                            if j.op == "ret":
                                if j.o:
                                    v = self.res(f, j.o[0], env)
                                    if not (v[0] == "c" and v[1] < 0) and v != ["i", i.id]:
                                        bad.append(j)
                                else:
                                    bad.append(j)
                        if halt:
                            continue
                        t = b.term
                        for s in b.succ:
                            if t.op == "br" and t.o and len(b.succ) == 2:
                                at = F.atoms(t.o[0], s.i == t.d["succ"][0])
                                me = ("i", i.id)
                                if any(x[0] == "eq" and x[2] is not None and me in (x[1], x[2]) and cval(x[1]) is None and cval(x[2]) is None for x in at):
                                    continue
                                if any(self.bad_atom(f, x, me) for x in at):
                                    continue
                                c = self.fold(f, t.o[0], env)
                                if c is not None and s.i != t.d["succ"][0 if c else 1]:
                                    continue
                            if f.dominates_b(s.i, b.i):
                                bad.append(t)
                                continue
                            e2 = dict(env)
                            for p in s.ins:
                                if p.op != "phi":
                                    break
                                for o, bi in zip(p.o, p.d["inb"]):
                                    if bi == b.i:
                                        e2[("v", p.id)] = self.res(f, o, env)
                            key = (s.i, tuple(sorted((k2, tup(v)) for k2, v in e2.items())))
                            if key not in seen:
                                seen.add(key)
                                st.append((s, 0, e2))
                go()
                report(f, i, not bad, bad)
        return n


def unread_cells(N, report):
    """an error code stored to memory for later must be loaded and tested somewhere"""
    stores = []
    n = 0
    for f in N.m.defined():
        for i in f.ins():
            if i.op == "store" and i.sz == 8 and (errconst(i.o[0]) or (N.is_mn(f, i.o[0]) and not N.guarded_all(f, i.o[0], i))):
                vals = {v for v in N.pta.vals(f, i.o[1]) if not (0 < v[1][0] < 16)}
                if vals:
                    stores.append((f, i, vals))
    from vlib.pta import compat
    read = {}
    for f in N.m.defined():
        for i in f.ins():
            if i.op in ("load", "atomicrmw") and i.t == "i64" and i.users:
                for (ob, off) in N.pta.vals(f, i.o[0]):
                    if not (0 < off[0] < 16):
                        read.setdefault(ob, set()).add(off)
    for f, i, vals in stores:
        n += 1
        ok = any(compat(off, r) for (ob, off) in vals for r in read.get(ob, ()))
        report(f, i, ok)
    return n


def errfuncs(m):
    """functions whose integer result may be an error code (not inlined module)"""
    E = set()
    ch = True
    ret = {f.name: [j.o[0] for j in f.ins() if j.op == "ret" and j.o and f.instrs] for f in m.defined()}
    while ch:
        ch = False
        for f in m.defined():
            if f.name in E:
                continue
            seen, st = set(), [o for o in ret[f.name]]
            hit = False
            while st and not hit:
                o = strip(f, st.pop())
                if tup(o) in seen:
                    continue
                seen.add(tup(o))
                if errconst(o):
                    hit = True
                elif o[0] == "i":
                    i = f.instrs[o[1]]
                    if i.op in ("phi", "select"):
                        st += i.o if i.op == "phi" else i.o[1:]
                    elif i.is_call and (zsource(i.callee) or i.callee in E) and i.t == "i64":
                        hit = True
            if hit:
                E.add(f.name)
                ch = True
    return E


class NullStage(Null):
    """a decoder or encoder stage of the library that reports its failure by a null pointer"""
    nullable = frozenset()

    def _fn(self, f, report):
        ch = super()._fn(f, report)
        if ("ret", f.name) not in self.mn and not re.match(r"_ZN?K?(S|9__gnu_cxx)", f.name):
            st = [i.o[0] for i in f.ins() if i.op == "ret" and i.o]
            seen = set()
            while st:
                o = strip(f, st.pop())
                if tup(o) in seen:
                    continue
                seen.add(tup(o))
                if o[0] == "n":
                    ch |= self.mark(("ret", f.name), f.dem.split("(")[0])
                elif o[0] == "i" and f.instrs[o[1]].op in ("phi", "select"):
                    j = f.instrs[o[1]]
                    st += j.o if j.op == "phi" else j.o[1:]
        return ch

    def cell(self, ob, off):
        return None


def run(ctx):
    for march in ("haswell", "x86-64") if ctx.tier == "thorough" else ("haswell",):
        m = ctx.mod(march, inline=True, keep=apibuf.KEEP, passes="sroa,globaldce")
        pta = PTA(m).build()
        apibuf.seed_opaque(pta, m)
        pta.solve()
        N = Err(m, ctx.need, pta)
        N.solve(None)
        groups = {}

        def rep(f, i, o, w, ok):
            ctx.ob(ok)
            if not ok:
                groups.setdefault((i.scope(), w.split(" at ")[0]), (i, w, []))[2].append(i.loc())
        n = N.check(rep)
        for (sc, w0), (i, w, locs) in groups.items():
            ctx.fail("use:%s:%s" % (re.sub(r"\W+", "_", sc)[:80], w0), "the result of %s may be an error code and is used as a size in %s before it is tested" % (w, sc), i.loc(), ["also at " + l for l in sorted(set(locs))[:8]])

        def rep2(f, i, w, ok, bad):
            ctx.ob(ok)
            if not ok:
                ctx.fail("swallow:%s:%s" % (re.sub(r"\W+", "_", i.scope())[:80], w.split(" at ")[0]), "after %s was found to be an error in %s, a path goes on as if it had succeeded" % (w, i.scope()), i.loc(), ["reaches " + b.loc() for b in bad[:6]])
        ne = N.swallowed(rep2)

        def rep3(f, i, ok, bad):
            ctx.ob(ok)
            if not ok:
                ctx.fail("size:%s:%s" % (re.sub(r"\W+", "_", i.scope())[:80], i.callee), "the number of bytes produced by %s in %s is never compared with the expected size" % (i.callee, i.scope()), i.loc(), ["reaches " + b.loc() for b in bad[:6]])
        nz = N.entropy_sizes(rep3)
        def rep4(f, i, ok):
            ctx.ob(ok)
            if not ok:
                ctx.fail("unread:%s" % re.sub(r"\W+", "_", i.scope())[:80], "a result that may be an error is stored in %s but never read and tested" % i.scope(), i.loc())
        unread_cells(N, rep4)
        raw = ctx.mod(march, "lib-noinl", passes="sroa")
        pr = PTA(raw).build()
        apibuf.seed_opaque(pr, raw)
        pr.solve()
        NS = NullStage(raw, ctx.need, pr)
        NS.solve(None)
        nbad = {}

        def rep5(f, i, o, w, ok):
            ctx.ob(ok)
            if not ok:
                nbad.setdefault(w.split(", stored")[0], []).append((f, i))
        NS.check(rep5)
        nst = sum(1 for k in NS.mn if k[0] == "ret")
        for w, l in nbad.items():
            f, i = l[0]
            ctx.fail("nullstage:%s" % re.sub(r"\W+", "_", w)[:80], "%s reports a failure by a null pointer, which is used (in %s) before it is tested" % (w, f.dem.split("(")[0]), i.loc(), ["%s in %s" % (j.loc(), g.dem.split("(")[0]) for g, j in l[:8]])
        ctx.need(nst >= 5, "stages that return null on failure (%d)" % nst)
        E = errfuncs(raw)
        ni = 0
        for f in raw.defined():
            for i in f.ins():
                if i.is_call and i.t == "i64" and (i.callee in E or zsource(i.callee)):
                    ni += 1
                    ok = bool(i.users)
                    ctx.ob(ok)
                    if not ok:
                        ctx.fail("ignored:%s:%s" % (f.name[:80], i.callee), "the result of %s, which may be an error, is ignored in %s" % (raw.F[i.callee].dem.split("(")[0], f.dem.split("(")[0]), i.loc())
        mk = ctx.mod(march, "lib-noinl", inline=True, keep="^(%s)$" % "|".join(sorted(re.escape(x) for x in E)) + "|^stenos_|^_GLOBAL|^__cxx|5applyEv$|_M_runEv$", passes="sroa,globaldce")
        pk = PTA(mk).build()
        apibuf.seed_opaque(pk, mk)
        pk.solve()
        NK = Err(mk, ctx.need, pk)
        NK.solve(None)

        def rep6(f, i, ok, bad):
            ctx.ob(ok)
            if not ok:
                ctx.fail("untested:%s:%s" % (re.sub(r"\W+", "_", i.scope())[:80], i.callee), "the result of %s may be an error code; on some path of %s it is neither completely tested nor returned" % (mk.F[i.callee].dem.split("(")[0], f.dem.split("(")[0]), i.loc(), ["reaches " + b.loc() for b in bad[:6]])
        nu = NK.untested(rep6, E)
        ctx.need(nu >= 10, "calls with an error result (%d)" % nu)
        ctx.cov["calls_followed_to_a_test_" + march] = nu
        ctx.need(len(E) >= 4 and ni >= 10, "error-returning functions (%d) and their calls (%d)" % (len(E), ni))
        ctx.need(nz >= 2, "entropy decoder calls (%d)" % nz)
        ctx.need(ne >= 8, "error tests (%d)" % ne)
        ctx.cov.update({"error_sources_" + march: len(N.sources), "checked_uses_" + march: n, "error_edges_" + march: ne, "null_returning_stages_" + march: nst, "entropy_decoder_calls_" + march: nz, "error_returning_functions_" + march: len(E), "calls_with_error_result_" + march: ni})
        for f, i in N.sources[:10]:
            ctx.sample("stage result %s at %s" % (i.callee, i.loc()))
    ctx.explanation = ("Error-code dataflow over the library's LLVM IR: every result that may be an error code (zstd results, constants of the error range, results of error-returning functions, also through memory and parameters) "
                       "must be tested before it is used in arithmetic, as a length or as an offset; stages that report failure by a null pointer are tested before the pointer is used; no such result is ignored; on the error side of each test every path returns an error or runs another stage for the same data; "
                       "every entropy decoder's byte count is compared with the expected size or becomes the input length of the next stage.")
    ctx.assumptions = ["results of different iterations stored in one array are not distinguished when a loop tests all of them before the use"]
