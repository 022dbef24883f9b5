"""Path exploration over one function's control-flow graph with propagation of the constants that decide later branches.

States are (block, user state, environment).  The environment keeps, for the values some branch depends on, the constant (or the operand) they
have on this path: phi inputs, boolean variables kept in memory (lock ownership flags), and the outcome of earlier tests of the same SSA value.
Everything else is unknown, so that every real path is explored (an over-approximation of the paths)."""
from .facts import strip, tup, cval

CAST = ("trunc", "zext", "sext", "freeze", "bitcast")


def norm(v, t):
    return v


class Explore:
    def __init__(self, f, step, edge=None, cap=60000, fold_extra=None, keepmem=None):
        self.f = f
        self.step = step
        self.edge = edge
        self.cap = cap
        self.fold_extra = fold_extra    # fold_extra(instr, env) -> const or None
        self.keepmem = keepmem or (lambda i: i.is_call and i.callee and ("condition_variable4wait" in i.callee or i.callee.startswith(("llvm.", "pthread_"))))
        self.n = 0
        self.truncated = False
        self._states = None
        self._prep()

    # ---- which values matter for later branches ----
    def _prep(self):
        f = self.f
        inter = set()
        self.cellsof = {}
        st = []
        for b in f.blocks:
            t = b.term
            if t.op in ("br", "switch") and t.o and len(b.succ) > 1:
                st.append((t.o[0], b))
        self.uses = {}          # value id -> blocks where its constant is consumed
        memkeys = set()
        seen = set()
        while st:
            o, b = st.pop()
            if o[0] != "i":
                continue
            self.uses.setdefault(o[1], set()).add(b.i)
            if (o[1], b.i) in seen:
                continue
            seen.add((o[1], b.i))
            i = f.instrs[o[1]]
            inter.add(o[1])
            if i.op == "phi":
                for v, bi in zip(i.o, i.d["inb"]):
                    st.append((v, f.blocks[bi]))
            elif i.op in CAST or i.op in ("xor", "and", "or", "icmp", "select", "add", "sub"):
                for v in i.o:
                    st.append((v, i.bb))
            elif i.op == "extractvalue":
                pass
            elif i.is_call and i.callee and i.callee.startswith("llvm.expect"):
                st.append((i.o[0], i.bb))
            elif i.op == "load":
                k = self.slot(i.o[0])
                if k:
                    memkeys.add(k)
                    for j in f.ins():
                        if j.op == "store" and self.slot(j.o[1]) == k:
                            st.append((j.o[0], j.bb))
        self.inter = inter
        self.memkeys = memkeys
        # live-in blocks of each interesting value (constant still needed)
        self.live = {}
        for v in inter:
            d = f.instrs[v].bb.i
            L = set()
            work = list(self.uses.get(v, ()))
            while work:
                x = work.pop()
                if x in L:
                    continue
                L.add(x)
                if x == d:
                    continue
                work.extend(p.i for p in f.blocks[x].pred)
            # a phi input consumed on the edge from block x is live out of x
            self.live[v] = L
        self.mlive = {}
        loads = {}
        for i in f.ins():
            if i.op == "load" and i.id in inter:
                k = self.slot(i.o[0])
                if k:
                    loads.setdefault(k, set()).add(i.bb.i)
        for k in memkeys:
            L = set()
            work = list(loads.get(k, ()))
            while work:
                x = work.pop()
                if x in L:
                    continue
                L.add(x)
                work.extend(p.i for p in f.blocks[x].pred)
            self.mlive[k] = L

    def slot(self, o):
        """(alloca id, byte offset) of a scalar location on the stack"""
        off = 0
        f = self.f
        while o[0] == "i":
            i = f.instrs[o[1]]
            if i.op == "alloca":
                return (i.id, off)
            if i.op == "getelementptr" and i.off is not None:
                off += i.off
                o = i.o[0]
            elif i.op in ("bitcast", "freeze"):
                o = i.o[0]
            else:
                return None
        return None

    # ---- constants ----
    def val(self, o, env):
        """operand with phi / memory substitutions of this path"""
        o = strip(self.f, o)
        n = 0
        while o[0] == "i" and ("v", o[1]) in env and n < 20:
            x = env[("v", o[1])]
            if x[0] == "nz":
                break
            if list(x) == list(o):
                break
            o = strip(self.f, list(x))
            n += 1
        return o

    def fold(self, o, env, d=0):
        """integer constant of operand on this path; "nz" for known non-zero; None unknown"""
        f = self.f
        o = self.val(o, env)
        c = cval(o)
        if c is not None:
            return c
        if o[0] in ("g", "f"):
            return "nz"
        if o[0] != "i" or d > 14:
            if o[0] == "a" and ("va", o[1]) in env:
                x = env[("va", o[1])]
                return x[1] if x[0] == "c" else "nz"
            return None
        x = env.get(("v", o[1]))
        if x is not None and x[0] == "nz":
            return "nz"
        i = f.instrs[o[1]]
        if i.op == "alloca":
            return "nz"
        if i.op in CAST or (i.is_call and i.callee and i.callee.startswith("llvm.expect")):
            v = self.fold(i.o[0], env, d + 1)
            if v == "nz" and i.op == "trunc":
                return None
            if isinstance(v, int):
                if i.op == "trunc" and i.t and i.t[0] == "i":
                    w = int(i.t[1:])
                    v &= (1 << w) - 1
                    if w > 1 and v >> (w - 1):
                        v -= 1 << w
                elif i.op == "zext":
                    ft = i.d.get("ft") or "i64"
                    if ft[0] == "i" and ft[1:].isdigit():
                        v &= (1 << int(ft[1:])) - 1
                elif i.op == "sext" and i.d.get("ft") == "i1":
                    v = -1 if v & 1 else 0
            return v
        if i.op == "getelementptr":
            # address arithmetic on a valid pointer is not null
            v = self.fold(i.o[0], env, d + 1)
            return "nz" if v == "nz" else None
        if i.op == "icmp":
            a, b = self.fold(i.o[0], env, d + 1), self.fold(i.o[1], env, d + 1)
            if a == "nz" and b == 0 or b == "nz" and a == 0:
                return {"eq": 0, "ne": 1, "ugt": 1 if b == 0 else 0, "ult": 0 if b == 0 else 1}.get(i.pred)
            if isinstance(a, int) and isinstance(b, int):
                return cmp(i.pred, a, b, i.d.get("ft"))
            if i.pred == "ugt" and a == 0 or i.pred == "ult" and b == 0:
                return 0
            if i.pred == "ule" and a == 0 or i.pred == "uge" and b == 0:
                return 1
            if i.pred in ("eq", "ne") and self.val(i.o[0], env) == self.val(i.o[1], env) and a is None:
                return 1 if i.pred == "eq" else 0
            return self.fold_extra(i, env) if self.fold_extra else None
        if i.op in ("xor", "and", "or", "add", "sub"):
            a, b = self.fold(i.o[0], env, d + 1), self.fold(i.o[1], env, d + 1)
            if i.op == "and" and (a == 0 or b == 0):
                return 0
            if i.t == "i1" and i.op == "or" and (a in (1, -1) or b in (1, -1)):
                return 1
            if isinstance(a, int) and isinstance(b, int):
                r = {"xor": a ^ b, "and": a & b, "or": a | b, "add": a + b, "sub": a - b}[i.op]
                if i.t == "i1":
                    r &= 1
                return r
            return None
        if i.op == "select":
            c = self.fold(i.o[0], env, d + 1)
            if c is None or c == "nz":
                a, b = self.fold(i.o[1], env, d + 1), self.fold(i.o[2], env, d + 1)
                return a if a == b else None
            return self.fold(i.o[1] if c else i.o[2], env, d + 1)
        if self.fold_extra:
            return self.fold_extra(i, env)
        return None

    def learn(self, o, truth, env, out, d=0):
        """constants implied by value o being truth, added to out"""
        f = self.f
        o = self.val(o, env)
        if o[0] != "i" or d > 10:
            return
        i = f.instrs[o[1]]
        if i.t == "i1" and o[1] in self.inter:
            out[("v", o[1])] = ("c", 1 if truth else 0, 1)
        if i.op == "xor" and cval(i.o[1]) in (1, -1):
            self.learn(i.o[0], not truth, env, out, d + 1)
        elif i.op in CAST or (i.is_call and i.callee and i.callee.startswith("llvm.expect")):
            if i.op == "trunc" and i.t == "i1":
                return self._set(i.o[0], 1 if truth else 0, env, out)
            self.learn(i.o[0], truth, env, out, d + 1)
        elif i.op == "and" and truth or i.op == "or" and not truth:
            for x in i.o:
                self.learn(x, truth, env, out, d + 1)
        elif i.op == "icmp":
            p = i.pred
            for a, b, q in ((i.o[0], i.o[1], p), (i.o[1], i.o[0], {"eq": "eq", "ne": "ne"}.get(p))):
                c = self.fold(b, env)
                if not isinstance(c, int) or q not in ("eq", "ne"):
                    continue
                if (q == "eq") == truth:
                    self._set(a, c, env, out)
                    s = strip(f, a, CAST + ("freeze",))
                    if s != a and s[0] == "i" and f.instrs[s[1]].t == "i1":
                        self.learn(s, bool(c), env, out, d + 1)
                elif c == 0:
                    self._set(a, "nz", env, out)
                    s = strip(f, a, CAST + ("freeze",))
                    if s != a and s[0] == "i" and f.instrs[s[1]].t == "i1":
                        self.learn(s, True, env, out, d + 1)

    def _set(self, a, c, env, out):
        a = self.val(a, env)
        if a[0] == "i":
            if a[1] in self.inter:
                out[("v", a[1])] = ("nz",) if c == "nz" else ("c", c, 64)
            i = self.f.instrs[a[1]]
            if i.op == "load":
                k = self.slot(i.o[0])
                if k in self.memkeys:
                    out[("m",) + k] = ("nz",) if c == "nz" else ("c", c, 64)
        elif a[0] == "a":
            out[("va", a[1])] = ("nz",) if c == "nz" else ("c", c, 64)

    # ---- exploration ----
    def run(self, init, start=None, env=None):
        """Property simulation: the states that reach a block with the same user state are merged (their environments are
        intersected), the others are kept apart.  Every feasible path is covered."""
        f = self.f
        b, k = (f.blocks[0], 0) if start is None else start
        table = {}
        work = []
        self._flow(b, k, init, dict(env or {}), table, work)
        while work:
            key = work.pop(0)
            ent = table[key]
            ent[1] = False
            self.n += 1
            if self.n > self.cap:
                self.truncated = True
                return
            self._flow(f.blocks[key[0]], 0, key[1], dict(ent[0]), table, work)

    def _flow(self, b, k, u, env, table, work):
        f = self.f
        states = [u]
        for i in b.ins[k:]:
            if i.op == "phi":
                continue
            nxt = []
            for s in states:
                r = self.step(i, s, env)
                if isinstance(r, list):
                    nxt += [x for x in r if x not in nxt]
                elif r is not None and r not in nxt:
                    nxt.append(r)
            states = self._states = nxt
            if not states:
                return
            self.mem(i, env)
            if i.id in self.inter:
                for kk in [x for x, y in env.items() if y[0] == "i" and y[1] == i.id]:
                    del env[kk]
        t = b.term
        outs = []
        if t.op == "br" and t.o and len(b.succ) == 2:
            c = self.fold(t.o[0], env)
            if isinstance(c, int):
                outs = [(f.blocks[t.d["succ"][0 if c & 1 else 1]], {})]
            else:
                for s in b.succ:
                    out = {}
                    self.learn(t.o[0], s.i == t.d["succ"][0], env, out)
                    outs.append((s, out))
        elif t.op == "switch":
            c = self.fold(t.o[0], env)
            if isinstance(c, int):
                tgt = [x[1] for x in t.d["cases"] if x[0] == c]
                outs = [(f.blocks[tgt[0] if tgt else t.d["def"]], {})]
            else:
                outs = [(s, {}) for s in b.succ]
        else:
            outs = [(s, {}) for s in b.succ]
        for s, out in outs:
            e = dict(env)
            e.update(out)
            upd = {}
            for p in s.ins:
                if p.op != "phi":
                    break
                if p.id not in self.inter:
                    continue
                for o, bi in zip(p.o, p.d["inb"]):
                    if bi == b.i:
                        v = self.fold(o, e)
                        w = self.val(o, e)
                        upd[("v", p.id)] = ("c", v, 64) if isinstance(v, int) else ("nz",) if v == "nz" else ("i", w[1]) if w[0] == "i" and w[1] != p.id else None
                        break
            if upd:
                red = {kx[1] for kx in upd}
                e = {kk: vv for kk, vv in e.items() if not (vv[0] == "i" and vv[1] in red)}
                for kx, vx in list(upd.items()):
                    if vx is not None and vx[0] == "i" and vx[1] in red:
                        upd[kx] = None
            for kx, vx in upd.items():
                if vx is None:
                    e.pop(kx, None)
                else:
                    e[kx] = vx
            # forget what no later branch needs, and values redefined in this block
            e = {kk: vv for kk, vv in e.items() if self.keep(kk, s, upd)}
            for us in states:
                u2 = us
                if self.edge:
                    u2 = self.edge(b, s, us, e, out)
                    if u2 is None:
                        continue
                key = (s.i, u2)
                ent = table.get(key)
                if ent is None:
                    table[key] = [e, True]
                    work.append(key)
                else:
                    j = {}
                    for kk, vv in ent[0].items():
                        w = e.get(kk)
                        if w is None:
                            continue
                        if tuple(w) == tuple(vv):
                            j[kk] = vv
                        elif self._nz(w) and self._nz(vv):
                            j[kk] = ("nz",)
                    if j != ent[0]:
                        ent[0] = j
                        if not ent[1]:
                            ent[1] = True
                            work.append(key)

    @staticmethod
    def _nz(v):
        return v[0] == "nz" or (v[0] == "c" and v[1] != 0)

    def keep(self, k, s, upd):
        if k[0] == "v":
            if k in upd:
                return s.i in self.live[k[1]]
            return s.i in self.live.get(k[1], ()) and self.f.instrs[k[1]].bb.i != s.i
        if k[0] == "m":
            return s.i in self.mlive.get(k[1:], ())
        return True

    def mem(self, i, env):
        f = self.f
        if i.op == "store":
            k = self.slot(i.o[1])
            if k:
                for kk in [x for x in env if x[0] == "m" and x[1] == k[0] and x != ("m",) + k and abs(x[2] - k[1]) < 8]:
                    w = i.sz or 8
                    if not (kk[2] >= k[1] + w or kk[2] + 1 <= k[1]):
                        del env[kk]
                if k in self.memkeys:
                    v = self.fold(i.o[0], env)
                    if isinstance(v, int):
                        env[("m",) + k] = ("c", v, 64)
                    elif v == "nz":
                        env[("m",) + k] = ("nz",)
                    else:
                        env.pop(("m",) + k, None)
            else:
                pass        # stores through unknown pointers do not touch scalar stack flags whose address is only passed to lock primitives
        elif i.op == "load" and i.id in self.inter:
            k = self.slot(i.o[0])
            if k and ("m",) + k in env:
                env[("v", i.id)] = env[("m",) + k]
            else:
                env.pop(("v", i.id), None)
        elif i.is_call and not self.keepmem(i):
            for o in i.o:
                k = self.slot(o) if o[0] == "i" else None
                if k:
                    for kk in [x for x in env if x[0] == "m" and x[1] == k[0]]:
                        del env[kk]
        if i.op not in ("load", "phi") and ("v", i.id) in env and i.id in self.inter:
            # new value of this SSA name
            del env[("v", i.id)]


def cmp(p, a, b, ft=None):
    w = 64
    if ft and ft[0] == "i" and ft[1:].isdigit():
        w = int(ft[1:])
    M = (1 << w) - 1
    ua, ub = a & M, b & M
    S = 1 << (w - 1)
    sa, sb = (ua ^ S) - S, (ub ^ S) - S
    return int({"eq": ua == ub, "ne": ua != ub, "ult": ua < ub, "ule": ua <= ub, "ugt": ua > ub, "uge": ua >= ub, "slt": sa < sb, "sle": sa <= sb, "sgt": sa > sb, "sge": sa >= sb}[p])
