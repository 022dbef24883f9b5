"""Abstract interpretation of a small function over one atomic word: constants, the loaded word with its known-zero bits, anything else unknown.
All paths are followed; branches on unknown conditions fork."""
from .facts import cval

M64 = (1 << 64) - 1
TOP = ("top",)


def w2i(t):
    return int(t[1:]) if t and t[0] == "i" and t[1:].isdigit() else 64


class Mini:
    """event(kind, instr, info, u) -> new u (or None to end the path); kinds: cas, rmw, store, ret
    word: None (the word is unknown) or the constant it keeps during the whole function"""

    def __init__(self, f, event, word=None, cap=200000):
        self.f, self.event, self.word, self.cap = f, event, word, cap
        self.n = 0

    def run(self, u0):
        f = self.f
        self.seen = set()
        self.stop = False
        work = [(0, -1, (), u0)]
        while work:
            b, pred, env, u = work.pop()
            key = (b, pred, env, u)
            if key in self.seen:
                continue
            self.seen.add(key)
            self.n += 1
            if self.n > self.cap:
                return False
            for nx in self.block(f.blocks[b], pred, dict(env), u):
                work.append(nx)
        return True

    def val(self, o, env):
        c = cval(o)
        if c is not None:
            w = o[2] if o[0] == "c" and len(o) > 2 and isinstance(o[2], int) else 64
            return ("c", c & ((1 << w) - 1))
        if o[0] == "i":
            return env.get(o[1], TOP)
        if o[0] == "a":
            return ("arg", o[1])
        return TOP

    def block(self, b, pred, env, u):
        f = self.f
        ph = {}
        for i in b.ins:
            if i.op != "phi":
                break
            for o, bi in zip(i.o, i.d["inb"]):
                if bi == pred:
                    v = self.val(o, env)
                    if v[0] == "c" and v[1] > 200 and w2i(i.t) > 8 and v[1] < M64 - 200:
                        v = TOP            # a counter: beyond interest
                    ph[i.id] = v
        env.update(ph)
        states = [(env, u)]
        for i in b.ins:
            if i.op == "phi":
                continue
            nxt = []
            for env, u in states:
                nxt += self.ins(i, env, u, b)
            if i is b.ins[-1]:
                out = []
                live = self.live(b)
                for env, u, tgts in nxt:
                    for t in tgts:
                        out.append((t, b.i, tuple(sorted((k, v) for k, v in env.items() if k in live)), u))
                return out
            states = [(e, u) for e, u, t in nxt]
        return []

    def live(self, b):
        # values used outside of their block or by phis
        if not hasattr(self, "_live"):
            s = set()
            for bb in self.f.blocks:
                for i in bb.ins:
                    for o in self.f.opvals(i):
                        if o[0] == "i" and (i.op == "phi" or self.f.instrs[o[1]].bb is not bb):
                            s.add(o[1])
            # refinements refer to loads
            s |= {i.id for i in self.f.ins() if i.op == "load"}
            self._live = s
        return self._live

    def ins(self, i, env, u, b):
        op = i.op
        V = lambda k: self.val(i.o[k], env)
        m = (1 << w2i(i.t)) - 1
        r = TOP
        if op == "load":
            if i.d.get("ord") or i.o[0][0] == "a" or True:
                r = ("c", self.word) if self.word is not None and self.isword(i.o[0]) else ("w", i.id, 0, 0) if self.isword(i.o[0]) else TOP
        elif op in ("add", "sub", "and", "or", "xor", "shl", "lshr"):
            a, c = V(0), V(1)
            if op != "sub" and a[0] == "c" and c[0] != "c" and op not in ("shl", "lshr"):
                a, c = c, a
            if a[0] == "c" and c[0] == "c":
                x, y = a[1], c[1]
                r = ("c", {"add": x + y, "sub": x - y, "and": x & y, "or": x | y, "xor": x ^ y, "shl": x << (y & 63), "lshr": x >> (y & 63)}[op] & m)
            elif a[0] == "w" and c[0] == "c":
                k = c[1]
                if op == "add":
                    r = ("w", a[1], a[2], (a[3] + k) & M64)
                elif op == "sub":
                    r = ("w", a[1], a[2], (a[3] - k) & M64)
                elif op == "and":
                    r = ("c", 0) if a[3] == 0 and not (k & ~a[2] & M64) else ("wand", a, k)
                elif op == "or" and a[3] == 0 and not (k & ~a[2] & M64):
                    r = ("w", a[1], a[2] & ~k, k)       # setting bits known to be clear adds them
            elif a[0] == "wand" and op == "and" and c[0] == "c":
                r = ("wand", a[1], a[2] & c[1])
        elif op == "icmp":
            a, c = V(0), V(1)
            if a[0] == "c" and c[0] != "c":
                a, c = c, a
                pr = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(i.pred, i.pred)
            else:
                pr = i.pred
            if a[0] == "c" and c[0] == "c":
                x, y = a[1], c[1]
                fm = 1 << (w2i(i.d.get("ft")) - 1)
                if pr[0] == "s":
                    x, y = (x ^ fm) - fm, (y ^ fm) - fm
                r = ("c", int({"eq": x == y, "ne": x != y, "lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y}[pr if pr in ("eq", "ne") else pr[1:]]))
            elif a[0] in ("wand", "w") and c[0] == "c":
                r = ("cmp", pr, a, c[1])
            elif a[0] == "bool" and c[0] == "c":
                r = ("bool", a[1], a[2] ^ (pr == "eq") ^ bool(c[1] & 1))
        elif op == "select":
            c = V(0)
            if c[0] == "c":
                r = V(1) if c[1] & 1 else V(2)
            else:
                out = []
                for t in (1, 0):
                    e = self.learn(c, t, dict(env))
                    if e is not None:
                        v = self.val(i.o[1] if t else i.o[2], e)
                        e[i.id] = v
                        out.append((e, u, ()))
                return out
        elif op in ("zext", "trunc", "freeze", "bitcast"):
            a = V(0)
            r = ("c", a[1] & m) if a[0] == "c" else a
        elif op == "sext":
            a = V(0)
            if a[0] == "c":
                fw = w2i(i.d.get("ft"))
                x = a[1]
                r = ("c", ((x ^ (1 << (fw - 1))) - (1 << (fw - 1))) & m)
        elif op == "call" and (i.callee or "").startswith("llvm.expect"):
            r = V(0)
        elif op == "cmpxchg":
            exp, new = V(1), V(2)
            out = []
            if self.word is not None:
                ok = exp[0] == "c" and exp[1] == self.word
                may = exp[0] != "c"
                outs = [1, 0] if may else [int(ok)]
            else:
                outs = [1, 0]
            for s in outs:
                e = dict(env)
                u2 = u
                if s:
                    u2 = self.event("cas", i, (exp, new), u)
                    if u2 is None:
                        continue
                e[i.id] = ("cas", s, exp if s else (("c", self.word) if self.word is not None else ("w", i.id, 0, 0)))
                out.append((e, u2, ()))
            return out
        elif op == "extractvalue":
            a = V(0)
            if a[0] == "cas":
                r = ("c", a[1]) if (i.d.get("idx") or [0])[0] == 1 else a[2]
        elif op == "atomicrmw":
            u2 = self.event("rmw", i, (i.d.get("rmw"), V(1)), u)
            if u2 is None:
                return []
            u = u2
            r = ("c", self.word) if self.word is not None else ("w", i.id, 0, 0)
        elif op == "store":
            if self.isword(i.o[1]):
                u2 = self.event("store", i, (V(0),), u)
                if u2 is None:
                    return []
                u = u2
            return [(env, u, ())]
        elif op == "br":
            if len(b.succ) == 1 or not i.d.get("cond"):
                return [(env, u, tuple(i.d["succ"]))]
            c = V(0)
            out = []
            for k, t in ((0, 1), (1, 0)):
                if c[0] == "c" and (c[1] & 1) != t:
                    continue
                e = self.learn(c, t, dict(env))
                if e is not None:
                    out.append((e, u, (i.d["succ"][k],)))
            return out
        elif op == "switch":
            c = V(0)
            if c[0] == "c":
                hit = [x[1] for x in i.d["cases"] if x[0] & M64 == c[1]]
                return [(env, u, (hit[0] if hit else i.d["def"],))]
            return [(env, u, tuple({x[1] for x in i.d["cases"]} | {i.d["def"]}))]
        elif op == "ret":
            self.event("ret", i, (V(0) if i.o else None,), u)
            return [(env, u, ())]
        elif op == "invoke":
            return [(env, u, (i.d["normal"], i.d["unwind"]))]
        if i.t and i.t != "void":
            env = dict(env)
            env[i.id] = r
        return [(env, u, tuple(s.i for s in b.succ) if i is b.ins[-1] else ())]

    def isword(self, o):
        n = 0
        while o[0] == "i" and n < 20:
            n += 1
            i = self.f.instrs[o[1]]
            if i.op in ("getelementptr", "bitcast") and (i.op == "bitcast" or i.off == 0):
                o = i.o[0]
            else:
                return False
        return o[0] == "a" and o[1] == 0

    def learn(self, c, t, env):
        if c[0] == "cmp":
            pr, a, k = c[1:]
            if pr == "ne":
                pr, t = "eq", 1 - t
            if pr == "eq" and t:
                mask = M64 if a[0] == "w" else a[2]
                w = a if a[0] == "w" else a[1]
                if w[3] == 0:
                    z = mask & ~k & M64
                    for x, v in list(env.items()):
                        if v[0] == "w" and v[1] == w[1]:
                            env[x] = ("w", v[1], v[2] | z, v[3])
        return env
