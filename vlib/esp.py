"""Path-sensitive typestate propagation (property simulation) over one function.

A state is (block, u, env): u is the client's typestate, env what is known of the values on this path.  Values are named by structural expressions
(Sym): linear address arithmetic, loads, comparisons over the function's arguments, allocas and otherwise unknown instructions.  States of a block
with equal u are merged (their environments intersected); a branch is only folded when its condition is decided by earlier branches, phi inputs or
stack slots of this path, so that every feasible path is covered.  Expressions kept in u are renamed when loop variables advance."""
import time
from .facts import cval

CASTS = ("bitcast", "freeze", "zext", "sext", "ptrtoint", "inttoptr", "addrspacecast", "trunc")


class Sym:
    __slots__ = ("op", "a", "id", "leafs", "dep")

    def __repr__(self):
        return show(self)


class Syms:
    def __init__(self):
        self.t = {}

    def mk(self, op, *a):
        k = (op,) + a
        s = self.t.get(k)
        if s is None:
            s = Sym()
            s.op, s.a, s.id = op, a, len(self.t)
            L = set()
            s.dep = 0
            st = list(a)
            while st:
                x = st.pop()
                if isinstance(x, Sym):
                    L |= x.leafs
                    s.dep = max(s.dep, x.dep + 1)
                elif isinstance(x, tuple):
                    st.extend(x)
            if op == "leaf":
                L.add(a[0])
            elif op == "ldv":
                L.add(a[2])
            elif op == "pl":
                L = {a[1]}
            s.leafs = frozenset(L)
            self.t[k] = s
        return s

    def c(self, n):
        n &= (1 << 64) - 1
        if n >> 63:
            n -= 1 << 64
        return self.mk("c", n)

    # linear forms: ("lin", const, ((sym, coef), ...)) sorted
    def parts(self, s):
        if s.op == "c":
            return s.a[0], {}
        if s.op == "lin":
            return s.a[0], dict(s.a[1])
        return 0, {s: 1}

    def lin(self, c, terms):
        M = (1 << 64) - 1
        t = {}
        for s, k in terms:
            c0, tt = self.parts(s)
            c += c0 * k
            for x, kk in tt.items():
                y = ptrdiff(x, kk * k)
                if y is not None:       # (end - begin) / n * n
                    c0, kk = y.a[0], kk * k // abs(kk * k)
                    c += c0 * kk
                    for z, q in y.a[1]:
                        t[z] = t.get(z, 0) + q * kk
                else:
                    t[x] = t.get(x, 0) + kk * k
        sg = lambda n: ((n & M) ^ (1 << 63)) - (1 << 63)
        c = sg(c)
        t = {x: sg(k) for x, k in t.items() if sg(k)}
        if not t:
            return self.c(c)
        if c == 0 and len(t) == 1:
            (x, k), = t.items()
            if k == 1:
                return x
        return self.mk("lin", c, tuple(sorted(t.items(), key=lambda p: p[0].id)))

    def no(self, s):
        if s.op == "c":
            return self.c(0 if s.a[0] & 1 else 1)
        if s.op == "not":
            return s.a[0]
        return self.mk("not", s)

    def icmp(self, p, a, b, ft=None):
        if p in ("ne", "uge", "sge"):
            return self.no(self.icmp({"ne": "eq", "uge": "ult", "sge": "slt"}[p], a, b, ft))
        if p in ("ule", "sle"):
            return self.no(self.icmp({"ule": "ult", "sle": "slt"}[p], b, a, ft))
        if p in ("ugt", "sgt"):
            return self.icmp({"ugt": "ult", "sgt": "slt"}[p], b, a, ft)
        if a.op == "c" and b.op == "c":
            x, y = a.a[0], b.a[0]
            if p == "ult":
                M = (1 << 64) - 1
                x, y = x & M, y & M
            return self.c(int(x == y if p == "eq" else x < y))
        if a is b:
            return self.c(1 if p == "eq" else 0)
        if p == "eq":
            if a.op == "c" or (b.op != "c" and b.id < a.id):
                a, b = b, a
            if ft == "i1" and b.op == "c":
                return a if b.a[0] & 1 else self.no(a)
            # a boolean widened to an integer, compared with 0 or 1
            if b.op == "c" and a.op in ("eq", "ult", "slt", "not") and b.a[0] in (0, 1):
                return a if b.a[0] else self.no(a)
            if b.op == "c" and a.op == "lin" and len(a.a[1]) == 1 and a.a[1][0][1] == 1 and ft in (None, "i64", "ptr"):
                return self.icmp("eq", a.a[1][0][0], self.c(b.a[0] - a.a[0]), ft)
        return self.mk(p, a, b)

    def erase(self, s, memo=None):
        """the expression without the versions of the loads: names a place, not a value"""
        if s.op == "ldv":
            return self.mk("ld", self.erase(s.a[0]), s.a[1])
        if s.op == "pl":
            return s.a[0]
        if s.op == "lin":
            return self.lin(s.a[0], [(self.erase(x), k) for x, k in s.a[1]])
        if s.op in ("c", "arg", "al", "g", "leaf", "k", "old", "icmp"):
            return s
        return self.mk(s.op, *[self.erase(x) if isinstance(x, Sym) else x for x in s.a])

    def subst(self, s, fn, memo):
        """rebuild with fn(node) -> replacement or None"""
        if not s.leafs:
            return s
        r = memo.get(s)
        if r is not None:
            return r
        r = fn(s)
        if r is None:
            if s.op in ("leaf", "pl"):
                r = s
            elif s.op == "lin":
                r = self.lin(s.a[0], [(self.subst(x, fn, memo), k) for x, k in s.a[1]])
            elif s.op == "not":
                r = self.no(self.subst(s.a[0], fn, memo))
            elif s.op == "ldv":
                r = self.mk("ldv", self.subst(s.a[0], fn, memo), s.a[1], s.a[2])
            elif s.op in ("eq", "ult", "slt"):
                r = self.icmp(s.op, self.subst(s.a[0], fn, memo), self.subst(s.a[1], fn, memo))
            else:
                r = self.mk(s.op, *[self.subst(x, fn, memo) if isinstance(x, Sym) else x for x in s.a])
        memo[s] = r
        return r


def ptrdiff(s, k):
    """the difference of two pointers that is divided by |k|, the size of what they point to"""
    if s.op in ("ashr", "lshr", "sdiv", "udiv") and s.a[1].op == "c" and s.a[0].op == "lin" and sorted(q for x, q in s.a[0].a[1]) == [-1, 1]:
        n = s.a[1].a[0]
        if (1 << n if s.op in ("ashr", "lshr") and 0 <= n < 60 else n) == abs(k) and all(x.op in ("ldv", "ld") for x, q in s.a[0].a[1]):
            return s.a[0]
    return None


def show(s, d=0):
    if not isinstance(s, Sym):
        return str(s)
    if d > 6:
        return ".."
    if s.op == "c":
        return str(s.a[0])
    if s.op == "leaf":
        return "%%%d" % s.a[0]
    if s.op == "arg":
        return "arg%d" % s.a[0]
    if s.op == "al":
        return "local%d" % s.a[0]
    if s.op in ("ld", "ldv"):
        return "*(%s)" % show(s.a[0], d + 1)
    if s.op == "lin":
        return "+".join([("%d*" % k if k != 1 else "") + show(x, d + 1) for x, k in s.a[1]] + ([str(s.a[0])] if s.a[0] else []))
    return "%s(%s)" % (s.op, ",".join(show(x, d + 1) for x in s.a))


class Env:
    __slots__ = ("facts", "mem", "alias", "part")

    def __init__(self, facts=None, mem=None, alias=None, part=frozenset()):
        self.part = part
        self.facts = facts if facts is not None else {}
        self.mem = mem if mem is not None else {}
        self.alias = alias if alias is not None else {}

    def copy(self):
        return Env(dict(self.facts), dict(self.mem), dict(self.alias), self.part)


def fjoin(a, b):
    """weakest common consequence of two facts"""
    if a == b:
        return a
    if a[0] == "e" and b[0] == "e":
        return None
    if a[0] == "n" and b[0] == "n":
        r = a[1] & b[1]
        return ("n", r) if r else None
    if a[0] == "e":
        a, b = b, a
    return a if b[1] not in a[1] else None


def mapu(u, fn):
    if isinstance(u, Sym):
        return fn(u)
    if isinstance(u, tuple):
        r = tuple(mapu(x, fn) for x in u)
        return r if any(x is not y for x, y in zip(r, u)) else u
    if isinstance(u, frozenset):
        r = frozenset(mapu(x, fn) for x in u)
        return u if r == u else r
    return u


def symsin(u, out):
    if isinstance(u, Sym):
        out.add(u)
    elif isinstance(u, (tuple, frozenset)):
        for x in u:
            symsin(x, out)
    return out


def field(f, o):
    """(struct, byte offset) of the innermost typed address computation"""
    n = 0
    while o[0] == "i" and n < 40:
        n += 1
        i = f.instrs[o[1]]
        if i.op == "getelementptr":
            st = i.d.get("st") or ""
            if st.startswith("%") and len(i.o) >= 3:
                return (st, gepoff(i))
            if i.off == 0:
                o = i.o[0]
                continue
            return None
        if i.op in ("bitcast", "freeze"):
            o = i.o[0]
        elif i.op == "phi":
            return None
        else:
            return None
    return None


def gepoff(i):
    if i.off is not None:
        es = i.d.get("es") or 0
        return i.off % es if es and len(i.o) >= 3 else i.off
    return i.d.get("coff")


def shape(s):
    """an address computation without the values it is made of: base plus multiples of an element size"""
    c, t = (s.a[0], s.a[1]) if s.op == "lin" else (0, ((s, 1),))
    k = sorted(x[1] for x in t)
    return (c, tuple(k)) if len(k) > 1 and k.count(1) == 1 and k[1] > 8 else None


class Esp:
    """step(i, u, env) -> None (path ends) | u | [(u, {sym: const}, dest)] with dest in None / 0 normal / 1 unwind"""

    def __init__(self, f, step, cap=40000, alias=None, calleffect=None, edge=None, relevant=None):
        self.f = f
        self.step = step
        self.edge = edge
        self.cap = cap
        self.deadline = None
        self.S = Syms()
        self.mayalias = alias or (lambda A, B: True)      # may a store to address A change what is stored at B (both Sym, A is not B)
        self.calleffect = calleffect or (lambda i: (lambda addr: True))   # call -> predicate on addresses (Sym) it may write; None: none
        self.relevant = relevant
        self.split = False
        self.post = None
        self.n = 0
        self.truncated = False
        self.kept = {}
        self.joins = {}
        self.k0 = 1 + max([i.id for i in f.ins()] + [0])
        self.rpoi = {b.i: n for n, b in enumerate(f.rpo())}
        self.elems = set()         # addresses of array elements (structures): never null
        self.fld = {}              # address Sym -> field tag
        self._prep()

    # ---------------- preparation ----------------
    def _prep(self):
        f = self.f
        # blocks on cycles
        idx, low, on, st, comp = {}, {}, set(), [], {}
        order = [b.i for b in f.rpo()]
        self.cyc = set()
        cnt = [0]
        for root in order:
            if root in idx:
                continue
            work = [(root, iter([s.i for s in f.blocks[root].succ]))]
            idx[root] = low[root] = cnt[0]; cnt[0] += 1
            st.append(root); on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]; cnt[0] += 1
                        st.append(w); on.add(w)
                        work.append((w, iter([s.i for s in f.blocks[w].succ])))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or any(s.i == v for s in f.blocks[v].succ):
                        self.cyc |= set(c)
        # liveness of SSA values (as sets of ids), live-in per block (phi operands belong to the predecessor)
        use = {b.i: set() for b in f.blocks}
        deff = {b.i: set() for b in f.blocks}
        phiuse = {b.i: set() for b in f.blocks}
        for b in f.blocks:
            for i in b.ins:
                if i.op == "phi":
                    for o, bi in zip(i.o, i.d["inb"]):
                        if o[0] == "i":
                            phiuse[bi].add(o[1])
                else:
                    for o in f.opvals(i):
                        self._ops(o, use[b.i], deff[b.i])
                deff[b.i].add(i.id)
        # values are computed structurally from their operands: operands stay live as long as their users
        clos = {}

        def need(v):
            if v in clos:
                return clos[v]
            clos[v] = r = {v}
            i = f.instrs[v]
            if i.op in CASTS or i.op in ("getelementptr", "add", "sub", "mul", "shl", "lshr", "and", "or", "xor", "icmp", "select", "extractvalue", "ashr", "udiv", "urem", "sdiv", "srem", "sext", "trunc") or i.is_call and (i.callee or "").startswith("llvm.expect"):
                for o in f.opvals(i):
                    s = set()
                    self._ops(o, s, ())
                    for x in s:
                        r |= need(x)
            return r
        for b in f.blocks:
            u = set()
            for v in use[b.i]:
                u |= {x for x in need(v) if f.instrs[x].bb is not b or f.instrs[x].op == "phi"}
            use[b.i] = u
            u = set()
            for v in phiuse[b.i]:
                u |= need(v)
            phiuse[b.i] = u
        out = {b.i: set() for b in f.blocks}
        inn = {b.i: set(use[b.i]) for b in f.blocks}
        ch = True
        rp = list(reversed(f.rpo()))
        while ch:
            ch = False
            for b in rp:
                o = set(phiuse[b.i])
                for s in b.succ:
                    o |= inn[s.i] - {p.id for p in s.ins if p.op == "phi"}
                    o |= set()
                n = use[b.i] | (o - {x for x in deff[b.i] if f.instrs[x].op != "phi"})
                if n != inn[b.i] or o != out[b.i]:
                    inn[b.i], out[b.i] = n, o
                    ch = True
        self.livein = inn
        self.phis = {b.i: [i for i in b.ins if i.op == "phi"] for b in f.blocks}
        for b in f.blocks:
            self.livein[b.i] = inn[b.i] | {p.id for p in self.phis[b.i]}
        # allocas whose address is stored somewhere
        self.escaped = set()
        for i in f.ins():
            if i.op == "store":
                r = self.root(i.o[0])
                if r is not None:
                    self.escaped.add(r)

    def _ops(self, o, use, deff):
        if o[0] == "i":
            if o[1] not in deff:
                use.add(o[1])
            elif False:
                pass
        elif o[0] == "x":
            for x in o[3:]:
                if isinstance(x, list):
                    self._ops(x, use, deff)

    def root(self, o):
        f = self.f
        n = 0
        while o[0] == "i" and n < 50:
            n += 1
            i = f.instrs[o[1]]
            if i.op == "alloca":
                return i.id
            if i.op in ("getelementptr", "bitcast", "freeze", "ptrtoint", "inttoptr", "addrspacecast"):
                o = i.o[0]
            else:
                return None
        return None

    # ---------------- expressions ----------------
    def sym(self, o, env, d=0):
        S = self.S
        c = cval(o)
        if c is not None:
            return S.c(c)
        k = o[0]
        if k == "a":
            return S.mk("arg", o[1])
        if k in ("g", "f"):
            return S.mk("g", o[1])
        if k == "x":
            if o[1] == "getelementptr" and o[2] is not None:
                return S.lin(o[2], [(self.sym(o[3], env, d + 1), 1)])
            return S.mk("k", str(o))
        if k != "i":
            return S.mk("k", str(o))
        i = self.f.instrs[o[1]]
        a = env.alias.get(i.id)
        if a is not None:
            return a
        op = i.op
        if d > 60:
            return S.mk("leaf", i.id)
        if op == "alloca":
            return S.mk("al", i.id)
        if op == "getelementptr":
            b = self.sym(i.o[0], env, d + 1)
            if i.off is not None:
                r = S.lin(i.off, [(b, 1)])
            elif i.d.get("voff") is not None:
                r = S.lin(i.d.get("coff", 0), [(b, 1)] + [(self.sym(x, env, d + 1), k) for x, k in i.d["voff"]])
                if (i.d.get("st") or "").startswith("%"):
                    self.elems.add(shape(r))
            else:
                return S.mk("leaf", i.id)
            return r
        if op in ("bitcast", "freeze", "zext", "ptrtoint", "inttoptr", "addrspacecast") or i.is_call and (i.callee or "").startswith("llvm.expect"):
            return self.sym(i.o[0], env, d + 1)
        if op == "sext":
            x = self.sym(i.o[0], env, d + 1)
            return S.mk("sext", x) if i.d.get("ft") == "i1" else x
        if op == "trunc":
            x = self.sym(i.o[0], env, d + 1)
            if i.t == "i1" and x.op in ("eq", "ult", "slt", "not"):
                return x
            if x.op == "c":
                w = int(i.t[1:]) if i.t[1:].isdigit() else 64
                n = x.a[0] & ((1 << w) - 1)
                return S.c(n)
            if i.t == "i1":
                return S.mk("tr1", x)
            return x
        if op == "icmp":
            return S.icmp(i.pred, self.sym(i.o[0], env, d + 1), self.sym(i.o[1], env, d + 1), i.d.get("ft"))
        if op in ("add", "sub"):
            return S.lin(0, [(self.sym(i.o[0], env, d + 1), 1), (self.sym(i.o[1], env, d + 1), 1 if op == "add" else -1)])
        if op in ("mul", "shl"):
            c = cval(i.o[1])
            if c is not None and (op == "mul" or 0 <= c < 63):
                return S.lin(0, [(self.sym(i.o[0], env, d + 1), c if op == "mul" else 1 << c)])
        if op == "xor" and i.t == "i1":
            c = cval(i.o[1])
            if c is not None:
                x = self.sym(i.o[0], env, d + 1)
                return S.no(x) if c & 1 else x
        if op in ("and", "or", "xor", "lshr", "ashr", "mul", "shl", "udiv", "urem", "sdiv", "srem"):
            x, y = self.sym(i.o[0], env, d + 1), self.sym(i.o[1], env, d + 1)
            if x.op == "c" and y.op == "c":
                p, q = x.a[0], y.a[0]
                if op == "and":
                    return S.c(p & q)
                if op == "or":
                    return S.c(p | q)
                if op == "xor":
                    return S.c(p ^ q)
            return S.mk(op, x, y)
        if op == "select":
            c = self.eval(self.sym(i.o[0], env, d + 1), env)
            if c is not None:
                return self.sym(i.o[1] if c & 1 else i.o[2], env, d + 1)
            return S.mk("sel", *[self.sym(x, env, d + 1) for x in i.o])
        if op == "extractvalue":
            return S.mk("ev", self.sym(i.o[0], env, d + 1), tuple(i.d.get("idx") or ()))
        return S.mk("leaf", i.id)

    def eval(self, s, env, d=0):
        if s.op == "c":
            return s.a[0]
        f = env.facts.get(s)
        if f is not None and f[0] == "e":
            return f[1]
        if d > 20:
            return None
        if s.op == "not":
            v = self.eval(s.a[0], env, d + 1)
            return None if v is None else 0 if v & 1 else 1
        if s.op in ("eq", "ult", "slt"):
            a, b = self.eval(s.a[0], env, d + 1), self.eval(s.a[1], env, d + 1)
            if a is not None and b is not None:
                if s.op == "ult":
                    M = (1 << 64) - 1
                    a, b = a & M, b & M
                return int(a == b if s.op == "eq" else a < b)
            if s.op == "eq":
                for x, y in ((s.a[0], b), (s.a[1], a)):
                    if y is not None:
                        if y == 0 and self.nonzero(x, env):
                            return 0
                        g = env.facts.get(x)
                        if g and g[0] == "n" and y in g[1]:
                            return 0
                        if x.op == "pl":
                            x = x.a[0]
                        if x.op == "lshr" and x.a[1].op == "c" and x.a[1].a[0] > 0 and (y < 0 or y >> (64 - x.a[1].a[0])):
                            return 0
            if s.op == "ult":
                if a == 0 and b is None:        # 0 < b
                    return 1 if self.nonzero(s.a[1], env) else None
                if b == 0:
                    return 0
            return None
        if s.op == "lin":
            t = s.a[0]
            for x, k in s.a[1]:
                v = self.eval(x, env, d + 1)
                if v is None:
                    return None
                t += v * k
            t &= (1 << 64) - 1
            return t - (1 << 64) if t >> 63 else t
        if s.op in ("and", "or", "xor"):
            a, b = self.eval(s.a[0], env, d + 1), self.eval(s.a[1], env, d + 1)
            if s.op == "and" and (a == 0 or b == 0):
                return 0
            if a is None or b is None:
                if s.op == "or" and (a == 1 or b == 1) and self.isbool(s):
                    return 1
                return None
            return a & b if s.op == "and" else a | b if s.op == "or" else a ^ b
        if s.op == "tr1":
            v = self.eval(s.a[0], env, d + 1)
            return None if v is None else v & 1
        if s.op == "sel":
            c = self.eval(s.a[0], env, d + 1)
            if c is None:
                a, b = self.eval(s.a[1], env, d + 1), self.eval(s.a[2], env, d + 1)
                return a if a == b else None
            return self.eval(s.a[1] if c & 1 else s.a[2], env, d + 1)
        return None

    def isbool(self, s):
        return s.op in ("eq", "ult", "slt", "not", "tr1") or s.op in ("and", "or", "xor") and all(self.isbool(x) for x in s.a)

    def nonzero(self, s, env):
        if s.op in ("al", "g"):
            return True
        if s.op == "c":
            return s.a[0] != 0
        g = env.facts.get(s)
        if g:
            return g[0] == "n" and 0 in g[1] or g[0] == "e" and g[1] != 0
        if s.op == "lin" and len(s.a[1]) == 1 and s.a[1][0][1] == 1 and s.a[1][0][0].op in ("al", "g", "arg") or s.op == "lin" and shape(s) and shape(s) in self.elems:
            return True
        if s.op in ("ldv", "leaf", "pl"):
            # an address that was accessed
            for a in env.mem:
                if not isinstance(a, tuple) and (a is s or a.op == "lin" and len(a.a[1]) == 1 and a.a[1][0] == (s, 1)):
                    return True
        return False

    def learn(self, s, truth, env, d=0):
        """facts implied by boolean expression s being truth; False when contradictory"""
        if s.op == "not":
            return self.learn(s.a[0], not truth, env, d + 1)
        v = self.eval(s, env)
        if v is not None:
            return bool(v & 1) == truth
        if s.op == "tr1":
            env.facts[s] = ("e", int(truth))
            return self.learn(s.a[0], truth, env, d + 1) if self.isbool(s.a[0]) else (self.put(s.a[0], int(truth), env) if s.a[0].op in ("leaf", "ld", "ev") else True)
        if s.op == "and" and truth or s.op == "or" and not truth:
            if self.isbool(s):
                return all(self.learn(x, truth, env, d + 1) for x in s.a)
        env.facts[s] = ("e", int(truth))
        if s.op == "eq" and d < 12:
            a, b = s.a
            for x, y in ((a, b), (b, a)):
                c = self.eval(y, env)
                if c is not None:
                    if truth:
                        return self.put(x, c, env)
                    self.putne(x, c, env)
        elif s.op == "ult" and truth:
            # something is less than b: b is not 0
            self.putne(s.a[1], 0, env)
        elif s.op == "ult" and not truth and self.eval(s.a[0], env) == 0:
            self.put(s.a[1], 0, env)
        return True

    def put(self, x, c, env):
        g = env.facts.get(x)
        if g and (g[0] == "e" and g[1] != c or g[0] == "n" and c in g[1]):
            return False
        if x.op == "c":
            return x.a[0] == c
        env.facts[x] = ("e", c)
        if x.op == "lin" and len(x.a[1]) == 1 and x.a[1][0][1] == 1:
            return self.put(x.a[1][0][0], c - x.a[0], env)
        if self.isbool(x):
            env.facts.pop(x)
            return self.learn(x, bool(c), env, 3)
        return True

    def putne(self, x, c, env):
        g = env.facts.get(x)
        if g and g[0] == "e":
            return
        env.facts[x] = ("n", (g[1] if g else frozenset()) | {c})
        if x.op == "lin" and len(x.a[1]) == 1 and x.a[1][0][1] == 1:
            self.putne(x.a[1][0][0], c - x.a[0], env)
        elif c == 0 and self.isbool(x):
            env.facts.pop(x)
            self.learn(x, True, env, 3)

    # ---------------- exploration ----------------
    def run(self, init, env=None):
        self.table = {}
        self.work = []
        self._merge(0, init, env or Env())
        while self.work:
            key = self.work.pop(0)
            ent = self.table[key]
            ent[1] = False
            self.n += 1
            if self.n > self.cap or self.deadline and time.time() > self.deadline:
                self.truncated = True
                return False
            self._flow(self.f.blocks[key[0]], key[1], ent[0].copy())
        return True

    def _merge(self, bi, u, env):
        key = (bi, u, env.part)
        ent = self.table.get(key)
        if ent is None:
            self.table[key] = [env, True]
            self.work.append(key)
            return
        e = ent[0]
        ch = False
        # both paths read the same place into one value: that value names it from here on
        for _ in range(4):
            s1, s2 = {}, {}
            for k, v in e.alias.items():
                w = env.alias.get(k)
                if w is not None and w is not v and v.op == "ldv" and w.op == "ldv" and (v.a[:2] == w.a[:2] or self.S.erase(v) is self.S.erase(w)):
                    n = self.S.mk("ldv", v.a[0] if v.a[0] is w.a[0] else self.S.erase(v.a[0]), v.a[1], k)
                    if v is not n:
                        s1.setdefault(v, n)
                    if w is not n:
                        s2.setdefault(w, n)
            for k, v in e.mem.items():
                w = env.mem.get(k)
                if isinstance(k, tuple) and w is not None and w[0] is not v[0] and w[1] == v[1] and v[0].leafs and w[0].leafs and self.S.erase(v[0]) is self.S.erase(w[0]):
                    n = v[0]
                    if n.op != "pl" or n.a[1] not in self.joins.get(bi, ()):
                        n = self.S.mk("pl", self.S.erase(v[0]), self.kept.setdefault((k, "join", bi), self.k0 + len(self.kept)))
                        self.joins.setdefault(bi, set()).add(n.a[1])
                    if v[0] is not n and v[0] not in s1 and not self.occurs(n, e) and not self.occurs(n, env, k):
                        s1[v[0]] = n
                        if w[0] is not n:
                            s2.setdefault(w[0], n)
                    elif v[0] is n and w[0] is not n and not self.occurs(n, env):
                        s2.setdefault(w[0], n)
            if s1:
                e = ent[0] = self.rename(e, s1)
                ch = True
            if s2:
                env = self.rename(env, s2)
            if not s1 and not s2:
                break
        if self.split and bi not in self.cyc:
            # what a stack slot holds gets one name when the paths disagree
            for k, v in list(e.mem.items()):
                w = env.mem.get(k)
                if not isinstance(k, tuple) or w is None or w[0] is v[0] or w[1] != v[1] or v[0].op == "c" or w[0].op == "c":
                    continue
                n = self.S.mk("leaf", self.kept.setdefault((k, "slot", bi), self.k0 + len(self.kept)))
                for E, x in ((e, v[0]), (env, w[0])):
                    if x is not n:
                        R = self.rename(E, {x: n})
                        for s, y in R.facts.items():
                            E.facts.setdefault(s, y)
                        for s, y in R.mem.items():
                            if not isinstance(s, tuple):
                                E.mem.setdefault(s, y)
                        E.mem[k] = (n, v[1])
                        ch |= E is e
        # relations of values that differ hold for the joined value when they hold for both
        for k in sorted(set(e.alias) | set(env.alias)):
            if e.alias.get(k) is env.alias.get(k):
                continue
            lk = self.S.mk("leaf", k)
            ra = []
            for E in (e, env):
                v = E.alias.get(k)
                ra.append(E.alias)
                if v is None or v.op in ("c", "lin"):
                    continue
                if self.split and self.f.instrs[k].t == "ptr":
                    R = self.rename(E, {v: lk})
                    for s, x in R.facts.items():
                        E.facts.setdefault(s, x)
                    for s, x in R.mem.items():
                        if not isinstance(s, tuple):
                            E.mem.setdefault(s, x)
                    ra[-1] = R.alias
                    continue
                for s, x in list(E.facts.items()):
                    if s.op in ("eq", "ult", "slt") and (s.a[0] is v or s.a[1] is v):
                        t = self.S.icmp(s.op, *[lk if y is v else y for y in s.a])
                        if t.op == "not":
                            t, x = t.a[0], ("e", 1 - x[1]) if x[0] == "e" else None
                        if t.op != "c" and x:
                            E.facts.setdefault(t, x)
            if ra[0] is not e.alias or ra[1] is not env.alias:
                # values computed from it agree once it has one name
                for q in sorted(set(e.alias) & set(env.alias)):
                    x = ra[0].get(q)
                    if q != k and e.alias[q] is not env.alias[q] and x is not None and x is ra[1].get(q):
                        ch |= e.alias[q] is not x
                        e.alias[q] = env.alias[q] = x
        for s in list(e.facts):
            w = env.facts.get(s)
            j = fjoin(e.facts[s], w) if w is not None else None
            if j is None and w is None:
                # the other path may know it through evaluation
                v = self.eval(s, env)
                if v is not None:
                    j = fjoin(e.facts[s], ("e", v))
                elif e.facts[s] == ("n", frozenset({0})) and self.nonzero(s, env):
                    j = e.facts[s]
            if j != e.facts[s]:
                ch = True
                if j is None:
                    del e.facts[s]
                else:
                    e.facts[s] = j
        for k in list(e.mem):
            if env.mem.get(k) != e.mem[k]:
                del e.mem[k]
                ch = True
        for k in list(e.alias):
            if env.alias.get(k) is not e.alias[k]:
                # both values may share a fact
                f1 = self._factof(e.alias[k], e)
                f2 = self._factof(env.alias[k], env) if k in env.alias else self._factof(self.S.mk("leaf", k), env)
                j = fjoin(f1, f2) if f1 and f2 else None
                del e.alias[k]
                if j:
                    e.facts[self.S.mk("leaf", k)] = j
                ch = True
        if ch and not ent[1]:
            ent[1] = True
            self.work.append(key)

    def occurs(self, n, env, slot=None):
        (x,) = n.leafs
        return any(x in v[0].leafs for k, v in env.mem.items() if k != slot) or any(x in v.leafs for v in env.alias.values()) or any(x in k.leafs for k in env.facts)

    def widen(self, b, s, u, env):
        """values that change from iteration to iteration get one name per loop"""
        S = self.S
        wide = lambda v: v.op in ("lin", "lshr", "and", "or", "xor", "udiv", "urem") or v.op == "c" and abs(v.a[0]) > 1
        W = {}
        for k, v in env.mem.items():
            if isinstance(k, tuple) and wide(v[0]):
                W.setdefault(v[0], k)
        for p in self.phis[s.i]:
            for o, bi in zip(p.o, p.d["inb"]):
                if bi == b.i:
                    v = self.sym(o, env)
                    if wide(v) and p.id not in v.leafs:
                        W.setdefault(v, p.id)
                    break
        if not W:
            return u, env
        hole = {v: S.c(0) for v in W}
        for v in W:
            hole.setdefault(S.erase(v), S.c(0))
        m0 = {}
        used = set()
        for y in symsin(u, set()) | {v[0] for k, v in env.mem.items() if isinstance(k, tuple)}:
            used |= self.replace(y, hole, (), m0).leafs
        exact = {}
        for v, k in W.items():
            for var in range(4):
                n = self.kept.setdefault((k, "loop", s.i, var), self.k0 + len(self.kept))
                if n not in used:
                    break
            exact[v] = n
        if not exact:
            return u, env
        D = set(exact.values())
        ex = {v: S.mk("leaf", n) for v, n in exact.items()}
        nosub = [v for v in ex if v.op == "c"]
        pf = {}
        for v, l in ex.items():
            g = self._factof(v, env) if v.op != "c" else None
            if g:
                pf[l] = g
        for v in nosub:
            del ex[v]
        cl = {S.c(c): S.mk("leaf", n) for c, n in ((v.a[0], n) for v, n in exact.items() if v.op == "c")}
        for v in list(ex):
            w = S.erase(v)
            ex.setdefault(w, ex[v])
        memo = {}
        sub = lambda y: self.replace(y, ex, D, memo)
        val = lambda y: cl[y] if y in cl else sub(y)
        facts = {k: v for k, v in ((sub(k), v) for k, v in env.facts.items()) if not hasold(k) and k.op != "c"}
        facts.update(pf)
        mem = {k: v for k, v in (((k if isinstance(k, tuple) else sub(k)), ((val if isinstance(k, tuple) else sub)(v[0]), v[1])) for k, v in env.mem.items())
               if not hasold(v[0]) and (isinstance(k, tuple) or not hasold(k))}
        alias = {k: v for k, v in ((k, sub(v)) for k, v in env.alias.items()) if not hasold(v)}
        return mapu(u, lambda y: sub(y)), Env(facts, mem, alias, env.part)

    def replace(self, s, ex, D, memo):
        r = memo.get(s)
        if r is not None:
            return r
        S = self.S
        f = lambda x: self.replace(x, ex, D, memo)
        r = ex.get(s)
        if r is None:
            if s.op == "leaf" or s.op == "pl":
                r = S.mk("old", 0) if s.leafs <= set(D) and s.leafs else s
            elif s.op in ("c", "arg", "al", "g", "k", "old"):
                r = s
            elif s.op == "lin":
                r = S.lin(s.a[0], [(f(x), k) for x, k in s.a[1]])
            elif s.op == "not":
                r = S.no(f(s.a[0]))
            elif s.op == "ldv":
                r = S.mk("ldv", f(s.a[0]), s.a[1], s.a[2])
            elif s.op in ("eq", "ult", "slt"):
                r = S.icmp(s.op, f(s.a[0]), f(s.a[1]))
            else:
                r = S.mk(s.op, *[f(x) if isinstance(x, Sym) else x for x in s.a])
        memo[s] = r
        return r

    def rename(self, env, sb):
        S = self.S
        memo = {}
        L = frozenset().union(*[k.leafs for k in sb])
        f = lambda x: S.subst(x, sb.get, memo) if x.leafs & L else x
        return Env({f(k): v for k, v in env.facts.items()},
                   {(k if isinstance(k, tuple) else f(k)): (f(v[0]), v[1]) for k, v in env.mem.items()},
                   {k: f(v) for k, v in env.alias.items()}, env.part)

    def _factof(self, s, env):
        v = self.eval(s, env)
        if v is not None:
            return ("e", v)
        g = env.facts.get(s)
        if g:
            return g
        r = frozenset()
        if self.nonzero(s, env):
            r |= {0}
        t = s.a[0] if s.op == "pl" else s
        if t.op == "lshr" and t.a[1].op == "c" and t.a[1].a[0] > 0:
            r |= {-1}
        return ("n", r) if r else None

    def _flow(self, b, u, env):
        states = [(u, env)]
        f = self.f
        for i in b.ins:
            if i.op == "phi":
                continue
            last = i is b.ins[-1]
            nxt = []
            for u, env in states:
                self.redefine(i, u, env) if b.i in self.cyc else None
                if b.i in self.cyc:
                    u = self._u
                r = self.step(i, u, env)
                if r is None:
                    continue
                if not isinstance(r, list):
                    r = [(r, None, None)]
                for k, (u2, fx, dest) in enumerate(r):
                    e2 = env if k == len(r) - 1 else env.copy()
                    ok = True
                    self.effect(i, e2)
                    if self.post:
                        self.post(i, e2)
                    for s, c in (fx or {}).items():
                        if c == "nz":
                            if self.eval(s, e2) == 0:
                                ok = False
                            self.putne(s, 0, e2)
                        elif not (self.put(s, c, e2) if not self.isbool(s) else self.learn(s, bool(c), e2)):
                            ok = False
                    if ok:
                        nxt.append((u2, e2, dest))
            if last:
                for u2, e2, dest in nxt:
                    self.out(b, i, u2, e2, dest)
                return
            # merge equal typestates
            m = {}
            for u2, e2, dest in nxt:
                m.setdefault(u2, []).append(e2)
            states = [(u2, e) for u2, es in m.items() for e in es]
            if not states:
                return

    def redefine(self, i, u, env):
        """instruction i is about to get a new value"""
        self._u = u
        if not i.t or i.t == "void":
            return
        x = i.id
        S = self.S
        env.alias.pop(x, None)
        # stack slots keep values computed from the former x: these get names of their own
        exact, D = {}, {x}
        pf = {}
        for k, v in env.mem.items():
            if isinstance(k, tuple) and x in v[0].leafs and v[0] not in exact:
                n = self.kept.setdefault((k, x), self.k0 + len(self.kept))
                exact[v[0]] = S.mk("leaf", n)
                D.add(n)
                g = self._factof(v[0], env)
                if g:
                    pf[exact[v[0]]] = g
        # values derived from the former x are named by their own instruction
        for k in sorted(env.alias):
            v = env.alias[k]
            if x in v.leafs and v not in exact and k != x:
                exact[v] = S.mk("leaf", k)
                g = self._factof(v, env)
                if g:
                    pf[exact[v]] = g
        if exact:
            memo = {}

            def fn(y):
                if not (y.leafs & D):
                    return y
                r = exact.get(y)
                if r is not None:
                    return r
                return S.mk("old", 0) if y.op == "leaf" or y.op == "pl" or y.op == "ldv" and y.a[2] in D else None
            sub = lambda y: S.subst(y, fn, memo) if y.leafs & D else y
            sk = lambda k: k if isinstance(k, tuple) else sub(k)
            env.facts = {k: v for k, v in ((sub(k), v) for k, v in env.facts.items()) if not hasold(k) and k.op != "c"}
            env.facts.update(pf)
            env.mem = {k: v for k, v in ((sk(k), (sub(v[0]), v[1])) for k, v in env.mem.items()) if not hasold(v[0]) and (isinstance(k, tuple) or not hasold(k))}
            env.alias = {k: v for k, v in ((k, sub(v)) for k, v in env.alias.items()) if not hasold(v) and not (v.op == "leaf" and v.a[0] == k)}
            old = [n for n in D if n != x]
            u = mapu(u, lambda y: S.mk("old", self.strip(y)) if any(n in y.leafs for n in old) else y)
            memo2 = {}
            u = mapu(u, lambda y: S.subst(y, exact.get, memo2) if x in y.leafs else y)
        else:
            for k in [k for k, v in env.alias.items() if x in v.leafs]:
                del env.alias[k]
            for k in [k for k in env.facts if x in k.leafs]:
                del env.facts[k]
            for k in [k for k, v in env.mem.items() if x in v[0].leafs or not isinstance(k, tuple) and x in k.leafs]:
                del env.mem[k]
        self._u = mapu(u, lambda s: S.mk("old", self.strip(s)) if x in s.leafs else s)

    def strip(self, s):
        return show(s)

    def slotaddr(self, a):
        if a.op == "al":
            return a.a[0], 0
        if a.op == "lin" and len(a.a[1]) == 1 and a.a[1][0][1] == 1 and a.a[1][0][0].op == "al":
            return a.a[1][0][0].a[0], a.a[0]
        return None

    def basealloca(self, a):
        if a.op == "al":
            return a.a[0]
        if a.op == "lin":
            for x, k in a.a[1]:
                if x.op == "al":
                    return x.a[0]
        return None

    def effect(self, i, env):
        S = self.S
        op = i.op
        if op == "load":
            a = self.sym(i.o[0], env)
            sl = self.slotaddr(a)
            if sl:
                k = sl
                v = env.mem.get(k)
                if v is not None and v[1] == (i.sz or 8):
                    env.alias[i.id] = v[0]
                else:
                    l = S.mk("leaf", i.id)
                    env.alias.pop(i.id, None)
                    env.mem[k] = (l, i.sz or 8)
            elif self.basealloca(a) is not None:
                env.alias.pop(i.id, None)
            else:
                self.tag(i.o[0], a)
                v = env.mem.get(a)
                if v is not None and v[1] == (i.sz or 8):
                    env.alias[i.id] = v[0]
                else:
                    l = S.mk("ldv", a, i.sz or 8, i.id)
                    env.alias[i.id] = l
                    env.mem[a] = (l, i.sz or 8)
        elif op == "store":
            a = self.sym(i.o[1], env)
            v = self.sym(i.o[0], env)
            sz = i.sz or 8
            sl = self.slotaddr(a)
            if sl:
                for k in [k for k in env.mem if isinstance(k, tuple) and k[0] == sl[0] and not (k[1] >= sl[1] + sz or k[1] + env.mem[k][1] <= sl[1])]:
                    del env.mem[k]
                env.mem[sl] = (v, sz)
                return
            r = self.basealloca(a)
            if r is not None:
                for k in [k for k in env.mem if isinstance(k, tuple) and k[0] == r]:
                    del env.mem[k]
                return
            self.tag(i.o[1], a)
            for k in [k for k in env.mem if not isinstance(k, tuple) and (k is a or self.mayalias(a, k))]:
                del env.mem[k]
            env.mem[a] = (v, sz)
        elif i.is_call:
            cal = i.callee or ""
            if cal.startswith(("llvm.dbg", "llvm.lifetime", "llvm.expect", "llvm.assume")):
                return
            # stack slots passed to the call
            rs = set()
            for o in i.o:
                r = self.basealloca(self.sym(o, env)) if o[0] == "i" else None
                if r is not None:
                    rs.add(r)
            if cal.startswith(("llvm.memcpy", "llvm.memmove")):
                d = self.sym(i.o[0], env)
                r = self.basealloca(d)
                rs = {r} if r is not None else set()
                sl = self.slotaddr(d)
                src = self.slotaddr(self.sym(i.o[1], env))
                n = cval(i.o[2])
                if sl and src and n:
                    cp = [((sl[0], sl[1] + k[1] - src[1]), v) for k, v in env.mem.items() if isinstance(k, tuple) and k[0] == src[0] and src[1] <= k[1] and k[1] + v[1] <= src[1] + n]
                    for k in [k for k in env.mem if isinstance(k, tuple) and k[0] == sl[0] and not (k[1] >= sl[1] + n or k[1] + env.mem[k][1] <= sl[1])]:
                        del env.mem[k]
                    env.mem.update(cp)
                    return
                if r is not None:
                    for k in [k for k in env.mem if isinstance(k, tuple) and k[0] == r]:
                        del env.mem[k]
                    return
            pred = self.calleffect(i)
            if pred is None:
                return
            for k in [k for k in env.mem if isinstance(k, tuple) and (k[0] in rs or k[0] in self.escaped)]:
                del env.mem[k]
            for k in [k for k in env.mem if not isinstance(k, tuple) and pred(k)]:
                del env.mem[k]
        elif op in ("atomicrmw", "cmpxchg"):
            a = self.sym(i.o[0], env)
            self.tag(i.o[0], a)
            sl = self.slotaddr(a)
            if sl:
                env.mem.pop(sl, None)
            else:
                for k in [k for k in env.mem if not isinstance(k, tuple) and (k is a or self.mayalias(a, k))]:
                    del env.mem[k]

    def tag(self, o, a):
        if a not in self.fld:
            self.fld[a] = self.field(o)

    def field(self, o):
        return field(self.f, o)

    def out(self, b, t, u, env, dest):
        f = self.f
        if t.op == "br" and t.o and len(b.succ) == 2:
            s = self.sym(t.o[0], env)
            c = self.eval(s, env)
            for k in (0, 1):
                if c is not None and (c & 1) == k:
                    continue
                e = env.copy()
                if c is None and not self.learn(s, k == 0, e):
                    continue
                self.goto(b, f.blocks[t.d["succ"][k]], u, e)
        elif t.op == "switch":
            s = self.sym(t.o[0], env)
            c = self.eval(s, env)
            tg = {}
            for v, bi in t.d["cases"]:
                tg.setdefault(bi, []).append(v)
            if c is not None:
                hit = [x[1] for x in t.d["cases"] if x[0] == c]
                self.goto(b, f.blocks[hit[0] if hit else t.d["def"]], u, env.copy())
                return
            for bi, vs in tg.items():
                e = env.copy()
                if len(vs) == 1 and bi != t.d["def"] and not self.put(s, vs[0], e):
                    continue
                self.goto(b, f.blocks[bi], u, e)
            if t.d["def"] not in tg:
                e = env.copy()
                for v, bi in t.d["cases"]:
                    self.putne(s, v, e)
                self.goto(b, f.blocks[t.d["def"]], u, e)
        elif t.op == "invoke":
            if dest != 1:
                self.goto(b, f.blocks[t.d["normal"]], u, env.copy())
            if dest != 0:
                self.goto(b, f.blocks[t.d["unwind"]], u, env.copy())
        else:
            for s in b.succ:
                self.goto(b, s, u, env.copy())

    def goto(self, b, s, u, env):
        S = self.S
        if self.edge:
            u = self.edge(b, s, u, env)
        ph = self.phis[s.i]
        back = self.rpoi.get(s.i, 0) <= self.rpoi.get(b.i, 0)
        if back:
            u, env = self.widen(b, s, u, env)
        if ph:
            D = {p.id for p in ph}
            sp = {}
            for p in ph:
                for o, bi in zip(p.o, p.d["inb"]):
                    if bi == b.i:
                        sp[p.id] = self.sym(o, env)
                        break
            exact = {}
            newal = {}
            shift = {}
            pf = {}
            for p, v in sp.items():
                if v.leafs & D:
                    if v in exact:
                        newal[p] = exact[v]
                    else:
                        exact[v] = S.mk("leaf", p)
                        g = self._factof(v, env)
                        if g:
                            pf[exact[v]] = g
                    if v.op == "lin" and len(v.a[1]) == 1 and v.a[1][0][1] == 1 and v.a[1][0][0].op == "leaf" and abs(v.a[0]) <= 64:
                        shift.setdefault(v.a[1][0][0].a[0], S.lin(-v.a[0], [(S.mk("leaf", p), 1)]))
                else:
                    newal[p] = v
            old = S.mk("old", 0)

            def fn(x, sh):
                if not (x.leafs & D):
                    return x
                r = exact.get(x)
                if r is not None:
                    return r
                if x.op == "pl":
                    return old
                if x.op == "leaf":
                    if sh and x.a[0] in shift:
                        return shift[x.a[0]]
                    return old
                return None
            memo, memo2 = {}, {}
            u = mapu(u, lambda x: S.subst(x, lambda y: fn(y, True), memo) if x.leafs & D else x)
            sub = lambda x: S.subst(x, lambda y: fn(y, False), memo2) if x.leafs & D else x
            nf = {}
            for k, v in env.facts.items():
                if k.leafs & D:
                    k = sub(k)
                    if hasold(k) or k.op == "c":
                        continue
                nf[k] = v
            nf.update(pf)
            nm = {}
            for k, v in env.mem.items():
                if not isinstance(k, tuple) and k.leafs & D:
                    k = sub(k)
                    if hasold(k):
                        continue
                w = v[0]
                if w.leafs & D:
                    w = sub(w)
                    if hasold(w):
                        continue
                nm[k] = (w, v[1])
            na = {}
            for k, v in env.alias.items():
                if k in D:
                    continue
                if v.leafs & D:
                    v = sub(v)
                    if hasold(v):
                        continue
                na[k] = v
            na.update(newal)
            env = Env(nf, nm, na, env.part)
        # forget what is not needed any more
        L = self.livein[s.i]
        keep = set()
        us = symsin(u, set())
        ul = set()
        for x in us:
            ul |= x.leafs
        env.alias = {k: v for k, v in env.alias.items() if k in L}
        al = set()
        for v in env.alias.values():
            al |= v.leafs
        for k, v in env.mem.items():
            if isinstance(k, tuple):
                al |= v[0].leafs
        env.mem = {k: v for k, v in env.mem.items() if (isinstance(k, tuple) or k.leafs <= (L | ul | al))}
        ml = L | ul | al
        for k, v in env.mem.items():
            ml |= v[0].leafs
        env.facts = {k: v for k, v in env.facts.items() if k.leafs <= ml}
        if self.split:
            # paths that chose different objects stay apart while the choice matters
            pt = {x for x in env.part if x[0] in L or not back}
            if ph and not back and not any(self.rpoi.get(q.i, 0) >= self.rpoi.get(s.i, 0) for q in s.pred):
                pt = {x for x in pt if x[0] not in D} | {(p.id, str(o)) for p in ph if p.t in ("ptr", "i1") and p.id in L for o, bi in zip(p.o, p.d["inb"]) if bi == b.i}
            env.part = frozenset(pt)
        if self.edge:
            u = self.edge(b, s, u, env)
            if u is None:
                return
        self._merge(s.i, u, env)


def hasold(s, memo={}):
    if s.op == "old":
        return True
    for x in s.a:
        if isinstance(x, Sym) and hasold(x):
            return True
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, Sym) and hasold(y):
                    return True
                if isinstance(y, tuple) and any(isinstance(z, Sym) and hasold(z) for z in y):
                    return True
    return False
