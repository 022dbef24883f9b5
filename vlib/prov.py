"""Path-sensitive provenance of byte ranges through transformation calls (LLVM IR).

Explores the acyclic paths of one function.  Integers are polynomials over symbols, pointers are (base, offset polynomial), small memory cells are followed by
address, and for each buffer the analysis keeps what its bytes are: a term over the input (transformations are modelled calls), single bytes with a known origin,
or unknown.  Contradictory branch outcomes (intervals of the compared difference) end a path."""
import re
from . import facts as FA

FPNEG = {"ogt": "ule", "oge": "ult", "olt": "uge", "ole": "ugt", "ugt": "ole", "uge": "olt", "ult": "oge", "ule": "ogt"}
INF = float("inf")


# ---- polynomials (shared representation with C04)
def C(c):
    return {(): c} if c else {}


def sym(s):
    return {(s,): 1}


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def fz(p):
    return tuple(sorted(p.items(), key=repr))


def const(p):
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def show(p, names=None):
    if not isinstance(p, dict):
        return str(p)
    if not p:
        return "0"

    def s1(s):
        if names and s in names:
            return names[s]
        return s[0] + "".join(str(x) for x in s[1:2])
    return " + ".join(("%d" % c if not m else ("" if c == 1 else "%d*" % c) + "*".join(s1(s) for s in m)) for m, c in sorted(p.items(), key=repr))


def quo(a, b):
    """a / b for a single term b: multiples of b taken out (no wrap-around)"""
    (m, c), = b.items()
    k = a.get(m, 0)
    k = k // c if c > 0 and k % c == 0 else 0
    if k:
        a = dict(a)
        del a[m]
    if not a:
        return C(k)
    return add(sym(("op", "udiv", fz(a), fz(b))), C(k))


class Limit(Exception):
    pass


class State:
    """memory: cells (base, off) -> value; content: base -> {off (frozen poly): item}; facts: key -> interval"""
    __slots__ = ("cells", "mem", "facts", "trail", "ver", "ev")

    def __init__(self):
        self.cells, self.mem, self.facts, self.trail, self.ver, self.ev = {}, {}, {}, (), 0, ()

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.facts = dict(self.facts)
        s.trail = self.trail
        s.ver = self.ver
        s.ev = self.ev
        return s


class Prov:
    """client hooks:
      call(P, i, st, env) -> list of states, None when not modelled
      ret(P, i, st, env)
      stop(P, b, st, env) -> True to end the path at the head of block b"""

    def __init__(self, f, argbase, argval=None, call=None, ret=None, stop=None, cap=60000, sigs=None, once=False):
        self.f = f
        self.argbase = argbase          # argument index -> base of a pointer
        self.argval = argval or {}
        self.hcall, self.hret, self.hstop = call, ret, stop
        self.cap = cap
        self.sigs = sigs or {}
        self.once = once                # follow no back edge
        self.n = 0
        self.prep()

    # ---- liveness of phis and of facts
    def prep(self):
        f = self.f
        users = {}
        for i in f.ins():
            for o in i.o:
                if o[0] == "i":
                    users.setdefault(o[1], []).append(i)
        self.users = users
        self.reach = {}
        order = list(reversed(f.rpo()))
        R = {b.i: set() for b in f.blocks}
        # symbols of tests reachable from each block: instruction ids and argument numbers the conditions depend on
        dep = {}

        def deps(o, seen):
            if o[0] == "a":
                return {("a", o[1])}
            if o[0] != "i" or o[1] in seen:
                return set()
            seen.add(o[1])
            r = {o[1]}
            i = f.instrs[o[1]]
            for x in i.o:
                if isinstance(x, (list, tuple)) and x and x[0] in ("i", "a"):
                    r |= deps(x, seen)
            return r
        own = {}
        for b in f.blocks:
            t = b.term
            own[b.i] = deps(t.o[0], set()) if t.op in ("br", "switch") and t.o and len(b.succ) > 1 else set()
        ch = True
        while ch:
            ch = False
            for b in order:
                s = set(own[b.i])
                for x in b.succ:
                    s |= R[x.i]
                if s != R[b.i]:
                    R[b.i] = s
                    ch = True
        self.tests = R
        # liveness of phis: blocks where a value depending on the phi (not through another phi) is still used
        self.plive = {}
        for b in f.blocks:
            for i in b.ins:
                if i.op not in ("phi", "load", "select") and not i.is_call:
                    continue
                ub, seen, st = set(), set(), [i.id]
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    for u in users.get(x, ()):
                        if u.op == "phi":
                            for v, bi in zip(u.o, u.d["inb"]):
                                if v[0] == "i" and v[1] == x:
                                    ub.add(bi)
                        else:
                            ub.add(u.bb.i)
                            st.append(u.id)
                L, wk = set(), list(ub)
                while wk:
                    x = wk.pop()
                    if x in L:
                        continue
                    L.add(x)
                    if x != b.i:
                        wk += [p.i for p in f.blocks[x].pred]
                L.add(b.i)
                self.plive[i.id] = L
        # allocas whose address is taken by calls
        self.backedge = set()
        for b in f.rpo():
            for s in b.succ:
                if f.dominates_b(s.i, b.i):
                    self.backedge.add((b.i, s.i))

    # ---- values
    def val(self, o, env):
        """('p', base, off) for pointers, polynomial otherwise"""
        f = self.f
        c = FA.cval(o)
        if c is not None:
            return C(c)
        if o[0] == "a":
            if o[1] in self.argbase:
                return ("p", self.argbase[o[1]], {})
            return self.argval.get(o[1]) or sym(("arg", o[1]))
        if o[0] in ("n", "z"):
            return ("p", ("null",), {}) if o[0] == "n" else {}
        if o[0] in ("g", "f"):
            return ("p", ("g", o[1]), {})
        if o[0] == "x":
            if len(o) > 3 and o[2] is not None:
                v = self.val(o[3], env)
                if isinstance(v, tuple):
                    return ("p", v[1], add(v[2], C(int(o[2]))))
            return ("p", ("g", repr(o)), {})
        if o[0] == "fp":
            return ("f", o[1])
        if o[0] != "i":
            return sym(("k", repr(o)))
        if o[1] in env:
            return env[o[1]]
        return self.inst(f.instrs[o[1]], env)

    def inst(self, i, env):
        op = i.op
        if op in ("sext", "zext", "trunc", "freeze", "bitcast", "inttoptr", "ptrtoint", "addrspacecast"):
            if i.d.get("ft") == "i1":
                return sym(("v", i.id))
            v = self.val(i.o[0], env)
            if op == "ptrtoint" and isinstance(v, tuple) and v[0] == "p":
                return add(sym(("addr",) + tuple([v[1]])), v[2])
            if op == "inttoptr" and isinstance(v, dict):
                l = [(m, c) for m, c in v.items() if len(m) == 1 and m[0][0] == "addr" and c == 1]
                if len(l) == 1:
                    r = dict(v)
                    del r[l[0][0]]
                    return ("p", l[0][0][0][1], r)
                return ("p", ("v", i.id), {})
            if op == "trunc" and isinstance(v, dict) and const(v) is None and i.t in ("i8", "i16"):
                return sym(("tr", i.t, fz(v)))
            return v
        if op in ("add", "sub", "mul", "or", "shl"):
            a, b = self.val(i.o[0], env), self.val(i.o[1], env)
            if isinstance(a, dict) and isinstance(b, dict):
                if op == "add":
                    return add(a, b)
                if op == "sub":
                    return add(a, b, -1)
                if op == "mul":
                    return mul(a, b)
                if op == "shl" and const(b) is not None and 0 <= const(b) < 64:
                    return mul(a, C(1 << const(b)))
                if op == "shl":
                    return mul(a, sym(("op", "shl", fz(C(1)), fz(b))))
            if op == "or":
                n = self.width(i.t)
                l = [self.ibytes(x, n, env) for x in i.o] if n > 1 else []
                if l and all(("c", 0) in (x, y) for x, y in zip(*l)) and all(x[0] != "?" for y in l for x in y):
                    return self.ofbytes([y if x == ("c", 0) else x for x, y in zip(*l)])
            if isinstance(a, dict) and isinstance(b, dict):
                return sym(("op", op, fz(a), fz(b)))
            return sym(("v", i.id))
        if op in ("udiv", "sdiv", "urem", "srem", "lshr", "ashr", "and", "xor"):
            a, b = self.val(i.o[0], env), self.val(i.o[1], env)
            if isinstance(a, dict) and isinstance(b, dict):
                if op in ("lshr", "ashr") and const(b) is not None and 0 <= const(b) < 64:
                    op, b = "udiv", C(1 << const(b))
                if op == "and" and const(b) is not None and const(b) > 0 and const(b) & (const(b) + 1) == 0:
                    op, b = "urem", C(const(b) + 1)
                ca, cb = const(a), const(b)
                if ca is not None and cb:
                    if op in ("udiv", "sdiv"):
                        return C(ca // cb)
                    if op in ("urem", "srem"):
                        return C(ca % cb)
                if op == "udiv" and cb == 1:
                    return a
                op = op.replace("sdiv", "udiv").replace("srem", "urem")
                if op in ("udiv", "urem") and cb is None and len(b) == 1:
                    q = quo(a, b)
                    return q if op == "udiv" else add(a, mul(b, q), -1)
                return sym(("op", op, fz(a), fz(b)))
            return sym(("v", i.id))
        if op == "getelementptr":
            v = self.val(i.o[0], env)
            if not (isinstance(v, tuple) and v[0] == "p"):
                return ("p", ("v", i.id), {})
            if i.d.get("off") is not None:
                return ("p", v[1], add(v[2], C(i.d["off"])))
            if i.d.get("voff") is not None:
                p = add(v[2], C(i.d.get("coff") or 0))
                for x, s in i.d["voff"]:
                    y = self.val(x, env)
                    if not isinstance(y, dict):
                        return ("p", ("v", i.id), {})
                    p = add(p, mul(y, C(s)))
                return ("p", v[1], p)
            return ("p", ("v", i.id), {})
        if op == "alloca":
            return ("p", ("st", i.id), {})
        if i.is_call and (i.callee or "").startswith("llvm.threadlocal.address"):
            return self.val(i.o[0], env)
        if op == "fmul" or op == "fadd":
            return ("fv", i.id)
        return ("p", ("v", i.id), {}) if i.t == "ptr" else sym(("v", i.id))

    def ptr(self, o, env):
        v = self.val(o, env)
        if isinstance(v, tuple) and v[0] == "p":
            return v[1], v[2]
        return None, None

    # ---- bytes of an integer
    def ibytes(self, o, n, env):
        f = self.f
        c = FA.cval(o)
        if c is not None:
            return [("c", (c >> (8 * k)) & 255) for k in range(n)]
        if o[0] == "i" and o[1] not in env:
            i = f.instrs[o[1]]
            if i.op in ("trunc", "zext", "freeze", "bitcast") and i.d.get("ft") not in ("i1", None):
                w = int(i.d["ft"][1:]) // 8 if re.match(r"i\d+$", i.d["ft"]) else 0
                if w:
                    a = self.ibytes(i.o[0], w, env)
                    return (a + [("c", 0)] * n)[:n]
            if i.op in ("lshr", "shl") and FA.cval(i.o[1]) is not None and FA.cval(i.o[1]) % 8 == 0:
                k = FA.cval(i.o[1]) // 8
                a = self.ibytes(i.o[0], n, env)
                return (a[k:] + [("c", 0)] * k) if i.op == "lshr" else ([("c", 0)] * k + a)[:n]
            if i.op in ("or", "xor", "add") and re.match(r"i\d+$", i.t or ""):
                a, b = self.ibytes(i.o[0], n, env), self.ibytes(i.o[1], n, env)
                if all(("c", 0) in (x, y) for x, y in zip(a, b)):
                    return [y if x == ("c", 0) else x for x, y in zip(a, b)]
            if i.op == "and" and FA.cval(i.o[1]) is not None:
                m = FA.cval(i.o[1])
                a = self.ibytes(i.o[0], n, env)
                l = [(m >> (8 * k)) & 255 for k in range(n)]
                if all(x in (0, 255) for x in l):
                    return [y if x else ("c", 0) for x, y in zip(l, a)]
            if i.is_call and i.callee and i.callee.startswith("llvm.bswap."):
                return list(reversed(self.ibytes(i.o[0], n, env)))
        v = self.val(o, env)
        return self.vbytes(v, n)

    def vbytes(self, v, n):
        if isinstance(v, tuple) and v[0] == "bytes":
            return (list(v[1]) + [("c", 0)] * n)[:n]
        if isinstance(v, dict):
            c = const(v)
            if c is not None:
                return [("c", (c >> (8 * k)) & 255) for k in range(n)]
            if len(v) == 1:
                (m, k), = v.items()
                if k == 1 and len(m) == 1:
                    s = m[0]
                    if s[0] == "tr":
                        return [("B", s[2], j) for j in range(n)]
                    if s[0] == "cat":
                        return (list(s[1]) + [("c", 0)] * n)[:n]
            return [("B", fz(v), k) for k in range(n)]
        return [("?",)] * n

    def ofbytes(self, bs):
        """integer whose bytes are bs"""
        if all(b[0] == "c" for b in bs):
            return C(sum(b[1] << (8 * k) for k, b in enumerate(bs)))
        if bs[0][0] == "B" and all(b == ("B", bs[0][1], k) for k, b in enumerate(bs)):
            return dict(bs[0][1])
        t = list(bs)
        while len(t) > 1 and t[-1] == ("c", 0):
            t.pop()
        return sym(("cat", tuple(t)))

    # ---- memory
    def kill(self, st, base):
        for k in [k for k in st.cells if k[0] == base]:
            del st.cells[k]
        st.mem[base] = {fz({}): ("?",)}

    def getbyte(self, st, base, off):
        m = st.mem.get(base, {})
        return m.get(("b", fz(off)))

    def put(self, st, base, off, bs):
        m = st.mem.setdefault(base, {})
        for k, x in enumerate(bs):
            m[("b", fz(add(off, C(k))))] = x
        # a range that starts here or could contain it
        c0 = const(off)
        for k in [k for k in m if k[0] == "r"]:
            co = const(dict(k[1]))
            if c0 is not None and co is not None and c0 + len(bs) <= co:
                continue
            if m[k][0] == "?" and m[k] == ("?", None):
                continue
            d = const(add(off, dict(k[1]), -1))
            if d is not None and d + len(bs) <= 0:
                continue
            m[k] = ("?", None)

    def putrange(self, st, base, off, term, size):
        m = st.mem.setdefault(base, {})
        c0 = const(off)
        for k in list(m):
            d = const(add(dict(k[1]), off, -1))
            if d is not None and d < 0 and k[0] == "b":
                continue
            if d is not None and d < 0 and k[0] == "r":
                sz = m[k][1]
                if sz is not None and const(sz if isinstance(sz, dict) else dict(sz)) is not None and const(dict(sz)) + d <= 0:
                    continue
                m[k] = ("?", None)
                continue
            del m[k]
        m[("r", fz(off))] = (term, None if size is None else fz(size))

    def getrange(self, st, base, off):
        return st.mem.get(base, {}).get(("r", fz(off)))

    # ---- facts: intervals of a difference polynomial, signed view
    def norm(self, d):
        c = d.get((), 0)
        r = {m: k for m, k in d.items() if m}
        if not r:
            return None, 0, c
        first = sorted(r.items(), key=repr)[0][1]
        s = 1 if first > 0 else -1
        return fz({m: k * s for m, k in r.items()}), s, c

    def assume(self, st, d, pred):
        """d <pred> 0 over the integers; False when contradictory"""
        key, s, c = self.norm(d)
        if key is None:
            return {"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[pred]
        # s*x + c <pred> 0
        lo, hi, ne = st.facts.get(key, (-INF, INF, ()))
        p = pred
        b = -c * s
        if s < 0:
            p = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(p, p)
        if p == "eq":
            if b < lo or b > hi or b in ne:
                return False
            lo = hi = b
        elif p == "ne":
            if lo == hi == b:
                return False
            ne = tuple(sorted(set(ne) | {b}))
            if b == lo:
                lo += 1
            if b == hi:
                hi -= 1
        elif p in ("lt", "le"):
            hi = min(hi, b - 1 if p == "lt" else b)
        else:
            lo = max(lo, b + 1 if p == "gt" else b)
        if lo > hi:
            return False
        st.facts[key] = (lo, hi, ne)
        return True

    def fassume(self, st, v, c, pred, ordered=True):
        """v <pred> c, or v is not a number when not ordered"""
        key = ("f", repr(v))
        lo, hi, lo_o, hi_o, num = st.facts.get(key, (-INF, INF, False, False, False))
        num = num or ordered
        if pred in ("eq", "le", "lt") and (c < hi or c == hi and pred == "lt"):
            hi, hi_o = c, pred == "lt"
        if pred in ("eq", "ge", "gt") and (c > lo or c == lo and pred == "gt"):
            lo, lo_o = c, pred == "gt"
        if lo > hi or (lo == hi and (lo_o or hi_o)):
            if num:
                return False
            lo, hi, lo_o, hi_o = INF, -INF, True, True
        st.facts[key] = (lo, hi, lo_o, hi_o, num)
        return True

    def decide(self, o, truth, st, env, d=0):
        """assume condition o == truth; list of resulting states (empty: contradiction)"""
        f = self.f
        c = FA.cval(o)
        if c is not None:
            return [st] if bool(c) == truth else []
        if o[0] != "i" or d > 12:
            return [st]
        if o[1] in env:
            v = env[o[1]]
            if isinstance(v, dict):
                return [st] if self.assume(st, v, "ne" if truth else "eq") else []
            if isinstance(v, tuple) and v[0] == "cond":
                return self.decide(list(v[1]), truth == v[2], st, dict(v[3]), d + 1)
            return [st]
        i = f.instrs[o[1]]
        if i.op == "icmp":
            a, b = self.val(i.o[0], env), self.val(i.o[1], env)
            p = i.pred
            if not truth:
                p = FA.NEG[p]
            pa = isinstance(a, tuple) and a[0] == "p"
            pb = isinstance(b, tuple) and b[0] == "p"
            if (pa or a == {}) and (pb or b == {}):
                na, nb = (not pa) or a[1] == ("null",), (not pb) or b[1] == ("null",)
                if na and nb:
                    return [st] if p in ("eq", "ule", "uge") else []
                if na != nb:
                    x = b if na else a
                    if const(x[2]) not in (0,) or x[1][0] in ("st", "g", "buf"):
                        return [st] if p in ("ne", "ugt", "uge") else []
                    key = ("null", x[1])
                    cur = st.facts.get(key)
                    w = p == "eq"
                    if p not in ("eq", "ne"):
                        return [st]
                    if cur is not None:
                        return [st] if cur == w else []
                    st.facts[key] = w
                    return [st]
                if a[1] == b[1]:
                    a, b = a[2], b[2]
                else:
                    return [st]
            if not isinstance(a, dict) or not isinstance(b, dict):
                return [st]
            q = {"eq": "eq", "ne": "ne", "slt": "lt", "sle": "le", "sgt": "gt", "sge": "ge", "ult": "lt", "ule": "le", "ugt": "gt", "uge": "ge"}[p]
            if p[0] == "u" and p != "une":
                # unsigned: comparisons with constants in the upper half are of error codes
                for x, y, up in ((a, b, False), (b, a, True)):
                    k = const(y)
                    if k is not None and k < 0:
                        # x in the range of error codes or not
                        key = ("err", fz(x))
                        gt = (q in ("gt", "ge")) != up
                        cx = const(x)
                        if cx is not None:
                            w = (cx < 0 and (cx > k if q in ("gt", "lt") else cx >= k))
                            return [st] if w == gt else []
                        cur = st.facts.get(key)
                        if cur is not None:
                            return [st] if cur == gt else []
                        st.facts[key] = gt
                        return [st]
                # a value known to be an error code is bigger than any size
                ea, eb = st.facts.get(("err", fz(a))), st.facts.get(("err", fz(b)))
                if ea is True and eb is not True:
                    return [st] if q in ("gt", "ge") else []
                if eb is True and ea is not True:
                    return [st] if q in ("lt", "le") else []
                if q in ("lt", "le") and const(a) is None and const(b) is not None and len(a) == 1 and list(a.values()) == [1]:
                    if not self.assume(st, a, "ge"):
                        return []
            return [st] if self.assume(st, add(a, b, -1), q) else []
        if i.op == "fcmp":
            a, b = self.val(i.o[0], env), self.val(i.o[1], env)
            p = i.pred
            if p in FPNEG and not truth:
                p, truth = FPNEG[p], True
            q = {"oeq": "eq", "ogt": "gt", "oge": "ge", "olt": "lt", "ole": "le", "ult": "lt", "ule": "le", "ugt": "gt", "uge": "ge"}.get(p)
            if q is None or not truth:
                return [st]
            fa, fb = isinstance(a, tuple) and a[0] == "f", isinstance(b, tuple) and b[0] == "f"
            try:
                if fa and fb:
                    x, y = float(a[1]), float(b[1])
                    return [st] if {"eq": x == y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[q] else []
                if fb:
                    return [st] if self.fassume(st, a, float(b[1]), q, p[0] == "o") else []
                if fa:
                    return [st] if self.fassume(st, b, float(a[1]), {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}.get(q, q), p[0] == "o") else []
            except (ValueError, TypeError):
                pass
            return [st]
        if i.op in ("and", "or") and i.t == "i1":
            if truth == (i.op == "and"):
                r = []
                for s in self.decide(i.o[0], truth, st, env, d + 1):
                    r += self.decide(i.o[1], truth, s, env, d + 1)
                return r
            r = self.decide(i.o[0], truth, st.copy(), env, d + 1)
            for s in self.decide(i.o[0], not truth, st.copy(), env, d + 1):
                r += self.decide(i.o[1], truth, s, env, d + 1)
            return r
        if i.op == "xor" and FA.cval(i.o[1]) in (1, -1):
            return self.decide(i.o[0], not truth, st, env, d + 1)
        if i.op in ("trunc", "zext", "freeze"):
            return self.decide(i.o[0], truth, st, env, d + 1)
        if i.op == "select" and i.t == "i1":
            r = []
            for w in (True, False):
                for s in self.decide(i.o[0], w, st.copy(), env, d + 1):
                    r += self.decide(i.o[1] if w else i.o[2], truth, s, env, d + 1)
            return r
        if i.is_call and i.callee and i.callee.startswith("llvm.expect"):
            return self.decide(i.o[0], truth, st, env, d + 1)
        v = self.val(o, env)
        if isinstance(v, dict):
            return [st] if self.assume(st, v, "ne" if truth else "eq") else []
        return [st]

    # ---- execution
    def run(self, st0=None):
        f = self.f
        import heapq
        rank = {b.i: k for k, b in enumerate(f.rpo())}
        work = []
        pend = {}       # (block, key) -> (state, env, loops)
        done = {}

        def push(x, st, env, loops):
            env = {k: v for k, v in env.items() if k not in self.plive or x.i in self.plive[k]}
            T = self.tests[x.i]
            st.facts = {k: v for k, v in st.facts.items() if self.relevant(k, T)}
            cells = [(k, v) for k, v in st.cells.items() if not self.default(k, v)]
            key = (x.i, repr(sorted(env.items(), key=repr)), repr(sorted(cells, key=repr)), repr(sorted(((k, sorted(v.items(), key=repr)) for k, v in st.mem.items()), key=repr)),
                   repr(st.ev), tuple(sorted(loops)), () if self.prune else repr(sorted((k for k, v in st.facts.items() if len(k) > 1 and isinstance(k[0], tuple) and v[0] == v[1]), key=repr)))
            if key in pend:
                self.join(pend[key][0], st)
                return
            if key in done:
                d = done[key]
                if all(st.facts.get(k) == v for k, v in d.facts.items()):
                    return
                self.join(st, d)
            pend[key] = (st, env, loops)
            heapq.heappush(work, (rank[x.i], len(work), key))
        push(f.blocks[0], st0 or State(), {}, frozenset())
        while work:
            _, _, key = heapq.heappop(work)
            st, env, loops = pend.pop(key)
            b = f.blocks[key[0]]
            done[key] = st.copy()
            self.n += 1
            if self.n > self.cap:
                raise Limit("%d states" % self.n)
            if self.hstop and self.hstop(self, b, st, env):
                continue
            for s, e in self.block(b, st, dict(env)):
                t = b.term
                if t.op == "ret":
                    if self.hret:
                        self.hret(self, t, s, e)
                    continue
                if t.op in ("unreachable", "resume"):
                    continue
                if t.op == "br" and t.o and len(set(t.d["succ"])) == 2:
                    for x in b.succ:
                        for s2 in self.decide(t.o[0], x.i == t.d["succ"][0], s.copy(), e):
                            self.goto(b, x, s2, e, loops, push)
                elif t.op == "switch":
                    v = self.val(t.o[0], e)
                    for x in b.succ:
                        cs = [c[0] for c in t.d["cases"] if c[1] == x.i]
                        for c in cs:
                            s2 = s.copy()
                            if not isinstance(v, dict) or self.assume(s2, add(v, C(int(c)), -1), "eq"):
                                self.goto(b, x, s2, e, loops, push)
                        if t.d["def"] == x.i:
                            s2 = s.copy()
                            if not isinstance(v, dict) or all(self.assume(s2, add(v, C(int(c[0])), -1), "ne") for c in t.d["cases"]):
                                self.goto(b, x, s2, e, loops, push)
                else:
                    for x in b.succ:
                        if t.op == "invoke" and x.i == t.d["unwind"]:
                            continue        # exceptions end the operation
                        self.goto(b, x, s.copy(), e, loops, push)

    def default(self, k, v):
        """value a load would give anyway"""
        if isinstance(v, dict):
            l = list(v.items())
            return len(l) == 1 and l[0][1] == 1 and len(l[0][0]) == 1 and l[0][0][0][:3] == ("ld", k[0], k[1])
        return isinstance(v, tuple) and (v[0] == "p" and v[1] == ("ld", k[0], k[1]) and not v[2] or v[0] == "fl" and v[1:3] == k)

    def join(self, a, b):
        """facts and cached loads of a: those that hold in both"""
        for k in list(a.facts):
            x, y = a.facts[k], b.facts.get(k)
            if x == y:
                continue
            if y is None or not isinstance(x, tuple) or not isinstance(y, tuple):
                del a.facts[k]
            elif k[0] == "f" and isinstance(k[1], str):
                del a.facts[k]
            else:
                lo, hi = min(x[0], y[0]), max(x[1], y[1])
                ne = tuple(v for v in sorted(set(x[2]) | set(y[2]) | {x[0] - 1, x[1] + 1, y[0] - 1, y[1] + 1}) if self.excl(x, v) and self.excl(y, v) and lo <= v <= hi)
                a.facts[k] = (lo, hi, ne)
        for k in list(a.cells):
            if a.cells[k] != b.cells.get(k):
                del a.cells[k]

    def excl(self, f, v):
        return v < f[0] or v > f[1] or v in f[2]

    prune = True
    hback = None


    def relevant(self, key, T):
        if not self.prune:
            return True
        if key[0] == "null":
            return self.symdep(key[1], T)
        if key[0] == "f":
            return bool(T)
        if key[0] == "err":
            return any(self.symdep(s, T) for m, c in key[1] for s in m)
        return any(self.symdep(s, T) for m, c in key for s in m)

    def symdep(self, s, T):
        if not isinstance(s, tuple):
            return True
        if s[0] in ("v", "st", "call", "fv") and len(s) > 1 and isinstance(s[1], int):
            return s[1] in T
        return True

    def goto(self, b, x, st, env, loops, push):
        env = dict(env)
        new = {}
        back = (b.i, x.i) in self.backedge
        for i in x.ins:
            if i.op != "phi":
                break
            for v, bi in zip(i.o, i.d["inb"]):
                if bi == b.i:
                    new[i.id] = self.phival(v, i, env)
                    break
        if back:
            if self.hback:
                self.hback(self, b, x, st, env, new)
            if self.once or x.i in loops:
                return
            loops = loops | {x.i}
            for k in new:
                new[k] = ("p", ("v", k), {}) if self.f.instrs[k].t == "ptr" else sym(("v", k))
        env.update(new)
        push(x, st, env, loops)

    def cond(self, o, env):
        D, w = set(), [o[1]]
        while w:
            x = w.pop()
            if x in D:
                continue
            D.add(x)
            if x not in env:
                w += [y[1] for y in self.f.instrs[x].o if isinstance(y, (list, tuple)) and y and y[0] == "i"]
        return ("cond", tuple(o), True, tuple(sorted(((k, v) for k, v in env.items() if k in D), key=repr)))

    def phival(self, v, i, env):
        if i.t == "i1" and v[0] == "i" and v[1] not in env:
            c = FA.cval(v)
            if c is None:
                j = self.f.instrs[v[1]]
                if j.op in ("icmp", "fcmp", "and", "or", "xor", "select"):
                    return self.cond(v, env)
        return self.val(v, env)

    def width(self, t):
        m = re.match(r"i(\d+)$", t or "")
        return (int(m.group(1)) + 7) // 8 if m else {"ptr": 8, "double": 8, "float": 4}.get(t, 0)

    def block(self, b, st, env):
        states = [(st, env)]
        for i in b.ins:
            if i.op == "phi" or i is b.term and i.op != "invoke":
                continue
            out = []
            for s, e in states:
                out += self.exec(i, s, e)
            states = out
        return states

    def exec(self, i, st, env):
        if i.op == "load":
            base, off = self.ptr(i.o[0], env)
            n = self.width(i.t)
            if base is None:
                return [(st, env)]
            if i.t in ("ptr", "double", "float") or base[0] in ("st",):
                k = (base, fz(off))
                if k in st.cells:
                    env[i.id] = st.cells[k]
                    return [(st, env)]
            bs = [self.getbyte(st, base, add(off, C(k))) for k in range(n)]
            if n and i.t not in ("ptr", "double", "float"):
                if all(x is not None for x in bs):
                    env[i.id] = self.ofbytes(bs)
                    return [(st, env)]
                r = self.getrange(st, base, off)
                if base[0] == "in":
                    env[i.id] = self.ofbytes([("S", base[1], fz(add(off, C(k)))) for k in range(n)])
                    return [(st, env)]
                k = (base, fz(off))
                if k not in st.cells:
                    st.cells[k] = sym(("ld", base, fz(off), st.ver, i.t))
                env[i.id] = st.cells[k]
                return [(st, env)]
            if i.t == "ptr":
                st.cells[(base, fz(off))] = env[i.id] = ("p", ("ld", base, fz(off)), {})
            else:
                st.cells[(base, fz(off))] = env[i.id] = ("fl", base, fz(off), i.id)
            return [(st, env)]
        if i.op == "store":
            base, off = self.ptr(i.o[1], env)
            if base is None:
                return [(st, env)]
            vt = i.d.get("vt")
            n = self.width(vt)
            v = self.val(i.o[0], env)
            c0 = const(off)
            for k in [k for k in st.cells if k[0] == base]:
                d = const(add(dict(k[1]), off, -1))
                if d is None or -8 < d < max(n, 1):
                    del st.cells[k]
            if vt in ("ptr", "double", "float") or base[0] == "st":
                st.cells[(base, fz(off))] = v
            if n and vt not in ("ptr", "double", "float"):
                self.put(st, base, off, self.ibytes(i.o[0], n, env))
                if base[0] != "st":
                    st.cells[(base, fz(off))] = v
                else:
                    st.cells[(base, fz(off))] = v
            elif not n:
                self.putrange(st, base, off, ("?",), None)
            return [(st, env)]
        if i.op == "select":
            out = []
            for w in (True, False):
                for s in self.decide(i.o[0], w, st.copy(), env):
                    e = dict(env)
                    e[i.id] = self.val(i.o[1] if w else i.o[2], env)
                    if i.t == "i1":
                        o = i.o[1] if w else i.o[2]
                        if o[0] == "i" and o[1] not in env:
                            e.pop(i.id)
                            e[i.id] = self.cond(o, env)
                    out.append((s, e))
            return out or []
        if i.is_call or i.op == "invoke":
            c = i.callee or ""
            if c.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.expect", "llvm.prefetch", "llvm.stack")):
                return [(st, env)]
            if c.startswith(("llvm.memcpy", "llvm.memmove")) or c in ("memcpy", "memmove"):
                (db, dp), (sb, sp) = self.ptr(i.o[0], env), self.ptr(i.o[1], env)
                n = self.val(i.o[2], env)
                cn = const(n) if isinstance(n, dict) else None
                if db is None:
                    return [(st, env)]
                if cn is not None and cn <= 64 and sb is not None:
                    bs = []
                    for k in range(cn):
                        x = self.getbyte(st, sb, add(sp, C(k)))
                        if x is None and sb[0] == "in":
                            x = ("S", sb[1], fz(add(sp, C(k))))
                        if x is None:
                            x = self.cellbyte(st, sb, add(sp, C(k)))
                        bs.append(x or ("?",))
                    for k in [k for k in st.cells if k[0] == db]:
                        d = const(add(dict(k[1]), dp, -1))
                        if d is None or -8 < d < cn:
                            del st.cells[k]
                    self.put(st, db, dp, bs)
                    if db[0] == "st":
                        st.cells[(db, fz(dp))] = self.ofbytes(bs) if bs and ("?",) not in bs else sym(("v", i.id))
                    return [(st, env)]
                r = self.hcall(self, i, st, env, ("copy", (db, dp), (sb, sp), n)) if self.hcall else None
                if r is not None:
                    return r
                self.putrange(st, db, dp, ("?",), None)
                return [(st, env)]
            if c.startswith("llvm.memset") or c == "memset":
                db, dp = self.ptr(i.o[0], env)
                v, n = FA.cval(i.o[1]), FA.cval(i.o[2])
                if db is not None and v is not None and n is not None and n <= 64:
                    for k in [k for k in st.cells if k[0] == db]:
                        d = const(add(dict(k[1]), dp, -1))
                        if d is None or -8 < d < n:
                            del st.cells[k]
                    self.put(st, db, dp, [("c", v & 255)] * n)
                    return [(st, env)]
                if db is not None:
                    self.putrange(st, db, dp, ("?",), None)
                return [(st, env)]
            m = re.match(r"llvm\.[us](min|max)\.", c)
            if m:
                a, b = self.val(i.o[0], env), self.val(i.o[1], env)
                if isinstance(a, dict) and isinstance(b, dict):
                    env[i.id] = sym(("op", m.group(1)) + tuple(sorted((fz(a), fz(b)), key=repr)))
                return [(st, env)]
            if c.startswith("llvm."):
                env.pop(i.id, None)
                return [(st, env)]
            r = self.hcall(self, i, st, env, None) if self.hcall else None
            if r is not None:
                return r
            self.clobber(i, st, env)
            return [(st, env)]
        if i.op in ("fmul", "fadd", "fdiv", "fsub") and i.id not in env:
            return [(st, env)]
        return [(st, env)]

    def clobber(self, i, st, env, skip=()):
        """unknown call: what is passed by non-const pointer is unknown afterwards"""
        c = i.callee or ""
        fn = self.sigs.get(c)
        dia = (fn.d.get("dia") or []) if fn is not None else []
        for k, o in enumerate(i.o):
            if k in skip:
                continue
            if k + 1 < len(dia) and dia[k + 1].startswith(("ptr const", "ref const")):
                continue
            base, off = self.ptr(o, env)
            if base is None or base[0] in ("g", "null"):
                continue
            md = self.mods(c, k) if const(off) is not None else None
            if md is None:
                md = self.member(dia, k, const(off) or 0)
            if md is not None:
                # only these fields are written
                at = [const(off) + m for m in md]
                for kk in [kk for kk in st.cells if kk[0] == base]:
                    o = const(dict(kk[1]))
                    if o is None or any(-8 < o - a < 8 for a in at):
                        del st.cells[kk]
                for kk in list(st.mem.get(base, {})):
                    o = const(dict(kk[1]))
                    if o is None or any(0 <= o - a < 8 for a in at):
                        del st.mem[base][kk]
            elif const(off) == 0:
                for kk in [kk for kk in st.cells if kk[0] == base]:
                    v = st.cells[kk]
                    if not (isinstance(v, tuple) and v[0] == "p" and v[1] == ("ld", base, kk[1])):
                        del st.cells[kk]
                st.mem.pop(base, None)
                self.putrange(st, base, {}, ("?",), None)
            if const(off) == 0:
                for x in list(st.mem):      # what its members point to
                    y = x
                    while isinstance(y, tuple) and y and y[0] == "ld":
                        y = y[1]
                        if y == base:
                            st.mem.pop(x, None)
                            self.putrange(st, x, {}, ("?",), None)
                            break
        if i.t == "ptr":
            env[i.id] = ("p", ("call", i.id), {})

    def member(self, dia, k, off):
        """an unknown function that is given a member object changes this object only"""
        if k + 1 < len(dia) and "std::vector<" in dia[k + 1] or k + 1 < len(dia) and dia[k + 1].startswith(("ptr vector<", "ref vector<")):
            return {0, 8, 16}
        return {0, 8} if off else None

    def mods(self, c, k, depth=0):
        """offsets from parameter k that function c may store to; None: unknown"""
        memo = self.__dict__.setdefault("modmemo", {})
        if (c, k) in memo:
            return memo[(c, k)]
        f = self.sigs.get(c)
        if f is None or not f.blocks or depth > 12:
            return None
        memo[(c, k)] = set()        # recursion
        D, ch, r = {("a", k): 0}, True, set()

        def at(o):
            return D.get((o[0], o[1])) if o[0] in ("a", "i") else None
        for _ in range(20):
            ch = False
            for i in f.ins():
                if i.op in ("getelementptr", "bitcast", "phi", "select", "freeze") and i.t == "ptr":
                    src = i.o if i.op == "phi" else i.o[1:] if i.op == "select" else i.o[:1]
                    for o in src:
                        b = at(o)
                        if b is None and ((o[0], o[1]) if len(o) > 1 else None) not in D:
                            continue
                        n = None
                        if b is not None:
                            n = b + (i.d["off"] if i.op == "getelementptr" else 0) if i.op != "getelementptr" or i.d.get("off") is not None else None
                        x = ("i", i.id)
                        if x not in D:
                            D[x] = n
                            ch = True
                        elif D[x] != n and D[x] is not None:
                            D[x] = None
                            ch = True
            if not ch:
                break
        for i in f.ins():
            if r is None:
                break
            if i.op in ("store", "atomicrmw", "cmpxchg"):
                p = i.o[1] if i.op == "store" else i.o[0]
                if p[0] in ("a", "i") and (p[0], p[1]) in D:
                    b = D[(p[0], p[1])]
                    if b is None:
                        r = None
                    else:
                        r.add(b)
                if i.op == "store" and i.o[0][0] in ("a", "i") and (i.o[0][0], i.o[0][1]) in D and r is not None:
                    v = i.o[1]
                    if not (v[0] == "i" and f.instrs[v[1]].op == "alloca"):
                        r = None        # escapes
            elif i.is_call:
                if (i.callee or "").startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume")):
                    continue
                for j, o in enumerate(i.o):
                    if len(o) > 1 and o[0] in ("a", "i") and (o[0], o[1]) in D:
                        b = D[(o[0], o[1])]
                        g = self.sigs.get(i.callee)
                        dia = (g.d.get("dia") or []) if g is not None else []
                        if j + 1 < len(dia) and dia[j + 1].startswith(("ptr const", "ref const")):
                            continue
                        m = self.mods(i.callee, j, depth + 1) if i.callee and b is not None else None
                        if m is None and b is not None:
                            m = self.member(dia, j, b)
                        if m is None:
                            r = None
                            break
                        r |= {b + x for x in m}
        memo[(c, k)] = r
        return r

    def cellbyte(self, st, base, off):
        for j in range(8):
            v = st.cells.get((base, fz(add(off, C(-j)))))
            if isinstance(v, dict):
                return self.vbytes(v, 8)[j]
        return None
