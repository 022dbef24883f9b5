"""C04: every implementation of the byte transposition moves byte j of element i to position j*n+i (and back), and writes every byte.

Byte-provenance dataflow over LLVM IR (inlined, constant-trip loops unrolled by the compiler).  Integers are polynomials over the arguments,
quotients and per-loop iteration counters, vectors are lists of (source address, byte).  For each byte stored, the equation
  dst = q*n + e, src = e*T + q   (T element size, n = size / T; roles swapped for unshuffle)
is checked as an identity of polynomials; the (element, byte) rectangles written are composed over the loops and, on every path of the
function, must tile [0,n) x [0,T) and the size % T trailing bytes.
"""
import os, re
from math import gcd
from collections import defaultdict
from vlib import build, facts as FA

PASSES = ("function(sroa,early-cse<memssa>,simplifycfg,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),sroa,early-cse<memssa>,"
          "instsimplify,loop-simplify,lcssa,loop(indvars,loop-unroll-full),sroa,early-cse<memssa>,instsimplify,gvn,simplifycfg,instsimplify,dce,loop-simplify)")
LLVM = ("-unroll-threshold=1000000", "-unroll-full-max-count=64")


# ------------------------------------------------------------------ polynomials
def C(c):
    return {(): c} if c else {}


def sym(s):
    return {(s,): 1}


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def fz(p):
    return tuple(sorted(p.items(), key=repr))


def unfz(t):
    return dict(t)


def const(p):
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def divexact(a, b):
    """a / b when b is a single monomial dividing every monomial of a"""
    if len(b) != 1:
        return None
    (bm, bc), = b.items()
    r = {}
    for m, c in a.items():
        l = list(m)
        for s in bm:
            if s not in l:
                return None
            l.remove(s)
        if c % bc:
            return None
        r[tuple(l)] = c // bc
    return r


def sdiv(a, b):
    if const(b) == 1:
        return a
    ca, cb = const(a), const(b)
    if ca is not None and cb:
        return C(int(ca / cb)) if abs(ca) < 2 ** 52 else C(ca // cb)
    x = divexact(a, b) if b else None
    if x is not None:
        return x
    if cb and cb > 0 and all(c >= 0 and (not m or c % cb == 0 and all(t[0] == "Q" for t in m)) for m, c in a.items()):
        return {m: c // cb for m, c in a.items() if c // cb}       # Q: non-negative unknown
    return sym(("div", fz(a), fz(b)))


def srem(a, b):
    return add(a, mul(b, sdiv(a, b)), -1)


def subst(p, env):
    """replace symbols (also inside quotients)"""
    if not env:
        return p
    r = {}
    for m, c in p.items():
        t = C(c)
        for s in m:
            t = mul(t, subsym(s, env))
        r = add(r, t)
    return r


def subsym(s, env):
    if s in env:
        return env[s]
    if s[0] == "div":
        return sdiv(subst(unfz(s[1]), env), subst(unfz(s[2]), env))
    return sym(s)


def syms(p, deep=True):
    r = set()
    for m in p:
        for s in m:
            r.add(s)
            if deep and s[0] == "div":
                r |= syms(unfz(s[1])) | syms(unfz(s[2]))
    return r


def show(p):
    def ss(s):
        if s[0] == "div":
            return "(%s)/(%s)" % (show(unfz(s[1])), show(unfz(s[2])))
        return str(s[1]) if len(s) > 1 else str(s[0])
    if not p:
        return "0"
    return " + ".join(("%d" % c if not m else ("" if c == 1 else "%d*" % c) + "*".join(ss(s) for s in m)) for m, c in sorted(p.items(), key=repr))


BIG = 10 ** 18


# ------------------------------------------------------------------ one function
class Loop:
    def __init__(self, h):
        self.h = h
        self.blocks = {h.i}
        self.latches = []
        self.parent = None


class Fn:
    def __init__(self, f, inv, T, B, src, dst):
        self.f = f
        self.inv = inv                      # True: unshuffle
        self.T, self.B = sym(("arg", "T")), sym(("arg", "B"))
        self.ai = {T: ("arg", "T"), B: ("arg", "B"), src: ("src", "src"), dst: ("dst", "dst")}
        self.pos = (T, B, src, dst)
        self.pm, self.vm, self.am = {}, {}, {}
        self.FA = FA.Facts(f)
        self.findloops()
        for _ in range(2):
            self.redo()
            for b in f.rpo():
                if b.i in self.loops:
                    for i in b.ins:
                        if i.op == "phi":
                            self.A(["i", i.id]) if i.t == "ptr" else self.P(["i", i.id])

    def findloops(self):
        f = self.f
        L = {}
        for b in f.rpo():
            for s in b.succ:
                if f.dominates_b(s.i, b.i):
                    l = L.setdefault(s.i, Loop(s))
                    l.latches.append(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x.i not in l.blocks:
                            l.blocks.add(x.i)
                            st.extend(x.pred)
        self.loops = L
        for l in L.values():
            c = [m for m in L.values() if m is not l and l.h.i in m.blocks]
            l.parent = min(c, key=lambda m: len(m.blocks)) if c else None

    def loopof(self, bi):
        c = [l for l in self.loops.values() if bi in l.blocks]
        return min(c, key=lambda l: len(l.blocks)) if c else None

    # ---- integers
    def P(self, o):
        c = FA.cval(o)
        if c is not None:
            return C(c)
        if o[0] == "a":
            return sym(self.ai.get(o[1], ("argx", o[1])))
        if o[0] != "i":
            return sym(("op", repr(o)))
        k = o[1]
        if k in self.pm:
            return self.pm[k]
        self.pm[k] = sym(("v", "%%%d" % k))
        r = self._P(self.f.instrs[k])
        self.pm[k] = r
        return r

    def _P(self, i):
        op = i.op
        if op in ("sext", "zext", "trunc", "freeze"):
            if op == "zext" and i.ft == "i1":
                return sym(("v", "%%%d" % i.id))
            return self.P(i.o[0])
        if op in ("add", "sub", "mul", "or", "shl", "sdiv", "udiv", "srem", "urem", "and", "lshr", "ashr"):
            a, b = self.P(i.o[0]), self.P(i.o[1])
            cb = const(b)
            if op == "add":
                return add(a, b)
            if op == "sub":
                return add(a, b, -1)
            if op == "mul":
                return mul(a, b)
            if op == "shl" and cb is not None:
                return mul(a, C(1 << cb))
            if op in ("lshr", "ashr") and cb is not None and 0 <= cb < 40:
                return sdiv(a, C(1 << cb))
            if op in ("sdiv", "udiv"):
                return sdiv(a, b)
            if op in ("srem", "urem"):
                return srem(a, b)
            if op == "and" and cb is not None:
                if cb > 0 and cb & (cb + 1) == 0:
                    return srem(a, C(cb + 1))
                if cb < 0 and (-cb) & (-cb - 1) == 0:
                    return add(a, srem(a, C(-cb)), -1)
            return sym(("v", "%%%d" % i.id))
        if op == "phi":
            l = self.loops.get(i.bb.i)
            if l:
                init = [v for v, b in zip(i.o, i.d["inb"]) if b not in l.blocks]
                nxt = [v for v, b in zip(i.o, i.d["inb"]) if b in l.blocks]
                me = sym(("v", "%%%d" % i.id))
                if init and all(FA.tup(v) == FA.tup(init[0]) for v in init):
                    steps = []
                    for v in nxt:
                        steps.append(add(self.P(v), me, -1))
                    i0 = self.P(init[0])
                    if steps and all(s == steps[0] for s in steps) and not any(self.variant(s, l) for s in syms(steps[0])):
                        self.redo()
                        return add(i0, mul(steps[0], sym(("k", "k%d" % l.h.i))))
                return me
            vs = [self.P(v) for v in i.o]
            if vs and all(v == vs[0] for v in vs):
                return vs[0]
            return sym(("v", "%%%d" % i.id))
        if op == "extractvalue":
            c = self.f.V(i.o[0])
            if c is not None and c.is_call and c.callee in ("lldiv", "ldiv", "div", "imaxdiv") and len(i.d["idx"]) == 1:
                a, b = self.P(c.o[0]), self.P(c.o[1])
                return sdiv(a, b) if i.d["idx"][0] == 0 else srem(a, b)
        if op == "select":
            a, b = self.P(i.o[1]), self.P(i.o[2])
            if a == b:
                return a
        return sym(("v", "%%%d" % i.id))

    def redo(self):
        # values computed while a phi was unknown are recomputed
        self.pm = {k: v for k, v in self.pm.items() if not any(s[0] == "v" for s in syms(v))}
        self.am = {}

    def variant(self, s, l):
        """may the symbol change inside loop l"""
        if s[0] == "k":
            return int(s[1][1:]) in l.blocks
        if s[0] == "v":
            return self.f.instrs[int(s[1][1:])].bb.i in l.blocks
        return False

    # ---- addresses: (base, offset)
    def A(self, o):
        if o[0] == "a":
            return self.ai.get(o[1], ("argx", o[1])), {}
        if o[0] != "i":
            if o[0] == "x" and len(o) > 3 and o[2] is not None:
                b, p = self.A(o[3])
                return b, add(p, C(int(o[2])))
            return ("g", repr(o)), {}
        i = self.f.instrs[o[1]]
        if i.op == "getelementptr":
            b, p = self.A(i.o[0])
            if i.d.get("off") is not None:
                return b, add(p, C(i.d["off"]))
            if i.d.get("voff") is not None:
                p = add(p, C(i.d.get("coff") or 0))
                for v, s in i.d["voff"]:
                    p = add(p, mul(self.P(v), C(s)))
                return b, p
        if i.op in ("bitcast", "freeze"):
            return self.A(i.o[0])
        if i.op == "phi":
            if i.id in self.am:
                return self.am[i.id]
            l = self.loops.get(i.bb.i)
            if l:
                init = [v for v, b in zip(i.o, i.d["inb"]) if b not in l.blocks]
                nxt = [v for v, b in zip(i.o, i.d["inb"]) if b in l.blocks]
                self.am[i.id] = ("v", "%%%d" % i.id), {}
                st = [self.A(v) for v in nxt]
                b0, p0 = self.A(init[0]) if init else (None, None)
                if b0 and all(b == ("v", "%%%d" % i.id) for b, _ in st) and all(p == st[0][1] for _, p in st) \
                        and not any(self.variant(s, l) for s in syms(st[0][1])):
                    self.am[i.id] = b0, add(p0, mul(st[0][1], sym(("k", "k%d" % l.h.i))))
                return self.am[i.id]
        return ("v", "%%%d" % i.id), {}

    # ---- bytes
    def width(self, t):
        m = re.match(r"<(\d+) x i(\d+)>$", t or "")
        if m:
            return int(m.group(1)) * int(m.group(2)) // 8, int(m.group(2)) // 8
        m = re.match(r"i(\d+)$", t or "")
        if m and int(m.group(1)) % 8 == 0:
            return int(m.group(1)) // 8, int(m.group(1)) // 8
        m = re.match(r"<(\d+) x (float|double)>$", t or "")
        if m:
            e = 4 if m.group(2) == "float" else 8
            return int(m.group(1)) * e, e
        return {"float": (4, 4), "double": (8, 8)}.get(t, (0, 0))

    def cbytes(self, o, n, e):
        if o[0] in ("u",):
            return [None] * n
        if o[0] in ("z", "n"):
            return [("c", 0)] * n
        if o[0] == "c":
            v = int(o[1])
            return [("c", (v >> (8 * k)) & 255) for k in range(n)]
        if o[0] == "vec":
            r = []
            for v in o[1:]:
                r += [("c", (v >> (8 * k)) & 255) for k in range(e)] if isinstance(v, int) else [("?",)] * e
            return r
        if o[0] == "cvec":
            r = []
            for v in o[1:]:
                r += self.cbytes(v, e, e)
            return r
        return [("?",)] * n

    def Y(self, o, t):
        n, e = self.width(t)
        if o[0] != "i":
            return self.cbytes(o, n, e)
        if o[1] in self.vm:
            return self.vm[o[1]]
        self.vm[o[1]] = [("?",)] * n
        r = self._Y(self.f.instrs[o[1]], n, e)
        if len(r) != n:
            r = (r + [("?",)] * n)[:n]
        self.vm[o[1]] = r
        return r

    def _Y(self, i, n, e):
        op = i.op
        bad = [("?",)] * n
        if op == "load":
            b, p = self.A(i.o[0])
            if b[0] == "src":
                return [("S", fz(add(p, C(k)))) for k in range(n)]
            return bad
        if op in ("bitcast", "freeze"):
            return self.Y(i.o[0], i.d.get("ft") or i.t)
        if op == "phi" and i.bb.i in self.loops:
            # undefined in the first iteration: undefined
            l = self.loops[i.bb.i]
            r = bad
            for v, b in zip(i.o, i.d["inb"]):
                if b not in l.blocks:
                    r = [None if x is None else y for x, y in zip(self.Y(v, i.t), r)]
            return r
        if op == "shufflevector":
            t = self.optype(i.o[0]) or self.optype(i.o[1])
            ne, ee = self.width(t)
            if i.o[0][0] == "u" and i.o[1][0] == "u":
                return [None] * n
            a = self.Y(i.o[0], t) if t else []
            b = self.Y(i.o[1], t) if t else []
            al = a + b
            r = []
            for m in i.d["mask"]:
                r += [None] * e if m < 0 else (al[m * e:(m + 1) * e] or [("?",)] * e)
            return r
        if op in ("insertelement",):
            a = list(self.Y(i.o[0], i.t))
            k = FA.cval(i.o[2])
            if k is None:
                return bad
            t = {1: "i8", 2: "i16", 4: "i32", 8: "i64"}[e]
            a[k * e:(k + 1) * e] = self.Y(i.o[1], t)
            return a
        if op == "extractelement":
            t = self.optype(i.o[0])
            k = FA.cval(i.o[1])
            if k is None or not t:
                return bad
            return self.Y(i.o[0], t)[k * n:(k + 1) * n]
        if op == "trunc":
            return self.Y(i.o[0], i.d["ft"])[:n] if not (i.t or "").startswith("<") else bad
        if op == "zext" and not (i.t or "").startswith("<") and i.d["ft"] != "i1":
            a = self.Y(i.o[0], i.d["ft"])
            return a + [("c", 0)] * (n - len(a))
        if op in ("lshr", "shl") and not (i.t or "").startswith("<"):
            k = FA.cval(i.o[1])
            if k is None or k % 8 or not 0 <= k < 8 * n:
                return bad
            a = self.Y(i.o[0], i.t)
            k //= 8
            return a[k:] + [("c", 0)] * k if op == "lshr" else [("c", 0)] * k + a[:n - k]
        if op in ("or", "xor", "add", "and"):
            a, b = self.Y(i.o[0], i.t), self.Y(i.o[1], i.t)
            r = []
            for x, y in zip(a, b):
                if op == "and":
                    r.append(("c", 0) if ("c", 0) in (x, y) else x if y == ("c", 255) else y if x == ("c", 255) else ("?",))
                else:
                    r.append(y if x == ("c", 0) else x if y == ("c", 0) else ("?",))
            if op == "add" and any(x == ("?",) for x in r):
                return bad
            return r
        if op == "select":
            c = i.o[0]
            if c[0] == "vec" and e:
                a, b = self.Y(i.o[1], i.t), self.Y(i.o[2], i.t)
                r = []
                for k, m in enumerate(c[1:]):
                    r += (a if m & 1 else b)[k * e:(k + 1) * e]
                return r
            return bad
        if i.is_call and i.callee:
            c = i.callee
            if c.startswith("llvm.bswap."):
                return list(reversed(self.Y(i.o[0], i.t))) if not (i.t or "").startswith("<") else bad
            if "pshuf.b" in c:
                a, m = self.Y(i.o[0], i.t), self.Y(i.o[1], i.t)
                r = []
                for k in range(n):
                    if not m[k] or m[k][0] != "c":
                        return bad
                    v = m[k][1]
                    r.append(("c", 0) if v & 128 else a[(k & ~15) | (v & 15)])
                return r
            if c in ("llvm.x86.avx2.permd", "llvm.x86.avx2.permps"):
                a, m = self.Y(i.o[0], i.t), self.Y(i.o[1], "<8 x i32>")
                r = []
                for k in range(0, n, 4):
                    if not m[k] or m[k][0] != "c":
                        return bad
                    v = m[k][1] & 7
                    r += a[4 * v:4 * v + 4]
                return r
            if c.startswith("llvm.fshl") or c.startswith("llvm.vector."):
                return bad
        return bad

    def optype(self, o):
        if o[0] == "i":
            return self.f.instrs[o[1]].t
        if o[0] == "z":
            return o[1]
        return None


# ------------------------------------------------------------------ regions
class Und(Exception):
    pass


def nov(p):
    return not any(s[0] == "v" for s in syms(p))


class Region:
    """alternatives (pieces, atoms) of the paths through a function or one iteration of a loop"""

    def __init__(self, R, fn, env0):
        self.R = R          # reporter
        self.fn = fn
        self.f = fn.f

    def envof(self, facts):
        """T as the constant the path has compared it with; B as exact multiple when the path says so"""
        env = {}
        for (p, a, b) in facts:
            if p == "eq" and b is not None and isinstance(a, tuple):
                cb = FA.cval(b)
                if cb is not None:
                    t = self.solve(list(a), cb)
                    if t is not None:
                        env[("arg", "T")] = C(t)
        return env

    def solve(self, o, c):
        """T when the value `o`, an injective function of T, is c"""
        for _ in range(6):
            p = self.fn.P(o)
            if p == self.fn.T:
                return c
            d = const(add(p, self.fn.T, -1))
            if d is not None:
                return c - d
            i = self.f.V(o) if o[0] == "i" else None
            if i is None:
                return None
            if i.op in ("zext", "trunc", "freeze"):
                o = i.o[0]
            elif i.op == "add" and FA.cval(i.o[1]) is not None:
                o, c = i.o[0], c - FA.cval(i.o[1])
            elif i.op == "sub" and FA.cval(i.o[1]) is not None:
                o, c = i.o[0], c + FA.cval(i.o[1])
            elif i.is_call and i.callee and i.callee.startswith("llvm.fsh") and i.o[0] == i.o[1] and FA.cval(i.o[2]) is not None:
                w = int(i.callee.rsplit(".i", 1)[1])
                k = FA.cval(i.o[2]) % w
                k = k if i.callee.startswith("llvm.fshl") else w - k     # o = rotl(x, k)
                c &= (1 << w) - 1
                c = ((c >> k) | (c << (w - k))) & ((1 << w) - 1)
                c = c - (1 << w) if c >> (w - 1) else c
                o = i.o[0]
            else:
                return None
        return None

    # -- pieces of a block
    def block(self, b, env):
        fn, f = self.fn, self.f
        out = []
        mem = {}
        order = []
        locs = {}

        def put(p, v, loc):
            k = fz(p)
            if k not in mem:
                order.append(k)
            mem[k] = v
            locs[k] = loc

        for i in b.ins:
            if i.op == "store":
                base, p = fn.A(i.o[1])
                if base[0] == "dst":
                    v = fn.Y(i.o[0], i.d.get("vt"))
                    for k, x in enumerate(v):
                        put(add(p, C(k)), x, i.loc())
                elif base[0] == "src":
                    self.R.fail("srcstore", f, i, "writes to the source buffer")
                elif base[0] == "v":
                    raise Und("store through %s" % (base,))
            elif i.is_call and i.callee:
                c = i.callee
                if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove") or c in ("memcpy", "memmove"):
                    (db, dp), (sb, sp) = fn.A(i.o[0]), fn.A(i.o[1])
                    if db[0] == "dst":
                        ln = fn.P(i.o[2])
                        cl = const(ln)
                        if cl is not None and cl <= 64 and sb[0] == "src":
                            for k in range(cl):
                                put(add(dp, C(k)), ("S", fz(add(sp, C(k)))), i.loc())
                            continue
                        if sb[0] != "src":
                            raise Und("copy from %s" % (sb,))
                        out.append(("copy", subst(dp, env), subst(sp, env), subst(ln, env), i))
                elif "maskmov.dqu" in c or "maskstore" in c or c.startswith("llvm.masked.store"):
                    if "maskmov.dqu" in c:
                        v, m, a, e = i.o[0], i.o[1], i.o[2], 1
                        t = "<16 x i8>"
                    elif "maskstore" in c:
                        a, m, v = i.o[0], i.o[1], i.o[2]
                        t = fn.optype(v) or fn.optype(m)
                        e = fn.width(t)[1]
                    else:
                        v, a, m = i.o[0], i.o[1], i.o[3]
                        t = fn.optype(v)
                        e = fn.width(t)[1]
                    base, p = fn.A(a)
                    if base[0] != "dst":
                        continue
                    vb = fn.Y(v, t)
                    mb = fn.Y(m, t) if not c.startswith("llvm.masked") else sum(([("c", -(x & 1) & 255)] * e for x in (m[1:] if m[0] == "vec" else [])), [])
                    for k, x in enumerate(vb):
                        q = mb[(k // e) * e + e - 1] if (k // e) * e + e - 1 < len(mb) else None
                        if not q or q[0] != "c":
                            raise Und("mask of unknown value")
                        if q[1] & 128:
                            put(add(p, C(k)), x, i.loc())
                elif c in self.R.roles:
                    r = self.R.roles[c]
                    pos = self.R.pos[c]
                    want = [fn.T, fn.B]
                    ok = [fn.P(i.o[pos[0]]) == fn.T, fn.P(i.o[pos[1]]) == fn.B, fn.A(i.o[pos[2]]) == (("src", "src"), {}), fn.A(i.o[pos[3]]) == (("dst", "dst"), {})]
                    if not all(ok):
                        self.R.fail("fwdargs", f, i, "calls %s with other arguments than its own (element size, size, source, destination)" % self.R.short(c))
                    if r != fn.inv:
                        self.R.fail("fwddir", f, i, "calls %s, the opposite direction" % self.R.short(c))
                    out.append(("all", i))
                    self.R.ctx.ob(all(ok) and r == fn.inv)
                elif not c.startswith("llvm.") and c not in ("lldiv", "ldiv", "div"):
                    for a in i.o:
                        if a[0] in ("i", "a"):
                            if fn.A(a)[0][0] == "dst":
                                raise Und("call of %s" % c)
            elif i.is_call:
                # indirect call: the dispatch
                if len(i.o) == 4:
                    out.append(("disp", i))
                else:
                    raise Und("indirect call")
        if mem:
            out += self.grid(b, mem, order, locs, env)
        return out

    def grid(self, b, mem, order, locs, env):
        fn = self.fn
        T, B = subst(fn.T, env), subst(fn.B, env)
        N = subst(sdiv(fn.B, fn.T), env)
        ns = list(N)[0] if len(N) == 1 and const(N) is None else None
        if ns is None or len(ns) != 1 or N[ns] != 1:
            raise Und("number of elements is not a quotient (%s)" % show(N))
        ns = ns[0]
        pts = defaultdict(set)
        nbytes = 0
        for k in order:
            v = mem[k]
            D = subst(unfz(k), env)
            loc = locs[k]
            if v is None or v[0] == "c":
                self.R.failloc("garbage", fn.f, loc, "byte at destination offset %s is left with %s" % (show(D), "an undefined value" if v is None else "a constant"))
                self.R.ctx.ob(False)
                continue
            if v[0] == "?":
                raise Und("value of unknown origin stored at %s" % loc)
            S = subst(unfz(v[1]), env)
            self.R.nb += 1
            col, row = (D, S) if not fn.inv else (S, D)
            q, e = {}, {}
            okn = True
            for m, c in col.items():
                if m.count(ns) == 1:
                    l = list(m)
                    l.remove(ns)
                    q[tuple(l)] = c
                elif m.count(ns) == 0:
                    e[m] = c
                else:
                    okn = False
            want = add(mul(e, T), q)
            if not okn or want != row:
                # a quotient that appears through another name may be the number of elements
                if self.opaque(D, S):
                    raise Und("addresses %s / %s not understood" % (show(D), show(S)))
                self.R.failloc("perm", fn.f, loc, "destination offset %s receives source offset %s: with n elements of T bytes (%s) this is not the transposition"
                               % (show(D), show(S), "T=%s" % show(T)))
                self.R.ctx.ob(False)
                continue
            self.R.ctx.ob(True)
            ce, cq = e.get((), 0), q.get((), 0)
            e0, q0 = dict(e), dict(q)
            e0.pop((), None)
            q0.pop((), None)
            pts[(fz(e0), fz(q0))].add((ce, cq))
        out = []
        for (e0, q0), s in pts.items():
            e0, q0 = unfz(e0), unfz(q0)
            lo_e, hi_e = min(x[0] for x in s), max(x[0] for x in s) + 1
            lo_q, hi_q = min(x[1] for x in s), max(x[1] for x in s) + 1
            if len(s) != (hi_e - lo_e) * (hi_q - lo_q):
                miss = [(x, y) for x in range(lo_e, hi_e) for y in range(lo_q, hi_q) if (x, y) not in s][:3]
                self.R.failloc("hole", fn.f, locs[order[0]], "the bytes written per iteration do not fill their rectangle: (element, byte) %s missing" % miss)
                self.R.ctx.ob(False)
            out.append(("grid", add(e0, C(lo_e)), add(e0, C(hi_e)), add(q0, C(lo_q)), add(q0, C(hi_q)), [b.ins[0].loc()]))
        return out

    def opaque(self, D, S):
        a = {s for s in syms(D) if s[0] in ("v", "argx", "op")}
        b = {s for s in syms(S) if s[0] in ("v", "argx", "op")}
        return a != b or any(s[0] in ("argx", "op") for s in a)

    # -- paths
    def region(self, entry, blocks, loop, env0={}):
        """[(pieces, facts)] at the latches (loop) or the returns (function)"""
        fn, f = self.fn, self.f
        res = []
        count = [0]

        def walk(b, pcs, fs, first=False):
            count[0] += 1
            if count[0] > 4000:
                raise Und("too many paths")
            l = fn.loops.get(b.i)
            env = dict(env0)
            env.update(self.envof(fs | fn.FA.IN.get(b.i, frozenset())))
            if l is not None and not (first and l is loop):
                pcs = pcs + self.loop(l, env)
                ex = []
                for x in sorted(l.blocks):
                    for s in f.blocks[x].succ:
                        if s.i not in l.blocks:
                            ex.append((f.blocks[x], s))
                if len(ex) != 1:
                    ex = [e for e in ex if e[1].ins and e[1].term.op != "unreachable"]
                    if len(ex) != 1:
                        raise Und("loop with several exits")
                walk(ex[0][1], pcs, fs)
                return
            pcs = pcs + self.block(b, env)
            t = b.term
            if t.op == "ret":
                res.append((pcs, fs | fn.FA.IN.get(b.i, frozenset()), b))
                return
            if t.op in ("unreachable", "resume"):
                return
            for s in b.succ:
                if loop is not None and s is loop.h:
                    res.append((pcs, fs, b))
                    continue
                if s.i not in blocks:
                    continue
                walk(s, pcs, fs | self.edge(b, s))

        walk(entry, [], frozenset(), True)
        return res

    def edge(self, b, s):
        t = b.term
        x = set()
        if t.op == "br" and t.o and len(set(t.d["succ"])) == 2:
            x |= self.fn.FA.atoms(t.o[0], s.i == t.d["succ"][0])
        elif t.op == "switch":
            vals = [c[0] for c in t.d["cases"] if c[1] == s.i]
            k = FA.tup(FA.strip(self.f, t.o[0]))
            if len(vals) == 1 and t.d["def"] != s.i:
                x.add(("eq", k, ("c", vals[0])))
            elif t.d["def"] == s.i and not vals:
                for c in t.d["cases"]:
                    x.add(("ne", k, ("c", c[0])))
        return frozenset(x)

    def ineqs(self, fs, env):
        """polynomials known >= 0 on the path"""
        out = []
        for (p, a, b) in fs:
            if b is None or not isinstance(a, tuple) or not isinstance(b, tuple) or p not in FA.NEG:
                continue
            try:
                d = subst(add(self.fn.P(list(a)), self.fn.P(list(b)), -1), env)
            except Exception:
                continue
            if p in ("sge", "uge"):
                out.append(d)
            elif p in ("sgt", "ugt"):
                out.append(add(d, C(-1)))
            elif p in ("sle", "ule"):
                out.append(mul(d, C(-1)))
            elif p in ("slt", "ult"):
                out.append(add(mul(d, C(-1)), C(-1)))
            elif p == "eq":
                out += [d, mul(d, C(-1))]
        return out

    def infeasible(self, fs, env):
        """the conditions of the path contradict each other (sizes are not negative, a quotient is between (x-m+1)/m and x/m)"""
        iq = self.ineqs(fs, env)
        T = subst(self.fn.T, env)
        iq = [x for x in iq] + [add(T, C(-1)), subst(self.fn.B, env)]
        dv = set()
        for x in iq:
            dv |= {s for s in syms(x) if s[0] == "div"}
        ext = []
        for s in dv:
            X, M = unfz(s[1]), unfz(s[2])
            ext.append(sym(s))
            for x in iq:
                c = const(add(add(X, M, -1), x, -1))
                if c is not None and c >= 0:            # X >= M
                    ext.append(add(sym(s), C(-1)))
        allq = iq + ext
        for x in allq:
            c = const(x)
            if c is not None and c < 0:
                return True
        for x in iq:
            for y in allq:
                for m, c in x.items():
                    d = y.get(m)
                    if m and d and (c > 0) != (d > 0):
                        k = const(add(mul(x, C(abs(d))), mul(y, C(abs(c)))))
                        if k is not None and k < 0:
                            return True
                        break
        return False

    def empty(self, lo, hi, fs, env):
        """range [lo,hi) known empty on the path"""
        d = subst(add(lo, hi, -1), env)
        if const(d) is not None:
            return const(d) >= 0
        for x in self.ineqs(fs, env):
            y = add(d, x, -1)
            if const(y) is not None and const(y) >= 0:
                return True
        return False

    # -- a loop
    def loop(self, l, env):
        fn, f = self.fn, self.f
        alts = self.region(l.h, l.blocks, l, env)
        if not alts:
            return []
        # pieces every iteration produces
        allp = {}
        for pcs, fs, b in alts:
            for p in pcs:
                allp[self.pkey(p)] = p
        out = []
        for k, p in allp.items():
            for pcs, fs, b in alts:
                if k in {self.pkey(x) for x in pcs}:
                    continue
                if p[0] == "grid" and (self.empty(p[1], p[2], fs, env) or self.empty(p[3], p[4], fs, env)):
                    continue
                if self.infeasible(fs, env):
                    continue
                raise Und("part of the loop body is conditional")
            if p[0] != "grid":
                raise Und("%s inside a loop" % p[0])
            out.append(self.extend(l, p, env))
        return out

    def pkey(self, p):
        return (p[0],) + tuple(fz(x) for x in p[1:5] if isinstance(x, dict)) if p[0] in ("grid", "copy") else (p[0], id(p[1]))

    def trip(self, l, env):
        """the loop continues while `lhs < bound` after the increment: (lhs as polynomial in k at the next iteration, bound)"""
        fn, f = self.fn, self.f
        if len(l.latches) != 1:
            raise Und("loop with several latches")
        ex = [(f.blocks[x], s) for x in l.blocks for s in f.blocks[x].succ if s.i not in l.blocks]
        if len(ex) != 1 or ex[0][0] is not l.latches[0]:
            raise Und("loop that is not left at its end")
        t = l.latches[0].term
        c = FA.strip(f, t.o[0])
        i = f.V(c)
        if i is None or i.op != "icmp":
            raise Und("loop condition")
        pred = i.pred if f.blocks[t.d["succ"][0]].i in l.blocks else FA.NEG[i.pred]
        a, b = subst(fn.P(i.o[0]), env), subst(fn.P(i.o[1]), env)
        var = lambda p: any(fn.variant(s, l) for s in syms(p))
        if var(b) and not var(a):
            a, b, pred = b, a, FA.SWAP[pred]
        if var(b):
            raise Und("loop bound varies")
        if pred in ("sle", "ule"):
            b = add(b, C(1))
        elif pred not in ("slt", "ult", "ne"):
            raise Und("loop condition %s" % pred)
        return a, b, i, pred

    def extend(self, l, p, env):
        fn = self.fn
        ks = ("k", "k%d" % l.h.i)
        _, e0, e1, q0, q1, locs = p[:6]
        for which in (0, 1):
            lo, hi = ((e0, e1), (q0, q1))[which]
            if not any(fn.variant(s, l) for s in syms(lo)):
                continue
            oth = ((e0, e1), (q0, q1))[1 - which]
            if any(fn.variant(s, l) for s in syms(oth[0])):
                raise Und("two coordinates vary in one loop")
            W = const(add(hi, lo, -1))
            Wp = add(hi, lo, -1)
            step = {}
            base = {}
            for m, c in lo.items():
                if m.count(ks) == 1:
                    x = list(m)
                    x.remove(ks)
                    step[tuple(x)] = c
                else:
                    base[m] = c
            a, bound, ci, pred = self.trip(l, env)
            if step and not any(fn.variant(s, l) for s in syms(base)):
                sc = const(step)
                if step != Wp:
                    if sc is not None and W is not None:
                        (self.R.failloc if sc > W else self.R.note)("gap", fn.f, ci.loc(), "consecutive iterations are %s apart but each writes %s %s" % (show(step), show(Wp), ("elements", "bytes")[which]))
                    else:
                        raise Und("step %s of a loop that writes %s" % (show(step), show(Wp)))
                # a = a0 + s*(k+1) compared with bound
                s_, a0 = {}, {}
                for m, c in a.items():
                    if m.count(ks) == 1:
                        x = list(m)
                        x.remove(ks)
                        s_[tuple(x)] = c
                    else:
                        a0[m] = c
                if not s_ or any(fn.variant(x, l) for x in syms(a0)):
                    raise Und("loop condition not affine")
                # value at the start of an iteration: a0 - s + s*k ... (the compared value is the next one)
                first = add(a0, s_, -1)
                d = add(bound, first, -1)              # distance to run, in units of s
                x = mul(d, step)
                end = divexact(x, s_) if const(s_) != 1 else x
                if end is None:
                    raise Und("loop length")
                end = add(base, end)
                r = ("grid", base, end, q0, q1, locs, W) if which == 0 else ("grid", e0, e1, base, end, locs, W)
                # the last iteration must not overshoot
                sc2 = const(s_)
                if sc2 is None or sc2 <= 0:
                    raise Und("loop step")
                if sc2 != 1:
                    self.R.divs.append((d, sc2, ci, env, fn))
                return r
            # first step shorter: offsets 0, T % w, T % w + w ... (T >= w)
            if which == 1 and len(lo) == 1 and list(lo.values()) == [1] and W:
                s = list(lo)[0]
                if len(s) == 1 and s[0][0] == "v":
                    self.tiled(l, int(s[0][1][1:]), W, a, bound, ci, env)
                    return ("grid", e0, e1, C(0), subst(fn.T, env), locs, W)
            raise Und("offset %s" % show(lo))
        return p

    def tiled(self, l, pid, W, a, bound, ci, env):
        """the offset runs over 0, o1, o1 + W, ... < T with 0 < o1 <= W and o1 = T mod W: decided for T = M*Q + r, every r < M"""
        fn, f = self.fn, self.f
        phi = f.instrs[pid]
        init = [v for v, b in zip(phi.o, phi.d["inb"]) if b not in l.blocks]
        nxt = [v for v, b in zip(phi.o, phi.d["inb"]) if b in l.blocks]
        if len(init) != 1 or len(nxt) != 1:
            raise Und("offset loop")
        o = ("v", "%%%d" % pid)
        ni = FA.tup(nxt[0])
        # the constants T is divided by
        M = W
        seen, st = set(), [init[0], list(ni)]
        while st:
            v = st.pop()
            if v[0] != "i" or v[1] in seen:
                continue
            seen.add(v[1])
            i = f.instrs[v[1]]
            if i.op in ("load", "call") and not i.is_call:
                continue
            for s in syms(fn.P(v)):
                if s[0] == "div":
                    m = const(unfz(s[2]))
                    if m and 0 < m <= 64 and M % m:
                        M = M * m // gcd(M, m)
            if i.op != "phi" or i.bb.i in l.blocks and i.bb is not l.h:
                st += [x for x in i.o if isinstance(x, (list, tuple))]
            if i.op == "phi":
                for bi in i.d["inb"]:
                    t = f.blocks[bi].term
                    if bi in l.blocks and t.op == "br" and t.o:
                        st.append(t.o[0])
        if M > 1024 or subst(fn.T, env) != fn.T:
            raise Und("offset step")

        class Ev:
            def __init__(s, e, qmin):
                s.e, s.q = e, qmin

            def val(s, v):
                v = list(v) if isinstance(v, tuple) else v
                if v[0] != "i" or v[1] == pid:
                    return subst(subst(fn.P(v), env), s.e)
                i = f.instrs[v[1]]
                if i.op == "select":
                    return s.val(i.o[1] if s.cond(i.o[0]) else i.o[2])
                if i.op in ("add", "sub"):
                    return add(s.val(i.o[0]), s.val(i.o[1]), 1 if i.op == "add" else -1)
                if i.op == "mul":
                    return mul(s.val(i.o[0]), s.val(i.o[1]))
                if i.op in ("sext", "zext", "trunc", "freeze"):
                    if i.d.get("ft") == "i1":
                        return C((1 if i.op == "zext" else -1) if s.cond(i.o[0]) else 0)
                    return s.val(i.o[0])
                if i.is_call and i.callee and re.match(r"llvm\.[us](min|max)\.", i.callee):
                    x, y = s.val(i.o[0]), s.val(i.o[1])
                    lt = s.sign(add(x, y, -1), "slt")
                    return (x if lt else y) if "min" in i.callee else (y if lt else x)
                if i.op == "phi" and i.bb.i in l.blocks and i.bb is not l.h:
                    r = None
                    for v2, bi in zip(i.o, i.d["inb"]):
                        if s.taken(f.blocks[bi], i.bb):
                            x = s.val(v2)
                            if r is not None and r != x:
                                raise Und("offset step")
                            r = x
                    if r is None:
                        raise Und("offset step")
                    return r
                return subst(subst(fn.P(v), env), s.e)

            def taken(s, b, to):
                """may control go from b to `to`: the branches that dominate the edge are decided when they can be"""
                x, y = b, to
                for _ in range(8):
                    t = x.term
                    if t.op == "br" and t.o and len(set(t.d["succ"])) == 2:
                        try:
                            if s.cond(t.o[0]) != (t.d["succ"][0] == y.i):
                                return False
                        except Und:
                            if y is not to:
                                return True
                            raise
                    if len(x.pred) != 1 or x is l.h or x.pred[0].i not in l.blocks:
                        return True
                    x, y = x.pred[0], x
                return True

            def sign(s, d, p):
                lo = hi = d.get((), 0)
                for m, c in d.items():
                    if not m:
                        continue
                    if any(x[0] != "Q" for x in m):
                        raise Und("condition of the offset step")
                    mn = s.q if m == (("Q", "Q"),) else 0
                    if c > 0:
                        lo, hi = lo + c * mn, BIG
                    else:
                        lo, hi = -BIG, hi + c * mn
                lo, hi = (-BIG if lo < -BIG // 2 else lo), (BIG if hi > BIG // 2 else hi)
                p = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(p, p)
                if p in ("eq", "ne"):
                    if lo == hi == 0:
                        return p == "eq"
                    if lo > 0 or hi < 0:
                        return p == "ne"
                elif p == "slt" or p == "sge":
                    if hi < 0 or lo >= 0:
                        return (hi < 0) == (p == "slt")
                elif p == "sle" or p == "sgt":
                    if hi <= 0 or lo > 0:
                        return (hi <= 0) == (p == "sle")
                raise Und("condition of the offset step")

            def cond(s, c):
                cv = FA.cval(c)
                if cv is not None:
                    return bool(cv)
                i = f.V(FA.strip(f, c))
                if i is not None and i.op == "icmp":
                    return s.sign(add(s.val(i.o[0]), s.val(i.o[1]), -1), i.pred)
                if i is not None and i.op in ("and", "or"):
                    try:
                        x = s.cond(i.o[0])
                    except Und:
                        y = s.cond(i.o[1])
                        if y == (i.op == "or"):
                            return y
                        raise
                    return x if x == (i.op == "or") else s.cond(i.o[1])
                if i is not None and i.op == "xor" and FA.cval(i.o[1]) in (1, -1):
                    return not s.cond(i.o[0])
                if i is not None and i.op == "select":
                    return s.cond(i.o[1] if s.cond(i.o[0]) else i.o[2])
                if i is not None and i.op == "trunc":
                    return s.sign(s.val(i.o[0]), "ne")
                raise Und("condition of the offset step")

        ok = True
        Q, K = sym(("Q", "Q")), sym(("Q", "K"))
        for r in range(M):
            qmin = 0 if r >= W else 1
            T = add(mul(C(M), Q), C(r))
            what = "T mod %d == %d" % (M, r)
            if const(add(T, fn.T, -1)) == 0:
                continue
            e = {("arg", "T"): T}
            i0 = Ev(e, qmin).val(init[0])
            if i0 != {}:
                ok = False
                self.R.failloc("tile", f, ci.loc(), "the bytes of the element are processed from %s on instead of 0 (%s): the first ones are skipped" % (show(i0), what))
                break
            e1 = dict(e)
            e1[o] = {}
            o1 = Ev(e1, qmin).val(ni)
            c = const(o1)
            if c is None or not 0 < c <= W:
                ok = False
                self.R.failloc("tile", f, ci.loc(), "the second block of bytes starts at %s (%s) while the first covers [0, %d): bytes of the element are skipped" % (show(o1), what, W))
                break
            if (c - r) % W:
                ok = False
                self.R.failloc("tile", f, ci.loc(), "the blocks of %d bytes start at 0, %d, ... (%s): the last one does not end with the element" % (W, c, what))
                break
            e2 = dict(e)
            e2[o] = add(mul(C(W), K), C(c))
            st_ = add(Ev(e2, qmin).val(ni), e2[o], -1)
            if st_ != C(W):
                ok = False
                self.R.failloc("tile", f, ci.loc(), "offset into the element advances by %s where %d is needed (%s)" % (show(st_), W, what))
                break
        T = fn.T
        # continues while the next offset < T
        nx = add(a, subst(fn.P(nxt[0]), env), -1)
        if const(nx) is None or add(add(bound, C(-const(nx))), T, -1) != {}:
            ok = False
            self.R.failloc("tile", f, ci.loc(), "the loop over the bytes of the element stops at %s instead of %s" % (show(bound), show(T)))
        if not any(const(x) is None and self.atleast(x, T, W) for x in self.ineqs(fn.FA.at(ci), env)):
            self.R.failloc("tile", f, ci.loc(), "element size is not known to be at least %d here" % W)
            ok = False
        self.R.ctx.ob(ok)

    def atleast(self, x, T, W):
        """x >= 0 implies T >= W"""
        d = const(add(T, x, -1))
        return d is not None and d >= W


class Rep:
    def __init__(self, ctx, march, roles, pos):
        self.ctx = ctx
        self.march = march
        self.roles = roles
        self.pos = pos
        self.nb = 0
        self.divs = []
        self.notes = []

    def short(self, c):
        return re.sub(r"^_ZN?\d*", "", c)

    def fail(self, kind, f, i, msg):
        self.failloc(kind, f, i.loc(), msg)

    def failloc(self, kind, f, loc, msg):
        n = f.dem.split("(")[0]
        self.ctx.fail("%s:%s:%s" % (kind, n, loc), "%s: %s" % (n, msg), loc)

    def note(self, kind, f, loc, msg):
        self.notes.append("%s %s" % (loc, msg))


def divisible(rg, d, w, env, fs):
    if all(c % w == 0 for c in d.values()):
        return True
    for (p, a, b) in fs:
        if p != "eq" or b is None or FA.cval(b) != 0:
            continue
        i = rg.f.V(list(a)) if a[0] == "i" else None
        while i is not None and i.op in ("zext", "sext", "trunc", "freeze"):
            i = rg.f.V(i.o[0])
        if i is None or i.op not in ("and", "srem", "urem"):
            continue
        m = FA.cval(i.o[1])
        if m is None:
            continue
        m = m + 1 if i.op == "and" else m
        if m <= 0 or m % w or (i.op == "and" and m & (m - 1)):
            continue
        if all(c % w == 0 for c in add(d, subst(rg.fn.P(i.o[0]), env), -1).values()):
            return True
    return False


def norm(p, env):
    return subst(p, env)


def check(ctx, rep, f, inv, pos, cov):
    fn = Fn(f, inv, *pos)
    rg = Region(rep, fn, {})
    name = f.dem.split("(")[0]
    rep.divs = []
    try:
        alts = rg.region(f.blocks[0], {b.i for b in f.blocks}, None)
    except Und as e:
        cov["undecided"].append("%s (%s): %s" % (name, rep.march, e))
        return False
    good = True
    for (d, w, ci, env, fn_) in rep.divs:
        fs = fn.FA.at(ci)
        ok = divisible(rg, d, w, env, fs)
        ctx.ob(ok)
        if not ok:
            good = False
            rep.failloc("overshoot", f, ci.loc(), "the loop runs in steps of %d over a range of length %s that is not known to be a multiple of it: it writes past its range" % (w, show(d)))
    seen = set()
    for pcs, fs, b in alts:
        env = rg.envof(fs)
        if rg.infeasible(fs, env):
            continue
        # exact multiple known on the path?
        T, Bp = subst(fn.T, env), fn.B
        for x in rg.ineqs(fs, env):
            # x = m*div(B,m) - B >= 0
            y = add(x, Bp)
            if len(y) == 1:
                (mm, c), = y.items()
                dv = [s for s in mm if s[0] == "div" and unfz(s[1]) == Bp]
                if len(dv) == 1:
                    rest = list(mm)
                    rest.remove(dv[0])
                    if {tuple(rest): c} == unfz(dv[0][2]):
                        env = dict(env)
                        env[("arg", "B")] = mul(unfz(dv[0][2]), sym(("q", "quot")))
        N = subst(sdiv(fn.B, fn.T), env)
        T, Bp = subst(fn.T, env), subst(fn.B, env)
        tail = add(Bp, mul(N, T), -1)
        key = (tuple(sorted({rg.pkey(p) for p in pcs}, key=repr)), fz(tail))
        if key in seen:
            continue
        seen.add(key)
        cov["paths"] += 1
        if const(T) == 1 and any(p[0] == "copy" for p in pcs):
            N, tail = {}, Bp
        full = any(p[0] in ("all", "disp") for p in pcs)
        for p in pcs:
            if p[0] == "disp":
                i = p[1]
                ok = len(i.o) == 4 and fn.P(i.o[0]) == fn.T and fn.P(i.o[1]) == fn.B and fn.A(i.o[2]) == (("src", "src"), {}) and fn.A(i.o[3]) == (("dst", "dst"), {})
                ctx.ob(ok)
                if not ok:
                    rep.failloc("dispargs", f, i.loc(), "passes other arguments than its own to the selected implementation")
                    good = False
        if full:
            ctx.ob(True)
            continue
        # element ranges
        rs = []
        for p in pcs:
            if p[0] == "grid":
                a, z, q0, q1 = (subst(x, env) for x in p[1:5])
                if const(q0) == 0 and add(q1, T, -1) == {}:
                    rs.append((a, z, p[5]))
                elif a == z:
                    continue
                else:
                    rep.failloc("bytes", f, p[5][0], "elements [%s, %s) get bytes [%s, %s) of %s only" % (show(a), show(z), show(q0), show(q1), show(T)))
                    good = False
        cur = {}
        used = []
        while True:
            nx = [r for r in rs if r not in used and add(r[0], cur, -1) == {}]
            if not nx:
                break
            used.append(nx[0])
            cur = nx[0][1]
        if add(cur, N, -1) != {}:
            good = False
            if not rg.empty(cur, N, fs, env):
                loc = next((p[5][0] for p in pcs if p[0] == "grid"), b.term.loc())
                rep.failloc("cover:%s" % show(T), f, loc, "on a path (T=%s) the elements written are %s instead of [0, %s)" % (show(T), ", ".join("[%s, %s)" % (show(x), show(y)) for x, y, _ in rs) or "none", show(N)))
                ctx.ob(False)
        else:
            ctx.ob(True)
            for r in rs:
                if r not in used and not rg.empty(r[0], r[1], fs, env):
                    cov["extra"].append("%s [%s, %s)" % (name, show(r[0]), show(r[1])))
        # trailing bytes
        if tail:
            off = add(Bp, tail, -1)
            cp = [p for p in pcs if p[0] == "copy" and subst(p[3], env) == tail]
            ok = [p for p in cp if subst(p[1], env) == off and subst(p[2], env) == off]
            ctx.ob(bool(ok))
            if not ok:
                good = False
                rep.failloc("tail:%s" % show(T), f, b.term.loc(), "on a path (T=%s) the last %s bytes are not copied from and to offset %s (%s)"
                            % (show(T), show(tail), show(off), "; ".join("copy %s <- %s, %s bytes" % (show(p[1]), show(p[2]), show(p[3])) for p in pcs if p[0] == "copy") or "no copy"))
        else:
            ctx.ob(True)
    return good


SIG = ("int32_t", "int", "size_t", "unsigned int", "unsigned long", "uint32_t", "ptrdiff_t", "int64_t", "long")


def role(f):
    """(unshuffle?, positions of T, size, src, dst) for a function that looks like a transposition entry point"""
    n = f.d.get("dn") or f.dem.split("(")[0]
    m = re.search(r"(un)?shuffle(_\w+)?$", n)
    dia = f.d.get("dia") or []
    if not m or len(f.args) != 4 or len(dia) != 5:
        return None
    t = dia[1:]
    if not all(f.args[k]["t"] in ("i32", "i64") for k in (0, 1)) or not all(f.args[k]["t"] == "ptr" for k in (2, 3)):
        return None
    if "const" not in t[2] or "ptr const" in t[3]:
        return None
    return bool(m.group(1)), (0, 1, 2, 3)


def run(ctx):
    ctx.explanation = "byte provenance of every stored byte against the transposition equation, and tiling of the destination on every path, for each entry point in each ISA build"
    ctx.assumptions = ["integer arithmetic of sizes does not wrap (sizes are bounded by the block size)", "source and destination do not overlap",
                       "the element size is positive"]
    cov = {"entry_points": [], "paths": 0, "bytes": 0, "undecided": [], "extra": [], "masked": 0}
    tus = [s for s in build.sources() if "shuffle" in os.path.basename(s)]
    need = {"x86-64": 2, "haswell": 3}
    for march in ("x86-64", "haswell"):
        ctx.need(tus, "sources of the transposition")
        bc = build.compile_bc(march, tus=tus, tag="-c04")
        raw = build.export(bc, "c04r", passes="sroa")
        roles = {f.name: role(f) for f in raw.defined() if role(f) and not f.d.get("local")}
        # dispatch: which implementations can be selected in which slot
        slots(ctx, raw, roles, march, cov)
        stubs = {n for n in roles if is_stub(raw.F[n])}
        ctx.need(len([n for n in roles if n not in stubs]) >= 6, "transposition entry points (%s)" % march)
        keep = "^(" + "|".join(re.escape(n) for n in roles) + ")$"
        m = build.export(bc, "c04", inline=True, keep=keep, passes=PASSES, llvm=LLVM, roots="^(" + "|".join(re.escape(n) for n in roles) + ")$")
        rep = Rep(ctx, march, {n: r[0] for n, r in roles.items()}, {n: r[1] for n, r in roles.items()})
        for n, r in sorted(roles.items()):
            f = m.F.get(n)
            if f is None or f.decl:
                continue
            if n in stubs:
                continue
            check(ctx, rep, f, r[0], r[1], cov)
            cov["entry_points"].append("%s (%s)" % (f.dem.split("(")[0], march))
        cov["bytes"] += rep.nb
    if not cov["undecided"]:
        ctx.need(cov["bytes"] >= 1000, "transposed bytes")
    ctx.cov.update(cov)
    for e in cov["entry_points"][:8]:
        ctx.sample("entry point %s" % e)


def is_stub(f):
    return all(b.term.op == "unreachable" for b in f.blocks if b.term.op in ("ret", "unreachable"))


def slots(ctx, m, roles, march, cov):
    """every implementation structure pairs a shuffle with an unshuffle; each dispatcher reads the slot of its own direction"""
    st = defaultdict(set)
    for f in m.defined():
        for i in f.ins():
            if i.op == "store" and i.o[0][0] == "f" and i.o[0][1] in roles:
                p = f.V(i.o[1])
                off = 0
                while p is not None and p.op in ("getelementptr", "bitcast"):
                    if p.op == "getelementptr":
                        off += p.d.get("off") or 0
                    p = f.V(p.o[0])
                st[off].add((i.o[0][1], i.loc()))
            elif i.op in ("phi", "select", "insertvalue"):
                for k, v in enumerate(i.o):
                    if v[0] == "f" and v[1] in roles and i.op == "insertvalue":
                        st[8 * i.d["idx"][-1]].add((v[1], i.loc()))
    load = {}
    for n, r in roles.items():
        f = m.F[n]
        for i in f.ins():
            if i.is_call and not i.callee and i.d.get("fp") and i.d["fp"][0] == "i":
                l = f.instrs[i.d["fp"][1]]
                if l.op == "load":
                    o = l.o[0]
                    if o[0] == "x":
                        load[n] = (int(o[2] or 0), r[0], i)
                    elif o[0] == "g":
                        load[n] = (0, r[0], i)
                    elif o[0] == "i" and f.instrs[o[1]].op == "getelementptr":
                        load[n] = (f.instrs[o[1]].d.get("off") or 0, r[0], i)
    for n, (off, inv, i) in load.items():
        for g, loc in st.get(off, ()):
            ok = roles[g][0] == inv
            ctx.ob(ok)
            cov["slots"] = cov.get("slots", 0) + 1
            if not ok:
                ctx.fail("slot:%s:%s" % (n, g), "%s may call %s, the opposite direction" % (m.F[n].dem.split("(")[0], m.F[g].dem.split("(")[0]), loc)
