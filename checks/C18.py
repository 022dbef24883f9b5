"""C18: CPUID bits behind every feature flag; explicit SIMD code is dominated by a test of the flag it needs."""
import re
from collections import defaultdict
import apibuf

SPEC = {}
for leaf, reg, names in ((1, 3, "MMX:23 SSE:25 SSE2:26"), (1, 2, "SSE3:0 SSSE3:9 SSE41:19 SSE42:20 AES:25 AVX:28 FMA3:12 RDRAND:30"),
                         (7, 1, "AVX2:5 BMI1:3 BMI2:8 ADX:19 SHA:29 AVX512F:16 AVX512CD:28 AVX512PF:26 AVX512ER:27 AVX512VL:31 AVX512BW:30 AVX512DQ:17 AVX512IFMA:21"),
                         (7, 2, "PREFETCHWT1:0 AVX512VBMI:1"), (0x80000001, 3, "x64:29"), (0x80000001, 2, "ABM:5 SSE4a:6 FMA4:16 XOP:11")):
    for n in names.split():
        k, b = n.split(":")
        SPEC["HAS_" + k] = (leaf, reg, int(b))
REG = ["eax", "ebx", "ecx", "edx"]
CHAIN = ["AVX512F", "AVX2", "AVX", "SSE42", "SSE41", "SSSE3", "SSE3", "SSE2", "SSE"]
BASE = {"SSE", "SSE2"}
TOP = ("top",)


def implied(flag):
    f = flag[4:]
    return set(CHAIN[CHAIN.index(f):]) if f in CHAIN else {f}


class Bits:
    """value -> list of per-bit provenance: 0, 1, (leaf,reg,bit), ('and',frozenset) or TOP; phis keep, per incoming bit, its block"""

    def __init__(self, f):
        self.f = f
        self.memo = {}

    def width(self, i):
        t = i.d.get("t") or ""
        m = re.match(r"i(\d+)$", t)
        return int(m.group(1)) if m else 0

    def op(self, o, w):
        if o[0] == "c":
            return [(o[1] >> k) & 1 for k in range(w)]
        if o[0] == "i":
            return self.val(self.f.instrs[o[1]])
        return [TOP] * w

    def val(self, i):
        if i.id in self.memo:
            return self.memo[i.id]
        w = self.width(i)
        self.memo[i.id] = [TOP] * w
        r = self.comp(i, w)
        self.memo[i.id] = r
        return r

    def comp(self, i, w):
        T = [TOP] * w
        o = i.o
        if i.op == "extractvalue" and len(i.d.get("idx") or []) == 1:
            c = self.f.V(o[0])
            if c is not None and c.is_call and c.d.get("asm") and "cpuid" in c.d["asm"] and c.o[0][0] == "c" and c.o[1][0] == "c" and c.o[1][1] == 0:
                return [(c.o[0][1] & 0xffffffff, i.d["idx"][0], k, c) for k in range(w)]
            return T
        if i.op in ("zext", "sext", "trunc", "freeze"):
            a = self.op(o[0], w)
            if len(a) >= w:
                return a[:w]
            return a + [0 if i.op == "zext" else a[-1]] * (w - len(a))
        if i.op in ("and", "or", "xor"):
            a, b = self.op(o[0], w), self.op(o[1], w)
            return [self.bin(i.op, x, y) for x, y in zip(a, b)]
        if i.op in ("shl", "lshr", "ashr") and o[1][0] == "c":
            a, n = self.op(o[0], w), o[1][1]
            if i.op == "shl":
                return ([0] * n + a)[:w]
            return (a[n:] + [0 if i.op == "lshr" else a[-1]] * n)[:w]
        if i.op == "select":
            c, a, b = self.op(o[0], 1), self.op(o[1], w), self.op(o[2], w)
            return [self.bin("or", self.bin("and", c[0], x), self.bin("and", self.neg(c[0]), y)) if x != y else x for x, y in zip(a, b)]
        if i.op == "icmp" and i.pred in ("eq", "ne", "slt", "sge"):
            wf = int(i.ft[1:]) if re.match(r"i\d+$", i.ft or "") else 0
            a, b = self.op(o[0], wf), self.op(o[1], wf)
            if not wf:
                return T
            if i.pred in ("slt", "sge"):
                if o[1] == ["c", 0, wf]:
                    return [a[-1] if i.pred == "slt" else self.neg(a[-1])]
                return T
            d = [(x, y) for x, y in zip(a, b) if x != y]
            if not d:
                return [1 if i.pred == "eq" else 0]
            if len(d) == 1 and d[0][0] is not TOP and d[0][1] in (0, 1):
                x = d[0][0]
                one = d[0][1] == 1
                return [x if (i.pred == "eq") == one else self.neg(x)]
            return T
        return T

    def neg(self, x):
        if x in (0, 1):
            return 1 - x
        if isinstance(x, tuple) and x[0] == "not":
            return x[1]
        return TOP if x == TOP else ("not", x)

    def bin(self, op, x, y):
        if op == "and":
            if x == 0 or y == 0:
                return 0
            if x == 1:
                return y
            if y == 1:
                return x
            if x == y:
                return x
            if x == TOP or y == TOP:
                return ("and", frozenset(z for q in (x, y) if q != TOP for z in conj(q))) if x != y else TOP
            return ("and", frozenset(conj(x) | conj(y)))
        if op == "or":
            if x == 1 or y == 1:
                return 1
            if x == 0:
                return y
            if y == 0:
                return x
            return x if x == y else TOP
        if x in (0, 1) and y in (0, 1):
            return x ^ y
        if x == 0 or y == 0:
            return y if x == 0 else x
        if x == 1 or y == 1:
            return self.neg(y if x == 1 else x)
        return TOP


def conj(x):
    return set(x[1]) if isinstance(x, tuple) and x[0] == "and" else {x}


def feature_field(m, f, o):
    """feature name if the address operand is a field of the CPU feature structure"""
    off = 0
    if o[0] == "i":
        g = f.instrs[o[1]]
        if g.op == "getelementptr" and "CPUFeatures" in (g.st or "") and not g.voff:
            return m.field("%" + g.st.lstrip("%"), g.off or 0) if g.st else None
        return None
    if o[0] == "x" and o[1] == "getelementptr":
        off, base = o[2], o[3]
    else:
        base = o
    if base[0] == "g":
        G = m.globals.get(base[1])
        if G and "CPUFeatures" in G["t"]:
            return m.field("%" + G["t"].lstrip("%"), off)
    if base[0] == "a" and o[0] == "a":
        return None
    return None


class Facts:
    """must-analysis: which feature flags are known to be set, interprocedurally"""

    def __init__(self, m):
        self.m = m
        self.entry = {}
        self.inb = {}
        self.edgec = {}
        for f in m.defined():
            self.edgec[f.name] = {}
            for b in f.blocks:
                if b.ins and b.term.op == "br" and b.term.cond:
                    t = b.term
                    if t.succ[0] != t.succ[1]:
                        for k in (0, 1):
                            x = self.cond(f, t.o[0], k == 0, 0)
                            if x:
                                self.edgec[f.name][(b.i, t.succ[k])] = x
        ALL = None
        ent = {f.name: ALL for f in m.defined()}
        roots = set()
        for f in m.defined():
            if not f.d.get("local") or f.name.startswith("_GLOBAL"):
                roots.add(f.name)
        # external linkage C++ functions of the library are callable only through the library's own calls
        called = set()
        for f in m.defined():
            for i in f.ins():
                if i.is_call and i.callee:
                    called.add(i.callee)
        taken = defaultdict(list)
        for f in m.defined():
            for i in f.ins():
                for v in f.opvals(i):
                    for nm in fnames(v):
                        taken[nm].append((f, i))
        gtaken = set()
        for g in m.globals.values():
            for nm in fnames(g.get("init") or []):
                gtaken.add(nm)
        self.taken = taken
        for f in m.defined():
            r = f.name.startswith("stenos_") or f.name.startswith("_GLOBAL") or f.name in gtaken
            if r or (f.name not in called and f.name not in taken):
                ent[f.name] = frozenset()
        self.roots = {k for k, v in ent.items() if v is not None}
        for _ in range(20):
            ch = False
            self.entry = ent
            for f in m.defined():
                if ent[f.name] is None:
                    continue
                self.inb[f.name] = self.flow(f, ent[f.name])
            new = {k: (frozenset() if k in self.roots else None) for k in ent}

            def meet(nm, fs):
                if nm in new and nm not in self.roots:
                    new[nm] = fs if new[nm] is None else new[nm] & fs
            for f in m.defined():
                if ent[f.name] is None:
                    continue
                inb = self.inb[f.name]
                for i in f.ins():
                    if i.bb.i not in inb:
                        continue
                    if i.is_call and i.callee in new:
                        meet(i.callee, inb[i.bb.i])
                    for v in f.opvals(i):
                        for nm in fnames(v):
                            meet(nm, inb[i.bb.i])
            if new == ent:
                break
            ent = new
        self.entry = ent

    def flow(self, f, e):
        inb = {0: e}
        ec = self.edgec[f.name]
        work = [f.blocks[0]]
        while work:
            b = work.pop()
            for s in b.succ:
                x = inb[b.i] | ec.get((b.i, s.i), frozenset())
                if s.i not in inb:
                    inb[s.i] = x
                    work.append(s)
                else:
                    y = inb[s.i] & x
                    if y != inb[s.i]:
                        inb[s.i] = y
                        work.append(s)
        return inb

    def cond(self, f, o, pol, depth):
        """flags known set when value o is nonzero (pol) / zero (not pol)"""
        if o[0] != "i" or depth > 12:
            return frozenset()
        i = f.instrs[o[1]]
        if i.op in ("zext", "trunc", "freeze", "sext"):
            return self.cond(f, i.o[0], pol, depth + 1)
        if i.op == "load":
            n = feature_field(self.m, f, i.o[0])
            return frozenset(implied(n)) if n and pol else frozenset()
        if i.op == "xor" and ["c", -1, 1] in i.o or i.op == "xor" and any(x[0] == "c" and x[1] in (1, -1) for x in i.o):
            return self.cond(f, [x for x in i.o if x[0] != "c"][0], not pol, depth + 1) if any(x[0] != "c" for x in i.o) else frozenset()
        if i.op == "icmp" and i.pred in ("eq", "ne"):
            c = [x for x in i.o if x[0] == "c"]
            v = [x for x in i.o if x[0] != "c"]
            if c and v and c[0][1] in (0, 1, -1):
                z = c[0][1] == 0
                return self.cond(f, v[0], pol == ((i.pred == "ne") == z), depth + 1)
        if i.op == "and" and pol or i.op == "or" and not pol:
            return self.cond(f, i.o[0], pol, depth + 1) | self.cond(f, i.o[1], pol, depth + 1)
        if i.op == "select":
            a = self.cond(f, i.o[0], True, depth + 1) | self.cond(f, i.o[1], pol, depth + 1)
            b = self.cond(f, i.o[0], False, depth + 1) | self.cond(f, i.o[2], pol, depth + 1)
            if i.o[2][0] == "c" and bool(i.o[2][1]) != pol:
                return a
            if i.o[1][0] == "c" and bool(i.o[1][1]) != pol:
                return b
            return a & b
        if i.is_call and i.callee and i.callee.startswith("llvm.expect"):
            return self.cond(f, i.o[0], pol, depth + 1)
        if i.op == "phi":
            r = None
            for v, pb in zip(i.o, i.inb):
                if v[0] == "c":
                    if bool(v[1]) != pol:
                        continue
                    x = frozenset()
                else:
                    x = self.cond(f, v, pol, depth + 1)
                # conditions on single-predecessor edges leading to the incoming block
                b = f.blocks[pb]
                for _ in range(6):
                    if len(b.pred) != 1:
                        break
                    p = b.pred[0]
                    t = p.term
                    if t.op == "br" and t.cond and t.succ[0] != t.succ[1]:
                        x |= self.cond(f, t.o[0], t.succ[0] == b.i, depth + 4)
                    b = p
                r = x if r is None else r & x
            return r or frozenset()
        return frozenset()


def fnames(v):
    if not isinstance(v, list) or not v:
        return
    if v[0] == "f":
        yield v[1]
    else:
        for x in v[1:]:
            if isinstance(x, list):
                yield from fnames(x)


def vbits(t):
    m = re.match(r"<(\d+) x (i|float|double)(\d*)>$", t or "")
    if not m:
        return 0
    return int(m.group(1)) * (int(m.group(3)) if m.group(3) else 32 if m.group(2) == "float" else 64)


def isa_of(i):
    if i.is_call and i.callee and i.callee.startswith("llvm.x86."):
        p = i.callee.split(".")[2]
        x = {"ssse3": "SSSE3", "sse41": "SSE41", "sse42": "SSE42", "avx": "AVX", "avx2": "AVX2", "sse3": "SSE3", "aesni": "AES", "fma": "FMA3"}.get(p)
        if x:
            return x
        if p == "bmi":
            return "BMI2" if ".pext." in i.callee or ".pdep." in i.callee or ".bzhi." in i.callee else "BMI1"
        if p.startswith("avx512"):
            return "AVX512F"
        return None
    n = max([vbits(i.d.get("t")), vbits(i.d.get("vt")), vbits(i.d.get("ft"))])
    if n > 256:
        return "AVX512F"
    if n > 128:
        # integer operations on 256-bit registers need AVX2, moves and bit logic only AVX
        return "AVX2" if i.op in ("add", "sub", "mul", "shl", "lshr", "ashr", "icmp", "shufflevector") else "AVX"
    return None


def run(ctx):
    m = ctx.mod("haswell", inline=True, keep=apibuf.KEEP, passes="sroa,globaldce")
    # ---- 1. detection ----
    seen = {}
    for f in m.defined():
        st = [(i, feature_field(m, f, i.o[1])) for i in f.ins() if i.op == "store"]
        st = [(i, n) for i, n in st if n]
        if not st:
            continue
        bits = Bits(f)
        for i, n in st:
            vals = []

            def flatten(o, blk, d=0):
                j = f.instrs[o[1]] if o[0] == "i" else None
                if j is not None and j.op == "phi" and d < 6:
                    for v, pb in zip(j.o, j.inb):
                        flatten(v, f.blocks[pb], d + 1)
                elif j is not None and j.op in ("zext", "freeze") and d < 6 and f.V(j.o[0]) is not None and f.V(j.o[0]).op == "phi":
                    flatten(j.o[0], blk, d + 1)
                else:
                    vals.append((o, blk))
            flatten(i.o[0], i.bb)
            spec = SPEC.get(n)
            for o, blk in vals:
                if o[0] == "c" and o[1] == 0:
                    continue
                b = bits.op(o, 8)
                q = b[0] if b else TOP
                srcs = {x for x in conj(q) if isinstance(x, tuple) and len(x) == 4}
                if spec is None:
                    ctx.fail("flag:%s" % n, "feature flag %s has no architectural definition in the table of the check" % n, i.loc())
                    continue
                hit = [x for x in srcs if x[:3] == spec]
                ctx.ob(bool(hit))
                seen.setdefault(n, 0)
                seen[n] += 1
                if not hit:
                    got = ", ".join("leaf 0x%x %s bit %d" % (x[0], REG[x[1]], x[2]) for x in srcs) or "something else"
                    ctx.fail("bit:%s" % n, "%s is set from %s, it is defined by CPUID leaf 0x%x %s bit %d" % ((n, got, spec[0], REG[spec[1]], spec[2])), i.loc())
                    continue
                call = hit[0][3]
                ok = guarded(f, spec[0], [call.bb, blk], bits)
                ctx.ob(ok)
                if not ok:
                    ctx.fail("leaf:%s:0x%x" % (n, spec[0]), "%s is read from CPUID leaf 0x%x without a dominating test that the CPU supports that leaf (maximum leaf >= 0x%x, from leaf 0x%x eax)" % (n, spec[0], spec[0], spec[0] & 0x80000000), i.loc())
    ctx.need(len(seen) >= 10, "stores into the CPU feature structure (%d flags)" % len(seen))
    # flags consumed but never set
    ctx.cov["feature_flags_checked"] = len(seen)
    used = set()
    nsite = 0
    ngate = set()
    for march in ("haswell", "nehalem", "x86-64"):
        m = ctx.mod(march, inline=True, keep=apibuf.KEEP, passes="sroa,globaldce")
        fx = Facts(m)
        for f in m.defined():
            for i in f.ins():
                if i.op == "load":
                    n = feature_field(m, f, i.o[0])
                    if n:
                        used.add(n)
        need = defaultdict(set)
        for f in m.defined():
            if f.name not in fx.inb:
                continue
            inb = fx.inb[f.name]
            for i in f.ins():
                isa = isa_of(i)
                if not isa:
                    continue
                need[f.name].add(isa)
                if i.bb.i not in inb:
                    continue
                nsite += 1
                ok = isa in inb[i.bb.i] or isa in BASE
                ctx.ob(ok)
                if ok:
                    ngate.add((i.scope(), isa))
                else:
                    ctx.fail("gate:%s:%s" % (i.scope(), isa), "%s instruction (%s) is reachable on a CPU without %s: no dominating test of that feature (%s build)" % (isa, i.callee or i.op, isa, march),
                             i.loc(), ["features known at this point: " + (", ".join(sorted(inb[i.bb.i])) or "none")])
        # ---- shuffle / unshuffle selected together: function pointers stored next to each other need the same extensions ----
        groups = defaultdict(dict)
        for f in m.defined():
            for i in f.ins():
                if i.op == "store" and i.o[0][0] == "f":
                    o = i.o[1]
                    if o[0] == "x" and o[3][0] == "g":
                        groups[(f.name, i.bb.i, o[3][1])][o[2]] = i
                    elif o[0] == "g":
                        groups[(f.name, i.bb.i, o[1])][0] = i
                    elif o[0] == "i" and f.instrs[o[1]].op == "getelementptr" and not f.instrs[o[1]].voff:
                        g = f.instrs[o[1]]
                        groups[(f.name, i.bb.i, str(g.o[0]))][g.off or 0] = i
        # pointers kept in SSA form and stored after the selection
        for f in m.defined():
            ph = [i for i in f.ins() if i.op == "phi" and any(v[0] == "f" for v in i.o)]
            byb = defaultdict(list)
            for p in ph:
                byb[p.bb.i].append(p)
            for b, ps in byb.items():
                for k, pb in enumerate(ps[0].inb):
                    for q in ps:
                        v = q.o[q.inb.index(pb)] if pb in q.inb else None
                        if v and v[0] == "f":
                            class S:
                                pass
                            s = S()
                            s.o = [v]
                            s.loc = q.loc
                            groups[(f.name, "phi%d" % pb, b)][q.id] = s
        for k, g in groups.items():
            fs = [x.o[0][1] for x in g.values()]
            if len(fs) < 2:
                continue
            ns = [frozenset(need.get(x, ())) for x in fs]
            sse = [uses_sse2(m.F.get(x)) for x in fs]
            ok = len(set(zip(ns, sse))) == 1 and len(set(fs)) == len(fs)
            ctx.ob(ok)
            if not ok:
                ctx.fail("pair:" + ":".join(sorted(fs)), "functions selected together do not belong to the same implementation: %s" % ", ".join("%s needs %s" % (m.F[a].dem, "/".join(sorted(b)) or ("SSE2" if c else "nothing")) for a, b, c in zip(fs, ns, sse)), list(g.values())[0].loc())
    ctx.need(nsite > 20, "explicit SIMD sites (%d)" % nsite)
    for n in sorted(used):
        ok = n in seen
        ctx.ob(ok)
        if not ok:
            ctx.fail("unset:" + n, "feature flag %s is tested but never computed" % n)
    ctx.cov.update(simd_sites=nsite, gated_scopes=sorted("%s:%s" % x for x in ngate), flags_tested=sorted(used))
    ctx.explanation = ("Bit-level provenance of every store into the CPU feature structure (CPUID leaf, register, bit, and the dominating maximum-leaf comparison) against the Intel/AMD definitions; "
                       "interprocedural must-analysis of which flags are known set at every explicit SIMD intrinsic or 256-bit operation; function pointers selected together must belong to the same implementation.")
    ctx.assumptions = ["SSE2 is the x86-64 baseline", "operating system support for AVX state (XGETBV) is outside the property"]


def uses_sse2(f):
    if f is None or f.decl:
        return False
    return any(vbits(i.d.get("t")) == 128 for i in f.ins())


def guarded(f, leaf, blocks, bits):
    base = leaf & 0x80000000

    def maxleaf(o):
        if o[0] != "i":
            return False
        b = bits.op(o, 32)
        return len(b) == 32 and all(isinstance(x, tuple) and len(x) == 4 and x[:3] == (base, 0, k) for k, x in enumerate(b))
    for b in f.blocks:
        t = b.term if b.ins else None
        if t is None or t.op != "br" or not t.cond:
            continue
        c = f.V(t.o[0])
        if c is None or c.op != "icmp":
            continue
        pred, x, y = c.pred, c.o[0], c.o[1]
        if x[0] == "c":
            x, y = y, x
            pred = {"sge": "sle", "sgt": "slt", "sle": "sge", "slt": "sgt", "uge": "ule", "ugt": "ult", "ule": "uge", "ult": "ugt"}.get(pred, pred)
        if y[0] != "c" or not maxleaf(x):
            continue
        K = y[1] & 0xffffffff
        if base and pred[0] == "s" or not base and pred[0] not in "su":
            continue
        th, taken = {"ge": (K, 0), "gt": (K + 1, 0), "lt": (K, 1), "le": (K + 1, 1)}.get(pred[1:], (None, None))
        if th != leaf:
            continue
        e = t.succ[taken]
        # edge b->e dominates one of the blocks
        for tgt in blocks:
            if edge_dom(f, b.i, e, tgt.i):
                return True
    return False


def edge_dom(f, a, e, t):
    """every path from entry to t uses edge a->e"""
    seen, st = set(), [0]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == t:
            return False
        for s in f.blocks[x].succ:
            if not (x == a and s.i == e):
                st.append(s.i)
    return True
