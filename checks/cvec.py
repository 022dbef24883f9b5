"""Shared view of the compressed vector: cfg/cvec.cpp instantiates every operation with an opaque client; member functions stay calls when they leave
the locks as they found them, and are inlined otherwise."""
import re
from vlib import esp
from vlib.facts import cval

LOCKOP = re.compile(r"^_ZNK?6stenos.*(4lock|6unlock|11lock_shared|13unlock_shared|8try_lock|15try_lock_shared)Ev$")
# operations on the lock: (acquire?, shared?, blocking?)
OPS = {"4lock": ("lock", False), "6unlock": ("unlock", False), "11lock_shared": ("lock", True), "13unlock_shared": ("unlock", True), "8try_lock": ("try", False), "15try_lock_shared": ("try", True)}
LOCKKEEP = r"^_ZNK?6stenos.*(4lock|6unlock|11lock_shared|13unlock_shared|8try_lock|15try_lock_shared)Ev$"
MEMBER = re.compile(r"stenos::detail::CompressedVectorInternal<.*>::[~\w]+(<.*>)?\(|^(void |.* )?stenos::cvector<.*>::[~\w]+")


def lockop(i):
    if not i.is_call or not i.callee:
        return None
    m = LOCKOP.match(i.callee)
    return OPS[m.group(1)] if m else None


def roots(m):
    return [f for f in m.defined() if re.match(r"^[cx]_[a-z_]+$", f.name)]


def members(m):
    """member functions of the vector and its internal structure, container growth"""
    out = set()
    for f in m.defined():
        n = f.dem
        if re.match(r"^_ZNK?6stenos6detail24CompressedVectorInternal|^_ZNK?6stenos7cvector", f.name) and "EUl" not in f.name:
            out.add(f.name)
        elif re.match(r"^_ZNSt6vectorIN6stenos.*(_M_realloc_insert|_M_default_append|reserve|shrink_to_fit|_M_shrink_to_fit)", f.name):
            out.add(f.name)
        elif re.match(r"^_ZN6stenos6detailL?\d+(make_raw_buffer|get_raw_buffer|get_compression_buffer)", f.name):
            out.add(f.name)
    return out


def keeprx(names):
    return "|".join([LOCKKEEP] + ["^%s$" % re.escape(n) for n in sorted(names)])


PASSES = "sroa,instsimplify,simplifycfg,globaldce"


def module(ctx, names, passes=PASSES):
    return ctx.mod("x86-64", "cvec", inline=True, keep=keeprx(names), passes=passes)


def field(m, fld):
    if not fld:
        return None
    return m.field(*fld)


def recursive(m, n):
    """does the function call itself, directly or through others"""
    seen, st = set(), [n]
    while st:
        for i in m.F[st.pop()].ins():
            if i.is_call and i.callee in m.F and not m.F[i.callee].decl:
                if i.callee == n:
                    return True
                if i.callee not in seen:
                    seen.add(i.callee)
                    st.append(i.callee)
    return False


def mods(m0):
    """fields (struct, offset) each function may store, through its callees; external functions are the opaque client and the runtime, which
    cannot name them"""
    e = None
    own, calls = {}, {}
    for f in m0.defined():
        s, c = set(), set()
        for i in f.ins():
            if i.op == "store" or i.op in ("atomicrmw", "cmpxchg"):
                s.add(esp.field(f, i.o[1] if i.op == "store" else i.o[0]))
            elif i.is_call and i.callee in m0.F and not m0.F[i.callee].decl:
                c.add(i.callee)
        s.discard(None)
        own[f.name], calls[f.name] = s, c
    ch = True
    while ch:
        ch = False
        for n, s in own.items():
            k = len(s)
            for c in calls[n]:
                if c != n:
                    s |= own[c]
            ch |= len(s) != k
    return own


class Effects:
    """what a call may change, for the analysis of f: fields its callees store; everything when another thread may run in between.  A function that is
    part of its own recursion works on objects the path has excluded from it: its stores to their fields are left out"""

    def __init__(self, m, f, mod, e=None):
        self.m, self.f, self.mod = m, f, mod
        self.e = e

    def __call__(self, i):
        op = lockop(i)
        if op:
            return (lambda a: False) if op[0] == "try" else (lambda a: True)
        c = i.callee
        if c in self.m.F and not self.m.F[c].decl:
            ms = self.mod.get(c)
            if ms is None:
                return lambda a: True
            if c == self.f.name:
                return lambda a: self.e.fld.get(a) is None
            return lambda a: self.e.fld.get(a) is None or self.e.fld[a] in ms
        return lambda a: self.e.fld.get(a) is None
