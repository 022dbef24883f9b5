"""Model of the compression context extracted from the IR: its cells (byte offsets), which are parameters (stored by the public setters), which
are the buffer cache (pointers released by the destroy function), which one is the time limit; and conditions decided by "no time limit"."""
import re
from vlib.facts import strip, cval, tup

FRESH = {"clock_gettime": {1: 16}}      # external functions: argument -> bytes written


class CtxModel:
    def __init__(self, ctx, m, P):
        self.ctx, self.m, self.P = ctx, m, P
        self.api = {}           # public functions with a context parameter: name -> (function, arg)
        objs = {}
        for f in m.defined():
            if not f.name.startswith("stenos_") or f.d.get("local"):
                continue
            for k, t in enumerate((f.d.get("dia") or [])[1:]):
                if k < len(f.args) and t.startswith("ptr ") and "const" not in t:
                    objs.setdefault(t[4:], []).append((f, k))
        setters = [f for f in m.defined() if re.match(r"stenos_set_\w+$", f.name)]
        ctx.need(setters, "public setters of the context (stenos_set_*)")
        for t, l in objs.items():
            if any(f in setters for f, _ in l):
                self.obj = "P:" + t
                self.api = {f.name: (f, k) for f, k in l}
        self.setters = [f for f in setters if f.name in self.api]
        self.make = m.F.get("stenos_make_context")
        self.reset = m.F.get("stenos_reset_context")
        self.destroy = m.F.get("stenos_destroy_context")
        ctx.need(self.make and self.reset and self.destroy, "stenos_make_context / stenos_reset_context / stenos_destroy_context")
        self.acc = {}
        self.objs = {o for f, k in self.api.values() for (o, off) in P.vals(f, ["a", k]) if off == (0, 0)}
        for f in m.defined():
            for i in f.ins():
                p = self.ptr(i)
                if p is not None:
                    v = P.vals(f, p)
                    c = sorted({off for o, off in v if o in self.objs})
                    if c and (self.obj in {o for o, _ in v} or f.name in self.api):
                        self.acc[(f.name, i.id)] = (c[0][1] if len(c) == 1 and all(o in self.objs for o, _ in v) and c[0][0] == 0 else None, c)
        self.params = {}
        for f in self.setters:
            for i in f.ins():
                if i.op == "store":
                    c = self.cell(f, i)
                    if c is not None:
                        self.params.setdefault(c, set()).add(f.name)
        ctx.need(len(self.params) >= 3, "cells written by the setters")
        tl = [c for c, s in self.params.items() if s == {"stenos_set_max_nanoseconds"}]
        ctx.need(len(tl) == 1, "the cell written by stenos_set_max_nanoseconds")
        self.ns = tl[0]
        self.cache = set()
        for i in self.destroy.ins():
            if i.op == "load" and i.t == "ptr":
                c = self.cell(self.destroy, i)
                if c is not None:
                    self.cache.add(c)
        self.vectors = sorted(c for c in self.cache if c + 8 in self.cache and c + 16 in self.cache and c - 8 not in self.starts(c))
        ctx.need(self.vectors, "vectors of buffers owned by the context")
        self.ops = [f for n, (f, k) in sorted(self.api.items()) if f not in self.setters and f not in (self.reset, self.destroy) and "footprint" not in n]
        ctx.need(len(self.ops) >= 2, "operations on a context")

    def starts(self, c):
        # begin cells come every 24 bytes from the first pointer of a run
        run = c
        while run - 8 in self.cache:
            run -= 8
        return () if (c - run) % 24 == 0 else (c - 8,)

    @staticmethod
    def ptr(i):
        if i.op in ("load", "atomicrmw", "cmpxchg"):
            return i.o[0]
        if i.op == "store":
            return i.o[1]
        return None

    def cell(self, f, i):
        """exact offset of the context cell the access touches, None when it is not (only) one"""
        a = self.acc.get((f.name, i.id))
        return a[0] if a else None

    def exact(self, f, o):
        """offset in the context a pointer certainly has, or None"""
        v = self.P.vals(f, o)
        c = {off for ob, off in v if ob in self.objs}
        if len(c) == 1 and all(ob in self.objs for ob, _ in v):
            off = c.pop()
            return off[1] if off[0] == 0 else None
        return None

    def name(self, off):
        for st in self.m.structs:
            if re.search(r"stenos_context_s$", st):
                n = self.m.field(st, off)
                if n:
                    return n
        return "+%d" % off

    def isload(self, f, o, off):
        o = strip(f, o)
        return o[0] == "i" and f.instrs[o[1]].op == "load" and self.cell(f, f.instrs[o[1]]) == off

    def cond(self, f, o, zero, d=0):
        """truth of a boolean operand in the world where the time limit is zero (zero=True) / set (zero=False); None when not decided by it"""
        o = strip(f, o, ("bitcast", "freeze", "zext", "trunc", "sext"))
        if o[0] == "c":
            return bool(int(o[1]) & 1) if not isinstance(o[1], str) else None
        if o[0] != "i" or d > 8:
            return None
        i = f.instrs[o[1]]
        if i.op == "icmp":
            for a, b, p in ((i.o[0], i.o[1], i.pred), (i.o[1], i.o[0], {"ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge"}.get(i.pred, i.pred))):
                cb = cval(b)
                if cb == 0 and self.isload(f, a, self.ns):
                    if p in ("eq", "ule"):
                        return zero
                    if p in ("ne", "ugt"):
                        return not zero
                if cb == 1 and self.isload(f, a, self.ns) and p in ("ult", "uge"):
                    return zero if p == "ult" else not zero
                if cb in (0, 1) and p in ("eq", "ne"):
                    s = strip(f, a, ("bitcast", "freeze", "zext", "trunc", "sext"))
                    if s[0] == "i" and (f.instrs[s[1]].t == "i1" or f.instrs[s[1]].op == "icmp"):
                        v = self.cond(f, s, zero, d + 1)
                        if v is not None:
                            return (v == bool(cb)) == (p == "eq")
            return None
        if i.op == "xor" and cval(i.o[1]) in (1, -1):
            v = self.cond(f, i.o[0], zero, d + 1)
            return None if v is None else not v
        if i.op in ("and", "or"):
            a, b = self.cond(f, i.o[0], zero, d + 1), self.cond(f, i.o[1], zero, d + 1)
            dom = i.op == "or"
            if a is dom or b is dom:
                return dom
            return a if a is not None and a == b else None
        if i.op == "select":
            c = self.cond(f, i.o[0], zero, d + 1)
            if c is not None:
                return self.cond(f, i.o[1 if c else 2], zero, d + 1)
            a, b = self.cond(f, i.o[1], zero, d + 1), self.cond(f, i.o[2], zero, d + 1)
            return a if a is not None and a == b else None
        if i.op == "phi":
            vs = set()
            for v, bi in zip(i.o, i.d["inb"]):
                e = f.blocks[bi]
                if bi not in self.live(f, zero):
                    continue
                vs.add(self.cond(f, v, zero, d + 1) if v != ["i", i.id] else "self")
            vs.discard("self")
            return vs.pop() if len(vs) == 1 else None
        return None

    _live = None

    def live(self, f, zero):
        """blocks reachable when the branches decided by the time limit are folded"""
        if self._live is None:
            self._live = {}
        k = (f.name, zero)
        if k not in self._live:
            self._live[k] = set()      # recursion through phis: nothing known yet
            seen = {0}
            st = [f.blocks[0]]
            while st:
                b = st.pop()
                for s in self.succ(f, b, zero, seen):
                    if s.i not in seen:
                        seen.add(s.i)
                        st.append(s)
            self._live[k] = seen
        return self._live[k]

    def succ(self, f, b, zero, partial=None):
        t = b.term
        if t.op == "br" and t.o and len(t.d["succ"]) == 2:
            # phis are only consulted through live(), so a partial answer is never used for folding
            c = self.cond(f, t.o[0], zero) if partial is None or not self._phi(f, t.o[0]) else None
            if c is not None:
                return [f.blocks[t.d["succ"][0 if c else 1]]]
        return b.succ

    def _phi(self, f, o, d=0):
        o = strip(f, o, ("bitcast", "freeze", "zext", "trunc", "sext"))
        if o[0] != "i" or d > 8:
            return False
        i = f.instrs[o[1]]
        if i.op == "phi":
            return True
        return i.op in ("icmp", "xor", "and", "or", "select") and any(self._phi(f, x, d + 1) for x in i.o)
