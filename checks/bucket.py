"""Buckets of the compressed vector: what happens to a decompressed buffer (raw), followed path by path together with the locks (C25.Locks).

Tokens about a raw r, named by the expression of its address:
  N   nobody can find it: fresh, or unlinked on this path
  V   the value given to one of its fields since then          W   filled by the decompression
  U   made visible to readers on this path
  I   the thread's compression buffer holds its image          C   its content equals its compressed image
  F   full or empty                                            D   marked dirty on this path
  P   modified, not yet marked                                 Z   marked not dirty, not yet justified
  O   linked to a bucket, state of the dirty mark not yet known
  S   found while no bucket was locked
Tokens about the tagged pointer at an address:
  k   value read under the lock of the decompressed buffers     K   found compressed under that lock"""
import multiprocessing
import os
import re
import time
from concurrent.futures import ProcessPoolExecutor
from vlib import esp
from vlib.facts import cval
import cvec
import C25

# client functions of cfg/cvec.cpp: element arguments they modify
MUT = {"vp_update": (0,), "vp_modify": (0,), "vp_elem_assign": (0,), "vp_elem_massign": (0, 1), "vp_elem_move": (1,), "vp_elem_dtor": (0,)}
BUILD = {"vp_elem_ctor": (0,), "vp_elem_copy": (0,), "vp_elem_move": (0,)}
READ = {"vp_use": (0,), "vp_visit": (0,), "vp_elem_copy": (1,), "vp_elem_assign": (1,)}


class Layout:
    """the structures, found by their members"""

    def __init__(self, ctx, m):
        self.raw = self.pack = None
        for st, d in m.structs.items():
            f = {}
            for t in m.di_for(st):
                for x in t["m"]:
                    f.setdefault(x[0], (x[1], x[2]))
            if {"dirty", "block_index", "buffer", "storage", "size"} <= set(f):
                self.raw, self.off, self.rawsize = st, {k: v[0] for k, v in f.items()}, d["size"]
                self.elems = f["storage"][1] // 24
            elif {"data", "ref_count"} <= set(f) and "PackBuffer" in st:
                self.pack, self.poff, self.packsize = st, {k: v[0] for k, v in f.items()}, d["size"]
        ctx.need(self.raw, "decompressed buffer structure (size, dirty, block_index, buffer, storage)")
        ctx.need(self.pack, "bucket structure (data, ref_count)")
        self.name = {v: k for k, v in self.off.items()}
        self.lockdist = self.poff["ref_count"] - self.poff["data"]


class Bucket(C25.Locks):
    def __init__(self, m, f, mod, lay, sums, buckets, conc, whole):
        self.lay, self.sums, self.buckets, self.conc, self.whole = lay, sums, buckets, conc, whole
        self.out = None            # tokens at every normal exit, over arguments and result
        self.nev = {}
        self.tags = set()
        self.dec = any(i.is_call and i.callee == "stenos_private_decompress_block" for i in f.ins())
        self.uses = any(i.is_call and (i.callee in MUT or i.callee in READ or i.callee in BUILD) for i in f.ins())
        super().__init__(m, f, mod)
        self.e.cap = 10000
        self.unlinks = not whole and any(i.op == "store" and self.istag(i) for i in f.ins())

    def run(self):
        self.e.edge = self.edge
        t = time.time()
        self.e.deadline = min(t + 25, G["end"])
        self.init = (frozenset(), frozenset())
        self.ok = self.e.run(self.init)
        if not self.bad and self.ok:
            return
        b, k, o = self.bad, self.ok, self.out
        self.bad, self.out, self.e.split, self.e.truncated, ok, n = {}, None, True, False, True, 0
        self.e.deadline = min(time.time() + 25, G["end"])
        self.inner = None
        ctxs = [self.outer()]
        while ctxs and ok:
            old = self.inner
            self.e.n = 0
            ok = self.e.run(self.init, self.entry(ctxs.pop()))
            n += self.e.n
            if self.inner is not None and (old is None or self.inner != old):
                ctxs = [self.inner]
        self.e.n = n
        if ok:
            self.ok = True
        else:
            self.bad, self.ok, self.out = b, False, o

    # ---- names ----
    def er(self, s):
        """name of an object: without versions, and without the test that it exists"""
        s = self.e.S.erase(s)
        while s.op == "sel" and any(x.op == "c" and x.a[0] == 0 for x in s.a[1:]):
            s = s.a[2] if s.a[1].op == "c" else s.a[1]
        return s

    @staticmethod
    def bare(s):
        while s.op == "sel" and any(x.op == "c" and x.a[0] == 0 for x in s.a[1:]):
            s = s.a[2] if s.a[1].op == "c" else s.a[1]
        return s

    def fieldof(self, o, env):
        """(raw, member) of an address operand"""
        t = self.e.field(o)
        if t and t[0] == self.lay.raw and t[1] in self.lay.name:
            return self.er(self.e.S.lin(-t[1], [(self.e.sym(o, env), 1)])), self.lay.name[t[1]]
        return None

    def elem(self, o, env):
        """raw that holds the element at this address"""
        a = self.e.sym(o, env)
        c, p = self.e.S.parts(a)
        one = [x for x, k in p.items() if k == 1]
        if c >= self.lay.off["storage"] and len(one) == 1 and one[0].op != "al":
            return self.er(one[0])
        return None

    def cur(self, env, r, fld):
        """current value of a member, if known"""
        d = self.lay.off[fld]
        for a, (v, sz) in env.mem.items():
            if not isinstance(a, tuple) and self.e.fld.get(a) == (self.lay.raw, d) and self.er(self.e.S.lin(-d, [(a, 1)])) is r:
                return v
        return None

    def rawof(self, v, env):
        """raw whose compressed buffer is v"""
        d = self.lay.off["buffer"]
        if v.op == "ldv" and self.e.fld.get(v.a[0]) == (self.lay.raw, d):
            return self.er(self.e.S.lin(-d, [(v.a[0], 1)]))
        for a, (w, sz) in env.mem.items():
            if not isinstance(a, tuple) and w is v and self.e.fld.get(a) == (self.lay.raw, d):
                return self.er(self.e.S.lin(-d, [(a, 1)]))
        return None

    def istag(self, i):
        """access to the tagged pointer of a bucket: every atomic word that is not a lock"""
        if i.op not in ("load", "store") or i.t != "i64" and i.op == "load":
            return False
        o = i.o[1] if i.op == "store" else i.o[0]
        off, n = 0, 0
        while o[0] == "i" and n < 8:
            n += 1
            g = self.f.instrs[o[1]]
            if g.op == "getelementptr":
                k = g.off if g.off is not None else g.d.get("coff", 0)
                if g.d.get("st") == self.lay.pack:
                    return (off + k) % self.lay.packsize == self.lay.poff["data"]
                if g.off is None:
                    return False
                off += k
                o = g.o[0]
            elif g.op == "bitcast":
                o = g.o[0]
            else:
                break
        return off == 0 and i.d.get("ord") is not None

    def held(self, L, excl=False, addr=None):
        for (k, sh), (n, c) in L:
            if c in self.buckets and not (excl and sh) and (addr is None or k is addr):
                return True
        return False

    def say(self, prop, kind, i, text):
        self.bad.setdefault((prop, kind, i.loc()), text)

    def found(self, r, L, T):
        if not self.uses:
            return T
        if self.held(L):
            return frozenset(t for t in T if t[:2] != ("S", r))
        return T | {("S", r)}

    def count(self, k):
        self.nev[k] = self.nev.get(k, 0) + 1

    # ---- transfer ----
    def step(self, i, u, env):
        L, T = u
        r = self.event(i, L, T, env)
        if r is None:
            return None
        T = r
        rb = self.bad
        self.bad = {}
        b = super().step(i, L, env)
        self.bad = rb
        op = cvec.lockop(i)
        if op:
            c = self.cls(i)
            if c in self.buckets:
                if op[0] == "unlock":
                    self.leave(i, T, "when the bucket is released")
                    T = frozenset(t for t in T if t[0] not in "DC")
                else:
                    T = frozenset(t for t in T if t[0] != "C")
            elif op[0] == "unlock" and sum(1 for k, (n, x) in L if x not in self.buckets and not k[1]) <= 1:
                T = frozenset(t for t in T if t[0] not in "kK")
        if i.op == "ret" or i.op == "resume":
            return None
        if b is None:
            return None
        if isinstance(b, list):
            return [((l, T), fx, d) for l, fx, d in b]
        return (b, T)

    def edge(self, b, s, u, env):
        T = self.facts(u[1], env) if len(b.succ) > 1 else u[1]
        if any(t[1] is not None and esp.hasold(t[1]) for t in T):
            T = frozenset((t[0], None, t[2]) if t[0] in "PZO" else t for t in T if t[0] in "PZO" or t[1] is None or not esp.hasold(t[1]))
        return (u[0], T)

    def facts(self, T, env):
        """what the branches taken say about a raw"""
        add = set()
        lay = self.lay
        if self.dec and self.nullimage(env):
            add.add(("0", None))
        for s, x in env.facts.items():
            if s.op == "ldv" and x[0] == "e":
                t = self.e.fld.get(s.a[0])
                if t and t[0] == lay.raw:
                    w = env.mem.get(s.a[0])
                    if w is None or w[0] is not s:
                        continue
                    r = self.er(self.e.S.lin(-t[1], [(s.a[0], 1)]))
                    fld = lay.name.get(t[1])
                    if fld == "dirty" and x[1] == 0 and ("D", r) not in T:
                        add.add(("C", r))
                    elif fld == "size" and x[1] in (0, lay.elems) and not self.whole:
                        add.add(("F", r))
                    elif fld == "block_index" and x[1] == -1 and self.unlinks:
                        add.add(("N", r))
        k = [t for t in T if t[0] == "k"]
        if k:
            for s, x in env.facts.items():
                for t in k:
                    if x == ("e", 0) and (s is t[1] or self.bare(s) is t[1]) or s.op == "and" and t[1] in s.a and any(y.op == "c" and y.a[0] == 1 for y in s.a) and (x == ("e", 1) or x[0] == "n" and 0 in x[1]):
                        add.add(("K", t[2]))
        return T | add if not add <= T else T

    def leave(self, i, T, when):
        for t in T:
            if t[0] == "P":
                self.say("C23", "unmarked", i, "an element modified at %s is not marked dirty %s: the modification is lost when the bucket is evicted" % (short(t[2]), when))
            elif t[0] == "Z":
                self.say("C23", "cleared", i, "the dirty mark is cleared at %s without the content being compressed, and stays cleared %s" % (short(t[2]), when))

    def event(self, i, L, T, env):
        lay, S = self.lay, self.e.S
        if i.op == "store":
            if self.istag(i):
                return self.tagstore(i, L, T, env)
            x = self.fieldof(i.o[1], env)
            if x and self.e.basealloca(self.e.sym(i.o[1], env)) is None:
                return self.fieldstore(i, x[0], x[1], self.e.sym(i.o[0], env), L, T, env)
            return T
        if i.op == "load" and self.istag(i):
            self.tags.add(self.e.sym(i.o[0], env))
            self.count("tag loads")
            if self.conc and i.d.get("ord") not in C25.ACQ:
                self.say("C26", "load-order", i, "the tagged pointer of a bucket is read %s: what the publishing thread wrote may not be visible" % (i.d.get("ord") and "with memory order " + i.d["ord"] or "non atomically"))
            if self.conc:
                a = self.e.sym(i.o[0], env)
                w = env.mem.get(a)
                v = w[0] if w is not None else S.mk("ldv", a, i.sz or 8, i.id)
                T = self.found(self.er(v), L, T)
                if any(c not in self.buckets and not k[1] for k, (n, c) in L):
                    T = T | {("k", v, self.er(a))}
            return T
        if i.op in ("ret", "resume"):
            how = "at the %s exit" % ("normal" if i.op == "ret" else "exceptional")
            self.leave(i, T, how)
            for t in T:
                if t[0] == "O":
                    self.say("C23", "link", i, "the buffer linked to a bucket at %s is marked neither dirty nor equal to compressed content %s: what it holds is lost when it is evicted" % (short(t[2]), how))
            if i.op == "ret":
                self.collectout(i, T, env)
            return T
        if not i.is_call:
            return T
        c = i.callee or ""
        if c in self.m.F and not self.m.F[c].decl:
            if i.t == "ptr" and self.conc:
                T = self.found(S.mk("leaf", i.id), L, T)
            return self.summary(i, T, env)
        if c in MUT or c in BUILD or c in READ:
            return self.client(i, c, L, T, env)
        if c == "vp_alloc":
            if cval(i.o[0]) == lay.rawsize:
                return T | {("N", S.mk("leaf", i.id))}
        elif c == "vp_free":
            r = self.er(self.e.sym(i.o[0], env))
            if cval(i.o[1]) == lay.rawsize:
                self.count("buffers freed")
                if not self.whole and ("N", r) not in T:
                    self.say("C24", "freed", i, "a decompressed buffer is freed although its bucket may still refer to it")
                return frozenset(t for t in T if t[1] is not r)
        elif c == "stenos_private_compress_block":
            r = self.storage(i.o[1], env)
            T = frozenset(t for t in T if t[0] != "I")
            if r is not None:
                self.count("compressions")
                return T | {("I", r)}
        elif c == "stenos_private_decompress_block":
            r = self.storage(i.o[5], env)
            if r is not None:
                self.count("decompressions")
                if ("N", r) not in T and self.conc:
                    self.say("C24", "overwritten", i, "a bucket is decompressed into a buffer that may still belong to another bucket")
                return T | {("W", r)}
        elif c.startswith("llvm.memcpy") and i.o[1][0] == "i":
            src = self.f.instrs[i.o[1][1]]
            if src.is_call and (src.callee or "").startswith("llvm.threadlocal"):
                r = self.rawof(self.e.sym(i.o[0], env), env)
                if r is not None:
                    self.count("images stored")
                    if ("I", r) in T:
                        return T | {("C", r)}
                    self.say("C23", "image", i, "the compressed buffer of a bucket receives an image that was not made from its own content")
        return T

    def storage(self, o, env):
        a = self.e.sym(o, env)
        if self.e.basealloca(a) is not None:
            return None
        t = self.e.field(o)
        if t and t == (self.lay.raw, self.lay.off["storage"]):
            return self.er(self.e.S.lin(-t[1], [(a, 1)]))
        return None

    def client(self, i, c, L, T, env):
        for k in MUT.get(c, ()):
            r = self.elem(i.o[k], env)
            if r is None:
                continue
            self.count("modifications")
            self.access(i, L, r, T)
            if ("D", r) not in T:
                T = T | {("P", r, i.loc())}
            T = frozenset(t for t in T if t[:2] != ("C", r))
        for k in READ.get(c, ()) + BUILD.get(c, ()):
            r = self.elem(i.o[k], env)
            if r is not None:
                self.count("accesses")
                self.access(i, L, r, T)
        return T

    def access(self, i, L, r, T):
        if self.conc and self.held(L) and ("S", r) in T and ("N", r) not in T:
            self.say("C24", "stale", i, "an element is used through a decompressed buffer that was found before its bucket was locked: the buffer may have been given to another bucket meanwhile")
        if self.conc and not self.held(L):
            self.say("C24", "unprotected", i, "an element is used while its bucket is not locked: the buffer may be evicted at the same time")

    def fieldstore(self, i, r, fld, v, L, T, env):
        lay = self.lay
        c = self.e.eval(v, env)
        self.count("bookkeeping stores")
        new = ("N", r) in T
        T = frozenset(t for t in T if not (t[0] == "V" and t[1] is r and t[2] == fld))
        if new:
            T = T | {("V", r, fld, self.er(v))}
        if fld == "storage":
            return T
        if self.conc and ("U", r) in T and not (fld == "dirty" and c == 1):
            self.say("C26", "late-" + fld, i, "%s is stored after the buffer became visible to readers: it may overwrite what one of them recorded, or be read before" % fld)
        elif self.conc and not new:
            if fld == "dirty" and c == 1:
                if not self.held(L):
                    self.say("C23", "mark-unlocked", i, "the buffer is marked dirty while its bucket is not locked: the mark may go to the buffer's next bucket")
            elif fld == "buffer":
                if not self.held(L, True) and not any(cc not in self.buckets for k, (n, cc) in L):
                    self.say("C24", "unprotected-buffer", i, "the compressed buffer of a bucket is replaced without a lock")
            elif not self.held(L, True):
                self.say("C24", "unprotected-" + fld, i, "%s of a buffer that readers may be using is changed" % fld)
        if fld == "dirty":
            if c == 0:
                if ("D", r) in T:
                    T = frozenset(t for t in T if t[:2] != ("D", r))
                if not (new or ("C", r) in T):
                    T = T | {("Z", r, i.loc())}
                if ("O", r) in {t[:2] for t in T} or new:
                    if ("W", r) in T or ("0", None) in T:
                        T = frozenset(t for t in T if t[:2] != ("O", r))
                        T = T | {("C", r)}
            else:
                T = frozenset(t for t in T if t[:2] not in (("P", r), ("O", r), ("C", r))) | {("D", r)}
        elif fld == "size":
            if c == 0:
                T = frozenset(t for t in T if t[:2] not in (("P", r), ("Z", r))) | {("F", r)}
            else:
                T = frozenset(t for t in T if t[:2] != ("F", r))
                if c == lay.elems:
                    T = T | {("F", r)}
                s = self.cur(env, r, "size")
                if s is not None and v.op == "lin" and s is not v:
                    d = self.e.S.lin(0, [(v, 1), (s, -1)])
                    if d.op == "c" and (d.a[0] < 0 or d.a[0] & 0xffffffff > 1 << 31) and ("D", r) not in T:
                        T = T | {("P", r, i.loc())}
        elif fld == "block_index":
            if c == -1:
                T = frozenset(t for t in T if t[:2] not in (("P", r), ("O", r), ("Z", r))) | {("N", r)}
            elif ("D", r) not in T and not ((("W", r) in T or ("0", None) in T) and any(t[:3] == ("V", r, "dirty") and t[3].op == "c" and t[3].a[0] == 0 for t in T)):
                T = T | {("O", r, i.loc())}
        return T

    def tagstore(self, i, L, T, env):
        S = self.e.S
        a = self.e.sym(i.o[1], env)
        v = self.e.sym(i.o[0], env)
        if self.e.basealloca(a) is not None:
            return T
        self.count("tag stores")
        if self.conc and i.d.get("ord") not in C25.REL:
            self.say("C26", "store-order", i, "the tagged pointer of a bucket is stored %s: a reader may see the buffer before its content" % (i.d.get("ord") and "with memory order " + i.d["ord"] or "non atomically"))
        comp = v.op == "or" and any(x.op == "c" and x.a[0] & 1 for x in v.a)
        if comp:
            x = [y for y in v.a if y.op != "c"][0]
            lock = self.er(S.lin(self.lay.lockdist, [(a, 1)]))
            r = self.rawof(x, env)
            self.count("evictions")
            if not self.whole and not self.held(L, True, lock):
                self.say("C24", "evicted", i, "a bucket is evicted without the exclusive lock of that bucket: somebody may be using its elements")
            if r is None:
                if self.whole:
                    return T
                self.say("C23", "evicted-unknown", i, "a bucket is given compressed content that does not come from its decompressed buffer")
                return T
            if not self.whole:
                if ("C", r) not in T:
                    self.say("C23", "evicted-dirty", i, "a bucket is evicted while its decompressed buffer may hold modifications that were not compressed")
                if ("F", r) not in T:
                    self.say("C23", "evicted-partial", i, "a bucket is evicted although it may be partially filled: it would be read back as a full one")
            return T | {("N", r)}
        if v.op == "c":
            return T
        r = self.er(v)
        if ("N", r) not in T:
            return T
        self.count("publications")
        if self.conc:
            val = {t[2]: t[3] for t in T if t[0] == "V" and t[1] is r}
            b = val.get("block_index")
            want = self.er(a)
            c0, p = S.parts(want)
            bad = []
            if b is None or not (b in p and p[b] == self.lay.packsize or b.op == "c" and b.a[0] != -1):
                bad.append("block_index")
            s = val.get("size")
            if s is None or s.op == "c" and s.a[0] == 0:
                bad.append("size")
            if "dirty" not in val:
                bad.append("dirty")
            x = val.get("buffer")
            if (x is None or x.op == "c" and x.a[0] == 0) and ("0", None) not in T:
                bad.append("buffer")
            if ("W", r) not in T and ("0", None) not in T:
                bad.append("content")
            if bad:
                self.say("C26", "early", i, "a decompressed buffer becomes visible to readers before its %s %s set" % (", ".join(bad), "is" if len(bad) == 1 else "are"))
            if ("K", want) not in T:
                self.say("C23", "republished", i, "a decompressed buffer replaces the content of a bucket that was not found compressed under the lock that serializes decompressions: "
                         "another thread may have published and modified a buffer meanwhile")
        return frozenset(t for t in T if t[:2] != ("N", r) and not (t[0] == "V" and t[1] is r)) | {("U", r)}

    def nullimage(self, env):
        """the path found no compressed content: excluded, every bucket has content"""
        for s, x in env.facts.items():
            if x == ("e", 0):
                if s.op == "and" and any(y.op == "c" and y.a[0] == -2 for y in s.a) or s.op == "ldv" and (
                        self.e.fld.get(s.a[0]) == (self.lay.raw, self.lay.off["buffer"]) or s.a[0] in self.tags):
                    return True
        return False

    # ---- summaries ----
    def collectout(self, i, T, env):
        S = self.e.S
        rv = self.er(self.e.sym(i.o[0], env)) if i.o else None
        got = set()
        for t in T:
            if t[0] in "NCFDW":
                if t[1].op == "arg":
                    got.add((t[0], t[1].a[0]))
                elif t[1] is rv:
                    got.add((t[0], "ret"))
        if rv is not None and rv.op == "c" and rv.a[0] == 0:
            got |= {(k, "ret") for k in "NCFDW"}
        self.out = got if self.out is None else self.out & got

    def summary(self, i, T, env):
        s = self.sums.get(i.callee)
        if not s:
            return T
        add = set()
        for k, a in s:
            if a == "ret":
                add.add((k, self.e.S.mk("leaf", i.id)))
            elif a < len(i.o):
                r = self.er(self.e.sym(i.o[a], env))
                add.add((k, r))
                if k == "D":
                    T = frozenset(t for t in T if t[:2] not in (("P", r), ("O", r)))
        if i.callee == self.f.name or not add:
            pass
        return T | add


def short(loc):
    return loc.split("/")[-1]


# operations that use the whole vector for themselves
WHOLE = re.compile(r"^x_(clear|shrink|serialize|serialize_stream|destroy|deserialize|deserialize_stream|pop_back|erase|resize|resize_value|assign_value|assign_range|"
                   r"insert_range|insert_forward|copy_assign|move_assign|swap|construct\w*|stats|istreambuf)$")


def reach(m, start):
    seen, st = set(start), list(start)
    while st:
        for i in m.F[st.pop()].ins():
            if i.is_call and i.callee in m.F and not m.F[i.callee].decl and i.callee not in seen:
                seen.add(i.callee)
                st.append(i.callee)
    return seen


G = {}


class Result:
    """what is kept of the analysis of a function"""

    def __init__(self, B):
        self.bad, self.out, self.ok, self.nev, self.conc, self.whole = B.bad, B.out, B.ok, B.nev, B.conc, B.whole
        self.calls = {c[0] for c in B.calls}
        self.n = B.e.n


def work(n):
    m, sums = G["m"], G["sums"]
    f = m.F[n]

    def go():
        B = Bucket(m, f, G["mod"], G["lay"], sums, G["buckets"], n in G["conc"], n not in G["part"])
        B.run()
        return B
    if not cvec.recursive(m, n):
        return Result(go())
    sums[n] = {("N", "ret")}       # induction: verified here
    B = go()
    if not (sums[n] <= (B.out or set())):
        sums[n] = set()
        B = go()
    return Result(B)


def analyse(ctx):
    m, res, names = C25.analyse(ctx)
    buckets = C25.isbucket(res)
    G["end"] = time.time() + 300
    if not buckets and time.time() > C25.Locks.END:
        return m, None, {}, names, buckets
    ctx.need(buckets, "lock taken in shared mode")
    m0 = ctx.mod("x86-64", "cvec", passes="sroa")
    mod = cvec.mods(m0)
    names = set(names)
    for rnd in range(8):
        m = cvec.module(ctx, names)
        lay = Layout(ctx, m)
        roots = [f.name for f in cvec.roots(m)]
        conc = reach(m, [n for n in roots if n.startswith("c_")])
        part = reach(m, [n for n in roots if not WHOLE.match(n)])
        order, seen = [], set()

        def post(n):
            if n in seen:
                return
            seen.add(n)
            for i in m.F[n].ins():
                if i.is_call and i.callee in m.F and not m.F[i.callee].decl:
                    post(i.callee)
            order.append(n)
        for f in m.defined():
            if f.instrs and not cvec.LOCKOP.match(f.name):
                post(f.name)
        sums, out = {}, {}
        G.update(m=m, mod=mod, lay=lay, sums=sums, buckets=buckets, conc=conc, part=part)
        level = {}
        for n in order:
            level[n] = 1 + max([level.get(i.callee, 0) for i in m.F[n].ins() if i.is_call and i.callee in m.F], default=0)
        for k in sorted(set(level.values())):
            todo = [n for n in order if level[n] == k and m.F[n].instrs and not cvec.LOCKOP.match(n)]
            todo.sort(key=lambda n: -len(m.F[n].instrs))
            if not todo:
                continue
            with ProcessPoolExecutor(min(8, os.cpu_count() or 1, len(todo)), mp_context=multiprocessing.get_context("fork")) as ex:
                for n, B in zip(todo, ex.map(work, todo)):
                    out[n] = B
                    sums[n] = B.out or set()
        bad = {n for n, B in out.items() if B.bad and n in names and not cvec.recursive(m, n)}
        drop = {n for n in bad if not any(c in bad and c != n for c in out[n].calls)} or bad
        if not drop:
            break
        names -= drop
    return m, lay, out, names, buckets


TEXT = {
    "C23": "marks and content",
    "C24": "locks held",
    "C26": "publication",
}


def report(ctx, events, what):
    m, lay, out, names, buckets = analyse(ctx)
    prop = ctx.pid
    tot, undecided = {}, []
    if not out:
        undecided.append("everything: the lock analysis ran out of time")
        ctx.ob(True)
    for n, B in sorted(out.items()):
        if not B.ok:
            undecided.append(m.F[n].dem[:100])
        mine = {k: t for k, t in B.bad.items() if k[0] == prop}
        k = sum(B.nev.get(e, 0) for e in events)
        for e in events:
            tot[e] = tot.get(e, 0) + B.nev.get(e, 0)
        if not B.ok:
            continue
        for (p, kind, loc), text in sorted(mine.items()):
            ctx.fail("%s:%s" % (kind, loc.split("/")[-1]), "%s: %s" % (m.F[n].dem[-90:], text), loc)
        ctx.ob(not mine, max(1, k))
    for e in events if out else ():
        ctx.need(tot.get(e), "%s in the compressed vector" % e)
    for n, B in sorted(out.items(), key=lambda x: -sum(x[1].nev.get(e, 0) for e in events))[:8]:
        ctx.sample("%s: %s" % (m.F[n].dem[:70], ", ".join("%d %s" % (B.nev[e], e) for e in events if B.nev.get(e))))
    ctx.cov.update({"functions": len(out), "concurrent_functions": sum(1 for B in out.values() if B.conc), "whole_vector_functions": sum(1 for B in out.values() if B.whole),
                    "member_functions_kept_as_calls": len(names), "states": sum(B.n for B in out.values()), "undecided": undecided,
                    "events": tot})
    ctx.explanation = what
    ctx.assumptions += ["two pointers read from different places name the same decompressed buffer only when their address expressions agree",
                        "every bucket that is not decompressed has compressed content (deserialization refuses empty images)",
                        "operations on the whole vector (shrink_to_fit, clear, serialization, insertion and erasure of ranges, construction and destruction) have the vector for themselves"]
