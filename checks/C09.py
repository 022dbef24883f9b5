"""C09: no store-like effect through a pointer derived from a const input buffer."""
from vlib.pta import PTA
import apibuf

# external functions: indices of parameters they only read through (everything else pointer-like may be written)
READS = {
    "ZSTD_compressCCtx": {3}, "ZSTD_compress_usingCDict": {3, 5}, "ZSTD_decompress": {2}, "ZSTD_compress": {2}, "ZSTD_decompressDCtx": {3},
    "ZSTD_compress2": {3}, "memcmp": {0, 1}, "memchr": {0}, "strlen": {0}, "ZSTD_getFrameContentSize": {0}, "ZSTD_findFrameCompressedSize": {0},
    "llvm.prefetch.p0": {0}, "bcmp": {0, 1}, "free": set(),
    # pure loads
    "llvm.masked.load": {0}, "llvm.x86.avx2.gather.d.d": {1}, "llvm.x86.avx.maskload": {0}, "llvm.x86.avx2.maskload": {0}, "llvm.x86.sse3.ldu.dq": {0}, "llvm.x86.avx.ldu.dq.256": {0},
}


def writable(c, k):
    if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove"):
        return k == 0
    if c.startswith("llvm.memset"):
        return k == 0
    for n, s in READS.items():
        if c == n or (n.startswith("llvm.") and c.startswith(n)):
            return k not in s
    if c.startswith("llvm.lifetime") or c.startswith("llvm.assume") or c.startswith("llvm.dbg") or c.startswith("llvm.objectsize"):
        return False
    return True


def run(ctx):
    tot = {"stores": 0, "calls": 0, "through_source": 0}
    for march in ("haswell", "nehalem", "x86-64"):
        m = ctx.mod(march, inline=True, keep=apibuf.KEEP, passes="sroa,globaldce")
        p = PTA(m).build()
        apibuf.seed(p, m, ctx.need)
        apibuf.seed_opaque(p, m)
        p.solve()
        reads = 0
        for f in m.defined():
            for i in f.ins():
                if i.op == "load" and "SRC" in p.objs(f, i.o[0]):
                    reads += 1
                if i.op in ("store", "atomicrmw", "cmpxchg"):
                    tot["stores"] += 1
                    ptr = i.o[1] if i.op == "store" else i.o[0]
                    bad = "SRC" in p.objs(f, ptr)
                    ctx.ob(not bad)
                    if bad:
                        ctx.fail("%s:%s:%s" % (i.scope(), i.op, march), "%s writes through a pointer derived from a const input buffer (%s build)" % (i.scope(), march), i.loc())
                elif i.is_call:
                    cs = p.callees.get((f.name, i.id), ())
                    for c in cs:
                        t = m.F.get(c)
                        if t is not None and not t.decl:
                            continue
                        for k, o in enumerate(i.o):
                            if o[0] not in ("i", "a", "x", "g"):
                                continue
                            tot["calls"] += 1
                            bad = "SRC" in p.objs(f, o) and writable(c, k) and is_ptr(f, o)
                            ctx.ob(not bad)
                            if bad:
                                ctx.fail("%s:%s#%d:%s" % (i.scope(), c, k, march), "input buffer passed to %s as an argument it may write through (%s build)" % (c, march), i.loc())
        ctx.need(reads > 50, "reads of the input buffer (%d seen)" % reads)
        tot["loads_of_source_" + march] = reads
    ctx.cov.update(tot)
    ctx.explanation = ("Andersen-style field-sensitive points-to over the whole library (helpers inlined), for three instruction sets; rule: no store, atomic, memset/memcpy destination or "
                       "writable external argument may have an input buffer (any const void* parameter of a public function) in its points-to set. Over-approximates all executions.")
    ctx.assumptions = ["external functions write only through the parameters listed as writable", "input and destination buffers do not overlap (documented)"]


def is_ptr(f, o):
    if o[0] == "i":
        return f.instrs[o[1]].t == "ptr"
    if o[0] == "a":
        return f.args[o[1]]["t"] == "ptr"
    return True
