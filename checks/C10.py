"""C10: accesses through user buffers never assume alignment."""
from vlib.pta import PTA
import apibuf

ALIGNED = {  # target intrinsics that fault on misaligned operands: parameter index
    "llvm.x86.sse.movnt": 0, "llvm.x86.sse2.movnt": 0, "llvm.x86.avx.movnt": 0, "llvm.x86.sse41.movntdqa": 0, "llvm.x86.avx2.movntdqa": 0,
}
USER = ("SRC", "DST")


def run(ctx):
    n_acc = n_user = 0
    for march in ("haswell", "nehalem", "x86-64"):
        m = ctx.mod(march, inline=True, keep=apibuf.KEEP, passes="sroa,globaldce")
        p = PTA(m).build()
        apibuf.seed(p, m, ctx.need)
        apibuf.seed_opaque(p, m)
        p.solve()
        user = 0

        def chk(f, i, o, al, what):
            nonlocal user, n_acc
            n_acc += 1
            ob = p.objs(f, o)
            u = [x for x in USER if x in ob]
            if not u:
                ctx.ob()
                return
            user += 1
            ctx.ob(al <= 1)
            if al > 1:
                ctx.fail("%s:%s:%d:%s" % (i.scope(), what, al, march),
                         "%s through a pointer derived from a user %s buffer assumes %d-byte alignment (%s build)" % (what, "/".join({"SRC": "source", "DST": "destination"}[x] for x in u), al, march), i.loc())

        for f in m.defined():
            for i in f.ins():
                if i.op == "load":
                    chk(f, i, i.o[0], i.al, "load")
                elif i.op == "store":
                    chk(f, i, i.o[1], i.al, "store")
                elif i.op in ("atomicrmw", "cmpxchg"):
                    chk(f, i, i.o[0], i.sz, "atomic access")
                elif i.is_call and i.callee:
                    c = i.callee
                    if c.startswith("llvm.mem"):
                        for k in range(2 if not c.startswith("llvm.memset") else 1):
                            chk(f, i, i.o[k], i.pa[k] or 1, c.split(".")[1])
                    elif c.startswith("llvm.masked.load") or c.startswith("llvm.masked.store"):
                        k = 0 if "load" in c else 1
                        chk(f, i, i.o[k], i.o[k + 1][1] if i.o[k + 1][0] == "c" else 16, c)
                    else:
                        for n, k in ALIGNED.items():
                            if c.startswith(n):
                                chk(f, i, i.o[k], 16, c)
        ctx.need(user > 100, "accesses through user buffers (%d seen)" % user)
        n_user += user
    ctx.cov.update(memory_accesses=n_acc, accesses_through_user_buffers=n_user)
    ctx.level = "other"
    ctx.explanation = ("Every load, store, atomic and memory intrinsic of the library (helpers inlined) in three instruction-set builds: an access whose pointer may derive from a const void* / void* "
                       "parameter of a public function must have IR alignment 1. Points-to is an over-approximation, the alignment is the one the compiler may rely on for code generation.")
    ctx.assumptions = ["zstd itself accepts unaligned buffers"]
