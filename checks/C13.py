"""C13: a possibly null allocation result is tested before it is dereferenced, written through or handed to code that dereferences it."""
import re
from vlib.pta import PTA
from vlib.musttest import Null
import apibuf


def analyse(ctx, m, tag, minsrc):
    pta = PTA(m).build()
    apibuf.seed_opaque(pta, m)
    pta.solve()
    N = Null(m, ctx.need, pta)
    N.solve(None)
    groups = {}

    def rep(f, i, o, w, ok):
        ctx.ob(ok)
        if not ok:
            groups.setdefault((i.scope(), w.split(" at ")[0]), (i, w, []))[2].append(i.loc())
    n = N.check(rep)
    for (sc, w0), (i, w, locs) in groups.items():
        ctx.fail("%s:%s" % (re.sub(r"\W+", "_", sc)[:80], w0), "memory from %s is used without a null test in %s" % (w, sc), i.loc(), ["also at " + l for l in sorted(set(locs))[:8]])
    ctx.need(len(N.sources) >= minsrc, "allocation sites (%d)" % len(N.sources))
    ctx.cov["allocation_sites_" + tag] = len(N.sources)
    ctx.cov["guarded_uses_" + tag] = n
    for f, i in N.sources[:12]:
        ctx.sample("allocation %s at %s" % (i.callee, i.loc()))


def run(ctx):
    for march in ("haswell", "x86-64") if ctx.tier == "thorough" else ("haswell",):
        m = ctx.mod(march, inline=True, keep=apibuf.KEEP, passes="sroa,globaldce")
        analyse(ctx, m, march, 3)
    ctx.explanation = ("Nullness dataflow over the whole library (helpers inlined): every result of a null-returning allocator is followed through values, parameters, returns and memory cells (points-to); "
                       "rule: each dereference, external argument and store through it is dominated by a non-null test of that value, of the same memory slot, or by a loop that tested every slot and left on null.")
    ctx.assumptions = ["memory slots that were tested non-null are not reset to null between test and use by another thread"]
