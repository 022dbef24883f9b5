"""C03: every emitted method byte decodes with the exact inverse pipeline.

Path-sensitive provenance of buffers (vlib/prov.py) through the transformation calls.  Encoder: for every feasible path of the superblock compressor that returns a
size, the first byte of the destination (the tag), the three bytes of the size and the term that describes the payload (e.g. zstd(delta(shuffle(input)))).  Decoder:
for every path of the superblock decompressor that returns a size, the tag it requires and the term written to the destination, over the payload.  The term of each
encoder path is substituted into the term of the decoder for the same tag and rewritten with inverse pairs; the result must be the input itself."""
import re
from vlib import prov
from vlib.prov import C, add, const, fz, show, sym, Prov, Limit

# transformations: name -> (kind, destination, source, size of source, element size)
MODEL = {
    "stenos::shuffle": ("shuffle", 3, 2, 1, 0),
    "stenos::unshuffle": ("unshuffle", 3, 2, 1, 0),
    "stenos::delta": ("delta", 1, 0, 2, None),
    "stenos::delta_inv": ("undelta", 1, 0, 2, None),
    "stenos::block_compress_generic": ("block", 3, 0, 2, 1),
    "stenos::block_decompress_generic": ("unblock", 4, 0, 1, 2),
    "stenos::zstd_compress_with_context": ("zstd", 0, 2, 3, None),
    "ZSTD_compress": ("zstd", 0, 2, 3, None),
    "ZSTD_compressCCtx": ("zstd", 1, 3, 4, None),
    "ZSTD_compress2": ("zstd", 1, 3, 4, None),
    "ZSTD_decompress": ("unzstd", 0, 2, 3, None),
    "ZSTD_decompressDCtx": ("unzstd", 1, 3, 4, None),
}
SIZED = {"block", "zstd", "unzstd"}         # result has a size of its own, returned by the call
INV = {"unshuffle": "shuffle", "undelta": "delta", "unblock": "block", "unzstd": "zstd"}
PASSES = "function(sroa,early-cse,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),simplifycfg,sroa,early-cse,dce)"
ROOTS = ("stenos_private_compress_block", "stenos_private_decompress_block")


def base(dem):
    n = dem.split("(")[0]
    n = re.sub(r"<.*$", "", n)
    return n.split(" ")[-1]


def keepset(m, ctx, deep=True):
    """functions that are not inlined: the transformations, and everything that does not contribute to the superblock (loops, exceptions, size)"""
    model = {f.name for f in m.F.values() if base(f.dem) in MODEL}
    ctx.need({base(m.F[n].dem) for n in model} >= {"stenos::shuffle", "stenos::unshuffle", "stenos::delta", "stenos::delta_inv", "stenos::block_compress_generic",
                                                   "stenos::block_decompress_generic"}, "transformation functions")
    callees, callees0 = {}, {}
    for f in m.defined():
        callees0[f.name] = {i.callee or "" for i in f.ins() if i.is_call}
        callees[f.name] = {i.callee for i in f.ins() if i.is_call and i.callee and i.callee in m.F}
    reach = set(model)
    ch = True
    while ch:
        ch = False
        for n, s in callees.items():
            if n not in reach and s & reach:
                reach.add(n)
                ch = True
    heavy = set()
    for f in m.defined():
        loops = any(f.dominates_b(s.i, b.i) for b in f.rpo() for s in b.succ)
        if f.name in reach and f.name not in model and (not loops or f.name in ROOTS):
            continue
        inv = any(i.op == "resume" for i in f.ins())
        clock = any(c.startswith(("clock_gettime", "_ZNSt6chrono")) for c in callees0[f.name])
        if loops or inv or clock or len(list(f.ins())) > 120 or callees[f.name] & set(ALLOC):
            heavy.add(f.name)
    ch = True
    while ch:
        ch = False
        for f in m.defined():
            if f.name not in heavy and f.name not in reach and (deep or not f.dem.startswith("stenos")) and callees[f.name] & heavy:
                heavy.add(f.name)
                ch = True
    return model | heavy, {n: base(m.F[n].dem) for n in model}


ALLOC = ("malloc", "calloc", "aligned_alloc", "posix_memalign", "_Znwm", "_ZnwmRKSt9nothrow_t")


class Side:
    def __init__(self, ctx, f, enc, cov, model):
        self.ctx, self.f, self.enc, self.cov = ctx, f, enc, cov
        self.model = model
        self.errfn = {}
        self.out = {}       # (tag, term, ...) -> loc

    def content(self, P, st, b, off):
        """(term, size polynomial or None) of the bytes at (b, off)"""
        if b is None:
            return ("?",), None
        r = P.getrange(st, b, off)
        if r is not None:
            return r[0], None if r[1] is None else dict(r[1])
        if b[0] == "in" and not st.mem.get(b):
            if self.enc:
                return (("in",), self.n) if not off else (("?",), None)
            return ("pay", fz(off)), None
        return ("?",), None

    def call(self, P, i, st, env, cp):
        if cp:
            _, (db, dp), (sb, sp), n = cp
            t, sz = self.content(P, st, sb, sp)
            P.putrange(st, db, dp, t, n if isinstance(n, dict) else None)
            if t != ("?",):
                self.size(P, i, st, "memcpy", t, sz, n)
            return [(st, env)]
        b = self.model.get(i.callee)
        if i.callee in ("ZSTD_isError",) or self.errfn.get(i.callee):
            x = P.val(i.o[0], env)
            k = ("err", fz(x)) if isinstance(x, dict) else None
            env.pop(i.id, None)
            if k is None:
                return [(st, env)]
            r = []
            for w in (True, False) if st.facts.get(k) is None else (st.facts[k],):
                s2, e2 = st.copy(), dict(env)
                s2.facts[k] = w
                e2[i.id] = C(1 if w else 0)
                r.append((s2, e2))
            return r
        if b not in MODEL:
            return None
        kind, d, s, n, t = MODEL[b]
        (db, dp), (sb, sp) = P.ptr(i.o[d], env), P.ptr(i.o[s], env)
        n = P.val(i.o[n], env)
        T = P.val(i.o[t], env) if t is not None else None
        term, sz = self.content(P, st, sb, sp)
        if T is not None and isinstance(T, dict) and const(add(T, self.T, -1)) != 0:
            self.ctx.ob(False)
            self.ctx.fail("elsize:%s:%s" % (kind, i.loc()), "%s is called with the element size %s instead of the one of the call" % (b, show(T)), i.loc())
        if b == "stenos::block_compress_generic" and len(i.o) > 9:
            # transposed input handed over to the block coder
            v = P.val(i.o[9], env)
            if isinstance(v, tuple) and v[0] == "p" and v[1][0] != "null":
                tt = self.content(P, st, v[1], v[2])[0]
                ok = tt == ("shuffle", term)
                self.ctx.ob(ok)
                if not ok:
                    self.ctx.fail("pretr:%s" % tname(tt), "the block coder is handed %s as the transposition of %s" % (tname(tt), tname(term)), i.loc())
        if term != ("?",):
            self.size(P, i, st, b, term, sz, n)
            r = (kind, term)
        else:
            r = ("?",)
        res = sym(("v", i.id))
        size = res if kind in SIZED else n if kind != "unblock" else P.val(i.o[3], env)
        P.clobber(i, st, env, skip=(d, s))
        if db is not None:
            P.putrange(st, db, dp, r, size if isinstance(size, dict) else None)
        env.pop(i.id, None)
        if kind not in SIZED and kind != "unblock":
            return [(st, env)]
        # the call fails: what it wrote is not usable
        bad, e2 = st.copy(), dict(env)
        bad.facts[("err", fz(res))] = True
        if db is not None:
            P.putrange(bad, db, dp, ("failed", r), size if isinstance(size, dict) else None)
        st.facts[("err", fz(res))] = False
        return [(st, env), (bad, e2)]

    def size(self, P, i, st, b, term, sz, n):
        """the call must process all of the content"""
        if not isinstance(n, dict):
            return
        if self.enc:
            ok = sz is not None and const(add(n, sz, -1)) == 0
            if sz is None or term[0] == "failed":
                return
        else:
            want = [self.dsize]
            if sz is not None:
                want.append(sz)
            if term[0] == "pay":
                want = None
                bs = self.csize
                ok = const(add(n, bs, -1)) == 0 or self.equal(P, st, n, bs)
            else:
                ok = any(const(add(n, w, -1)) == 0 for w in want)
        self.ctx.ob(ok)
        if not ok:
            self.ctx.fail("len:%s:%s" % (b, i.loc()), "%s is given %s bytes, the data to transform (%s) has another length" % (b, show(n), tname(term)), i.loc())

    def equal(self, P, st, a, b):
        k, s, c = P.norm(add(a, b, -1))
        if k is None:
            return c == 0
        iv = st.facts.get(k)
        return iv is not None and iv[0] == iv[1] == -c * s

    def ret(self, P, t, st, env):
        v = P.val(t.o[0], env) if t.o else None
        if not isinstance(v, dict):
            return
        c = const(v)
        if c is not None and c < 0:
            self.cov["error_returns"] += 1
            return
        if self.enc:
            m = st.mem.get(("out",), {})
            tag = m.get(("b", fz({})))
            szb = [m.get(("b", fz(C(k)))) for k in (1, 2, 3)]
            pl = m.get(("r", fz(C(4))))
            self.out.setdefault((tag, repr(szb), pl[0] if pl else None), (tag, szb, pl, v, self.loc(m, t), st.trail))
        else:
            m = st.mem.get(("out",), {})
            pl = m.get(("r", fz({})))
            tagk = fz(sym(("cat", (("S", "frame", fz({})),))))
            iv = None
            for k, x in st.facts.items():
                if k == tagk:
                    iv = x
            self.out.setdefault((repr(iv), pl[0] if pl else None), (iv, pl, v, t.loc()))

    def loc(self, m, t):
        return t.loc()


def tname(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == "in":
        return "input"
    if t[0] == "pay":
        return "payload"
    if t[0] == "?":
        return "unknown bytes"
    return "%s(%s)" % (t[0], tname(t[1]))


def put(t, enc):
    """substitute the payload"""
    if t[0] == "pay":
        return enc if t[1] == fz(C(4)) else ("?",)
    if t[0] in ("?", "in"):
        return t
    return (t[0], put(t[1], enc))


def rewrite(t):
    if t[0] in ("in", "?", "pay"):
        return t
    a = rewrite(t[1])
    if t[0] in INV and a[0] == INV[t[0]]:
        return a[1]
    return (t[0], a)


def run(ctx):
    ctx.explanation = "tag and payload term of every compressing path composed with the decoder's term for this tag, rewritten to the input; size field and returned size tied to the payload"
    ctx.assumptions = ["each pair of transformations is inverse (byte transposition: C04; delta, block coder and zstd assumed)", "temporary buffers of a call are distinct (C19)"]
    cov = {"error_returns": 0, "encoder_paths": [], "decoder_paths": [], "undecided": [], "states": 0}
    raw = ctx.mod("x86-64", "lib-noinl", passes=PASSES)
    keep, model = keepset(raw, ctx)
    m = ctx.mod("x86-64", "lib-noinl", inline=True, keep="^(" + "|".join(re.escape(n) for n in sorted(keep)) + ")$", roots="^(%s)$" % "|".join(ROOTS),
                passes=PASSES)
    ef, df = ctx.need(m.F.get(ROOTS[0]), ROOTS[0]), ctx.need(m.F.get(ROOTS[1]), ROOTS[1])
    enc = Side(ctx, ef, True, cov, model)
    enc.T, enc.n = sym(("arg", 2)), sym(("arg", 4))
    P = Prov(ef, {0: ("ctx",), 1: ("in", "src"), 5: ("out",)}, call=enc.call, ret=enc.ret, sigs=raw.F)
    try:
        P.run()
    except Limit as e:
        cov["undecided"].append("encoder: %s" % e)
    cov["states"] += P.n
    dec = Side(ctx, df, False, cov, model)
    dec.T, dec.dsize, dec.csize = sym(("arg", 2)), sym(("arg", 6)), sym(("cat", tuple(("S", "frame", fz(C(k))) for k in (1, 2, 3))))
    D = Prov(df, {0: ("ctx",), 1: ("in", "frame"), 5: ("out",)}, call=dec.call, ret=dec.ret, sigs=raw.F)
    try:
        D.run()
    except Limit as e:
        cov["undecided"].append("decoder: %s" % e)
    cov["states"] += D.n
    # decoder table
    table = {}
    for (iv, pl, v, loc) in dec.out.values():
        if pl is None:
            if iv is None or iv[0] != iv[1]:
                ctx.fail("dec:none", "a path that decodes nothing returns success", loc)
                ctx.ob(False)
            else:
                table.setdefault(iv[0], []).append((("?",), loc))
            continue
        if iv is None or iv[0] != iv[1]:
            ctx.ob(False)
            ctx.fail("dec:anytag:%s" % tname(pl[0]), "a superblock is decoded (%s) without requiring one method byte" % tname(pl[0]), loc)
            continue
        table.setdefault(iv[0], []).append((pl[0], loc))
        cov["decoder_paths"].append("%d: %s" % (iv[0], tname(pl[0])))
    ctx.need(cov["undecided"] or table, "decoder paths")
    for (tag, szb, pl, v, loc, tr) in enc.out.values():
        term = pl[0] if pl else ("?",)
        name = tname(term)
        if tag is None or tag[0] != "c":
            ctx.ob(False)
            ctx.fail("enc:tag:%s" % name, "a path returns a superblock (payload: %s) without a constant method byte" % name, loc)
            continue
        cov["encoder_paths"].append("%d: %s" % (tag[1], name))
        # size field
        sz = dict(pl[1]) if pl and pl[1] is not None else None
        if sz is not None:
            ok = [x for x in szb] == [("B", fz(sz), k) for k in range(3)]
            ctx.ob(ok)
            if not ok:
                ctx.fail("enc:size:%d:%s" % (tag[1], name), "the size bytes of method %d are not the length of its payload (%s)" % (tag[1], name), loc)
            ok = const(add(add(v, sz, -1), C(-4))) == 0
            ctx.ob(ok)
            if not ok:
                ctx.fail("enc:ret:%d:%s" % (tag[1], name), "the compressed size returned for method %d (%s) is not the length of the payload plus 4" % (tag[1], name), loc)
        ds = table.get(tag[1])
        if not ds:
            ctx.ob(False)
            ctx.fail("enc:unknown:%d" % tag[1], "method byte %d is emitted (payload: %s) but the decoder does not accept it" % (tag[1], name), loc)
            continue
        for dt, dl in ds:
            r = rewrite(put(dt, term))
            ok = r == ("in",)
            ctx.ob(ok)
            if not ok:
                ctx.fail("pair:%d:%s:%s" % (tag[1], name, tname(dt)), "method %d: the encoder emits %s, the decoder applies %s: the result is %s" % (tag[1], name, tname(dt), tname(r)), loc)
    cov["encoder_paths"] = sorted(set(cov["encoder_paths"]))
    cov["decoder_paths"] = sorted(set(cov["decoder_paths"]))
    if not cov["undecided"]:
        ctx.need(len(cov["encoder_paths"]) >= 3, "encoder paths")
    ctx.cov.update(cov)
