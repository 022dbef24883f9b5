"""C02: frame and superblock headers are read as they were written.

Path-sensitive provenance (vlib/prov.py) of the header bytes.  Writers: the origin of each byte stored before the first superblock, and the superblock size used, on every
path.  Readers: the positions of the frame from which mode, decompressed size, superblock size and superblock header are taken, on every path.  Both are compared as terms:
the value a reader computes from the bytes of a writer is the value the writer put there."""
import re
from vlib.prov import C, add, mul, const, fz, show, sym, Prov, Limit, INF, quo
import C03

T, N = sym(("T",)), sym(("N",))
FRAME = "frame"


def closure(m):
    cal = {f.name: {i.callee for i in f.ins() if i.is_call and i.callee in m.F} for f in m.defined()}
    memo = {n: set(s) for n, s in cal.items()}
    ch = True
    while ch:
        ch = False
        for n, s in memo.items():
            k = len(s)
            for x in list(s):
                s |= memo.get(x, set())
            ch |= len(s) != k
    return cal, memo


def stage(m, names, ctx):
    """lowest function that uses all of these transformations"""
    cal, clo = closure(m)
    tr = {f.name for f in m.F.values() if C03.base(f.dem) in names}
    ctx.need(len({C03.base(m.F[n].dem) for n in tr}) == len(names), "transformations " + " ".join(names))
    has = [n for n in clo if len({C03.base(m.F[x].dem) for x in clo[n] & tr}) == len(names)]
    low = [n for n in has if not any(x in has for x in cal[n] if x != n)]
    ctx.need(len(low) == 1, "superblock function")
    return low[0]


def subst(p, s, q):
    """polynomial with symbol s replaced by polynomial q"""
    r = {}
    for m, c in dict(p).items():
        t = C(c)
        for x in m:
            t = mul(t, q if x == s else deep(x, s, q))
        r = add(r, t)
    return r


def deep(x, s, q):
    if x[0] == "op" and len(x) == 4:
        a, b = subst(x[2], s, q), subst(x[3], s, q)
        if x[1] == "shl" and const(b) is not None and 0 <= const(b) < 64:
            return mul(a, C(1 << const(b)))
        if x[1] == "udiv" and const(a) is not None and const(b):
            return C(const(a) // const(b))
        if x[1] == "udiv" and const(b) is None and len(b) == 1:
            return quo(a, b)
        return sym(("op", x[1], fz(a), fz(b)))
    return sym(x)


def S(*ks):
    return sym(("cat", tuple(("S", FRAME, fz(C(k))) for k in ks)))


def interval(st, p):
    c = const(p)
    if c is not None:
        return c, c, ()
    return st.facts.get(fz(p), (-INF, INF, ()))


def compatible(a, b, s, q):
    """facts of a and b, symbol s of b replaced by q, do not contradict each other"""
    st = a.copy()
    P = Prov.__new__(Prov)
    for k, v in b.facts.items():
        if not k or k[0] in ("null", "f", "err") or not isinstance(v, tuple) or len(v) != 3:
            continue
        p = subst(k, s, q)
        for lim, pr in ((v[0], "ge"), (v[1], "le")):
            if abs(lim) != INF and not P.assume(st, add(p, C(-lim)), pr):
                return False
        for n in v[2]:
            if not P.assume(st, add(p, C(-n)), "ne"):
                return False
    return True


def same(st, a, b):
    k, s, c = Prov.__new__(Prov).norm(add(a, b, -1))
    if k is None:
        return c == 0
    f = st.facts.get(k)
    return f is not None and f[0] == f[1] == -c * s


class Path:
    def __init__(self, st, loc, **kw):
        self.st, self.loc = st, loc
        self.__dict__.update(kw)


def header(st, base, end):
    m = st.mem.get(base, {})
    return [m.get(("b", fz(C(k)))) for k in range(end)]


def run(ctx):
    ctx.explanation = "origin of every header byte on every writing path compared with the positions, widths and formulas of every reading path"
    ctx.assumptions = ["little-endian build", "the exponent in byte 0 is below 256 (accepted by the readers up to 4)"]
    cov = {"writer_paths": 0, "reader_paths": 0, "undecided": [], "forms": set(), "block_reads": 0, "advances": 0}
    raw = ctx.mod("x86-64", "lib-noinl", passes=C03.PASSES)
    keep, model = C03.keepset(raw, ctx, deep=False)
    enc = stage(raw, {"stenos::shuffle", "stenos::delta", "stenos::block_compress_generic", "stenos::zstd_compress_with_context"}, ctx)
    dec = stage(raw, {"stenos::unshuffle", "stenos::delta_inv", "stenos::block_decompress_generic"}, ctx)
    keep = keep | {enc, dec}
    W, R1, R2, H = "stenos_compress_generic", "stenos_decompress_generic", "stenos_get_info", "stenos_private_create_compression_header"
    B1, B2, D = "stenos_private_block_size", "stenos_private_block_csize", "stenos_private_decompress_block"
    roots = (W, R1, R2, H, B1, B2, D)
    m = ctx.mod("x86-64", "lib-noinl", inline=True, keep="^(" + "|".join(re.escape(n) for n in sorted(keep - set(roots))) + ")$", roots="^(%s)$" % "|".join(roots), passes=C03.PASSES)
    for r in roots:
        ctx.need(m.F.get(r), r)

    def explore(name, base, vals, call=None, ret=None, back=None):
        P = Prov(m.F[name], base, vals, call=call, ret=ret, sigs=raw.F, once=True, cap=30000)
        P.prune = False
        P.hback = back
        try:
            P.run()
        except Limit as e:
            cov["undecided"].append("%s: %s" % (name, e))
        return P

    def bad(key, msg, loc):
        ctx.ob(False)
        ctx.fail(key, msg, loc)

    # ---- writers
    writers = []

    def wcall(P, i, st, env, cp):
        if i.callee == enc:
            b, o = P.ptr(i.o[4], env)
            sb = None
            writers.append(Path(st.copy(), i.loc(), pos=const(o) if b == ("out",) else None, T=P.val(i.o[2], env), who=W, stage=True, dsize=P.val(i.o[3], env), dst=P.ptr(i.o[1], env)))
            return []
        return None

    def wret(P, t, st, env):
        v = P.val(t.o[0], env)
        c = const(v) if isinstance(v, dict) else None
        if c is not None and c > 0:
            writers.append(Path(st.copy(), t.loc(), pos=c, T=T, who=W, stage=False))
    explore(W, {0: ("ctx",), 1: ("in", "src"), 4: ("out",)}, {2: T, 3: N, 5: sym(("CAP",))}, wcall, wret)
    ctx.need(cov["undecided"] or any(w.stage for w in writers), "first superblock of " + W)

    def hret(P, t, st, env):
        v = P.val(t.o[0], env)
        c = const(v) if isinstance(v, dict) else None
        if c is None or c > 0:
            writers.append(Path(st.copy(), t.loc(), pos=c, T=T, who=H, stage=True))
    explore(H, {2: ("out",)}, {0: N, 1: sym(("SB",)), 3: sym(("CAP",))}, None, hret)

    # ---- readers
    readers = []

    def rcall(P, i, st, env, cp):
        if i.callee == dec:
            ps, po = P.ptr(i.o[2], env)
            readers.append(Path(st.copy(), i.loc(), who=R1, pay=const(po) if ps == ("in", FRAME) else None, code=P.val(i.o[1], env), csize=P.val(i.o[4], env), dsize=P.val(i.o[6], env),
                                T=P.val(i.o[3], env), stage=True, v=None, dst=P.ptr(i.o[5], env)))
            return []
        return None

    def rret(P, t, st, env):
        v = P.val(t.o[0], env)
        if isinstance(v, dict) and const(v) is None:
            readers.append(Path(st.copy(), t.loc(), who=R1, stage=False, v=v))
    def rback(P, b, x, st, env, new):
        loc = b.term.loc()
        for k, v in new.items():
            if not (isinstance(v, tuple) and v[0] == "p") or const(v[2]) is not None:
                continue
            if v[1] == ("in", FRAME):
                readers.append(Path(st.copy(), loc, who=R1, stage=False, v=None, next=v[2]))
            elif v[1] == ("out",):
                readers.append(Path(st.copy(), loc, who=R1, stage=True, adv=True, dsize=v[2], dst=(("out",), {}), v=None))
    explore(R1, {0: ("ctx",), 1: ("in", FRAME), 4: ("out",)}, {2: T, 3: sym(("SIZE",)), 5: sym(("CAP",))}, rcall, rret, rback)

    def iret(P, t, st, env):
        v = P.val(t.o[0], env)
        c = const(v) if isinstance(v, dict) else None
        if c is not None and c < 0:
            return
        cells = {const(dict(k[1])): x for k, x in st.cells.items() if k[0] == ("info",)}
        readers.append(Path(st.copy(), t.loc(), who=R2, stage=False, v=v, info=cells))
    explore(R2, {0: ("in", FRAME), 3: ("info",)}, {1: T, 2: sym(("SIZE",))}, None, iret)
    ctx.need(cov["undecided"] or any(r.who == R2 for r in readers), R2)

    # fields of the information structure: decompressed size and superblock size, by their type's order
    mode = fz(S(0))
    forms = []          # (path, hdr length, superblock size term)
    seen = set()
    for r in readers:
        lo, hi, ne = interval(r.st, S(0))
        m255 = True if lo == hi == 255 else False if (hi < 255 or lo > 255 or 255 in ne) else None
        if getattr(r, "next", None) is not None:
            n = 12 if m255 else 8
            cov["advances"] += 1
            ok = fz(r.next) == fz(add(S(n + 1, n + 2, n + 3), C(n + 4)))
            ctx.ob(ok)
            if not ok:
                ctx.fail("r:next:%d" % n, "%s looks for the second superblock at another position than the end of the first one" % r.who, r.loc)
            continue
        if getattr(r, "adv", False):
            so = sboff(readers, R1)
            sb = [x for c, x in r.st.cells.items() if c[0] == ("ctx",) and c[1] == so and isinstance(x, dict)]
            cov["advances"] += 1
            if sb:
                check_last(ctx, r, sb, cov, S(1, 2, 3, 4, 5, 6, 7), "decoded")
            continue
        if r.who == R2:
            sb, D7, hl = r.info.get(8), r.info.get(0), r.v
        elif r.stage:
            sb = None
            k = [(c, x) for c, x in r.st.cells.items() if c[0] == ("ctx",)]
            so = sboff(readers, R1)
            sb = [x for c, x in k if c[1] == so and isinstance(x, dict)] if so is not None else [x for c, x in k if isinstance(x, dict) and x and (fz(x) == fz(S(8, 9, 10, 11)) or "shl" in repr(x) or any("T" in repr(mm) for mm in x))]
            D7, hl = None, None if r.pay is None else C(r.pay - 4)
        else:
            continue
        cov["reader_paths"] += 1
        key = (r.who, m255, repr(sb), repr(hl), repr(D7), repr(sorted(r.st.facts.items(), key=repr)))
        if key in seen:
            continue
        seen.add(key)
        if m255 is None:
            bad("r:mode:%s" % r.who, "%s accepts a frame without deciding whether its mode byte is 255 (superblock size present)" % r.who, r.loc)
            continue
        n = 12 if m255 else 8
        ok = isinstance(hl, dict) and const(hl) == n
        ctx.ob(ok)
        if not ok:
            ctx.fail("r:len:%s:%d" % (r.who, n), "%s takes the first superblock header from byte %s, it is written at byte %d when the mode byte is %s255" % (
                r.who, show(hl) if isinstance(hl, dict) else "?", n, "" if m255 else "not "), r.loc)
        if r.who == R2:
            ok = isinstance(D7, dict) and fz(D7) == fz(S(1, 2, 3, 4, 5, 6, 7))
            ctx.ob(ok)
            if not ok:
                ctx.fail("r:size:%s" % r.who, "%s does not take the decompressed size from bytes 1 to 7 of the frame" % r.who, r.loc)
            if not isinstance(sb, dict):
                bad("r:sb:%s" % r.who, "%s returns success without a superblock size computed from the frame" % r.who, r.loc)
                continue
            sbs = [sb]
        else:
            # superblock header
            for what, v, w in (("method byte", r.code, S(n)), ("payload size", r.csize, S(n + 1, n + 2, n + 3))):
                ok = isinstance(v, dict) and fz(v) == fz(w)
                ctx.ob(ok)
                if not ok:
                    ctx.fail("r:blk:%s:%d" % (what, n), "%s takes the %s of the first superblock from other bytes than the ones it is written to" % (r.who, what), r.loc)
            ok = isinstance(r.T, dict) and fz(r.T) == fz(T)
            ctx.ob(ok)
            if not ok:
                ctx.fail("r:T", "the superblock is decoded with another element size than the caller's", r.loc)
            sbs = sb
            if not sbs:
                bad("r:sb:%s" % r.who, "%s does not set the superblock size from the frame before it decodes" % r.who, r.loc)
                continue
        if m255:
            ok = all(fz(x) == fz(S(8, 9, 10, 11)) for x in sbs)
            ctx.ob(ok)
            if not ok:
                ctx.fail("r:sb255:%s" % r.who, "%s: the superblock size of a frame with mode byte 255 is not the one of bytes 8 to 11" % r.who, r.loc)
        else:
            for x in sbs:
                forms.append((r, x))
        # true size of the last superblock
        if r.who == R1:
            check_last(ctx, r, sbs, cov, S(1, 2, 3, 4, 5, 6, 7), "decoded")
    # decompression returns the size of bytes 1..7
    for r in readers:
        if r.who == R1 and not r.stage and r.v is not None:
            ok = fz(r.v) == fz(S(1, 2, 3, 4, 5, 6, 7)) or "err" in repr(r.v)
            if ok or any(x[0] in ("v", "op", "ld") for mm in r.v for x in mm):
                continue
            bad("r:ret", "%s returns a size that is not the one of bytes 1 to 7 of the frame" % R1, r.loc)
    # ---- writers against readers
    seen = set()
    for w in writers:
        cov["writer_paths"] += 1
        hb = header(w.st, ("out",), 13)
        b0 = hb[0]
        sbc = [x for c, x in w.st.cells.items() if c[0] == ("ctx",) and c[1] == sboff(readers, R1)]
        key = (w.who, repr(hb), repr(sbc), w.pos, repr(sorted(w.st.facts.items(), key=repr)))
        if key in seen:
            continue
        seen.add(key)
        if b0 is None or b0[0] not in ("c", "B"):
            bad("w:mode:%s" % w.who, "%s reaches the first superblock without a mode byte in front" % w.who, w.loc)
            continue
        tag = C(b0[1]) if b0[0] == "c" else dict(b0[1])
        if b0[0] == "B" and b0[2] != 0:
            bad("w:mode:%s" % w.who, "%s does not write the low byte of the mode first" % w.who, w.loc)
            continue
        lo, hi, ne = interval(w.st, tag)
        k, s, c0 = Prov.__new__(Prov).norm(tag)
        if k is not None:
            f = w.st.facts.get(k)
            if f:
                ends = sorted((f[0] * s + c0, f[1] * s + c0))
                lo, hi, ne = ends[0], ends[1], tuple(x * s + c0 for x in f[2])
        m255 = True if lo == hi == 255 else False if (hi < 255 or lo > 255 or 255 in ne) else None
        if m255 is None:
            bad("w:anymode:%s" % w.who, "%s chooses the form of the header without testing the mode byte it writes" % w.who, w.loc)
            continue
        want = [("B", fz(N), j) for j in range(7)]
        ok = hb[1:8] == want
        ctx.ob(ok)
        if not ok:
            ctx.fail("w:size:%s" % w.who, "%s does not write the decompressed size to bytes 1 to 7" % w.who, w.loc)
        n = 12 if m255 else 8
        ok = w.pos == n
        ctx.ob(ok)
        if not ok:
            ctx.fail("w:pos:%s:%d" % (w.who, n), "%s continues the frame at byte %s after a header of %d bytes (mode byte %s255)" % (w.who, w.pos, n, "" if m255 else "not "), w.loc)
        if w.who == H:
            sbc = [sym(("SB",))]
        elif not sbc or not isinstance(sbc[0], dict):
            bad("w:sb", "%s compresses with an unknown superblock size" % w.who, w.loc)
            continue
        V = sbc[0]
        if w.who == W and w.stage:
            check_last(ctx, w, [V], cov, N, "compressed")
            ok = isinstance(w.T, dict) and fz(w.T) == fz(T)
            ctx.ob(ok)
            if not ok:
                ctx.fail("w:T", "the superblock is compressed with another element size than the caller's", w.loc)
        if m255:
            ok = hb[8:12] == [("B", fz(V), j) for j in range(4)] or const(V) is not None and hb[8:12] == [("c", (const(V) >> (8 * j)) & 255) for j in range(4)]
            ctx.ob(ok)
            cov["forms"].add("%s: 255 + size" % w.who)
            if not ok:
                ctx.fail("w:sbsize:%s" % w.who, "%s does not write the superblock size it uses (%s) to bytes 8 to 11 although the mode byte is 255" % (w.who, show(V)), w.loc)
            continue
        if not w.stage:
            continue
        hit = False
        for r, x in forms:
            ss = ("cat", (("S", FRAME, fz(C(0))),))
            if not compatible(w.st, r.st, ss, tag):
                continue
            hit = True
            e = subst(x, ss, tag)
            ok = same(w.st, e, V)
            ctx.ob(ok)
            cov["forms"].add("%s: mode %s, %s" % (w.who, show(tag), r.who))
            if not ok:
                ctx.fail("sb:%s:%s" % (r.who, show(tag)), "for a frame written with mode byte %s the superblock size is %s, %s computes %s" % (show(tag), show(V), r.who, show(e)), w.loc)
        if not hit and not cov["undecided"]:
            bad("sb:none:%s" % show(tag), "no reader accepts the mode byte %s written here" % show(tag), w.loc)

    # ---- block-level readers
    def bret(name, want, P, t, st, env):
        v = P.val(t.o[0], env)
        if not isinstance(v, dict):
            return
        c = const(v)
        if c is not None and c <= 0:
            return
        cov["block_reads"] += 1
        ok = fz(v) == fz(add(S(1, 2, 3), C(4)))
        ctx.ob(ok)
        if not ok:
            ctx.fail("blk:%s" % name, "%s does not return the size of bytes 1 to 3 of the superblock plus 4" % name, t.loc())
    explore(B1, {0: ("in", FRAME)}, {1: sym(("SIZE",))}, None, lambda *a: bret(B1, None, *a))
    explore(B2, {0: ("in", FRAME)}, {}, None, lambda *a: bret(B2, None, *a))

    def dcall(P, i, st, env, cp):
        if i.callee != dec:
            return None
        cov["block_reads"] += 1
        ps, po = P.ptr(i.o[2], env)
        for what, ok in (("method byte", fz(P.val(i.o[1], env)) == fz(S(0))), ("payload size", fz(P.val(i.o[4], env)) == fz(S(1, 2, 3))), ("payload", ps == ("in", FRAME) and const(po) == 4)):
            ctx.ob(ok)
            if not ok:
                ctx.fail("blkdec:%s" % what, "%s takes the %s of the superblock from another position" % (D, what), i.loc())
        return []
    explore(D, {0: ("ctx",), 1: ("in", FRAME), 5: ("out",)}, {2: T, 3: sym(("SB",)), 4: sym(("SIZE",)), 6: sym(("CAP",))}, dcall, None)
    ctx.need(cov["undecided"] or cov["block_reads"] >= 3, "block-level readers")
    cov["forms"] = sorted(cov["forms"])
    ctx.cov.update(cov)


def sboff(readers, who):
    for r in readers:
        if r.who == who and r.stage:
            for c, x in r.st.cells.items():
                if c[0] == ("ctx",) and isinstance(x, dict) and fz(x) == fz(S(8, 9, 10, 11)):
                    return c[1]
    return None


def rng(st, p):
    """interval of a polynomial under the facts"""
    k, s, c = Prov.__new__(Prov).norm(p)
    if k is None:
        return c, c, ()
    f = st.facts.get(k)
    if f is None:
        return -INF, INF, ()
    e = sorted((f[0] * s + c, f[1] * s + c))
    return e[0], e[1], tuple(x * s + c for x in f[2])


def known(p):
    """only fields of the frame, parameters and arithmetic"""
    def k1(s):
        if s[0] == "op":
            return s[1] in ("udiv", "urem", "shl", "min", "max") and all(known(dict(x)) for x in s[2:])
        return s[0] in ("T", "N", "cat", "SIZE", "CAP", "tr")
    return all(k1(s) for m in p for s in m)


def check_last(ctx, r, sbs, cov, D7, verb):
    """size of the first superblock: the smaller one of superblock size and decompressed size"""
    if r.dst[0] not in (("out",), ("in", "src")) or const(r.dst[1]) != 0:
        return
    v = r.dsize
    if not isinstance(v, dict):
        return
    for sb in sbs:
        if len(sb) != 1 or const(sb) is not None:
            q, q1 = sym(("op", "udiv", fz(D7), fz(sb))), sym(("op", "udiv", fz(add(D7, C(-1))), fz(sb)))
            rem = sym(("op", "urem", fz(D7), fz(sb)))
        else:
            q, q1 = quo(D7, sb), quo(add(D7, C(-1)), sb)
            rem = add(D7, mul(sb, q), -1)
        q1l, q1h, q1n = rng(r.st, q1)
        rl, rh, rn = rng(r.st, rem)
        ql, qh, qn = rng(r.st, q)
        dl, dh, dn = rng(r.st, add(D7, sb, -1))
        remz, remnz = rl == rh == 0, 0 in rn or rl > 0
        small = qh <= 0 or dh <= 0 or q1h <= 0      # everything in one superblock
        full = ql >= 1 or 0 in qn or dl >= 0 or remz or q1l >= 1 or 0 in q1n
        if same(r.st, v, sb):
            ok, why = full or const(add(v, D7, -1)) == 0, "with the superblock size although nothing shows that the decompressed size reaches it"
        elif same(r.st, v, D7):
            ok, why = small or (qh <= 1 and remz), "with the whole decompressed size although it may be larger than a superblock"
        elif same(r.st, v, rem):
            ok, why = small and remnz, "with the remainder of the decompressed size although %s" % ("the remainder may be zero" if not remnz else "it may not be the last one")
        elif fz(v) == fz(sym(("op", "min") + tuple(sorted((fz(D7), fz(sb)), key=repr)))):
            ok = True
        elif not known(v):
            cov["undecided"].append("size of the first superblock: %s" % show(v))
            continue
        else:
            ok, why = False, "with the size %s: neither the superblock size nor what is left of the decompressed size" % show(v)
        ctx.ob(ok)
        if not ok:
            ctx.fail("last:%s:%s" % (verb, why[:60]), "the first superblock is %s " % verb + why, r.loc)
