"""C32: internal work memory is large enough for what is put into it.

For every buffer the library allocates for itself: the size that is requested, and the end of every access through a pointer derived from it, as polynomials over the
element size, the superblock size and the other parameters (LLVM scalar evolution: induction variables are replaced by their value in the last iteration).  Their
difference must not be negative for any element size.  Functions that hand out memory are checked against the size they are asked for, the thread-local cache included.
Buffers that survive the call must be sized by the superblock size of the context, not by the size of one payload."""
import re
from fractions import Fraction
import C02, C03
from vlib.prov import Prov, Limit, add, const, fz, sym, C, INF

PASSES = ("function(sroa,early-cse,simplifycfg,sroa,early-cse,loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),simplifycfg,sroa,"
          "instcombine<no-verify-fixpoint>,early-cse,loop-simplify,lcssa)")
# (pointer, length) arguments of the transformations
REGIONS = {"stenos::shuffle": [(3, 1), (2, 1)], "stenos::unshuffle": [(3, 1), (2, 1)], "stenos::delta": [(0, 2), (1, 2)], "stenos::delta_inv": [(0, 2), (1, 2)],
           "stenos::block_compress_generic": [(0, 2), (3, 4)], "stenos::block_decompress_generic": [(0, 1), (4, 3)], "stenos::zstd_compress_with_context": [(0, 1), (2, 3)],
           "ZSTD_decompress": [(0, 1), (2, 3)], "ZSTD_compress": [(0, 1), (2, 3)], "ZSTD_compressCCtx": [(1, 2), (3, 4)], "ZSTD_compress2": [(1, 2), (3, 4)], "ZSTD_decompressDCtx": [(1, 2), (3, 4)]}
PRIM = ("malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t")


def P(l):
    return None if l is None else {k: c for k, c in l}


def plus(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
        if not r[x]:
            del r[x]
    return r


def text(p, names):
    if not p:
        return "0"
    def name(x):
        t = TERMS.get(x)
        if t is None:
            return names.get(x, x)
        if t[0] == "q":
            return "(%s)/%s" % (text(P(t[2]), names), t[1])
        return "%s(%s)" % ({"m": "min", "M": "max"}.get(t[0], t[0]), ", ".join(text(P(q), names) for q in t[2:]))
    def one(m):
        return "*".join(name(x) for x in m.split("*"))
    return " + ".join(str(c) if not m else one(m) if c == 1 else "%d*%s" % (c, one(m)) for m, c in sorted(p.items(), key=lambda x: (x[0] == "", x[0]))).replace("+ -", "- ")


def opaque(p):
    return any(x[0] in "v#" or "(v" in x or x[0] == "?" or x.startswith("ld#") for m in p if m for x in m.split("*"))


TERMS = {}          # quotients and minima of the function at hand


def sign(d, depth=0):
    """True: never negative for parameters >= 1; False: negative for some; None: not known"""
    for m, c in d.items():
        x = m
        if not x.startswith("#") or "*" in x or x not in TERMS or depth > 4:
            continue
        t = TERMS[x]
        rest = {k: v for k, v in d.items() if k != m}
        if t[0] == "q":
            # x/c - (c-1)/c <= floor(x/c) <= x/c
            low = plus(P(t[2]), {"": 1 - t[1]}) if c > 0 else P(t[2])
            return sign(plus(rest, {k: Fraction(v) * c / t[1] for k, v in low.items()}), depth + 1)
        r = [sign(plus(rest, {k: v * c for k, v in P(p).items()}), depth + 1) for p in t[2:]]
        if c > 0:
            return True if all(x is True for x in r) else False if False in r else None
        return True if True in r else False if all(x is False for x in r) else None
    if all(c >= 0 for m, c in d.items() if m) and sum(d.values()) >= 0:
        return True
    return None if opaque(d) else False


def run(ctx):
    ctx.explanation = "size of every internal buffer compared with the end of every access through it, as polynomials over the parameters"
    ctx.assumptions = ["allocations are aligned on 16 bytes", "the size of a superblock does not exceed the superblock size of the context (C02 checks the first one)",
                       "a transformation stays inside the region it is given (C04 for the transpositions)", "sizes do not wrap around"]
    cov = {"functions": set(), "accesses": 0, "undecided": 0, "allocations": 0, "allocators": {}}
    for march in ("nehalem", "haswell"):
        analyse(ctx, march, cov)
    ctx.need(cov["accesses"] >= 100, "accesses to internal buffers")
    cov["functions"] = sorted(cov["functions"])
    ctx.cov.update(cov)


def allocators(raw):
    """functions of the library that return a pointer to memory of a requested size: they take integers only and reach an allocation"""
    cal = {f.name: {i.callee for i in f.ins() if i.is_call and i.callee} for f in raw.defined()}
    R = set(PRIM)       # reach an allocation, through helpers too
    ch = True
    while ch:
        new = {n for n, c in cal.items() if n not in R and c & R and raw.F[n].dem.startswith("stenos::")}
        R |= new
        ch = bool(new)
    A = set()
    for f in raw.defined():
        ts = [a["t"] for a in f.d["args"]]
        if f.name in R and f.d.get("rt") == "ptr" and ts and all(re.match(r"i(32|64)$", t) for t in ts) and f.dem.startswith("stenos::"):
            A.add(f.name)
    return A


def analyse(ctx, march, cov):
    raw = ctx.mod(march, "lib-noinl", passes=C03.PASSES)
    A = allocators(raw)
    ctx.need(A, "allocating functions")
    keep, model = C03.keepset(raw, ctx, deep=False)
    enc = C02.stage(raw, {"stenos::shuffle", "stenos::delta", "stenos::block_compress_generic", "stenos::zstd_compress_with_context"}, ctx)
    dec = C02.stage(raw, {"stenos::unshuffle", "stenos::delta_inv", "stenos::block_decompress_generic"}, ctx)
    users = {f.name for f in raw.defined() for i in f.ins() if i.is_call and i.callee in (enc, dec)}
    coder = {n for n in model if C03.base(raw.F[n].dem) in ("stenos::block_compress_generic", "stenos::block_decompress_generic")}
    reg = []
    for n, b in list(model.items()):
        reg += [(n, p, q) for p, q in REGIONS.get(b, ())]
    reg += [(n, p, q) for n in REGIONS if n.startswith("ZSTD") for p, q in REGIONS[n]]
    reg += [(enc, 1, 3), (enc, 4, 5)]
    A1 = "^(" + "|".join(map(re.escape, sorted(A) + list(PRIM))) + ")$"
    # superblock functions and their callers
    k1 = {k for k in keep | {enc, dec} | users | A if not (raw.F[k].dem.startswith("std::vector<") and "operator[]" in raw.F[k].dem)}
    r1 = {enc, dec} | users | A
    pat = lambda s: "^(" + "|".join(map(re.escape, sorted(s))) + ")$"
    m1 = ctx.mod(march, "lib-noinl", inline=True, keep=pat(k1), roots=pat(r1), passes=PASSES, extents=A1, extmodel=tuple(sorted(set(reg))))
    # the block coder, inlined down to the transpositions
    k2 = {n for n in model} | A | {f.name for f in raw.defined() if not f.dem.startswith(("stenos::", "std::min", "std::max")) or re.search("FindCLevel|lz_compress|cpu_features", f.dem)}
    m2 = ctx.mod(march, "lib-noinl", inline=True, keep=pat(k2), roots=pat(coder), passes=PASSES, extents=A1, extmodel=tuple(sorted(set(reg))))
    contract = {p: (0, {None: {"a0": 1}}) for p in PRIM}
    # allocators, callees first
    todo = sorted(A)
    while todo:
        n = next((x for x in todo if not ({i.callee for i in m1.F[x].ins() if i.is_call} & (set(todo) - {x}))), todo[0])
        todo.remove(n)
        contract[n] = allocator(ctx, m1.F[n], contract, cov)
    for m, fs in ((m1, {enc, dec} | users), (m2, coder)):
        for n in sorted(fs):
            ctx.need(m.F.get(n), n)
            function(ctx, m.F[n], contract, cov)


def terms(f):
    TERMS.clear()
    TERMS.update(f.d.get("extt") or {})


def inner(f, contract):
    """allocation id -> {member offset: size that can be used}"""
    ids = {i.id: i for i in f.ins()}
    r = {}
    for a in f.d.get("exta") or ():
        i = ids.get(a["i"])
        if i is None or i.callee not in contract:
            continue
        arg, caps = contract[i.callee]
        p = P(a["args"][arg]) if arg < len(a["args"]) else None
        if p is None:
            r[a["i"]] = (i, {}, a.get("kept") or [])
            continue
        r[a["i"]] = (i, {k: plus(c, plus(p, {"a0": 1}, -1)) for k, c in caps.items() if c is not None}, a.get("kept") or [])
    return r


def allocator(ctx, f, contract, cov):
    """what a caller may use of the memory this function returns; checked to be what it asks for"""
    cov["functions"].add(f.name)
    terms(f)
    al = inner(f, contract)
    # parameter that is the size: the one the inner sizes grow with
    n = {}
    for i, caps, kept in al.values():
        for c in caps.values():
            for m, k in c.items():
                if re.match(r"a\d+$", m) and k == 1:
                    n[m] = n.get(m, 0) + 1
    size = sorted(n, key=lambda x: (-n[x], x))[0] if n else "a0"
    arg = int(size[1:])
    want = {size: 1}
    rets, ptrs = [], []
    ids = {i.id: i for i in f.ins()}
    for a in f.d.get("ext") or ():
        if a["what"] == "ret" and "base" in a:
            rets.append(a)
        elif a["what"].startswith("ptr:") and "base" in a:
            ptrs.append(a)
    members = {}
    for a in ptrs:
        _, o, off = a["what"].split(":")
        if int(o) == a["base"] and a["base"] in al and al[a["base"]][1].get(None) is not None:
            members[int(off)] = (plus(plus(al[a["base"]][1][None], P(a["hi"]), -1), {"": a["slack"]}, -1), ids[a["i"]].loc())
    direct = [(plus(plus(al[a["base"]][1][None], P(a["hi"]), -1), {"": a["slack"]}, -1), ids[a["i"]].loc()) for a in rets
              if a["base"] in al and al[a["base"]][1].get(None) is not None]
    name = re.sub(r"\(.*", "", f.dem)
    caps = {}
    if members:
        # an object with its buffer behind it
        for off, (c, loc) in members.items():
            judge(ctx, cov, f, "alloc:%s:%d" % (name, off), c, want, loc, "%s: the buffer it returns" % name)
            caps[off] = {"a0": 1}
    elif direct:
        for c, loc in direct:
            judge(ctx, cov, f, "alloc:%s" % name, c, want, loc, "%s: the memory it returns" % name)
        caps[None] = {"a0": 1}
    else:
        cached(ctx, f, al, arg, name, cov)
        caps[None] = {"a0": 1}
    cov["allocators"][name] = "size parameter %d%s" % (arg, "" if not members else ", buffer in member at %s" % sorted(members))
    return arg, caps


def judge(ctx, cov, f, key, have, need, loc, what):
    d = plus(have, need, -1)
    s = sign(d)
    if s is None:
        cov["undecided"] += 1
        return
    names = {"a%d" % k: a["n"] or "a%d" % k for k, a in enumerate(f.d["args"])}
    ctx.ob(s)
    cov["accesses"] += 1
    if not s:
        ctx.fail(key, "%s has %s bytes, %s are used (in %s)" % (what, text(have, names), text(need, names), re.sub(r"\(.*", "", f.dem)), loc)


def cached(ctx, f, al, arg, name, cov):
    """memory kept between calls: what is returned is at least as large as what is asked for"""
    A0 = sym(("SIZE",))
    sizes = {}

    def call(p, i, st, env, cp):
        if i.id in al:
            v = p.val(i.o[al_arg(al, i)], env)
            sizes[i.id] = v
            env[i.id] = ("p", ("call", i.id), {})
            return [(st, env)]
        return None

    def al_arg(al, i):
        return 0

    def ret(p, t, st, env):
        v = p.val(t.o[0], env) if t.o else None
        if not (isinstance(v, tuple) and v[0] == "p"):
            return
        loc = t.loc()
        if v[1][0] == "null":
            return
        nul = st.facts.get(("null", v[1]))
        if nul is True:
            return
        for (b, o), x in st.cells.items():
            # size recorded with a pointer that was just allocated
            if isinstance(x, tuple) and x[0] == "p" and x[1][0] == "call" and x[1][1] in sizes and st.facts.get(("null", x[1])) is not True:
                for (b2, o2), y in st.cells.items():
                    if b2 == b and isinstance(y, dict) and o2 != o and y and any(s[0] == "SIZE" for m in y for s in m):
                        d = add(sizes[x[1][1]], y, -1)
                        c = const(d)
                        cov["accesses"] += 1
                        ctx.ob(c is None or c >= 0)
                        if c is not None and c < 0:
                            ctx.fail("cache:%s" % name, "%s records %d bytes more than it allocates: later calls reuse the buffer for too much" % (name, -c), loc)
        if v[1][0] == "call" and v[1][1] in sizes and not v[2]:
            c = const(add(sizes[v[1][1]], A0, -1))
            cov["accesses"] += 1
            ctx.ob(c is None or c >= 0)
            if c is not None and c < 0:
                ctx.fail("alloc:%s" % name, "%s allocates %d bytes less than it is asked for" % (name, -c), loc)
            return
        if v[1][0] == "ld":
            # kept from an earlier call: some recorded size was found sufficient
            best = None
            for k, x in st.facts.items():
                if len(k) == 2 and isinstance(k[0], tuple) and isinstance(x, tuple) and len(x) == 3:
                    d = dict(k)
                    s = [m for m in d if len(m) == 1 and m[0][0] == "SIZE"]
                    l = [m for m in d if len(m) == 1 and m[0][0] == "ld"]
                    if s and l and d[s[0]] == -d[l[0]] and abs(d[s[0]]) == 1:
                        lo = x[0] if d[l[0]] == 1 else -x[1]
                        best = lo if best is None else max(best, lo)
            cov["accesses"] += 1
            ok = best is not None and best >= 0
            ctx.ob(ok)
            if not ok:
                ctx.fail("reuse:%s" % name, "%s returns the buffer of an earlier call without having found it large enough" % name, loc)
    pr = Prov(f, {}, {arg: A0}, call=call, ret=ret)
    pr.prune = False
    try:
        pr.run()
    except Limit:
        cov["undecided"] += 1


def function(ctx, f, contract, cov):
    cov["functions"].add(f.name)
    terms(f)
    ids = {i.id: i for i in f.ins()}
    al = inner(f, contract)
    cov["allocations"] += len(al)
    cov["undecided"] += f.d.get("extu") or 0
    short = re.sub(r"\(.*", "", f.dem)
    kept = {}
    for k, (i, caps, where) in al.items():
        for w in where:
            kept.setdefault(w, []).append(k)
    escapes = set()
    for k, (i, caps, where) in al.items():
        if where or any(u.op == "store" and u.o[0][:2] == ["i", k] or u.op == "store" and tuple(u.o[0][:2]) == ("i", k) for u in f.ins()):
            escapes.add(k)
    for a in f.d.get("ext") or ():
        i = ids.get(a["i"])
        if i is None or a["what"] == "ret" or a["what"].startswith("ptr:"):
            continue
        if "base" in a:
            srcs, moff = [a["base"]], None
        else:
            moff = a["moff"]
            srcs = [int(x[1:]) for x in a["alts"] if x[0] == "c"]
            for x in a["alts"]:
                srcs += kept.get(x, [])
        hi = plus(P(a["hi"]), {"": a["slack"]})
        for k in sorted(set(srcs)):
            if k not in al:
                continue
            cap = al[k][1].get(moff)
            if cap is None:
                continue
            need = hi
            if moff is not None or k in escapes:
                # the buffer outlives the call: payload sizes are bounded by the superblock size only
                fld = [m for m in flat(cap) if m.startswith("ld(") and "*" not in m]
                names = {"a%d" % j: x["n"] for j, x in enumerate(f.d["args"])}
                if any(re.match(r"a\d+$", x) for m in flat(cap) for x in m.split("*")):
                    ctx.ob(False)
                    ctx.fail("sized:%s:%s" % (short, i_dst(a)), "%s keeps a buffer of %s bytes, the size of this payload; the next one may be larger" % (short, text(cap, names)), al[k][0].loc())
                    continue
                if len(fld) == 1:
                    need = {}
                    for m, c in hi.items():
                        need[fld[0] if re.match(r"a\d+$", m) else m] = need.get(fld[0] if re.match(r"a\d+$", m) else m, 0) + c
            if a["cond"] and sign(plus(cap, need, -1)) is not True:
                cov["undecided"] += 1       # behind a test of the index
                continue
            judge(ctx, cov, f, "end:%s:%s:%s" % (short, i_dst(a), text(cap, {})), cap, need, i.loc(), "the buffer of %s" % al[k][0].loc())


def flat(p):
    """symbols of a polynomial, those of quotients and minima included"""
    r = set()
    for m in p:
        if m in TERMS:
            for q in TERMS[m][2:]:
                r |= flat(P(q))
        elif m:
            r.add(m)
    return r


def i_dst(a):
    return a["what"][:40]
