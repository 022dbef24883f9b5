"""Must-facts: atomic comparisons known to hold on entry of each block, from the branches every path has taken.

An atom is (pred, a, b) with pred in eq ne ult ule ugt uge slt sle sgt sge (fcmp predicates are kept as is), operands as exported.
"""
NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule", "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
CASTS = ("bitcast", "freeze", "zext", "sext", "ptrtoint", "inttoptr", "addrspacecast")


def tup(o):
    return tuple(tup(x) if isinstance(x, list) else x for x in o)


def cval(o):
    """integer constant value or None"""
    if o[0] == "c":
        return int(o[1])
    if o[0] == "n":
        return 0
    return None


def strip(f, o, ops=("bitcast", "freeze", "addrspacecast")):
    while o[0] == "i":
        i = f.instrs[o[1]]
        if i.op in ops:
            o = i.o[0]
        elif i.is_call and i.callee and (i.callee.startswith("llvm.expect") or i.callee.startswith("llvm.launder") or i.callee.startswith("llvm.strip")):
            o = i.o[0]
        else:
            break
    return o


class Facts:
    def __init__(self, f, edge_extra=None):
        """edge_extra(block, succ) -> iterable of additional atoms holding on that edge"""
        self.f = f
        self.extra = edge_extra
        self.IN = {}
        self.run()

    # atoms implied by value `o` being `truth`
    def atoms(self, o, truth, depth=0):
        f = self.f
        o = strip(f, o)
        r = {("true" if truth else "false", tup(o), None)}
        if o[0] != "i" or depth > 12:
            return r
        i = f.instrs[o[1]]
        if i.op == "icmp":
            p = i.pred
            a, b = i.o[0], i.o[1]
            if not truth:
                p = NEG[p]
            r.add((p, tup(strip(f, a)), tup(strip(f, b))))
            # (zext/expect bool) compared with 0 / 1
            cb = cval(b)
            if cb is not None and p in ("eq", "ne"):
                s = strip(f, a, CASTS)
                if s[0] == "i" and self._isbool(f.instrs[s[1]]):
                    if cb == 0:
                        r |= self.atoms(s, p == "ne", depth + 1)
                    elif cb == 1:
                        r |= self.atoms(s, p == "eq", depth + 1)
        elif i.op == "xor" and cval(i.o[1]) in (1, -1) and self._isbool(i):
            r |= self.atoms(i.o[0], not truth, depth + 1)
        elif (i.op == "and" and truth or i.op == "or" and not truth) and self._isbool(i):
            r |= self.atoms(i.o[0], truth, depth + 1) | self.atoms(i.o[1], truth, depth + 1)
        elif i.op == "select" and self._isbool(i):
            c, a, b = i.o
            ca, cb = cval(a), cval(b)
            if ca is not None and bool(ca) != truth:
                r |= self.atoms(c, False, depth + 1) | self.atoms(b, truth, depth + 1)
            elif cb is not None and bool(cb) != truth:
                r |= self.atoms(c, True, depth + 1) | self.atoms(a, truth, depth + 1)
        elif i.op in ("zext", "trunc", "sext"):
            r |= self.atoms(i.o[0], truth, depth + 1)
        elif i.op == "phi" and self._isbool(i):
            acc = None
            for v, bi in zip(i.o, i.d["inb"]):
                c = cval(v)
                if c is not None and bool(c) != truth:
                    continue
                e = self.edge(self.f.blocks[bi], i.bb)
                if e is None:
                    continue
                e = set(e)
                if c is None:
                    e |= self.atoms(v, truth, depth + 1)
                acc = e if acc is None else acc & e
            if acc:
                r |= acc
        return r

    def _isbool(self, i):
        return i.t == "i1" or i.op in ("icmp", "fcmp")

    def edge(self, b, s):
        """facts on the edge b -> s, None when unreachable so far"""
        x = self.IN.get(b.i)
        if x is None:
            return None
        x = set(x)
        t = b.term
        if t.op == "br" and t.o and len(t.d["succ"]) == 2 and t.d["succ"][0] != t.d["succ"][1]:
            x |= self.atoms(t.o[0], s.i == t.d["succ"][0])
        elif t.op == "switch":
            vals = [c[0] for c in t.d["cases"] if c[1] == s.i]
            k = tup(strip(self.f, t.o[0]))
            if len(vals) == 1 and t.d["def"] != s.i:
                x.add(("eq", k, ("c", vals[0])))
            elif t.d["def"] == s.i and not vals:
                for c in t.d["cases"]:
                    x.add(("ne", k, ("c", c[0])))
        if self.extra:
            x |= set(self.extra(b, s))
        return x

    def run(self):
        f = self.f
        self.IN = {0: frozenset()}
        order = f.rpo()
        ch = True
        n = 0
        while ch and n < 40:
            ch = False
            n += 1
            for b in order:
                if b.i == 0:
                    continue
                acc = None
                for p in b.pred:
                    e = self.edge(p, b)
                    if e is None:
                        continue
                    acc = e if acc is None else acc & e
                if acc is None:
                    continue
                acc = frozenset(acc)
                if self.IN.get(b.i) != acc:
                    # monotone: only shrink once visited
                    self.IN[b.i] = acc if b.i not in self.IN else frozenset(acc & self.IN[b.i])
                    ch = True

    def at(self, i):
        return self.IN.get(i.bb.i, frozenset())


def holds(facts, pred, a, b):
    if (pred, a, b) in facts or (SWAP.get(pred, pred), b, a) in facts:
        return True
    return False
