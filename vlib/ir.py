"""Python view of the JSON that tool/irx exports from LLVM IR."""
import json, re
from collections import defaultdict


class Instr:
    __slots__ = ("id", "op", "d", "bb", "fn", "users", "idx")

    def __init__(self, d, bb, fn, idx):
        self.d = d
        self.id = d["id"]
        self.op = d["op"]
        self.bb = bb
        self.fn = fn
        self.idx = idx
        self.users = []

    def __getattr__(self, k):
        if k in Instr.__slots__:
            raise AttributeError(k)
        return self.d.get(k)

    @property
    def o(self):
        return self.d.get("o") or []

    @property
    def callee(self):
        return self.d.get("callee")

    @property
    def line(self):
        return self.d.get("l")

    @property
    def is_call(self):
        return self.op in ("call", "invoke")

    @property
    def is_term(self):
        return self.op in ("br", "switch", "ret", "invoke", "resume", "unreachable")

    def loc(self):
        f = self.d.get("lf")
        if not f:
            return self.fn.loc()
        return "%s:%s" % (short(f), self.d.get("l"))

    def scope(self):
        return self.d.get("ls") or self.fn.name

    def __repr__(self):
        return "%%%d=%s@%s" % (self.id, self.op, self.loc())


def short(f):
    if not f:
        return "?"
    i = f.rfind("stenos/")
    return f[i:] if i >= 0 else f


class Block:
    __slots__ = ("i", "ins", "fn", "succ", "pred")

    def __init__(self, i, fn):
        self.i = i
        self.fn = fn
        self.ins = []
        self.succ = []
        self.pred = []

    @property
    def term(self):
        return self.ins[-1]

    def __repr__(self):
        return "bb%d" % self.i


class Function:
    def __init__(self, d, mod):
        self.d = d
        self.mod = mod
        self.name = d["name"]
        self.dem = d["dem"]
        self.decl = d["decl"]
        self.args = d["args"]
        self.blocks = []
        self.instrs = {}
        if not self.decl:
            for bi, b in enumerate(d["blocks"]):
                B = Block(bi, self)
                for k, i in enumerate(b):
                    I = Instr(i, B, self, k)
                    B.ins.append(I)
                    self.instrs[I.id] = I
                self.blocks.append(B)
            for B in self.blocks:
                t = B.ins[-1] if B.ins else None
                s = []
                if t is None:
                    continue
                if t.op == "br":
                    s = t.d["succ"]
                elif t.op == "switch":
                    s = [t.d["def"]] + [c[1] for c in t.d["cases"]]
                elif t.op == "invoke":
                    s = [t.d["normal"], t.d["unwind"]]
                seen = []
                for x in s:
                    if x not in seen:
                        seen.append(x)
                B.succ = [self.blocks[x] for x in seen]
            for B in self.blocks:
                for s in B.succ:
                    s.pred.append(B)
            for I in self.instrs.values():
                for v in self.opvals(I):
                    if v[0] == "i":
                        self.instrs[v[1]].users.append(I)
        self._dom = None
        self._pdom = None

    def opvals(self, I):
        r = list(I.o)
        if I.d.get("fp"):
            r.append(I.d["fp"])
        return r

    def loc(self):
        return "%s:%s" % (short(self.d.get("file")), self.d.get("line"))

    def ins(self):
        for b in self.blocks:
            for i in b.ins:
                yield i

    def V(self, o):
        """operand -> Instr or None"""
        return self.instrs[o[1]] if o[0] == "i" else None

    # -- dominators (iterative, on RPO) --
    def rpo(self):
        seen, out = set(), []
        st = [(self.blocks[0], iter(self.blocks[0].succ))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s.i not in seen:
                    seen.add(s.i)
                    st.append((s, iter(s.succ)))
                    break
            else:
                out.append(b)
                st.pop()
        out.reverse()
        return out

    def dom(self):
        if self._dom is None:
            self._dom = _domtree([b.i for b in self.rpo()], {b.i: [p.i for p in b.pred] for b in self.blocks}, 0)
        return self._dom

    def dominates_b(self, a, b):
        d = self.dom()
        if b not in d:
            return True
        while True:
            if a == b:
                return True
            if d[b] == b:
                return False
            b = d[b]

    def dominates(self, a, b):
        """instr a dominates instr b"""
        if a.bb is b.bb:
            return a.idx < b.idx
        return self.dominates_b(a.bb.i, b.bb.i)

    def reach(self, start, stop=lambda b: False):
        """blocks reachable from block set (inclusive), not expanding blocks where stop(b)"""
        seen = set()
        st = list(start)
        while st:
            b = st.pop()
            if b.i in seen:
                continue
            seen.add(b.i)
            if stop(b):
                continue
            st.extend(b.succ)
        return seen

    def __repr__(self):
        return self.dem


def _domtree(rpo, preds, entry):
    num = {b: k for k, b in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b == entry:
                continue
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True
    return idom


class Module:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.structs = d["structs"]
        self.globals = {g["name"]: g for g in d["globals"]}
        self.F = {}
        for f in d["functions"]:
            self.F[f["name"]] = Function(f, self)
        self.di = defaultdict(list)
        for t in d["ditypes"]:
            self.di[t["name"]].append(t)
        self._fc = {}

    def defined(self):
        return [f for f in self.F.values() if not f.decl]

    def find(self, rx):
        r = re.compile(rx)
        return [f for f in self.F.values() if not f.decl and (r.search(f.name) or r.search(f.dem))]

    # ---- struct field names ----
    def di_for(self, st):
        n = re.sub(r"^%(struct|class|union)\.", "", st)
        n = re.sub(r"\.\d+$", "", n)
        n2 = n.replace("(anonymous namespace)", "(anonymous namespace)")
        c = self.di.get(n2) or self.di.get(n2 + ".base")
        if not c:
            # template instances: IR name has no template args; match on prefix and size
            size = self.structs.get(st, {}).get("size")
            c = [t for k, v in self.di.items() for t in v if (k == n2 or k.startswith(n2 + "<")) and t["size"] == size]
        return c or []

    def field(self, st, off):
        """innermost field path name for byte offset in struct type st"""
        key = (st, off)
        if key in self._fc:
            return self._fc[key]
        res = None
        for t in self.di_for(st):
            for m in t["m"]:
                if m[1] <= off < m[1] + max(m[2], 1) and m[0] != "<base>":
                    if m[1] == off or res is None:
                        res = m[0]
            if res:
                break
        self._fc[key] = res
        return res


def demname(f):
    """demangled name without argument list"""
    d = f.dem
    i = d.find("(")
    return d if i < 0 else d[:i]
