"""C12: no exception leaves a C API function, none is turned into std::terminate by a noexcept boundary."""
import re
from collections import defaultdict

KIND = {"_ZSt17__throw_bad_allocv": "std::bad_alloc", "_ZSt28__throw_bad_array_new_lengthv": "std::bad_alloc", "_ZSt20__throw_length_errorPKc": "std::length_error", "_ZSt20__throw_system_errori": "std::system_error",
        "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE": "std::system_error", "_Znwm": "std::bad_alloc", "_Znam": "std::bad_alloc"}
# typeinfo caught -> kinds it stops
STOPS = {"_ZTISt9bad_alloc": {"std::bad_alloc"}, "_ZTISt9exception": {"std::bad_alloc", "std::length_error", "std::system_error", "std::exception"},
         "_ZTISt12length_error": {"std::length_error"}, "_ZTISt11logic_error": {"std::length_error"}, "_ZTISt12system_error": {"std::system_error"}, "_ZTISt13runtime_error": {"std::system_error"}}
# not a resource failure: locking a valid mutex, waiting on a condition variable, joining a joinable thread of the pool
IGNORE = re.compile(r"^_ZNSt18condition_variable4waitE|^_ZNSt6thread4joinEv|^_ZNSt18condition_variable")
LOCK_SCOPE = re.compile(r"St5mutex|unique_lock|lock_guard|recursive_mutex")


def mangled(n):
    return n.startswith("_Z")


class Exc:
    def __init__(self, m):
        self.m = m
        self.out = {f.name: {} for f in m.defined()}      # kinds leaving the function -> witness
        self.term = {}                                     # (function, kind) -> witness: reaches a terminate pad
        self.taken = set()
        for f in m.defined():
            for i in f.ins():
                for v in f.opvals(i):
                    if i.is_call and v == ["f", i.callee]:
                        continue
                    self._fn(v)
        for g in m.globals.values():
            self._fn(g.get("init") or [])
        self.sources = 0
        self.tp = {}
        ch = True
        while ch:
            ch = False
            for f in m.defined():
                if self.func(f):
                    ch = True

    def _fn(self, v):
        if isinstance(v, list) and v:
            if v[0] == "f":
                self.taken.add(v[1])
            for x in v[1:]:
                self._fn(x)

    def thrown(self, f, i):
        """kinds a call may raise -> witness (list of strings)"""
        if i.nounwind:
            return {}
        c = i.callee
        here = "%s in %s" % (i.loc(), f.dem[:80])
        if c is None or c == "__asm__":
            if i.d.get("asm") is not None or c == "__asm__":
                return {}
            r = {}
            n = len(i.o)
            for t in self.taken:
                g = self.m.F.get(t)
                if g is not None and not g.decl and len(g.args) == n:
                    for k, w in self.out[t].items():
                        r.setdefault(k, [here + " (indirect)"] + w)
            return r
        g = self.m.F.get(c)
        if g is not None and not g.decl:
            return {k: ([here] + w)[:8] for k, w in self.out[c].items()}
        if c.startswith("llvm."):
            return {}
        if c == "__cxa_rethrow":
            return {"std::exception": [here]}
        if c == "__cxa_throw":
            return {"exception": [here]}
        if IGNORE.match(c) or not mangled(c):
            return {}
        if c == "_ZSt20__throw_system_errori" and LOCK_SCOPE.search(i.scope() + f.name):
            return {}
        if g is not None and g.d.get("nounwind"):
            return {}
        k = KIND.get(c, "exception (%s)" % (g.dem[:50] if g else c))
        return {k: ["%s calls %s" % (here, g.dem[:60] if g else c)]}

    def pad(self, f, lp):
        """classify a landing pad: ('term'|'all'|'typed', kinds stopped)"""
        key = (f.name, lp.id)
        if key in self.tp:
            return self.tp[key]
        kinds, allc = set(), False
        for c in lp.o:
            if c[0] == "n":
                allc = True
            elif c[0] == "g":
                kinds |= STOPS.get(c[1], set())
        # terminate reached from the pad before a handler of the program begins
        r = ("all" if allc else "typed", kinds)
        if allc:
            seen, st = set(), [lp.bb]
            while st:
                b = st.pop()
                if b.i in seen:
                    continue
                seen.add(b.i)
                stop = False
                for i in b.ins:
                    if i.is_call and i.callee:
                        if i.callee in ("__clang_call_terminate", "_ZSt9terminatev", "abort"):
                            r = ("term", kinds)
                        if not i.callee.startswith("llvm."):
                            nxt = b.ins[i.idx + 1] if i.idx + 1 < len(b.ins) else None
                            if i.callee == "__cxa_begin_catch" and nxt is not None and nxt.is_call and nxt.callee in ("_ZSt9terminatev", "__clang_call_terminate"):
                                continue
                            stop = True
                            break
                if not stop:
                    st.extend(b.succ)
        self.tp[key] = r
        return r

    def func(self, f):
        ch = False
        out = self.out[f.name]
        # resume reachable from a landing pad
        for b in f.blocks:
            for i in b.ins:
                if not i.is_call:
                    continue
                th = self.thrown(f, i)
                if not th:
                    continue
                if i.op == "call":
                    for k, w in th.items():
                        if k not in out:
                            out[k] = w
                            ch = True
                else:
                    ub = f.blocks[i.d["unwind"]]
                    lp = next((x for x in ub.ins if x.op == "landingpad"), None)
                    kind, stops = self.pad(f, lp) if lp else ("typed", set())
                    for k, w in th.items():
                        if k in stops:
                            continue
                        if kind == "term":
                            if (f.name, k) not in self.term:
                                self.term[(f.name, k)] = w
                                ch = True
                        elif kind == "all":
                            continue
                        elif k not in out:
                            out[k] = w
                            ch = True
        return ch


def run(ctx):
    nsrc = 0
    api = set()
    for march in ("haswell", "x86-64"):
        m = ctx.mod(march, passes=None)
        e = Exc(m)
        for f in m.defined():
            for i in f.ins():
                if i.is_call and not i.nounwind and i.callee and mangled(i.callee) and (i.callee not in m.F or m.F[i.callee].decl) and not i.callee.startswith("llvm."):
                    nsrc += 1
        # functions reachable from the C API or run by pool threads (not program start-up and shut-down)
        roots = [f for f in m.defined() if f.name.startswith("stenos_") and not f.d.get("local")]
        ctx.need(len(roots) >= 15, "C API functions")
        api |= {f.name for f in roots}
        reach = set()
        st = [f.name for f in roots] + [t for t in e.taken if t in m.F and not m.F[t].decl]
        glob = {f.name for f in m.defined() if f.name.startswith("_GLOBAL") or f.name.startswith("__cxx_global")}
        while st:
            n = st.pop()
            if n in reach or n in glob:
                continue
            reach.add(n)
            for i in m.F[n].ins():
                if i.is_call and i.callee in m.F and not m.F[i.callee].decl:
                    st.append(i.callee)
                for v in i.o:
                    if v[0] == "f" and v[1] in m.F and not m.F[v[1]].decl:
                        st.append(v[1])
        for f in roots:
            o = e.out[f.name]
            ctx.ob(not o)
            for k, w in o.items():
                ctx.fail("escape:%s:%s" % (f.name, k), "%s may leave the C function %s" % (k, f.name), f.loc(), w)
        for (fn, k), w in e.term.items():
            if fn in reach and k != "std::exception":
                ctx.ob(False)
                ctx.fail("terminate:%s:%s" % (fn, k), "%s would cross the noexcept boundary of %s and terminate the process" % (k, m.F[fn].dem[:90]), m.F[fn].loc(), w)
        # direct ways to end the process
        for fn in sorted(reach):
            f = m.F[fn]
            if fn == "__clang_call_terminate" or "stenos/" not in (f.d.get("file") or ""):
                continue
            live = f.reach([f.blocks[0]])
            pads = set(b.i for b in f.blocks if b.i not in live)
            for i in f.ins():
                if i.op == "landingpad" and e.pad(f, i)[0] == "term":
                    pads |= f.reach([i.bb])
            for i in f.ins():
                if i.is_call and i.callee in ("abort", "exit", "_exit", "quick_exit", "_ZSt9terminatev", "__assert_fail", "raise", "llvm.trap") and i.bb.i not in pads:
                    ctx.ob(False)
                    ctx.fail("exit:%s:%s" % (fn, i.callee), "%s calls %s: the library would end the process" % (f.dem[:90], i.callee), i.loc())
        # exceptions escaping a worker thread function
        for t in e.taken:
            if t in m.F and not m.F[t].decl and re.search(r"_M_runEv$", t):
                o = e.out[t]
                ctx.ob(not o)
                for k, w in o.items():
                    ctx.fail("thread:%s:%s" % (t, k), "%s may leave a worker thread" % k, m.F[t].loc(), w)
        ctx.ob(True, len(reach))
        for f in m.defined():
            if f.name in reach and e.out[f.name]:
                ctx.sample("%s may throw %s, stopped by its callers" % (f.dem[:80], ", ".join(e.out[f.name])))
    # positive control: something must be able to throw, otherwise the rule would pass vacuously
    ctx.need(nsrc > 10, "calls that may throw")
    ctx.cov.update(may_throw_sites=nsrc, c_api_functions=sorted(api), functions_reachable=ctx.obligations)
    ctx.explanation = ("Interprocedural may-throw analysis on the unoptimised IR: every call to a throwing C++ runtime function is followed through calls and landing pads; an exception reaching the boundary of a C API "
                       "function, of a worker thread, or a noexcept terminate pad reachable from them is a violation.")
    ctx.assumptions = ["locking a valid mutex, waiting on a condition variable and joining a joinable thread do not throw", "zstd is C code and does not throw", "program start-up (construction of the static pool) is outside the property"]
