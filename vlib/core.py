"""Check driver: context, findings, known findings, evidence."""
import json, os, sys, time, importlib, traceback
from . import build

HERE = build.HERE
OUT = os.environ.get("VERIF_OUT", HERE)   # development only: where evidence and replays go
MARCHES = ["haswell", "nehalem", "x86-64"]


class AnchorError(Exception):
    """something the analysis is anchored on is not in the source any more"""


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.findings = []       # (key, msg, loc, detail)
        self.keys = set()
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.explanation = ""
        self.level = "other"
        self._bc = {}
        self._m = {}
        self.obligations = 0
        self.discharged = 0

    # ---- modules ----
    def bc(self, march, kind="lib"):
        k = (march, kind)
        if k not in self._bc:
            if kind == "lib":
                self._bc[k] = build.compile_bc(march)
            elif kind == "lib-noinl":       # nothing inlined by the compiler, not even always_inline functions
                self._bc[k] = build.compile_bc(march, defs=["-Xclang", "-disable-llvm-passes"], tag="-noinl")
            elif kind == "lib-wide":
                self._bc[k] = build.compile_bc(march, defs=["-DSTENOS_WIDE_TABLE"], tag="-wide")
            else:
                tu = os.path.join(HERE, "cfg", kind + ".cpp")
                self._bc[k] = build.compile_bc(march, tus=[tu], defs=["-Xclang", "-disable-llvm-passes"], tag="-" + kind, std="c++17")
        return self._bc[k]

    def mod(self, march="haswell", kind="lib", **kw):
        k = (march, kind, tuple(sorted(kw.items())))
        if k not in self._m:
            self._m[k] = build.export(self.bc(march, kind), "m%d" % len(self._m), **kw)
        return self._m[k]

    # ---- results ----
    def ob(self, ok=True, n=1):
        self.obligations += n
        if ok:
            self.discharged += n

    def fail(self, key, msg, loc="", detail=None):
        if key in self.keys:
            return
        self.keys.add(key)
        self.findings.append((key, msg, loc, detail))

    def sample(self, s):
        if len(self.samples) < 12 and s not in self.samples:
            self.samples.append(s)

    def need(self, x, what):
        if not x:
            raise AnchorError("anchor not found: " + what)
        return x


def known():
    """[(property, key, text)] of the recorded, unrepaired findings"""
    out = []
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith("known: property="):
                head, _, text = l[len("known: property="):].partition(" :: ")
                pid, _, key = head.partition(" key=")
                out.append((pid.strip(), key.strip(), text.strip()))
    return out


def run(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(pid, tier)
    sys.path.insert(0, os.path.join(HERE, "checks"))
    try:
        mod = importlib.import_module(pid)
        mod.run(ctx)
    except build.BuildError as e:
        if getattr(e, "finding", None):
            raise
        print("ERROR property=%s the sources do not build: %s" % (pid, e))
        return 2
    except AnchorError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 3
    kn = {(p, k): t for p, k, t in known()}
    new, old = [], []
    for f in ctx.findings:
        (old if (pid, f[0]) in kn else new).append(f)
    wall = time.time() - t0
    cov = dict(ctx.cov)
    if ctx.obligations:
        cov["obligations"] = ctx.obligations
        cov["discharged"] = ctx.discharged
    if ctx.level == "proof":
        cov.setdefault("checker_cmd", "python3 run.py " + pid)
        cov.setdefault("trusted_base", ["clang 18 front end", "LLVM 18 SROA/inliner", "tool/irx.cpp", "vlib/*.py", "checks/%s.py" % pid])
    cov["explanation"] = ctx.explanation
    if ctx.samples:
        cov["samples"] = ctx.samples
    ev = {"property": pid, "tier": tier, "seed": seed, "level": ctx.level, "coverage": cov, "assumptions": ctx.assumptions,
          "wall_s": round(wall, 3), "violations": len(new)}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[(pid, f[0])]))
    if new:
        rd = os.path.join(OUT, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + ".txt")
        with open(rp, "w") as f:
            for k, msg, loc, det in new:
                f.write("[%s] %s\n  at %s\n  key: %s\n" % (pid, msg, loc, k))
                if det:
                    for d in det:
                        f.write("    %s\n" % d)
        for k, msg, loc, det in new:
            print("  %s: %s  [key %s]" % (loc, msg, k))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d discharged=%d wall=%.1fs" % (pid, ctx.obligations, ctx.discharged, wall))
    return 0
