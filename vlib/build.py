"""Snapshot /repo, compile it to LLVM IR in several configurations, export to JSON."""
import os, re, shutil, subprocess, tempfile, atexit, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
IRX = os.path.join(HERE, "build", "irx")
_tmp = None


class BuildError(Exception):
    pass


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="stenos-verif-")
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def build_irx():
    src = os.path.join(HERE, "tool", "irx.cpp")
    if os.path.exists(IRX) and os.path.getmtime(IRX) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(IRX), exist_ok=True)
    fl = lambda *a: subprocess.check_output(["llvm-config-18"] + list(a), text=True).split()
    t = IRX + ".%d" % os.getpid()
    sh(["clang++-18", "-O1"] + fl("--cxxflags") + ["-fno-rtti", src, "-o", t] + fl("--ldflags") + fl("--libs"))
    os.replace(t, IRX)


_snap = None


def snapshot():
    """copy of /repo/stenos with its generated configuration header"""
    global _snap
    if _snap:
        return _snap
    d = os.path.join(tmp(), "src")
    os.makedirs(d)
    shutil.copytree(os.path.join(REPO, "stenos"), os.path.join(d, "stenos"), symlinks=False)
    cfg = os.path.join(d, "stenos", "stenos_config.h")
    tin = os.path.join(REPO, "stenos_config.h.in")
    if os.path.exists(tin):
        ver = "0.0"
        m = re.search(r"project\s*\([^)]*VERSION\s+([0-9.]+)", open(os.path.join(REPO, "CMakeLists.txt")).read(), re.I | re.S)
        if m:
            ver = m.group(1)
        p = (ver.split(".") + ["0", "0"])[:3]
        t = open(tin).read()
        t = t.replace("@PROJECT_VERSION_MAJOR@", p[0]).replace("@PROJECT_VERSION_MINOR@", p[1]).replace("@PROJECT_VERSION_PATCH@", p[2]).replace("@PROJECT_VERSION@", ver)
        open(cfg, "w").write(t)
    _snap = d
    return d


def sources():
    s = sorted(glob.glob(os.path.join(snapshot(), "stenos", "internal", "*.cpp")))
    if not s:
        raise BuildError("no library sources found")
    return s


def compile_bc(march, tus=None, defs=(), tag="", std="c++14"):
    d = snapshot()
    tus = tus if tus is not None else sources()
    out = os.path.join(tmp(), "%s%s.bc" % (march, tag))
    objs = []

    def one(s):
        o = os.path.join(tmp(), "%s%s-%s.bc" % (march, tag, os.path.basename(s)))
        sh(["clang++-18", "-std=" + std, "-march=" + march, "-DNDEBUG", "-g", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
            "-w", "-pthread", "-I" + d, "-I" + os.path.join(HERE, "cfg")] + list(defs) + ["-emit-llvm", "-c", s, "-o", o])
        return o

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, tus))
    sh(["llvm-link-18"] + objs + ["-o", out])
    return out


def export(bc, tag, inline=False, keep=None, passes="sroa", roots=None, drop=None, llvm=(), extents=None, extmodel=()):
    from . import ir
    build_irx()
    o = os.path.join(tmp(), os.path.basename(bc) + "." + tag + ".json")
    cmd = [IRX, bc, o]
    if inline:
        cmd.append("--inline")
    if keep:
        cmd += ["--keep", keep]
    if passes:
        cmd += ["--passes", passes]
    if roots:
        cmd += ["--roots", roots]
    if drop:
        cmd += ["--drop", drop]
    if extents:
        cmd += ["--extents", extents]
    for n, p, q in extmodel:
        cmd += ["--extmodel", n, str(p), str(q)]
    for x in llvm:
        cmd += ["--llvm", x]
    sh(cmd)
    m = ir.Module(o)
    os.unlink(o)
    return m


def lib(march="haswell", tag="raw", **kw):
    bc = compile_bc(march)
    return export(bc, tag, **kw)
