"""Which API functions take user buffers, from the declared parameter types (const void* = source, void* = destination)."""


def seed(pta, mod, need):
    n = 0
    for f in mod.defined():
        if not f.name.startswith("stenos_") or f.d.get("local"):
            continue
        dia = f.d.get("dia")
        if not dia:
            continue
        for k, t in enumerate(dia[1:]):
            if k >= len(f.args):
                continue
            if t == "ptr const void":
                pta.seed(("a", f.name, k), "SRC")
                n += 1
            elif t == "ptr void":
                pta.seed(("a", f.name, k), "DST")
                n += 1
    need(n >= 10, "public functions taking const void* / void* buffers")
    return n


KEEP = r"^stenos_|^_GLOBAL|^__cxx|5applyEv$|_M_runEv$|22block_compress_generic|22block_compress_partial|24block_decompress_generic|24block_decompress_partial|13allocate_taskE|14TaskAllocation8allocate|14aligned_malloc|21handmade_aligned_malloc"


def seed_opaque(pta, mod):
    """pointer parameters of public functions that are not buffers: one object per declared type"""
    for f in mod.defined():
        if not f.name.startswith("stenos_") or f.d.get("local"):
            continue
        dia = f.d.get("dia") or []
        for k, t in enumerate(dia[1:]):
            if k < len(f.args) and t.startswith("ptr ") and t not in ("ptr const void", "ptr void"):
                pta.seed(("a", f.name, k), "P:" + t[4:])
