"""C24 - a bucket in use is never evicted or moved: locks held at accesses, evictions and releases of decompressed buffers (bucket.py)."""
import bucket


def run(ctx):
    bucket.report(ctx, ["accesses", "evictions", "bookkeeping stores", "buffers freed", "decompressions"],
                  "lock typestate combined with the typestate of decompressed buffers of cvector<E>, on every path, normal and exceptional, of every public operation: "
                  "elements are used only while a lock of the bucket is held; a bucket is evicted only under the exclusive lock of that very bucket; buffers are freed or decompressed into only "
                  "once unlinked on the same path; their bookkeeping changes only while nobody can find them or under the exclusive lock")
