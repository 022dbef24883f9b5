"""C23 - modifications of a compressed vector are never lost: typestate of the decompressed buffers (bucket.py)."""
import bucket


def run(ctx):
    bucket.report(ctx, ["modifications", "bookkeeping stores", "evictions", "images stored"],
                  "typestate of the decompressed buffers of cvector<E> on every path, normal and exceptional, of every public operation, with opaque elements and functors that may throw: "
                  "every call that can modify an element is followed by the dirty mark of its buffer before the bucket is released and before the operation returns or unwinds; "
                  "the mark is cleared only where the buffer was compressed into its image since; a bucket is given compressed content only when that content is the image of its full buffer; "
                  "a buffer linked to a bucket is either marked dirty or holds what the bucket's image decompresses to")
