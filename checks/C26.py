"""C26 - decompressed buckets are published only when fully built: state of a buffer where its address is stored into a bucket (bucket.py)."""
import bucket


def run(ctx):
    bucket.report(ctx, ["publications", "tag stores", "tag loads", "bookkeeping stores"],
                  "typestate of decompressed buffers of cvector<E>: at every store that makes a buffer reachable from a bucket, on every path, it was filled by the decompression and its size, "
                  "dirty mark, bucket index and compressed buffer were set; nothing is stored into its bookkeeping after that on the same path except setting the dirty mark; "
                  "the tagged pointer is stored with release and read with acquire order")
