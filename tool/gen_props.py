#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so statements stay in one editable place)."""
import json, os
S = "stenos/internal/stenos.cpp"; BC = "stenos/internal/block_compress.h"; TP = "stenos/internal/tiny_pool.h"; ZW = "stenos/internal/zstd_wrapper.h"
LZ = "stenos/internal/lz_compress.h"; CV = "stenos/cvector.hpp"; SH = "stenos/internal/shuffle.cpp"; SIMD = "stenos/internal/simd.cpp"; L4 = "stenos/internal/lz4dry.cpp"; DE = "stenos/internal/delta.cpp"
P = []
def p(id, title, st, over, text, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}
    if state: a["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Lossless round trip",
  "Decompressing what compression produced, with the same element size, gives back exactly the original bytes, for every input, element size, level, thread count, time limit and block size.",
  ["inputs", "configurations", "schedules"], "all byte strings x element sizes 1..65534 x levels 0..9 x threads x time limits x block shifts",
  "Tests sample a handful of generated patterns for six element sizes on one CPU.",
  [S, BC, LZ, DE, SH], [("whole encoder/decoder pair", S)])
p("C02", "Frame and superblock headers are read as they were written",
  "Every header field the library writes into a compressed frame (leading mode byte, 7-byte decompressed size, optional 4-byte superblock size, per-superblock method byte and 3-byte size) is read back by decompression, by the frame-info query and by the block-level calls from the same position, with the same width and meaning. The 4-byte superblock size is present in the frame exactly when the leading byte is 255, for every combination of level, threads, time limit and custom block size, and the last superblock of a frame is decoded with its true size even when the input is an exact multiple of the superblock size.",
  ["inputs", "configurations", "programs"], "all sizes (including exact multiples of the superblock size), all settings of level/threads/time limit/block size, in any order of setter calls",
  "Tests use a few fixed sizes, never combine a time limit with or without a custom block size, and never hit an exact multiple of the superblock size.",
  [S], [("frame header writer", "stenos_compress_generic, stenos_private_create_compression_header"), ("frame header readers", "stenos_decompress_generic, stenos_get_info, stenos_private_decompress_block")],
  obs=["bytes of the frame header", "stenos_get_info"])
p("C03", "Every emitted method tag decodes with the exact inverse pipeline",
  "For each superblock the encoder emits, the method byte written names the transformation that was really applied to the payload that follows it, and the decoder applies the exact inverse transformations in reverse order for that byte, with the same element size. No method byte is emitted that the decoder does not handle, and an unknown method byte is rejected with an error.",
  ["inputs", "configurations", "fault_sequences"], "all inputs and levels, including those where one or more strategies fail or are abandoned half-way and another is used instead",
  "Which strategy is chosen depends on data, speed and failures of earlier strategies; tests reach few of the fallback edges.",
  [S], [("strategy selection and tagging", "compress_generic_superblock"), ("method dispatch", "decompress_generic_superblock")])
p("C04", "All SIMD variants compute the same byte transposition",
  "On every supported instruction set, shuffling by element size moves byte j of element i to position j*n+i, unshuffling is its exact inverse, and every output byte is written, whichever of the AVX2, SSE2 or portable implementations is selected. A frame written on one machine therefore decodes identically on any other.",
  ["configurations", "inputs"], "all instruction sets x element sizes x lengths",
  "Tests run only the implementation of the machine they run on, and only for the element sizes 1,2,3,4,8,12.",
  ["stenos/internal/shuffle-avx2.cpp", "stenos/internal/shuffle-sse2.cpp", "stenos/internal/shuffle-generic.h", "stenos/internal/shuffle-generic.cpp"], [("transposition kernels", "shuffle-*.cpp")])
p("C05", "Built-in lookup tables are mutually consistent",
  "The constant tables the block codec depends on are correct for every index: the compaction table used to encode and the expansion table used to decode are inverse of one another on every mask, and the tables of bit masks, set-bit counts and bit widths hold the value their index stands for.",
  ["inputs"], "all 256 masks and all entries of every constant table",
  "A wrong entry shows only for a data-dependent mask.",
  ["stenos/internal/reduced_shuffle_table.h", "stenos/internal/reduced_unshuffle_table.h", BC], [("constant tables", "reduced_*_table.h")])
p("C06", "Worst-case bound is always sufficient",
  "A destination of the size given by the bound function is always large enough for compression to succeed with default block sizes.",
  ["inputs", "configurations"], "all inputs and element sizes", "Tests use sampled sizes.", [S, "stenos/stenos.h"], [("stenos_bound / compress_bound", "stenos/stenos.h")])
p("C07", "Decoding arbitrary bytes stays inside the given buffers",
  "Decompressing any byte string, valid, truncated or corrupted, never reads outside the compressed bytes it was given and never writes outside the destination buffer or the library's internal buffers; lengths, sizes and offsets taken from the compressed bytes are validated against the space that is really left before they are used. Malformed input gives an error code, not a crash.",
  ["inputs"], "all byte strings of all lengths passed as compressed input, all destination sizes",
  "No existing test feeds corrupted or truncated data.",
  [S, BC, LZ], [("bounds checks against the end pointers", "block_decompress_generic, block_decompress_partial, lz_decompress_generic, stenos_decompress_generic, decompress_generic_superblock")])
p("C08", "Compression never writes past the destination buffer",
  "Whatever the destination size, compression writes only inside the destination it was given: each header, payload and intermediate result is written only after checking that it fits in the space left, and when it does not fit the call returns an overflow error.",
  ["inputs", "configurations"], "all destination sizes from 0 up, all levels and thread counts",
  "Tests always provide a destination of the full bound size.",
  [S, BC, LZ], [("bounds checks against the end of destination", "stenos_compress_generic, compress_generic_superblock, compress_memcpy")])
p("C09", "The input buffer is never modified",
  "No compression, decompression, info or block-level call ever writes through its const input pointer, not even temporarily, whatever the level, element size, thread count or error path. Inputs may therefore live in read-only memory or be shared between concurrent calls.",
  ["inputs", "schedules", "configurations"], "all calls, all levels and code paths, including concurrent use of the same input",
  "Tests never place the input in read-only memory nor compare it afterwards.",
  [S, BC, LZ, L4, "stenos/internal/shuffle-avx2.cpp", "stenos/internal/shuffle-sse2.cpp", DE], [("const pointers (with casts)", S)])
p("C10", "No alignment requirement on user buffers",
  "Source and destination buffers passed to compression, decompression and info calls may have any alignment: no access that requires alignment greater than one is ever made through a pointer derived from them, on any instruction set variant.",
  ["inputs", "configurations"], "all addresses of input and output buffers, all instruction set variants",
  "Test buffers come from vectors and are always 16-byte aligned; only the host's SIMD variant is run.",
  [S, BC, LZ, L4, "stenos/internal/shuffle-avx2.cpp", "stenos/internal/shuffle-sse2.cpp", DE, "stenos/bits.hpp"], [("unaligned load/store intrinsics and memcpy based accessors", BC)])
p("C11", "No division by zero or oversized shift for any argument or frame",
  "No argument value and no content of a compressed frame can make the library divide (or take a remainder) by zero or shift by the width of the operand or more; such values are rejected with an error code before they are used.",
  ["inputs", "configurations"], "all argument values (element size, levels, threads, block shift, sizes), all header contents",
  "Tests only pass valid arguments and valid frames.",
  [S, BC, LZ, L4, ZW], [("argument and header validation", "stenos_compress_generic, stenos_decompress_generic, stenos_get_info")])
p("C12", "No C++ exception or abort escapes the C API",
  "No function of the C API lets a C++ exception propagate to its caller or terminate the process because a resource (memory, thread) could not be obtained; such failures are reported by an error code or a NULL result.",
  ["fault_sequences", "inputs"], "any allocation or thread creation failing at any point of any C API call",
  "Tests never make an allocation fail.",
  [S, TP], [("try/catch around allocating code, noexcept helpers", S)])
p("C13", "Every allocation failure is detected before the memory is used",
  "When any memory allocation made by the library or by the compressed vector fails, the result is tested before it is dereferenced, written through or recorded as usable, so that the failure becomes an error code, a NULL result or a C++ exception, never a null dereference, and the object remains usable afterwards.",
  ["fault_sequences"], "any subset of allocations failing, in any call",
  "Tests never make an allocation fail.",
  [S, TP, CV, "stenos/bits.hpp"], [("null tests after malloc/aligned_malloc/make", S)])
p("C14", "Errors of internal stages are never mistaken for success",
  "If any stage of a call (zstd compression or decompression, block coding, plain copy, buffer preparation, parameter validation) reports an error, its result is tested before being used as a size, and the public call returns an error code or a result produced by another stage that succeeded. In particular an entropy decoder that produces a different number of bytes than expected is reported as an error.",
  ["fault_sequences", "inputs"], "any stage failing at any superblock, on any thread",
  "Tests only run calls in which every stage succeeds.",
  [S, BC, LZ, ZW, CV], [("has_error / ZSTD_isError tests", S)])
p("C15", "Library objects release everything they own",
  "Destroying a compression context, a timer or a compressed vector, thread exit and every early or error return release all the memory and entropy-coder objects acquired on their behalf, exactly once; nothing acquired inside a call remains owned by nobody when it returns.",
  ["histories", "fault_sequences"], "all sequences of API calls ending with destruction, and all failure points inside them",
  "Existing tests do not check for leaks and never exercise failure paths.",
  [S, TP, ZW, CV], [("destructors, clear_buffers", S)])
p("C16", "A reused context behaves like a fresh one",
  "The result of a call on a context depends only on the arguments of that call and on the parameters currently set on the context, never on what earlier calls did (their size, element size, time limits, errors). Resetting a context restores every settable parameter to its initial value, and changing the superblock size never leaves internal buffers of the old size in use.",
  ["histories"], "all sequences of setter, compress, decompress and reset calls on one context",
  "Tests use a fresh context or the same settings throughout.",
  [S, ZW], [("prepare, clear_buffers, stenos_reset_context", S)])
p("C17", "Without a time limit the output is deterministic",
  "When no time limit is set, the bytes compressed into a destination of at least the bound depend only on the input bytes, the element size, the level and the block size: not on the number of threads, on scheduling, on the clock, on addresses, nor on the previous content of stack, heap or thread-local memory.",
  ["schedules", "histories", "configurations"], "all thread counts, schedules and prior memory contents",
  "Tests check only that each output decompresses, never that two outputs are equal.",
  [S, BC, LZ, L4, ZW], [("time-limited branches, per-call initialisation of scratch tables", S)])
p("C18", "CPU features are detected correctly and gate SIMD code",
  "Each CPU feature flag is set only from the CPUID leaf, register and bit that architecturally defines it, and only after checking that the leaf exists; an implementation that needs an instruction set extension beyond the build's baseline selection is selected only when the corresponding flag is set, and shuffle and unshuffle are always selected from the same implementation.",
  ["configurations"], "all CPUs", "Tests run on one CPU model.",
  [SIMD, "stenos/internal/simd.h", SH, S, BC], [("compute_cpu_feature", SIMD), ("get_shuffle_implementation", SH)])
p("C19", "No data race on shared state",
  "Any number of threads may use the library at the same time on different contexts, timers and compressed vectors, and one call may use any number of worker threads: no memory location is then accessed by two threads, at least one of them writing, unless every such access is atomic, protected by a common lock, confined to one thread, or separated by waiting for the workers to finish.",
  ["schedules", "programs"], "all interleavings of concurrent calls and of the worker threads of one call",
  "Tests run with one schedule per run and without a race detector.",
  [S, TP, ZW, L4, SIMD, CV], [("static/thread_local state, pool mutex, per-task slots", S)])
p("C20", "A multithreaded call never returns before its tasks are finished",
  "When a multithreaded compression or decompression call returns, successfully or with an error, all tasks it submitted to the worker pool have finished: no worker touches the caller's buffers, context or stack afterwards, and no result of a task is read before that task has finished.",
  ["schedules", "fault_sequences"], "all schedules, all failure points including a task submission failing half-way",
  "Tests never make a submission fail and cannot observe late workers.",
  [S, TP], [("pool->push / pool->wait pairing", "stenos_compress_generic, stenos_decompress_generic")])
p("C21", "The worker pool neither loses tasks nor wake-ups",
  "Every task accepted by the worker pool is run exactly once, and every caller that waits for completion is woken once no task is queued or running, however many callers wait at the same time; the pool's shared state is only touched under its lock and its threads are joined before the pool disappears.",
  ["schedules"], "any number of concurrent submitters and waiters, all interleavings",
  "Lost wake-ups need a particular interleaving of two waiting callers.",
  [TP], [("mutex, condition variables and counters", TP)])
p("C22", "A time-limited compression respects its limit",
  "Compression with a maximum duration completes within that duration, up to the time a plain copy takes.",
  ["schedules", "inputs"], "all inputs and machine speeds", "Depends on the speed of the machine.", [S, ZW], [("clevel_for_remaining", ZW)])
p("C23", "Modifications of a compressed vector are never lost",
  "Every modification made to an element of a compressed vector through any non-const operation or reference (assignment, insertion, erasure, resize, iteration with a mutable function, even one that stops early or throws) is still there when the element is read again later, however many times its bucket was evicted, recompressed, moved to another buffer or serialized in between.",
  ["histories", "schedules", "fault_sequences"], "all sequences of operations, all eviction points, early stops and exceptions from user functions",
  "Whether a modification survives depends on when the bucket is evicted relative to it; tests sample few histories.",
  [CV], [("dirty flag, mark_dirty, recompression before eviction", CV)])
p("C24", "A bucket in use is never evicted or moved",
  "While a reference wrapper, an iterator access or an operation holds an element of a compressed vector, the decompressed buffer that contains it is neither recompressed, reused for another bucket nor freed by accesses to other elements or insertions, in this or any other thread; a buffer is released only once nobody uses it, and every use that was started is ended on every path. (Operations on the whole vector that need it for themselves, such as shrink_to_fit, clear, serialization or destruction, are excepted.)",
  ["schedules", "histories"], "all interleavings of concurrent accesses and evictions, all lifetimes of reference wrappers",
  "Needs an eviction between the start and the end of a use.",
  [CV], [("reference counts and bucket locks", CV)])
p("C25", "Compressed vector locking is balanced and deadlock-free",
  "Every lock taken inside a compressed vector is released exactly once on every path out of the operation, including when an allocation or a user supplied copy throws, and locks are always acquired in one global order (or by try-lock), so that concurrent operations can never wait for each other in a cycle.",
  ["schedules", "fault_sequences"], "all interleavings, all exception points",
  "Deadlocks and leaked locks need a particular interleaving or failure.",
  [CV], [("bucket, data and context locks", CV)])
p("C26", "Decompressed buckets are published only when fully built",
  "A concurrent reader of a compressed vector can find a decompressed buffer of a bucket only after that buffer has been completely filled and all its bookkeeping has been initialised; nothing is stored into the bookkeeping in a way that could overwrite what a reader recorded after publication.",
  ["schedules"], "all interleavings of two threads accessing the same bucket",
  "The window between publication and initialisation is a few instructions wide.",
  [CV], [("atomic publication of the raw buffer pointer", CV)])
p("C27", "Vector elements are constructed and destroyed exactly once",
  "Each element stored in a compressed vector is destroyed exactly once over the life of the vector, whatever operations are applied and whichever allocation, compression or element constructor fails on the way; a failing operation leaves the vector destructible and consistent, and propagates the failure.",
  ["histories", "fault_sequences", "programs"], "all sequences of operations, all exception points, all element types",
  "Tests use element types and histories in which nothing throws.",
  [CV], [("destroy/clear/exception handlers", CV)])
p("C28", "Compressed vector behaves like std::vector",
  "For every sequence of operations the observable content of a compressed vector equals that of a std::vector to which the same operations are applied.",
  ["histories", "programs"], "all sequences of operations", "Tests sample a few sequences.", [CV], [("all member functions", CV)])
p("C29", "Serialization of a compressed vector is complete and its errors are reported",
  "Serializing a compressed vector writes every bucket, in order, each with the current content of its elements, whether the bucket is full or partial, compressed or decompressed, modified or not; reading or writing that fails or meets malformed data is reported to the caller and never produces a silently shortened or stale result.",
  ["histories", "inputs", "fault_sequences"], "all bucket states at the time of the call, all stream failures, all serialized inputs",
  "Tests serialize in one bucket state with a healthy stream.",
  [CV], [("serialize / deserialize", CV)])
p("C30", "The whole public API can be instantiated as documented",
  "Every public member function of the compressed vector and of its iterators compiles for every supported kind of element type (trivial, non-trivially copyable, move-only), const objects give only read access, and the C header compiles as C.",
  ["programs"], "all programs using the public API", "Members of templates that tests do not call are never compiled.",
  [CV, "stenos/stenos.h"], [("template member functions", CV)])
p("C31", "Compression ratio and speed",
  "Compression reaches the documented ratios and speeds.", ["inputs", "configurations"], "all inputs", "Quantitative.", [S], [("strategy selection", S)])
p("C32", "Internal work memory is large enough for what is put into it",
  "For every element size, superblock size and payload size, every internal buffer the library allocates for a call (the work area of the block coder with the regions carved out of it, the buffers of the superblock stages and of the parallel tasks) is at least as large as the end of everything the library writes to or reads from it, including what a capacity passed along with it promises to a codec; an internal buffer that is kept for reuse (per thread, per context) is only reused when it is large enough for the current request.",
  ["inputs", "histories"], "all element sizes, superblock sizes and payload sizes; all sequences of calls that reuse a buffer",
  "Tests use a handful of element sizes, and a heap overflow by some bytes usually changes no result (a genuine one was found and repaired: padding of partial blocks with elements of 19 bytes and more).",
  [BC, S], [("BlockEncoder::init, compression_buffer_size, make_compression_buffer", BC), ("CBuffer::make and its users", S)])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
