CLAIMED = {
 "C04": ("byte-provenance dataflow over LLVM IR with polynomial addresses: transposition equation of every stored byte, tiling of the destination on every path, pairing of the dispatch table", "proof", "Every byte stored by every compiled kernel (generic, SSE2, AVX2, dispatcher) in two ISA builds, for every element size and length; sizes assumed not to wrap."),
 "C02": ("path-sensitive provenance of header bytes (LLVM IR): positions, widths and formulas of every reading path compared as terms with the bytes every writing path stores", "other", "Every path of the frame writers and readers up to the first superblock, and of the block-level readers; the sizes of later superblocks and those handed to pool tasks are not decided."),
 "C03": ("path-sensitive provenance of buffers through the transformation calls (LLVM IR): tag, size field and payload term of each encoder path rewritten with the decoder's term for that tag; failed transformations tracked", "other", "Every feasible path of the superblock compressor and decompressor; the transformations themselves are symbols (transposition: C04; block coder, delta and zstd assumed inverse to their decoder)."),
 "C05": ("constant-table evaluation over compiler IR globals", "proof", "Every entry of every constant table is decided from its initialiser; complete for the tables found."),
 "C09": ("field-sensitive points-to effect analysis on LLVM IR", "other", "Sound over-approximation of where pointers derived from const inputs flow; all stores and memory intrinsics are examined in three ISA builds."),
 "C10": ("points-to plus IR access-alignment audit", "other", "Every access that may go through a user buffer must carry IR alignment 1, in three ISA builds."),
 "C12": ("may-throw and direct-termination analysis over LLVM IR (exception-handling edges, terminate pads, worker entry points)", "other", "Every call site of the library modules is classified as may-throw or not; no may-throw path may leave a C entry point or reach std::terminate."),
 "C13": ("interprocedural null-result dataflow (must-test facts over LLVM IR)", "other", "Every nullable allocation result is followed through values, memory and parameters to every use; each use must be dominated by a test."),
 "C14": ("error-code dataflow: must-test facts and error-edge path analysis over LLVM IR", "other", "Every result that may be an error, every test of one and every entropy decoder call of the library is examined."),
 "C16": ("interprocedural must-definition dataflow over the context fields (LLVM IR)", "other", "Every load of a context field by an operation, in the worlds with and without time limit; every store to a parameter; every function that changes the size of the cached buffers."),
 "C17": ("information flow from run-dependent sources (thread count, pool, other tasks, addresses, memory of earlier calls) to codec arguments, copied sizes, lasting memory and branches in the code reachable with time limit = 0 folded; definite initialisation of look-up tables; deny-list of clock/random/sticky calls; capacity dependence on the destination size only through a minimum", "other", "flow of data and of joins, not of timing; zstd assumed deterministic; enumeration of superblocks in the two modes is not compared"),
 "C18": ("provenance of the CPU flags to CPUID bits, plus interprocedural must-flag facts over LLVM IR", "other", "Every instruction of an ISA extension and every pair of SIMD transposition kernels, in the three ISA builds."),
 "C19": ("ownership/lockset race analysis over LLVM IR: task-private pointer fixpoint, guarded initialisation, mutex locksets", "other", "Every write and read reachable from a pool task, every write to a global and every access to the pool's fields is classified."),
 "C20": ("typestate of the worker pool along call-graph paths (submitted tasks must be waited for on every exit)", "other", "Every path of every function that submits tasks, from each submission to each exit and each conflicting access."),
 "C25": ("path-sensitive lock typestate (property simulation) over the LLVM IR of an instantiation with an opaque client; acquisition-order graph; abstract interpretation of the lock class's transitions", "other", "Every path, normal and exceptional, of every operation of the vector; every acquisition while another lock is held; every transition of the lock word."),
 "C23": ("typestate of decompressed buffers combined with lock typestate (path-sensitive property simulation over the LLVM IR of an instantiation with an opaque client): a buffer written to is marked before its lock is released", "other", "Every path, normal and exceptional, of the operations of the vector; operations the analysis cannot finish are listed in the evidence as undecided."),
 "C24": ("typestate of decompressed buffers: use counts and bucket locks held where a buffer is compressed, reused or freed (path-sensitive property simulation over LLVM IR)", "other", "Every path of the operations of the vector; operations the analysis cannot finish are listed in the evidence as undecided."),
 "C26": ("typestate of decompressed buffers: publication after filling and initialisation (path-sensitive property simulation over LLVM IR)", "other", "Every path of the operations of the vector from the allocation of a buffer to its publication."),
 "C30": ("compile witnesses: type checking by two compilers of every public member, instantiated for each kind of element type; static_assert obligations for const access; C header as C", "other", "Each witness instantiates the body of the member it names; the element kinds are those listed in the check."),
 "C32": ("symbolic extents (scalar evolution polynomials over LLVM IR) of every access compared with the requested sizes; path-sensitive check of the reuse test", "other", "Every access and region argument whose end is an affine/polynomial function of the parameters, in two ISA builds; accesses with data-dependent offsets or behind a test of the index are counted as undecided in the evidence."),
 "C21": ("typestate and lockset analysis of the worker pool (accounting, wake-up and shutdown protocol) on LLVM IR", "other", "Every path of the worker loop, the submit, wait and shutdown functions, plus every access to the pool's fields."),
}
NA = {
 "C01": "Equality of decoded and original bytes quantifies over all data values flowing through data-dependent coders (RLE, bit packing, LZ, zstd); no static argument in reach decides it. Its structural clauses are decided as C02, C03, C04 and C05.",
 "C06": "Needs a relational bound between input length, encoder output length and the bound formula, over data-dependent coders and zstd; its structural clause (output capped by the capacity, stored mode as a last resort) shows only in C03 and C17.",
 "C07": "Memory safety of hand-written decoders on arbitrary bytes: needs relational bounds between data-dependent lengths read from the stream and the ends of buffers, through bit-packing loops and zstd; intervals alone alarm on correct code and lint-like checks (a test dominates each read) would neither prove it nor see a wrong test. The error side (results tested, decoder lengths compared) is C14, failed stages reaching success C03.",
 "C08": "Same as C07 for the encoders: the space needed by a row depends on the values encoded and the checks are amortised over several writes, which no static domain in reach (intervals, polynomial offsets) relates to the remaining space.",
 "C11": "The operands are unsigned products and quotients of arguments, frame fields and data-dependent bit widths with wrap-around; deciding zero and oversized shifts needs path-sensitive relational values through tables and vector code. Not built; an approximation was judged likely to alarm on code where the property holds.",
 "C15": "Ownership moves through raw pointers into tagged words, intrusive lists, buffers shared between calls and callbacks; exactly-once release over an object's life needs shape invariants. Not built; local clauses (failed allocation, error and exception paths) are C12, C13 and C26.",
 "C27": "Exactly-once construction and destruction quantifies over the life of every element through moves, compression images and partially filled buffers; needs shape and counting invariants over histories. Local clauses are C23, C24 and C26.",
 "C29": "Completeness of the serialised content is an equality over histories and stream behaviour; the staleness clause is C23 and the error results of the codec calls C14.",
 "C22": "Wall-clock behaviour of the machine, not visible in the source.",
 "C28": "Equality of histories with std::vector quantifies over operation sequences and values; structural clauses are decided as C23 to C27.",
 "C31": "Quantitative performance; not a property of the source's shape.",
}
