#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the single source of the property texts).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=[],observe=[],hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
NT="No existing test calls a multiplication at all (the tests cover scan, memory splitting, the two accumulators and triple helpers in isolation, single-threaded or under one uncontrolled schedule). "
p("C01","Masked product equals the mask-restricted product under every schedule",
 "For a mask, C = M .* (A*B) computed by any of the library's row-wise masked methods (dense accumulator, hash, heap, mask-compressed, one- or two-phase, or the cost-driven mix) has exactly the positions where the mask has an entry and at least one product term exists, each holding the sum of all its product terms. The row offsets are consistent (start at 0, non-decreasing, end at the entry count) and column ids are in range and unique per row, in increasing order when inputs are sorted. This holds for all shapes, sparsity patterns, value types, requested thread counts and thread interleavings, including operands whose number of possible products exceeds the index type although the matrices themselves fit it.",
 ["schedules","inputs","configurations"],"all conforming CSR operands (including empty rows/matrices, zero-flop rows, dense rows, wide matrices), all thread counts 0..many, all interleavings of the worker threads",
 NT+"Interleavings and thread counts are never varied.",
 ["spgemm-blocks/masked-spgemm.h","spgemm-blocks/masked-spgemm-poly.h","spgemm-blocks/common.h","spgemm-blocks/msa/MSAAlgorithm.h","spgemm-blocks/msa/MaskedSparseAccumulator1A.h","spgemm-blocks/msa/MaskedSparseAccumulator2A.h","spgemm-blocks/msa/MSAAlgorithm_old.h","spgemm-blocks/hash/MaskedHashAlgorithm.h","spgemm-blocks/hash/HashAccumulator.h","spgemm-blocks/heap/MaskedHeapAlgorithm.h","spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h","spgemm-blocks/mca/MCAAlgorithm.h","spgemm-blocks/mca/MaskCompressedAccumulator.h"],
 [("row partition by flops, per-thread row ranges","spgemm-blocks/common.h distributeWork"),("barriers between local compute, allocation of the result and the copy-out","spgemm-blocks/masked-spgemm.h"),("per-row accumulators restored to empty after each row","spgemm-blocks/*/")],
 [("rowNvals/threadNvals","per row / per thread result sizes","spgemm-blocks/masked-spgemm.h")],["the returned matrix"])
p("C02","Complemented-mask product equals the product outside the mask",
 "For a complemented mask, C = (not M) .* (A*B) computed by any method that offers complementing has exactly the positions where at least one product term exists and the mask has no entry, each holding the sum of all its product terms; an empty mask row lets the whole product row through. Methods asked for sorted output deliver each row's column ids in increasing order, the others deliver each column once in any order. This holds for all inputs, thread counts and interleavings.",
 ["schedules","inputs","configurations"],"all conforming operands and masks including empty mask rows and full masks, sorted and unsorted output variants, all thread counts and interleavings",
 NT+"Complemented masks never appear in a test.",
 ["spgemm-blocks/masked-spgemm.h","spgemm-blocks/msa/MSAAlgorithm.h","spgemm-blocks/hash/MaskedHashAlgorithm.h","spgemm-blocks/hash/HashAccumulator.h","spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h"],
 [("mask entries enter the accumulator as blocked before products arrive","spgemm-blocks/msa/MSAAlgorithm.h, hash/MaskedHashAlgorithm.h"),("gather of only non-blocked entries","spgemm-blocks/hash/HashAccumulator.h")],[],["the returned matrix"])
p("C03","Inner-product masked multiplication equals the mask-restricted product",
 "Masked multiplication by dot products of rows of A with columns of a column-stored B returns exactly the mask-restricted product: a position is present if and only if the mask has it and the row and column share at least one index, and it holds the sum over all shared indices. This holds for every inner-product entry point, one- or two-phase, under all inputs, thread counts and interleavings.",
 ["schedules","inputs","configurations"],"all conforming CSR/CSC operands and masks, all thread counts and interleavings",
 NT+"The inner-product drivers have their own partitioning and copy-out that no test reaches.",
 ["spgemm-blocks/masked-spgemm-inner.h","spgemm-blocks/inner/MaskedInnerSpGEMM.h","spgemm-blocks/inner/InnerAlgorithm.h","inner_mult.h"],
 [("merge of two sorted index lists","spgemm-blocks/inner/InnerAlgorithm.h"),("two-phase size count then fill","spgemm-blocks/inner/MaskedInnerSpGEMM.h")],[],["the returned matrix"])
p("C04","Results are bit-identical for every thread count and schedule",
 "For each row-wise or inner-product method (masked, complemented, legacy or unmasked hash/heap), repeating the same multiplication with a different number of threads or a different interleaving gives bit-for-bit the same row offsets, column ids and values (in the same order within a row unless the method leaves that order unspecified), even for floating-point values whose sum depends on the order of addition and for add operations that are not commutative.",
 ["schedules","configurations"],"all pairs of (thread count, interleaving) for a given method and input",
 "A test run observes one uncontrolled schedule and one thread count; equality across all of them is a two-run (hyper)property the tests never state.",
 ["spgemm-blocks/masked-spgemm.h","spgemm-blocks/masked-spgemm-poly.h","spgemm-blocks/masked-spgemm-inner.h","spgemm-blocks/common.h","hash_mult_hw.h","heap_mult.h","BIN.h"],
 [("each output row is produced wholly by one thread in operand order","row drivers"),("no shared accumulation of values across threads","row drivers")],[],["the returned matrices of two runs"])
p("C05","Sequences of operations: inputs untouched, outputs fully replaced, in-place ok",
 "In any sequence of multiplications (row-wise masked, earlier-generation, unmasked), copies, assignments, moves into containers and clears over a set of matrices (with zero- or, for copies, one-based ids), each operation leaves its inputs unchanged bit for bit, makes the output exactly the new result whatever the output held before, and copies stay independent of their originals. The one- and two-phase row-wise drivers also accept an output that is the same object as A, B or the mask.",
 ["histories","schedules","inputs"],"all finite operation histories over a pool of matrices with aliasing between output and operands",
 "The tests have no multi-step scenario; the 'same in/out' test file is not about multiplication results.",
 ["CSR.h","CSC.h","spgemm-blocks/masked-spgemm.h","spgemm-blocks/masked-spgemm-inner.h","spgemm-blocks/common.h"],
 [("output cleared only after all reads of operands","spgemm-blocks/masked-spgemm.h"),("deep copies in copy construction and assignment","CSR.h, CSC.h")],[],["all matrices of the pool after each step"])
p("C06","Multiplications are memory-safe, leak-free and ignore stale memory contents",
 "No multiplication (row-wise, inner-product, earlier-generation, unmasked or by outer products), under any schedule, reads or writes outside the blocks it owns, touches a freed block, frees a block twice, or stops making progress; when it returns, the only memory still allocated on its behalf is the result. Its result never depends on what freshly allocated memory happens to contain or on where blocks are placed.",
 ["schedules","inputs","fault_sequences"],"all inputs, schedules, heap contents and placements",
 "Ordinary runs do not notice stray accesses, and fresh memory is almost always zero in a short test process.",
 ["spgemm-blocks/masked-spgemm.h","spgemm-blocks/util.h","spgemm-blocks/common.h","spgemm-blocks/hash/HashAccumulator.h","spgemm-blocks/msa/MSAAlgorithm.h","spgemm-blocks/heap/Heap.h","utility.h","CSR.h","heap_mult_generic.h","outer_mult.h","mask_hash_mult.h","hash_mult_hw.h"],
 [("per-thread scratch sized from the thread's row range","spgemm-blocks/*/ getMemoryRequirement"),("initialisation of accumulators before first use","spgemm-blocks/*")],[],["simulated heap"])
p("C07","Receiving fewer threads than requested never changes a result",
 "If the runtime gives a parallel operation fewer threads than it asked for (nested call, thread limit, dynamic adjustment), the operation still returns exactly the result it would return with all of them, or does not return normally; it never returns a wrong or partly uninitialised result.",
 ["schedules","configurations","fault_sequences"],"all requested/delivered thread-count pairs with delivered >= 1, different deliveries for successive parallel regions, nested calls",
 "Tests run at top level with dynamic adjustment off, so requested and delivered counts always agree.",
 ["spgemm-blocks/masked-spgemm.h","spgemm-blocks/masked-spgemm-poly.h","spgemm-blocks/masked-spgemm-inner.h","spgemm-blocks/inner/MaskedInnerSpGEMM.h","spgemm-blocks/scan.h","BIN.h","hash_mult_hw.h","mask_hash_mult.h","spa_mult.h","inner_mult.h","heap_mult_generic.h","outer_mult.h","utility.h"],
 [("partition derived from the delivered thread count","every parallel region")],[],["the returned matrix"])
p("C08","Independent multiplications running concurrently do not disturb each other",
 "When several threads of one process call multiplications (masked or unmasked, of any family) at the same time, each with its own output matrix and possibly sharing read-only inputs, every call returns exactly the result it returns when run alone, under every interleaving.",
 ["schedules","histories"],"all interleavings of 2..3 concurrent callers, each with its own worker team, with shared inputs",
 "No test calls the library from more than one thread.",
 ["spgemm-blocks/masked-spgemm.h","spgemm-blocks/masked-spgemm-poly.h","spgemm-blocks/masked-spgemm-inner.h","spgemm-blocks/scan.h","spgemm-blocks/common.h","utility.h","outer_mult.h","hash_mult_hw.h","mask_hash_mult.h"],
 [("no mutable state shared between calls","spgemm-blocks/*")],[],["the returned matrices"])
p("C09","Parallel prefix sums and work estimates equal their sequential definition",
 "The parallel inclusive and exclusive prefix sums, the whole-array prefix sum used for row offsets, and the parallel work (flop) estimates and per-row counts return exactly the sequential result for every length, value, thread count and interleaving, and write only their output range. The estimates are right even when a total exceeds the index type although every array fits it. The upper bounds from which scratch buffers are sized are large enough for every row. The derived assignment of rows to threads covers every row exactly once, in order.",
 ["schedules","inputs","configurations"],"all lengths including 0, fewer elements than threads and lengths above the parallel threshold; all thread counts and interleavings",
 "The scan test samples a few sizes with the default schedule of a real machine; it cannot force a late or early thread at a phase boundary and never covers the large-array scan or the work estimates.",
 ["spgemm-blocks/scan.h","utility.h","BIN.h","spgemm-blocks/common.h","heap_mult.h","inner_mult.h","outer_mult.h"],
 [("per-thread partial sums, barrier, offset, second pass","spgemm-blocks/scan.h, utility.h scan"),("binary search of the scanned work","BIN.h set_rows_offset, spgemm-blocks/common.h distributeWork")],[],["the output arrays"])
p("C10","Earlier-generation masked kernels also return the mask-restricted product",
 "The older masked kernels kept in the library (binned hash with and without binning, sparse accumulator, dot product without hashing, generic masked heap versions and masked compressed versions) return the same mask-restricted product as the reference definition, with consistent row offsets, for all inputs, thread counts and interleavings.",
 ["schedules","inputs","configurations"],"all conforming operands and masks (including empty mask rows and A different from B), all thread counts and interleavings",
 NT,
 ["mask_hash_mult.h","mask_hash.h","spa_mult.h","SPA.h","inner_mult.h","heap_mult_generic.h","BIN.h"],
 [("row bins by flops","BIN.h"),("open-addressing table sized from the mask row","mask_hash.h"),("per-row merge heap","heap_mult_generic.h")],[],["the returned matrix"])
p("C11","Unmasked products (hash, heap, outer) equal the full product",
 "Unmasked sparse multiplication by hashing, by heap merging on column storage and by outer products with propagation blocking returns exactly all positions with at least one product term, each with the sum of its terms (up to rounding order for the outer-product method), for all inputs, thread counts, block parameters and interleavings.",
 ["schedules","inputs","configurations"],"all conforming operands, thread counts, block counts/widths, sorted and unsorted output, all interleavings including of the shared block counters",
 NT+"The lock-free hand-off of blocks between threads in the outer-product method is untested.",
 ["hash_mult_hw.h","BIN.h","heap_mult.h","outer_mult.h","radix_sort/radix_sort.hpp"],
 [("atomic reservation of space in shared blocks","outer_mult.h"),("thread-local tables by row bin","hash_mult_hw.h"),("per-thread heaps and gathered columns","heap_mult.h")],[],["the returned matrix"])
p("C12","Transposition and row/column storage conversion preserve the matrix",
 "Converting between row-compressed and column-compressed storage, and the parallel transposition, produce exactly the same set of (row, column, value) entries with consistent offsets, (conversion from column storage: with increasing ids) for all shapes and sparsity patterns, thread counts and interleavings; converting there and back gives the original entries.",
 ["schedules","inputs"],"all matrices (empty rows/columns, rectangular), all thread counts and interleavings of the atomic slot reservation",
 "No test converts or transposes a matrix.",
 ["util/transpose.h","CSR.h","CSC.h"],
 [("atomic reservation of slots per column","util/transpose.h"),("counting sort into offsets","CSR.h CSR(const CSC&), CSC.h")],[],["the returned arrays"])
p("C13","Building, sorting, merging and intersecting matrices loses no entry",
 "Building a matrix from triples, index pairs, parallel arrays, an edge list or tuples (the latter two combine duplicates), sorting or shuffling ids within rows, merging duplicates, elementwise intersecting, removing duplicate triples, summing all values, shifting between zero- and one-based ids and comparing matrices yield exactly what the sequential definition of the operation gives (duplicates combined with the given operation, builders from entry lists with increasing ids), with consistent offsets, for all inputs, thread counts and interleavings.",
 ["schedules","inputs"],"all triple lists with duplicates, empty rows/columns, unsorted ids, rectangular and empty shapes; all thread counts and interleavings",
 "The triple helpers test covers three-line examples; constructors, merging, sorting and intersection run in parallel and are untested.",
 ["CSR.h","CSC.h","util/triple-util.h","Triple.h"],
 [("parallel per-row/column sort, count, prefix sum and copy","CSR.h, CSC.h")],[],["the resulting matrices"])
p("C14","Reading a matrix file returns the stored matrix or reports failure",
 "Reading a text (Matrix Market coordinate: general or symmetric; integer, real or pattern values) or binary matrix file either yields exactly the matrix the bytes describe or reports failure (error return, diagnostic with termination, exception); with short reads, truncated or missing files or I/O errors at any point it never returns success with a different matrix, crashes by stray memory access, or loops forever.",
 ["fault_sequences","inputs"],"all matrices, all positions of a short read, truncation or I/O error in the stream, missing files",
 "No test reads a file; failure paths need injected stream faults.",
 ["IO.h","CSR.h","sample/","utility.h"],
 [("header then record loop with counts","IO.h ReadASCII, ReadBinary"),("line-oriented reader","CSR.h CSR(string)")],[],["return values and the resulting matrix"])
p("C15","K-truss returns exactly the k-truss of the graph",
 "The k-truss computation returns exactly the maximal subgraph in which every edge lies in at least k-2 triangles of that subgraph, with each edge's triangle support as value, for every undirected simple graph, k, masked method, thread count and interleaving.",
 ["schedules","inputs","configurations"],"all symmetric loop-free graphs, k >= 3, each masked multiplication method plugged in, all interleavings",
 "The k-truss program is only ever run by hand as a benchmark; no test compares its result.",
 ["benchmarks/KTrussAllGrb.cpp","grb_util.h","spgemm-blocks/"],
 [("iterate support = masked square, prune, until the edge count is stable","benchmarks/KTrussAllGrb.cpp msp_ktruss")],[],["the returned matrix"])
p("C16","Betweenness centrality matches Brandes' definition",
 "The batched betweenness-centrality computation returns, for every vertex, the sum over the given source batch of the dependency of that source on the vertex as defined by shortest-path counts (within rounding), for every directed graph without self loops, batch of sources, masked method, thread count and interleaving.",
 ["schedules","inputs","configurations"],"all graphs, source batches, complement-capable methods, all interleavings",
 "The program is only run by hand as a benchmark; no test compares its result.",
 ["benchmarks/BCAllGrb.cpp","grb_util.h","spgemm-blocks/"],
 [("breadth-first sweep with complemented mask, then backward accumulation","benchmarks/BCAllGrb.cpp")],[],["the centrality vector"])
p("C17","Triangle counting counts every triangle exactly once",
 "For every undirected simple graph, preprocessing the adjacency matrix and summing the masked product with any of the library's masked methods gives exactly the number of triangles of the graph, for all thread counts and interleavings, and relabelling vertices does not change the count.",
 ["schedules","inputs","configurations"],"all undirected simple graphs, all masked methods of the triangle-counting program, thread counts and interleavings",
 "The triangle-counting program prints timings; no test checks a count.",
 ["benchmarks/TriCntAll.cpp","CSR.h","spgemm-blocks/","multiply.h"],
 [("degree-ordered relabelling, lower triangle, masked square, parallel sum","benchmarks/TriCntAll.cpp, CSR.h sumall")],[],["the count"])
p("C18","The parallel graph generator emits exactly the requested edges, always",
 "For valid parameters the multithreaded R-MAT generator terminates and writes exactly the requested number of edges, one per line, with both endpoints in range; sorted output is ordered by source, a no-self-edge request yields none, an undirected request yields only one orientation, and a no-duplicates request yields none. This holds for every interleaving of workers and writer, every worker count and every memory capacity that holds a fair share of the edges, including capacities that force workers to wait.",
 ["schedules","inputs","configurations"],"all interleavings of worker threads, the writer and the capacity gate; parameters, thread counts and capacities; spurious wake-ups",
 "The generator has no test; deadlock and lost-edge outcomes depend on lock and wake-up order.",
 ["PaRMAT/src/GraphGen_notSorted.cpp","PaRMAT/src/GraphGen_sorted.cpp","PaRMAT/src/threadsafe_queue.hpp","PaRMAT/src/capacity_controller.hpp","PaRMAT/src/utils.cpp","PaRMAT/src/Square.cpp","PaRMAT/src/PaRMAT.cpp"],
 [("two-lock queue with condition variable","PaRMAT/src/threadsafe_queue.hpp"),("capacity gate","PaRMAT/src/capacity_controller.hpp"),("round-robin joining writer","PaRMAT/src/GraphGen_sorted.cpp")],[],["output file, exit status"])
p("C19","The graph generator never reports success for an incomplete output file",
 "If the output file cannot be created or any write to it, including the final one at closing, fails (disk full, I/O error) the generator ends with a failure status; if it ends with success, the file holds every edge. Short and interrupted writes alone do not lose or duplicate edges.",
 ["fault_sequences","schedules"],"all positions and kinds of write fault (short write, EINTR, ENOSPC, EIO), open failures, all interleavings",
 "No test runs the generator and none injects storage faults.",
 ["PaRMAT/src/PaRMAT.cpp","PaRMAT/src/GraphGen_sorted.cpp","PaRMAT/src/GraphGen_notSorted.cpp","PaRMAT/src/utils.cpp"],
 [("stream state after the last flush decides the exit status","PaRMAT/src")],[],["exit status and file content"])
p("C20","Allocation failure never yields a silently wrong result",
 "If a memory allocation fails during a multiplication, the operation either still returns the correct result or does not return normally (exception or termination); it never returns normally with a wrong or partial matrix.",
 ["fault_sequences","schedules"],"failure of any single allocation or of all allocations from some point on, under any schedule",
 "Tests never make an allocation fail.",
 ["utility.h","spgemm-blocks/masked-spgemm.h","spgemm-blocks/masked-spgemm-inner.h","spgemm-blocks/util.h","CSR.h"],
 [("no result is published from an unallocated block","utility.h my_malloc and its callers")],[],["termination status and returned matrix"])
p("C21","Exchange with GraphBLAS objects preserves the matrix",
 "Handing a matrix to GraphBLAS and taking one back preserves dimensions and every entry exactly, leaves both sides usable, and multiplying through the library between the two conversions gives the same result as multiplying the original matrices.",
 ["inputs","schedules"],"all matrices and conversion sequences, all thread counts and interleavings",
 "No test links GraphBLAS.",
 ["grb_util.h","CSR.h","CSC.h"],
 [("export/import of compressed arrays","grb_util.h")],[],["both representations"])
p("C22","Queue and capacity gate behave as their sequential models under concurrency",
 "The concurrent queue behaves as an atomic first-in-first-out queue: every pushed element is delivered to exactly one removal, in an order consistent with real time, a non-blocking removal reports emptiness only if the queue could be empty at that moment, a blocking removal returns as soon as an element is available, and nothing leaks. The capacity gate never lets the admitted amounts (plus the initial load) exceed its capacity, and every request that fits once others have released enough is admitted, even while larger requests keep waiting. Both hold for any number of concurrent users, every interleaving and spurious wake-ups.",
 ["schedules","histories"],"all histories of pushes and removals (blocking and not, both forms) and of admissions and releases, from any number of threads, under all interleavings and spurious wake-ups",
 "No test touches the queue or the gate; lost wake-ups and lost elements need particular interleavings.",
 ["PaRMAT/src/threadsafe_queue.hpp","PaRMAT/src/capacity_controller.hpp"],
 [("separate head and tail locks, notification after the push","PaRMAT/src/threadsafe_queue.hpp"),("condition wait on the accumulated amount, notify_all on release","PaRMAT/src/capacity_controller.hpp")],[],["values returned by the operations, admitted amounts"])
p("C23","Serial graph generators write the configured graph or report failure",
 "For valid parameters, given as options or in a configuration file, the serial R-MAT, G(n,p)/G(n,m) and SSCA2 generators terminate with success only after writing a complete graph file in the announced format: announced and actual numbers of vertices and edges agree, endpoints are in range, weights are integers within the configured bounds, self loops and sorting follow the configuration, edge and quadrant frequencies follow the configured probabilities (G(n,0) is empty, G(n,1) complete), and SSCA2 cliques are complete and at most of the configured size. The output does not depend on heap contents, no memory outside the edge arrays is touched however many edges are drawn, and if a file cannot be opened, written or closed, or memory is lacking, no complete-looking success is reported.",
 ["inputs","configurations","fault_sequences"],"all parameter combinations and seeds, heap contents, failing or short writes, full disks, failing opens, closes and allocations",
 "The generators have no test; edge arrays overflow, sorts misplace edges and failed writes go unnoticed only for particular counts, probabilities and faults.",
 ["GTgraph/R-MAT/","GTgraph/random/","GTgraph/SSCA2/","GTgraph/sprng2.0-lite/"],
 [("edge arrays sized by an estimate, growing","GTgraph/random/graph.c, GTgraph/SSCA2/graph.c"),("heap sort by counted keys","GTgraph/*/utils.c"),("output status at close","GTgraph/*/graph.c")],[],["graph file, exit status"])
p("C30","Sequential sorting building blocks sort correctly",
 "The vendored comparison sorts and the pattern-defeating, verge and radix sorts return a sorted permutation of their input for every input; the merge-based ones are stable.",
 ["inputs"],"all inputs","The vendored tests sample inputs.",
 ["cpp-TimSort/","timsort-cpp/","pdqsort/","vergesort/","radix_sort/"],[("pure sequential algorithms","vendored headers")])
p("C31","A random stream's values depend on its own parameters and lineage only",
 "Every random stream of the serial random-number library (lagged Fibonacci, linear congruential 48 and 64 bit, combined multiple recursive and multiplicative lagged Fibonacci generators) yields a sequence determined by its generator type, parameter, stream number, seed and spawning lineage alone - the published sequence - whatever other streams were created, drawn from (also by other threads at the same time), spawned, packed, unpacked or freed before or in between and whatever the heap held. A packed and unpacked stream continues where the original stood, streams spawned from one another differ, a stream reports its own seed, the stream counts are exact, invalid requests and damaged packed streams are refused, a failing allocation makes a call report failure instead of handing out a wrong stream, and freeing all streams gives back all memory.",
 ["histories","schedules","fault_sequences","inputs"],"all histories of creating, drawing, spawning, packing, unpacking and freeing streams of all generators and parameters, all interleavings of threads drawing from distinct streams, failing allocations",
 "The vendored tests are not run and draw from one generator at a time; interference between streams needs particular histories.",
 ["GTgraph/sprng2.0-lite/src/"],
 [("per-stream state, global register length and seed only for warnings","GTgraph/sprng2.0-lite/src/lfg/lfg.c"),("node numbering of spawned streams","GTgraph/sprng2.0-lite/src/*/"),("type dispatch of packed streams","GTgraph/sprng2.0-lite/src/sprng/sprng.c")],[],["values drawn, status of the calls, heap"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
