#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run to regenerate).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)
NOTEST = "No multiplication routine has a runnable test (the spgemm test is an empty main); "
p('C01', 'One-phase plain-mask products are exact for every row algorithm',
  "For every pair of conformable CSR matrices and every CSR mask, the one-phase masked product under a plain mask contains an entry at (i,j) exactly when the mask has (i,j) and at least one product A(i,k)*B(k,j) exists, and that entry is the sum over all such k and of nothing else, with every multiplication taking the A value on the left. "
  "This holds for each provided row algorithm (dense-array accumulators, hash, compressed mask accumulator, and the heap variants including the dot variant), for entries whose value happens to be zero, and for any number of threads. The result is a well-formed CSR matrix.",
  ['inputs', 'configurations'], "all sparsity patterns, all masks, all row algorithms, all semirings, all thread counts",
  NOTEST + "correctness depends on the joint pattern of A, B and M and on accumulator reuse across rows",
  ['spgemm-blocks/masked-spgemm.h', 'spgemm-blocks/common.h', 'spgemm-blocks/msa/MSAAlgorithm.h', 'spgemm-blocks/hash/MaskedHashAlgorithm.h', 'spgemm-blocks/mca/MCAAlgorithm.h', 'spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h'],
  [('one-phase driver', 'spgemm-blocks/masked-spgemm.h:MaskedSpGEMM1p'), ('row algorithms', 'spgemm-blocks/*/*Algorithm*.h')], ['the CSR result C'])
p('C02', 'Complement-mask products are exact for every algorithm that supports them',
  "For every pair of conformable CSR matrices and every CSR mask, the complement-mask product contains an entry at (i,j) exactly when the mask lacks (i,j) and at least one product A(i,k)*B(k,j) exists, with value the sum over all such k. This includes rows on which the mask is empty or full, both the one-phase and two-phase drivers, and any number of threads.",
  ['inputs', 'configurations'], "all sparsity patterns, masks (including empty mask rows), algorithms that accept a complemented mask, one or two phases, thread counts",
  NOTEST + "empty mask rows, fully masked rows and revisited columns only appear for particular patterns",
  ['spgemm-blocks/masked-spgemm.h', 'spgemm-blocks/msa/MSAAlgorithm.h', 'spgemm-blocks/hash/MaskedHashAlgorithm.h', 'spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h'],
  [('complemented row algorithms', 'spgemm-blocks/msa, hash, heap')], ['the CSR result C'])
p('C03', 'Two-phase plain-mask products agree exactly with their symbolic counts',
  "For every conformable input and plain mask the two-phase product equals the exact masked product, and the per-row sizes computed by its symbolic phase equal the number of entries its numeric phase produces, so that no entry is lost, duplicated or written outside its row's slot. This holds for every row algorithm and thread count.",
  ['inputs', 'configurations'], "all sparsity patterns, masks, row algorithms, thread counts",
  NOTEST + "a symbolic/numeric disagreement corrupts neighbouring rows only for particular patterns",
  ['spgemm-blocks/masked-spgemm.h', 'spgemm-blocks/common.h'], [('two-phase driver', 'spgemm-blocks/masked-spgemm.h:MaskedSpGEMM2p'), ('row offsets', 'spgemm-blocks/common.h:setRowOffsets')], ['the CSR result C'])
p('C04', 'Row order: sorted algorithms yield strictly ascending rows; unsorted inputs work',
  "Algorithms that are configured or documented to produce sorted output (sorted dense-array and hash variants under a complemented mask, compressed mask accumulator and heap algorithms) produce rows with strictly ascending column indices for every input whose rows are sorted. "
  "The dense-array and hash algorithms also compute the exact masked product when rows of A, B and the mask are stored in arbitrary column order.",
  ['inputs', 'configurations'], "all patterns, all stored orders of up to the bounded row lengths, all algorithms",
  NOTEST + "order of a merge or of table collection depends on the whole row",
  ['spgemm-blocks/msa/MSAAlgorithm.h', 'spgemm-blocks/hash/HashAccumulator.h', 'spgemm-blocks/heap/Heap.h', 'spgemm-blocks/mca/MCAAlgorithm.h'],
  [('sorted collection', 'spgemm-blocks/*')], ['column indices of C'])
p('C05', 'Parallel masked products are race-free and independent of thread count',
  "For every input and every number of threads, no two threads of a masked product (one- or two-phase, row-based or inner-product) access the same memory location without synchronisation unless both only read it. Consequently the result for any thread count and any schedule equals the result computed by one thread, also when there are more threads than rows, or threads that receive no rows.",
  ['schedules', 'inputs', 'configurations'], "all interleavings of the bounded number of threads, all sparsity patterns",
  NOTEST + "a race shows only under particular schedules and distributions of work",
  ['spgemm-blocks/masked-spgemm.h', 'spgemm-blocks/masked-spgemm-inner.h', 'spgemm-blocks/common.h'], [('work distribution and barriers', 'spgemm-blocks/masked-spgemm.h')], ['memory accesses between barriers', 'result C'])
p('C06', 'Masked products respect memory: operands untouched, aliasing allowed, no leak',
  "A masked product never reads or writes outside its operands, its output and its own scratch memory, never reads memory it did not initialise, leaves its operands unchanged, and after the call the only memory it has retained is the result's. The output may be an existing non-empty matrix, or the same object as the left operand, right operand or mask, and the result is then the product of the original contents.",
  ['inputs', 'histories', 'configurations'], "all sparsity patterns, all aliasing choices, previously used outputs, one and two phases",
  NOTEST + "the aliasing test is not built and can only sample a few inputs; overruns by one element are invisible without symbolic bounds",
  ['spgemm-blocks/masked-spgemm.h', 'spgemm-blocks/common.h', 'spgemm-blocks/util.h', 'CSR.h', 'CSC.h'], [('output initialisation', 'spgemm-blocks/common.h:initC'), ('scratch buffers', 'spgemm-blocks/util.h')], ['heap', 'operands'])
p('C07', 'The hash accumulator is an exact map from column to accumulated value',
  "For every sequence of mask insertions, accumulations, collections and row changes, the masked hash accumulator holds exactly the columns inserted (colliding or not, up to full advertised capacity), reports for each whether it was found, accumulates values only into the addressed column, and collects each set column exactly once. After a row has been collected or cleared, or the accumulator is handed to the next row with a different size, no column or value of an earlier row is visible.",
  ['inputs', 'histories'], "all key sequences and interleavings of operations up to the stated lengths, all table sizes reached, all keys of the index type",
  "The unit test drives a handful of keys; probe chains, wrap-around and reuse across rows of different sizes depend on arbitrary key sets",
  ['spgemm-blocks/hash/HashAccumulator.h', 'spgemm-blocks/hash/MaskedHashAlgorithm.h'], [('probing and clearing', 'spgemm-blocks/hash/HashAccumulator.h')])
p('C08', 'Dense and compressed accumulators are exact and clean between rows',
  "For every sequence of operations, the two dense-array accumulators and the compressed mask accumulator return for each allowed column exactly the accumulated value and set flag, ignore disallowed columns, and leave their buffer in the clean state once a row is finished, so that the buffer can be handed over between the symbolic and numeric phase or to another accumulator without any residue of earlier rows.",
  ['inputs', 'histories'], "all operation sequences up to the stated length, both mask polarities",
  "The unit test samples fixed sequences; residue across rows or phases requires particular histories",
  ['spgemm-blocks/msa/MaskedSparseAccumulator1A.h', 'spgemm-blocks/msa/MaskedSparseAccumulator2A.h', 'spgemm-blocks/mca/MaskCompressedAccumulator.h'], [('state arrays', 'spgemm-blocks/msa')])
p('C09', 'Heap operations always expose the minimum and keep every element',
  "For every sequence of insertions, removals, key updates of the minimum and bulk heapification, the k-way merge heaps expose an element with the smallest column index, and contain exactly the multiset of elements inserted and not yet removed.",
  ['inputs', 'histories'], "all key sequences up to the stated size, all operation histories",
  "No test covers the heap; sift-down errors need particular key orders", ['spgemm-blocks/heap/Heap.h', 'HeapEntry.h', 'heap_mult.h'], [('sift operations', 'spgemm-blocks/heap/Heap.h')])
p('C10', 'Prefix sums are exact for every length and thread count',
  "Exclusive and inclusive prefix sums return, for every input length including zero, every input and every number of threads (also more threads than elements), exactly the sequential prefix sums, read and write only within the given arrays, and are free of data races. The same holds for the generic sequential/parallel scan used by the row-pointer constructions, on both sides of its size threshold.",
  ['inputs', 'schedules', 'configurations'], "all values, lengths and thread counts up to the stated bounds", "Tests compare a few power-of-two lengths with one thread count; lengths below the thread count and ragged chunk boundaries are not sampled",
  ['spgemm-blocks/scan.h', 'utility.h'], [('two-pass chunked scan', 'spgemm-blocks/scan.h'), ('scan', 'utility.h')])
p('C11', 'Work estimates are exact and the row distribution is a partition',
  "The number of multiplications estimated per row and in total equals the true number for the given operands (for the masked estimate, rows with an empty mask row count as zero; for the inner product, the summed lengths of the operand pairs that can meet). The distribution of rows to threads assigns every row to exactly one thread, in order, for every work profile and every number of threads.",
  ['inputs', 'configurations'], "all work profiles and thread counts up to the bounds", "No test; gaps or overlaps need particular work profiles",
  ['spgemm-blocks/common.h'], [('calculateFlops / calculateWork / distributeWork', 'spgemm-blocks/common.h')])
p('C12', 'Scratch memory: blocks are disjoint, aligned, contained, and freed once',
  "Splitting a scratch buffer returns blocks that lie inside the buffer, do not overlap, keep the requested order and sizes and are aligned for their element type; aligned allocation returns memory of at least the requested size at the requested power-of-two alignment and releases exactly what it allocated. Allocation with zeroing requested returns zero-initialised objects, and the advertised memory requirement of each row algorithm is sufficient for its accumulators.",
  ['inputs'], "all sizes, alignments and counts within the bounds, all base addresses", "Tests use a few sizes on whatever addresses the allocator returns",
  ['spgemm-blocks/util.h', 'utility.h'], [('splitMemory / mallocAligned / my_malloc', 'spgemm-blocks/util.h')])
p('C13', 'Building CSR and CSC matrices from triples preserves the matrix',
  "Constructing a compressed row or column matrix from any list of (row, column, value) entries within the stated dimensions yields exactly those entries (duplicates combined by the given operation where the constructor promises to), with consistent pointers, counts and dimensions, for any number of threads.",
  ['inputs'], "all triple lists up to the bounded length", "No test builds matrices from triples and inspects every entry", ['CSR.h', 'CSC.h', 'Triple.h'], [('constructors from triples and graphs', 'CSR.h, CSC.h'), ('merging of duplicates', 'CSC.h:MergeDuplicates')])
p('C14', 'Row/column format conversion and transposition are lossless',
  "Converting a matrix from compressed column to compressed row format, and transposing it in parallel with any number of threads, preserves every entry and its value with its (possibly exchanged) coordinates, and transposing twice returns the original matrix. The sequential conversion yields sorted rows from sorted columns; all of this includes empty matrices, empty rows and columns and rectangular shapes.",
  ['inputs', 'schedules', 'configurations'], "all sparsity patterns and thread counts within bounds", "No test covers the conversions", ['CSR.h', 'CSC.h', 'util/transpose.h'], [('conversion constructor', 'CSR.h'), ('parallel transpose', 'util/transpose.h')])
p('C15', 'Copying, assigning, comparing, sorting and relabelling keep the matrix exact',
  "Copy construction and assignment give an equal and independent matrix whatever the target held before; equality comparison reports two matrices equal exactly when they have the same dimensions, structure and values; sorting or shuffling the indices of each row or column permutes entries only within it and keeps each value with its index, as does switching between zero- and one-based numbering.",
  ['inputs', 'histories'], "all matrices within the bounds, all previous states of the target", "No test exercises these operations", ['CSR.h', 'CSC.h'], [('operator=, operator==, sortIds, shuffleIds', 'CSR.h, CSC.h')])
p('C16', 'Structural matrix operations return exactly the selected or combined entries',
  "Intersecting two matrices, selecting rows and columns by sorted index lists, and merging duplicate entries each return exactly the entries the operation names with their correct values, keep all pointers and counts consistent, and leave the operands unchanged. The sum over all entries of a matrix is exact for any number of threads.",
  ['inputs'], "all matrices within the bounds", "No test exercises these operations", ['CSR.h', 'CSC.h'], [('Intersect, sumall', 'CSR.h'), ('Intersect, SpRef, MergeDuplicates', 'CSC.h')])
p('C17', 'Inner-product masked products are exact',
  "For every CSR left operand, CSC right operand and CSR mask, the inner-product masked products (one- and two-phase) contain an entry at (i,j) exactly when the mask has (i,j) and row i of A and column j of B share an index, with the exact sum as value and columns in mask order, for every thread count.",
  ['inputs', 'configurations'], "all patterns, masks and thread counts within the bounds", NOTEST + "merge exhaustion and skipping errors need particular patterns",
  ['spgemm-blocks/masked-spgemm-inner.h', 'spgemm-blocks/inner/MaskedInnerSpGEMM.h', 'spgemm-blocks/inner/InnerAlgorithm.h'], [('inner drivers', 'spgemm-blocks/masked-spgemm-inner.h')])
p('C18', 'Legacy masked multipliers compute the same product as the reference',
  "The older masked multipliers (sparse-accumulator based, masked hash with row binning, mask-driven inner products and the generic heap variants) return exactly the masked product for every conformable input and mask, including empty rows in any operand, with any thread count, within memory bounds.",
  ['inputs', 'configurations'], "all patterns and masks within the bounds", NOTEST, ['mask_hash_mult.h', 'mask_hash.h', 'spa_mult.h', 'SPA.h', 'inner_mult.h', 'heap_mult_generic.h'], [('legacy drivers', 'mask_hash_mult.h, spa_mult.h, inner_mult.h, heap_mult_generic.h')])
p('C19', 'Unmasked row-wise products are exact',
  "The unmasked hash-based and heap-based multipliers return exactly the product of any two conformable matrices: an entry exactly where a product exists, with the full sum as value, sorted rows when sorting is requested, and per-row counts from the sizing pass equal to the entries produced, for any thread count.",
  ['inputs', 'configurations'], "all patterns within the bounds, sorted and unsorted output, thread counts", NOTEST, ['hash_mult_hw.h', 'heap_mult.h', 'BIN.h'], [('hash and heap multipliers', 'hash_mult_hw.h, heap_mult.h')])
p('C20', 'Outer products and the radix sort beneath them lose or merge no entry wrongly',
  "The column-by-row outer product returns exactly the product of any CSC left operand and CSR right operand within its documented index limits, with any number of blocks and threads. The radix sort used to order partial products returns a stably sorted permutation of its input for every key range and length.",
  ['inputs', 'configurations'], "all patterns, key sets, lengths within the bounds", NOTEST, ['outer_mult.h', 'outer_mult2.h', 'radix_sort/radix_sort.hpp'], [('propagation blocking', 'outer_mult.h'), ('radix sort', 'radix_sort/radix_sort.hpp')])
p('C21', 'Every bundled sorting routine sorts any input',
  "Each bundled sorting routine (pattern-defeating quicksort, the adaptive vergesort, both timsort libraries, and the parallel merge sort helpers) returns for every input and every strict weak ordering an ordered permutation of the input; the timsort libraries and merges are stable.",
  ['inputs'], "all value sequences up to the bounded length, covering the small-size and block code paths", "Tests sort a few random or structured arrays", ['pdqsort/pdqsort.h', 'vergesort/vergesort.h', 'timsort-cpp/include/timsort.hpp', 'cpp-TimSort/include/gfx/timsort.hpp', 'utility.h'], [('sort routines', 'pdqsort, vergesort, timsort-cpp, cpp-TimSort')])
p('C22', 'Removing duplicates from entry lists keeps every position exactly once',
  "Removing duplicates from a list of (row, column, value) entries returns every listed position exactly once, in ascending row-column order, with a value that was listed for it, for every list including the empty one. Random entry lists contain no position twice, only positions inside the requested dimensions, and no more entries than requested, for every random stream.",
  ['inputs'], "all entry lists up to the bounded length", "The triple utility test uses fixed small lists", ['util/triple-util.h', 'Triple.h'], [('triple helpers', 'util/triple-util.h')])
p('C23', 'Row binning sizes every hash table large enough and covers every row once',
  "The row binning of the hash multipliers counts the products per row exactly, cuts the rows into per-thread ranges that cover every row exactly once in order, and gives each row a power-of-two table at least as large as the number of distinct columns it can hold, for every operand and thread count.",
  ['inputs', 'configurations'], "all patterns and thread counts within bounds", "No test covers binning", ['BIN.h'], [('set_rows_offset, set_bin_id, create_local_hash_table', 'BIN.h')])
p('C24', 'Matrix file readers return exactly the entries in the file',
  "Reading a Matrix Market text file (general or symmetric) or a binary matrix file returns exactly the entries listed in it (both triangles of a symmetric one, value 1 where none is given, optionally without the diagonal), in range and with the declared dimensions, whatever the comments say and however long lines are, which blanks separate fields and how many threads run; a truncated file or one with wrong counts or indices outside the matrix is refused or yields a well-formed matrix, and never causes an out-of-bounds memory access; nothing but the result stays allocated.",
  ['inputs', 'configurations'], "all file contents within bounded length", "No test reads a file", ['IO.h', 'CSR.h'], [('text and binary readers', 'IO.h ReadASCII, ReadASCII_Triples, ReadBinary'), ('file constructor', 'CSR.h CSR(filename)')])
p('C25', 'Random graph generators produce the graph that was asked for',
  "For every outcome of the random streams, the R-MAT generators return exactly the requested number of edges, every endpoint is one of the requested vertices and every vertex can be one, weights lie in the requested range, self loops and duplicate edges appear only where they are allowed, and an undirected graph uses one triangle; the quadrant and weight of every edge follow from the draws; sorting (either way) orders the edges by source and loses, adds or mixes up none; a file lists the same edges as the graph in memory; parameter files and scale/edge factor set what they name; quadrant parameters stay probabilities; the answer does not depend on the number of worker threads, on how the work is cut into squares or on when threads run, nothing waits for what cannot come, no memory outside the edge lists is touched and nothing else stays allocated.",
  ['inputs', 'schedules', 'configurations'], "all outcomes of the random streams within bounds", "No test runs a generator", ['GTgraph/R-MAT', 'PaRMAT/src', 'sample/sample_common.hpp'],
  [('serial generator and sorts', 'GTgraph/R-MAT/graph.c graphGen, utils.c countingSort, heapSort, writeToFile, init.c'), ('parallel generator', 'PaRMAT/src/GraphGen_notSorted.cpp, GraphGen_sorted.cpp, utils.cpp, Square.cpp, capacity_controller.hpp')])
p('C26', 'The poly-algorithm driver equals the exact masked product',
  "The driver that picks a row algorithm per row returns exactly the masked product whatever mixture of algorithms its selection picks, with shared scratch memory never carrying residue from one algorithm to another.",
  ['inputs', 'configurations'], "all patterns, all selections", NOTEST, ['spgemm-blocks/masked-spgemm-poly.h'], [('poly driver', 'spgemm-blocks/masked-spgemm-poly.h')])
p('C27', 'Bitmaps and split tuples reproduce their contents',
  "A bitmap reports exactly the bits that were set, also through next-bit iteration, after copying or resetting, when many threads set bits at the same time, and across word boundaries. Splitting a matrix into tuple pieces by row blocks yields each entry exactly once, with its value, in the piece its row belongs to, also for more pieces than rows.",
  ['inputs', 'schedules'], "all bit indices and matrices within the bounds", "Not tested", ['BitMap.h', 'SplitTuples.h'], [('bitmap', 'BitMap.h'), ('splitting', 'SplitTuples.h')])
p('C28', 'Graph and product drivers report the exact counts',
  "The triangle counting drivers report the exact number of triangles of the graph they are given (any pattern: with self loops, entries in one or both directions, without edges), whichever algorithm, mode, thread count and number of iterations is chosen, in one piece or cut into a grid of blocks. The masked and the complement-masked product drivers report the number of entries (and their sum, where they print one) of the exact product for every algorithm they run. No driver touches memory outside its buffers, races, or retains memory.",
  ['inputs', 'configurations', 'schedules'], "all graphs up to a bounded size, all algorithms", "The drivers have no tests; they are only built", ['benchmarks', 'sample'], [('triangle counting', 'benchmarks/TriCntAll.cpp main, preprocessInput, HashIntersect'), ('iteration', 'benchmarks/benchmarks-util.h run'), ('masked and complemented', 'benchmarks/MaskedAllSpGEMM.cpp, benchmarks/ComplementMaskedSpGEMM.cpp'), ('samples', 'sample/all_parallel_tc.cpp, sample/blocked_parallel_tc.cpp')])
p('C29', 'Matrices cross the GraphBLAS boundary unchanged',
  "Taking a GraphBLAS matrix over (by rows or by columns, from a copy or from the matrix itself, also when all its values are equal or it is empty) yields exactly its entries, and handing the arrays of a matrix to GraphBLAS (copied, moved or packed; zero or one based) yields a GraphBLAS matrix with exactly the same entries, type and dimensions, with the true sizes of the arrays. The helpers (reading with duplicates, symmetrising, lower triangle, renaming by degree, storing by columns, avoiding uniform values) deliver exactly the entries they describe. Handles that no longer exist are reset and nothing stays allocated.",
  ['inputs', 'histories'], "all patterns within the bounds", "No test uses GraphBLAS", ['CSR.h', 'CSC.h', 'grb_util.h'], [('in', 'CSR.h CSR(GrB_Matrix), CSR(GrB_Matrix*, bool), CSC.h CSC(GrB_Matrix)'), ('out', 'CSR.h get_grb_mat, get_grb_mat_ptr, CSC.h get_grb_mat'), ('helpers', 'grb_util.h')])
p('C30', 'Counting common neighbours on GraphBLAS matrices is exact',
  "One step of triangle counting or k-truss as the library is used with GraphBLAS (matrices with 64-bit indices taken over, the product of the graph with itself under its own pattern as mask, everything handed back) gives, for every row algorithm, phase count and thread count, an entry for exactly the edges with a common neighbour, with their number, while the operands come back unchanged, rows are in order where promised, and neither the step nor what the output held before leaves memory behind.",
  ['inputs', 'configurations'], "all graphs within the bounds, every algorithm", "No test uses 64-bit indices or GraphBLAS", ['mask_hash_mult.h', 'spa_mult.h', 'spgemm-blocks', 'inner_mult.h'], [('products', 'MaskedSPASpGEMM, mxm_hash_mask, mxm_hash_mask_wobin, MaskedSpGEMM1p, MaskedSpGEMM2p, innerSpGEMM_nohash, MaskedSpGEMM1pInnerProduct, MaskedSpGEMM2pInnerProduct'), ('interchange', 'CSR.h, CSC.h')])
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, (d['id'], len(d['title']))
        f.write(json.dumps(d) + '\n')
