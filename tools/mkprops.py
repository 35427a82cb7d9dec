#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay valid JSON)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "Reference multiplication returns the exact product",
     "For every matrix size N (including 0 and 1) and all element values, the naive reference multiplication returns an N x N matrix in which every entry is the dot product of the row of A with the column of B, or with the row of B when the variant for an already transposed B is called. The result is the same for every number of OpenMP threads and every interleaving of them, there is no data race, and A and B are left unchanged. Nothing computed earlier in the process influences the result.",
     ["inputs", "schedules", "configurations", "histories"],
     "all N, element types, element values (finite values with exact products; infinities and NaN propagate as in IEEE arithmetic), OpenMP team sizes and thread schedules, call histories",
     "The only runnable repository tests never call the multiplication; the HPX tests use a few fixed power-of-two sizes with free-running threads.",
     ["src/reference_kernels/naive.hpp"],
     [("one private accumulator per result entry, each entry written by exactly one thread", "src/reference_kernels/naive.hpp naive_matrix_multiply / naive_matrix_multiply_transposed")],
     observe=["returned vector", "A and B after the call"])

prop("C02", "Block kernels compute exactly the requested block of the product",
     "Each block kernel, asked for the square block of A*B whose upper left corner is (x, y), leaves in its output buffer the entries of the product for exactly those rows and columns, stored densely row by row, for every matrix size, block position and block size that fits into the matrix (the register-blocked kernel: block sizes that are multiples of 4, with any non-zero input chunk size, and a zeroed output buffer to add to). No kernel reads or writes outside the matrices and the block buffer, whatever the input chunk size, and A and B stay unchanged.",
     ["inputs", "configurations", "histories"],
     "all N, all (x, y, block size) with the block inside the matrix, all input chunk sizes including ones larger than N or not dividing N, all element values and types",
     "No runnable test calls the kernels; the HPX tests only reach block sizes and chunk sizes that divide power-of-two matrices.",
     ["src/reference_kernels/kernel.hpp"],
     [("index arithmetic of the unrolled 4x2 register blocking and of the copy into small buffers", "src/reference_kernels/kernel.hpp kernel_transposed_blocked"),
      ("full dot product per entry", "src/reference_kernels/kernel.hpp kernel, kernel_transposed")],
     observe=["block buffer", "memory accesses (AddressSanitizer)"])

prop("C03", "Recursive single-node multiplication is correct under every task schedule",
     "The single-node task-recursive multiplication returns the exact product A*B (A times the transpose of the stored B when B is given transposed) for every matrix size, result block size (0 disables splitting), input chunk size (0 disables chunking) and repetition count >= 1. This holds for every order in which its tasks and continuations run, it always terminates, it has no data race, and repeating the computation on the same or on other matrices does not change any result.",
     ["inputs", "schedules", "configurations", "histories"],
     "all N, block_result, block_input, transposed, repetitions; all interleavings of the recursive tasks and continuations; sequences of calls in one process",
     "These tests need HPX, are not runnable here, and only sample the free-running scheduler for a few fixed sizes.",
     ["src/variants/single.cpp", "src/variants/single.hpp", "src/variants/components/recursive.cpp", "src/variants/components/recursive.hpp", "src/variants/components/multiplier.cpp", "src/variants/components/multiplier.hpp", "src/reference_kernels/kernel.hpp"],
     [("quadrant recursion, continuations insert disjoint quadrants, wait for all before returning", "src/variants/components/recursive.cpp distribute_recursively / extract_submatrix"),
      ("leaf kernel selection", "src/variants/components/multiplier.cpp calculate_submatrix"),
      ("component creation and symbolic names per locality", "src/variants/single.cpp")],
     state=[("C", "partial result shared by the four continuations of a recursion node", "recursive::distribute_recursively")],
     observe=["returned vector", "deadlock or livelock of the task system", "data races"])

prop("C04", "Work distribution partitions the result and balances the load",
     "For every matrix size, number of nodes and tolerance setting, the static work distribution terminates and hands out square packages that lie inside the result matrix and cover every entry exactly once, with all work on the first node before any split and no package split whose edge is not larger than the minimum work size. It ends only when the load difference between the most and the least loaded node is below the absolute or (if no node is idle) the relative tolerance, or when no package of any most loaded node can be halved and handed over without increasing that difference; the acceptance test itself reports exactly whether the given loads are within tolerance. Copying a computed package into the result writes exactly the package's cells.",
     ["inputs", "configurations"],
     "all N, node counts, min_work_size, max_work_difference, max_relative_work_difference and load vectors",
     "No repository test looks at the distribution; multi-node runs are impossible in the test set-up.",
     ["src/variants/static_improved.cpp", "src/variants/static_improved.hpp", "src/variants/matrix_multiply_work.hpp"],
     [("greedy halving of the best package of a most loaded node", "src/variants/static_improved.cpp create_schedule"),
      ("tolerance test", "src/variants/static_improved.cpp fulfills_constraints"),
      ("insertion of package results", "src/variants/static_improved.cpp insert_submatrix")],
     state=[("all_work / total_work", "packages and load per node", "create_schedule")],
     observe=["returned schedule", "return value of the tolerance test", "result matrix after insertion"])

prop("C05", "Distributed multiplication is correct for any nodes and completion order",
     "The distributed multiplication returns the exact product for every matrix size, number of participating nodes >= 1, work-distribution setting, block sizes, transposition flag and repetition count >= 1, whatever the order in which remote packages are executed and their results arrive. With more than one node the root node computes no package, and with one node it computes all of them. It always terminates without data races, and independently of earlier multiplications in the same process.",
     ["inputs", "schedules", "configurations", "histories"],
     "all N, node counts, work-distribution parameters, block sizes, repetitions; all orders of component creation, name lookup, package execution and result arrival; call sequences",
     "The tests run on a single node only and need HPX, so remote placement, name lookup per node and arrival orders are never exercised.",
     ["src/variants/static_improved.cpp", "src/variants/pseudodynamic.cpp", "src/variants/pseudodynamic.hpp", "src/variants/components/recursive.cpp", "src/variants/components/multiplier.cpp"],
     [("one multiplier per compute node, found by a per-node name", "src/variants/static_improved.cpp matrix_multiply, src/variants/components/recursive.cpp"),
      ("continuations insert disjoint packages, wait for all", "src/variants/static_improved.cpp matrix_multiply / insert_submatrix")],
     state=[("C", "result filled by package continuations", "static_improved")],
     observe=["returned vector", "node on which each task ran", "deadlock", "data races"])

prop("C06", "Algorithm-, loop- and register-blocked HPX variants return the product",
     "The variants built on parallel algorithms (\"algorithms\"), on nested blocked iteration (\"looped\") and on register blocking (\"semi\"), which take B transposed, return exactly A times the transpose of the stored B for every matrix size and every non-zero block size for result and input, including block sizes that do not divide the matrix size or exceed it. The result does not depend on how the parallel algorithm distributes or orders its iterations, there is no data race or out-of-bounds access, A and B stay unchanged, and calling it again, on the same or another object, gives the right result again.",
     ["inputs", "schedules", "configurations", "histories"],
     "all N, block_result >= 1, block_input >= 1, element values; all chunkings and interleavings of the parallel loop; call sequences",
     "These tests need HPX and use a handful of sizes in which the blocks divide the matrix.",
     ["src/variants/algorithms.hpp", "src/variants/looped.hpp", "src/variants/semi.cpp", "src/variants/semi.hpp", "src/variants/index_iterator.hpp"],
     [("one task per result block with private scratch matrices", "src/variants/algorithms.hpp matrix_multiply"),
      ("recursive blocking", "src/variants/looped.hpp iterate_indices"),
      ("4x2 register blocking", "src/variants/semi.cpp matrix_multiply")],
     observe=["returned vector", "memory accesses", "data races"])

prop("C07", "Cache-blocked vectorised variants return the product of the unpadded matrices",
     "The cache-blocked vectorised variants (\"combined\", \"kernel_tiled\", \"kernel_test\"), which take B untransposed, return exactly A*B as an N x N matrix for every matrix size (kernel_test: every multiple of its outermost block size 512), independent of how the size relates to the internal block sizes: padding never leaks into the result. The result is the same for every repetition count >= 1, number of threads and thread or task schedule, with no data race, no access outside the buffers and no vector load or store through an insufficiently aligned address marked as aligned. A and B stay unchanged, and a second multiplication with the same object gives the same result.",
     ["inputs", "schedules", "configurations", "histories"],
     "all N, repetitions, verbosity, team sizes and schedules, element values; call sequences",
     "These tests need HPX and Vc and run a few sizes once each; repetition, padding boundaries and schedules are not covered.",
     ["src/variants/combined.cpp", "src/variants/combined.hpp", "src/reference_kernels/kernel_tiled.cpp", "src/reference_kernels/kernel_tiled.hpp", "src/reference_kernels/kernel_test.cpp", "src/reference_kernels/kernel_test.hpp"],
     [("padding to block multiples, tile-wise storage of A, B and C", "src/variants/combined.cpp combined, matrix_multiply; src/reference_kernels/kernel_tiled.cpp"),
      ("each thread owns whole outer blocks of C", "omp collapse(2) loops, parallel outer dimensions in combined"),
      ("C reset per repetition", "repetition loops")],
     observe=["returned vector", "data races", "aligned vector accesses"])

prop("C08", "Blocked index iteration visits every index exactly once",
     "Blocked iteration over an index range calls the function exactly once for every point of the grid that starts at the lower bound and advances by the final steps below the upper bound, and for no other point, whatever the number of blocking levels, their block sizes (each level's block a multiple of the next finer one, not necessarily dividing the range), which dimensions are marked parallel, and how the parallel iterations are distributed or ordered. With nothing marked parallel, points within one innermost block are visited in lexicographic order. Calls that may run concurrently never share mutable state of the iteration.",
     ["inputs", "configurations", "schedules"],
     "all dimensions, bounds, blocking hierarchies, step sizes, parallel flags; all chunkings and interleavings",
     "No test calls the iteration directly; the HPX tests reach it only with exactly dividing blocks.",
     ["src/variants/index_iterator.hpp", "src/memory_layout/index_iterator.hpp"],
     [("recursive subdivision, parallel dimensions first", "iterate_indices"),
      ("odometer iterator", "dim_index_iterator::increment"),
      ("mapping of reduced to full indices", "map_dims")],
     state=[("recursive_min / recursive_max", "bounds handed to the next level", "iterate_indices")],
     observe=["multiset and order of calls", "data races"])

prop("C09", "Loop-nest helpers enumerate the full grid in lexicographic order",
     "The loop-nest helpers call the function once for every index tuple that is reachable from the lower bounds by whole steps while staying below the upper bounds, in lexicographic order with the last dimension fastest, passing that tuple; an empty range in any dimension produces no call. This holds for every number of dimensions, bounds, steps, index type and for both the C array and the std::array interface, as well as for the compile-time looper of the learning example, as long as each upper bound plus its step is representable in the index type.",
     ["inputs", "configurations"],
     "all dimensions, bounds, step sizes, index types",
     "The runnable tests reach it only through one 256 x 256 tiling with step 1.",
     ["src/memory_layout/loop_nest.hpp", "learning/MetaProgrammingCPP.cpp"],
     [("template recursion over dimensions", "src/memory_layout/loop_nest.hpp execute_looped; learning/MetaProgrammingCPP.cpp execute_looped")],
     observe=["sequence of calls"])

prop("C10", "Tiling is a lossless rearrangement and undoing it restores the array",
     "For every number of dimensions, every extent (dimensions may differ) and every tile shape whose sides divide the extents, tiling an array stores each tile contiguously, tiles in row-major order of their tile coordinates and the entries of a tile in row-major order, so that the result is a permutation of the input. Undoing the tiling with the same description returns exactly the original array, whatever the element type and allocator, and neither operation changes its input. The row-major index helper agrees with that storage order.",
     ["inputs", "configurations"],
     "all dimensions, extents, tile shapes, element types, allocators, contents",
     "The runnable tests use only 256 x 256 arrays of double with 4 x 4 tiles and never undo a tiling.",
     ["src/memory_layout/tile_array.hpp", "src/memory_layout/util.hpp", "src/memory_layout/tile_iterator.hpp", "src/memory_layout/tile_view.hpp"],
     [("tile offset and inner offset arithmetic", "src/memory_layout/tile_array.hpp make_tiled, undo_tiling"),
      ("flat_index", "src/memory_layout/util.hpp")],
     observe=["returned arrays"])

prop("C11", "Tile iteration and tile views address exactly the cells of each tile",
     "Iterating over the tiles of a tiled array hands out exactly one view per tile, in row-major order of the tile coordinates, for every number of dimensions and every tile shape that divides the extents. Each view reports its tile coordinates, the number of tiles per direction and the tile size, and reads and writes through it - by flat offset, coordinate array or coordinate list - reach exactly the cells of that tile, never others. Views constructed directly behave the same.",
     ["inputs", "configurations", "histories"],
     "all dimensions, extents, tile shapes, coordinates, element types and allocators; sequences of writes through views",
     "The runnable tests check only two-dimensional square arrays with 4 x 4 tiles.",
     ["src/memory_layout/tile_iterator.hpp", "src/memory_layout/tile_view.hpp"],
     [("base offset of the tile and offset within it", "src/memory_layout/tile_view.hpp tile_view, flat_index"),
      ("recursion over tile coordinates", "src/memory_layout/tile_iterator.hpp iterate_tile_dim")],
     observe=["views passed to the callback", "array after writes"])

prop("C12", "Matrix construction and transposition utilities produce the stated matrices",
     "For every size and element type, the utilities return: the identity matrix; the matrix that enumerates its cells in row-major order; a random matrix whose entries lie in [0, 1) up to rounding to the element type, are not all alike, and are the same in every run; and the transpose of a square or rectangular matrix, with transposing twice giving back the original. Inputs are never modified.",
     ["inputs", "configurations"],
     "all sizes (including 0 and non-square shapes), element types, allocators, contents",
     "No runnable test calls these utilities.",
     ["src/util/create_identity_matrix.hpp", "src/util/pattern_matrices.hpp", "src/util/create_random_matrix.hpp", "src/util/transpose_matrix.hpp"],
     [("index arithmetic of the four utilities", "src/util/*.hpp")],
     observe=["returned vectors"])

prop("C13", "Aligned scratch allocation is aligned, large enough and released once",
     "The aligned scratch allocator returns, for every element type, element count and power-of-two alignment, a pointer that is a multiple of the alignment to memory in which all requested elements can be written and read back without touching memory outside the allocation, whatever address the system allocator returns. The memory stays valid for the life of the allocator object and is released exactly once when it ends; an allocator that was never used, or whose request the system refused, releases nothing, and a second request to the same object (which is not supported) never silently leaks or invalidates the first. (Allocator objects are not copied.)",
     ["inputs", "configurations", "histories"],
     "all element types, counts, alignments; all residues of the address returned by the system allocator; object lifetimes",
     "No test uses the allocator, and a test cannot choose what address the system allocator returns.",
     ["src/aligned_allocator.hpp"],
     [("over-allocation by the alignment and std::align", "src/aligned_allocator.hpp alloc"),
      ("release in the destructor", "src/aligned_allocator.hpp ~aligned_allocator")],
     state=[("data", "start of the owned allocation or null", "aligned_allocator")],
     observe=["returned pointer", "system allocations and releases"])

prop("C14", "Every stand-alone experiment variant computes the matrix product",
     "Every multiplication variant of the stand-alone experiments, given 64-byte aligned matrices and a zeroed result, leaves exactly A*B in the result (A times the transpose of the stored B for the variants that expect B transposed) for every size the variant supports: any size for naive, transposed and counter, multiples of 2 for blocked2, of 4 for blocked4 and asm, of 128 for gpu, exchanged and intrinLoop, of 256 for register and gpuasm. The result is the same for every number of threads and schedule and for processors with and without fused multiply-add, without data races, accesses outside the matrices or misaligned vector accesses, and A and B are unchanged.",
     ["inputs", "schedules", "configurations", "histories"],
     "all supported n, element values, team sizes, thread schedules; sequences of calls",
     "Nothing tests these variants; the README itself says that some seem to be buggy.",
     ["otherExperiments/multNaive.cpp", "otherExperiments/multTransposed.cpp", "otherExperiments/multCounter.cpp", "otherExperiments/multBlocked.cpp", "otherExperiments/multASM.cpp", "otherExperiments/multGPU.cpp", "otherExperiments/multGPUASM.cpp", "otherExperiments/multExchanged.cpp", "otherExperiments/multRegister.cpp", "otherExperiments/multIntrinLoop.cpp"],
     [("blocked loops with private scratch blocks per thread", "otherExperiments/mult*.cpp"),
      ("hand-written vector code", "otherExperiments/multASM.cpp, multGPUASM.cpp, multIntrinLoop.cpp, multRegister.cpp")],
     observe=["result matrix", "data races", "memory accesses"])

prop("C15", "The command-line program runs what was asked for and its check can be trusted",
     "For every combination of options the program multiplies with the requested algorithm and parameters and, with checking enabled, prints \"check passed\" exactly when every entry of the algorithm's result agrees with the reference product within 1E-10, and \"error: check failed!\" otherwise, however small or wherever the error is (also when the result has the wrong size or a NaN). Unknown algorithm names are reported as not valid with exit status 1, algorithms, looped and semi refuse an untransposed B and combined refuses a transposed B with an error instead of computing, help prints the option list without multiplying, and no verdict is printed when checking is off.",
     ["inputs", "configurations", "fault_sequences"],
     "all option combinations; all positions, magnitudes and kinds of a wrong result entry",
     "No test runs the program; whether the built-in check notices a wrong result is never tested, since it needs a wrong algorithm.",
     ["src/matrix_multiply_application/matrix_multiply.cpp"],
     [("option handling and dispatch", "src/matrix_multiply_application/matrix_multiply.cpp hpx_main, main"),
      ("entry-wise comparison against the naive product", "src/matrix_multiply_application/matrix_multiply.cpp main")],
     observe=["standard output", "exit status", "parameters with which the algorithms are invoked"])

prop("C16", "Errors are reported with their message and bad tilings are rejected",
     "Every exception of the project can be caught as std::exception and its text names the kind of error followed by exactly the message it was created with, for every message, for as long as the exception or a copy of it lives, however often it is read and whatever else runs in between. Tiling or untiling with a description whose number of dimensions differs from the array's is rejected with such an exception, for every mismatch, before anything is changed.",
     ["inputs", "histories"],
     "all messages (empty, long, arbitrary bytes), copies and read sequences; all dimension mismatches",
     "No test triggers an error.",
     ["src/util/matrix_multiplication_exception.hpp", "src/memory_layout/memory_layout_exception.hpp", "src/memory_layout/tile_array.hpp"],
     [("message stored in the exception", "src/util/matrix_multiplication_exception.hpp, src/memory_layout/memory_layout_exception.hpp"),
      ("dimension test before any work", "src/memory_layout/tile_array.hpp make_tiled, undo_tiling")],
     observe=["what()", "type of the exception", "argument after rejection"])

prop("C17", "Printed matrices show every entry at its place",
     "The printing helpers write, for every shape, one line per row with the entries in column order separated by \", \" and nothing else; the transposed versions print the transpose of the stored matrix, and the versions for the host stream and the HPX stream write the same text. A matrix with fewer entries than the stated shape raises an error instead of printing unrelated memory.",
     ["inputs", "configurations"],
     "all shapes (square and rectangular, including empty), element values and types",
     "No test looks at printed output.",
     ["src/util/util.hpp"],
     [("row/column loops with checked access", "src/util/util.hpp print_matrix*, print_matrix_transposed*, *_host")],
     observe=["text on the host and HPX streams"])

prop("C18", "The experiment benchmark runs the named variant on well-formed operands",
     "The benchmark program calls exactly the implementation named on its command line, once, with 64-byte aligned non-overlapping matrices of the announced size, A filled with 2, B the identity and the result zeroed, and then prints the Frobenius norm of the result it obtained as the check value. Without a name, or with an unknown one, it calls nothing, says so and prints no check value.",
     ["inputs", "configurations", "fault_sequences"],
     "all command lines; all addresses the allocator may return; arbitrary results left by the implementation",
     "The benchmark is built but never run by a test, and its check value is never compared with anything.",
     ["otherExperiments/benchmark.cpp", "otherExperiments/mult.hpp"],
     [("manual alignment of the five matrices", "otherExperiments/benchmark.cpp align"),
      ("dispatch by name", "otherExperiments/benchmark.cpp main")],
     observe=["arguments of the called implementation", "standard output", "exit status"])

prop("C19", "Reported times and performance describe the multiplication that was run",
     "The total time the command-line program reports is the time the requested multiplication took with all its repetitions, without starting the runtime, creating or printing matrices or checking the result; the average time is the total divided by the number of multiplications actually performed, and the performance is 2N^3 operations per multiplication performed divided by that time. The figures for the reference describe the reference multiplication alone and appear only when it is run; no performance is given when nothing was multiplied. combined and kernel_tiled return and print as inner duration exactly the time of all repetitions, whatever the variable held before, and an inner performance based on the padded sizes they name. The experiment benchmark reports 2n^3 operations, the time of the implementation to 1 ms, and their ratio.",
     ["inputs", "configurations", "histories"],
     "all algorithms, sizes, repetition counts and verbosities; all durations of the individual phases",
     "Measured times differ from run to run, so no test can compare them with anything; with a virtual clock they are determined.",
     ["src/matrix_multiply_application/matrix_multiply.cpp", "src/variants/combined.cpp", "src/reference_kernels/kernel_tiled.cpp", "otherExperiments/benchmark.cpp", "evaluate.py"],
     [("timing and figures of the program", "src/matrix_multiply_application/matrix_multiply.cpp hpx_main, main"),
      ("inner duration", "src/variants/combined.cpp and src/reference_kernels/kernel_tiled.cpp matrix_multiply"),
      ("timing of the benchmark", "otherExperiments/benchmark.cpp main")],
     observe=["standard output", "returned duration"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
