"""What is built for every property."""
COMP = ['src/variants/components/recursive.cpp', 'src/variants/components/multiplier.cpp']
SINGLE = ['src/variants/single.cpp'] + COMP
DIST = ['src/variants/pseudodynamic.cpp', 'src/variants/static_improved.cpp'] + COMP
EXP = ['-O3', '-mavx2', '-mfma', '-ftree-vectorize', '-ffast-math', '-funsafe-math-optimizations']
INSTR = ['-finstrument-functions', '-finstrument-functions-exclude-file-list=/verif/,/usr/']
EXPSTD = ('c++11', 'c++14', 'c++17')
MULT = ['ASM', 'Blocked', 'Counter', 'Exchanged', 'GPU', 'GPUASM', 'IntrinLoop', 'Naive', 'Register', 'Transposed']
PROPS = {
    'C01': dict(hang=30, drivers=['c01.cpp']),
    'C02': dict(hang=30, drivers=['c02.cpp'], modes=['fast', 'asan', 'tsan']),
    'C03': dict(hang=30, drivers=['c03.cpp'], src=SINGLE),
    'C04': dict(hang=30, drivers=['c04.cpp'], src=['src/variants/static_improved.cpp'] + COMP, modes=['fast', 'asan']),
    'C05': dict(hang=30, drivers=['c05.cpp'], src=DIST),
    'C06': dict(hang=30, drivers=['c06.cpp'], src=['src/variants/semi.cpp']),
    'C07': dict(drivers=['c07.cpp'], src=['src/variants/combined.cpp', 'src/reference_kernels/kernel_tiled.cpp', 'src/reference_kernels/kernel_test.cpp']),
    'C08': dict(hang=30, drivers=['c08a.cpp', 'c08b.cpp']),
    'C22': dict(hang=60, drivers=['c22a.cpp', 'c22b.cpp', 'c22c.cpp'], modes=['fast', 'asan', 'tsan']),
    'C09': dict(hang=30, drivers=['c09.cpp'], modes=['fast', 'asan', 'tsan']),
    'C10': dict(hang=30, drivers=['c10.cpp'], modes=['fast', 'asan', 'tsan']),
    'C11': dict(hang=30, drivers=['c11.cpp'], modes=['fast', 'asan', 'tsan']),
    'C12': dict(drivers=['c12.cpp'], modes=['fast', 'asan', 'tsan']),
    'C13': dict(drivers=['c13.cpp'], modes=['fast', 'asan', 'tsan'], driver_flags=['-faligned-new'], ldflags=['-Wl,' + ','.join('--wrap=' + f for f in 'malloc calloc realloc free posix_memalign aligned_alloc memalign'.split())]),
    'C14': dict(drivers=['c14.cpp'], link_extra=False,
                src=[('otherExperiments/mult%s.cpp' % m, EXP, EXPSTD) for m in MULT]
                + [('otherExperiments/mult%s.cpp' % m, EXP + ['-mno-fma', '-Dmult%s=mult%s_nofma' % (m, m)], EXPSTD) for m in ('Register', 'GPUASM', 'IntrinLoop')]),
    'C15': dict(drivers=['c15b.cpp', 'c15a.cpp'], modes=['fast', 'asan'], archive_src=True,
                src=['src/variants/semi.cpp', 'src/variants/combined.cpp', 'src/variants/proposal.cpp', 'src/variants/static_improved.cpp', 'src/variants/pseudodynamic.cpp', 'src/variants/single.cpp',
                     'src/reference_kernels/kernel_tiled.cpp', 'src/reference_kernels/kernel_test.cpp'] + COMP,
                driver_flags={'c15b.cpp': ['-iquote', '@VERIF@/drivers/stub15']}),
    'C16': dict(hang=30, drivers=['c16.cpp'], modes=['fast', 'asan', 'tsan']),
    'C17': dict(hang=30, drivers=['c17.cpp'], modes=['fast', 'asan']),
    'C18': dict(drivers=['c18.cpp'], modes=['fast', 'asan'], src=[('otherExperiments/benchmark.cpp', EXP + ['-Dmain=bench_main'], EXPSTD)], link_extra=False),
    'C19': dict(drivers=['c19a.cpp', 'c19b.cpp', 'c19c.cpp', 'c19d.cpp'], modes=['fast', 'asan'], archive_src=True, flags=['-DVP_TICK'],
                src=['src/variants/combined.cpp', 'src/reference_kernels/kernel_tiled.cpp'] + [(f, INSTR) for f in ('src/variants/semi.cpp', 'src/variants/proposal.cpp', 'src/variants/static_improved.cpp', 'src/variants/pseudodynamic.cpp', 'src/variants/single.cpp', 'src/reference_kernels/kernel_test.cpp', *COMP)] + [('otherExperiments/benchmark.cpp', EXP + ['-Dmain=bench_main'], EXPSTD)],
                driver_flags={'c19a.cpp': ['-iquote', '@VERIF@/drivers/stub19', '-iquote', '@VERIF@/drivers/stub15'], 'c19d.cpp': INSTR}),
    'C20': dict(hang=60, drivers=['c20a.cpp', 'c20b.cpp', 'c20c.cpp', 'c20d.cpp'], modes=['fast'], archive_src=True,
                src=SINGLE + DIST[:2] + ['src/variants/semi.cpp', 'src/variants/combined.cpp', 'src/reference_kernels/kernel_tiled.cpp', 'src/reference_kernels/kernel_test.cpp']
                + [('otherExperiments/mult%s.cpp' % m, EXP, EXPSTD) for m in MULT]
                + [('otherExperiments/mult%s.cpp' % m, EXP + ['-mno-fma', '-Dmult%s=mult%s_nofma' % (m, m)], EXPSTD) for m in ('Register', 'GPUASM', 'IntrinLoop')]),
    'C21': dict(hang=30, drivers=['c21.cpp'], src=SINGLE + DIST[:2]),
}

SPACE = {
    'C01': 'enumerated: N; double, float, int, long, unsigned; 21 operand patterns; B transposed or not; 1-16 threads, up to 257 on request; thread limits; calls inside parallel regions; one matrix on both sides; changed contents; call histories; schedules; all pairs of 2x2 matrices over {0,1,-2,0.5}; oracle: exact product, operands unchanged, TSan, ASan; quick bounds: every N <= 200, 40 sizes up to 1025; all schedules or 12000 per case for N <= 7 and 1-5 threads (the thorough tier enlarges them)',
    'C02': 'enumerated: kernel; N, x, y, block, chunk; types, patterns; 2-3 threads at the same time; oracle: exact block, nothing printed, ASan, TSan; quick bounds: all positions and blocks for N <= 19 (12 with ASan), 24 sizes up to 257 (the thorough tier enlarges them)',
    'C03': 'enumerated: N, block_result, block_input, transposed, repetitions, verbosity, patterns, 1-3 localities, histories of objects; task schedules; oracle: exact product, deadlock, hang, TSan, ASan; quick bounds: all geometries N <= 22; 50 sizes up to 160; 12000 schedules per case for N <= 4 (the thorough tier enlarges them)',
    'C04': 'enumerated: N, nodes, minimum size, both tolerances; all load vectors over an alphabet; one and two package copies; oracle: independent check of cover, edges, stop condition, acceptance; quick bounds: N <= 72 x nodes <= 10 x 18 minima x 15 x 7 tolerances; up to 257 nodes for selected N; sizes to 2^24 and beyond (the thorough tier enlarges them)',
    'C05': 'enumerated: as C03 plus 1-9 localities (up to 65 for selected N), every position of the root in the list, tolerances, arrival orders; oracle: exact product, who computed, deadlock, TSan, ASan; quick bounds: all N <= 18; 20 sizes up to 160; 3000 schedules per case for N <= 4 (the thorough tier enlarges them)',
    'C06': 'enumerated: variant, N, both block sizes, chunkings, patterns, histories, schedules; oracle: exact product, TSan, ASan; quick bounds: all N <= 24 with all blocks up to N+3, 27 sizes up to 132; 2000 schedules per case for N <= 8 (the thorough tier enlarges them)',
    'C07': 'enumerated: variant, N, repetitions, calls, threads (up to 130), limits, chunkings, patterns, histories, schedules; oracle: exact product, alignment of every access declared aligned, TSan, ASan; quick bounds: every N <= 520, sizes around 576..1025; 40 schedules per case with several blocks (the thorough tier enlarges them)',
    'C08': 'enumerated: both copies; 1-4 dims, bounds, steps, up to 3 levels, parallel flags, chunkings, level orders, schedules; oracle: multiset of points, order, TSan, ASan; quick bounds: 1-d: ranges <= 11, 2-d: 64 range pairs, 3/4-d selected; large ranges > 2^24 (the thorough tier enlarges them)',
    'C09': 'enumerated: interface, 1-7 dims, bounds, steps, 9 index types incl. double, function objects, nesting; 2-3 threads at the same time; oracle: reference sequence of calls, TSan; quick bounds: every 8-bit range x step in 1-d, all listed combinations up to 7-d, ends of the index types (the thorough tier enlarges them)',
    'C10': 'enumerated: 1-8 dims, extents, all dividing tile shapes, types, allocators, pairs of shapes, changed contents; 2-3 threads at the same time; oracle: reference permutation, inverse, inputs unchanged, TSan; quick bounds: extents <= 24 (2-d), 8 (3-d), 4 (4-d), 3 (5,6-d) + selected large, arrays beyond 2^31 cells on reserved address space (the thorough tier enlarges them)',
    'C11': 'enumerated: as C10 plus every view, coordinate, access form, write order, kept and copied views, nested iteration, exceptions; 2-3 threads at the same time; oracle: reference cell map, all other cells unchanged, TSan; quick bounds: as C10; views of arrays beyond 2^32 cells on reserved address space (the thorough tier enlarges them)',
    'C12': 'enumerated: utility, sizes, types, allocators, repetition, separate processes, moving wall clock; 2-3 threads at the same time; oracle: definition, TSan; quick bounds: N <= 200, shapes <= 70x70, selected to 46400 (the thorough tier enlarges them)',
    'C13': "enumerated: types (1 to 40 bytes), counts, alignments, every residue of the system allocator's answer modulo 4096, refusals, second requests, interleaved life cycles of three objects; 2-3 threads at the same time; oracle: alignment, canaries, read back, release counting, TSan; quick bounds: counts <= 34, alignments 1..4096 (the thorough tier enlarges them)",
    'C14': 'enumerated: 11 variants (3 also without FMA), n, threads (up to 130), limits, inside parallel regions, patterns, schedules, page-guarded operands; oracle: exact product, guards, operands unchanged, TSan, ASan; quick bounds: n <= 80 for the small, 3-6 blocks for the others (the thorough tier enlarges them)',
    'C15': 'enumerated: options x algorithms; wrong results: every position x 21 kinds; 64-bit option values; unknown names; help; 1-9 localities with the real algorithms; processes that are not the root; oracle: dispatch record, verdict, exit status; quick bounds: n <= 20 and selected to 257; faults at every position for n <= 4, selected n = 20, 40 (the thorough tier enlarges them)',
    'C16': 'enumerated: messages (all bytes, lengths), copy/assign/read/destroy sequences of two exceptions, all dimension mismatches; 2-3 threads at the same time; oracle: text, type, inputs unchanged, TSan; quick bounds: see evidence (the thorough tier enlarges them)',
    'C17': 'enumerated: helper, shape, element type, values, too small matrices; oracle: reference text; quick bounds: shapes <= 32x32, too small: all fillings of shapes <= 5x5 (the thorough tier enlarges them)',
    'C18': 'enumerated: command lines, residues of all allocations, results the implementation leaves; oracle: recorded call and operands, printed norm; quick bounds: 11 names, all prefixes/variations (the thorough tier enlarges them)',
    'C19': 'enumerated: algorithm x options; virtual durations of construction, multiplication, surroundings, runtime start, printing, reference; oracle: figures computed from the virtual clock; quick bounds: 6 cost profiles from 1 ms to 90000 s; n <= 32, selected to 2100; repetitions <= 10, selected 4e9 (the thorough tier enlarges them)',
    'C20': 'enumerated: every algorithm and helper; sizes, options, threads, nodes, schedules; pairs of sizes in turn; every single refused memory request of the helpers; rejected descriptions; functions that throw; oracle: counted heap of the process: no growth over 4-7 equal calls, result after the failure; quick bounds: all N <= 12 and selected to 512; tilings of 1-4 dims with extents <= 8, 4, 3, 2 (the thorough tier enlarges them)',
    'C21': 'enumerated: single and 1-4 localities; N, block, transposed, repetitions; kind of failure (error, no memory, result lost); every failing action, runs of two, all from one on, all of one node; schedules; oracle: an error or the exact product; next multiplication exact; deadlock, ASan, TSan; quick bounds: N in 1-12, 200 schedules per failure for N <= 2, 40 for N <= 4 (the thorough tier enlarges them)',
    'C22': 'enumerated: both index iterators and looped; dimensions of policy, blocks, marks, steps, bounds; points that throw (each, pairs, all) x 4 kinds of exception x chunkings x schedules; allocator: counts around the address space, second requests; oracle: refused by std::exception before any call, policy and bounds unchanged; exception reaches the caller after all calls ended; ASan, TSan; quick bounds: dimensions <= 5; grids of <= 9 points in 1-3 dims, up to 2 levels; 600 schedules per case of <= 3 points, 24 otherwise (the thorough tier enlarges them)',
}
for _id, _text in SPACE.items():
    PROPS[_id].setdefault('space', _text)
