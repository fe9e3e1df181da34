# Registry of the checks: which harnesses, builds and shards decide each property.
def J(src, variant='san', **kw):
    d = dict(src=[src] if isinstance(src, str) else list(src), variant=variant)
    d.update(kw)
    return d

NOT_APPLICABLE = {}
CHECKS = {
 'M01': dict(level='exploration', technique='online model-based monitor of value semantics under ASan/UBSan/LSan', note='Every observable of every live matrix is compared with an independent model after each operation of random histories; a pass covers the explored histories only.', jobs=[J('m01.cpp', parts=8, shards=1), J('m01.cpp', 'plain', shards=2, defs=['-DLARGE=16'], cpu=150)], must_see=['large:uint8', 'large:double', 'history:int', 'history:double/log'], min_evals=500,
   rule='Random histories of 20-320 operations (construct, copy, move, assign, self-assign, swap, resize, reshape, write, string, containers) over a pool of 6 matrices per element type and allocator; after every operation every live matrix is compared with its model. Distinct by the operation/shape trace.',
   assumptions=['moved-from by assignment may keep its value or become empty']),
 'M02': dict(level='exploration', jobs=[J('m02.cpp', parts=4, shards=2), J('m02.cpp', 'plain', shards=2, defs=['-DHUGE_MATRIX=12'], cpu=120)], must_see=['huge:uint8', 'views:int', 'views:cdouble', 'views:uint8'], min_evals=2000,
   technique='differential monitor against a column-major reference model under ASan/UBSan', note='All access paths, views, slices and mutators are compared with an independent model on random shapes and values; a pass covers the explored cases.',
   rule='Random shape (scalars, vectors, rectangular, up to 300x120, vectors of 66000, some matrices of more than 2^32 elements) and values (boundary values over-represented); every view and mutator at random and extreme indices. Distinct by shape and contents; 1x1 does not count.'),
 'M03': dict(level='exploration', jobs=[J('m03.cpp', parts=6, shards=2)], must_see=['arith:int', 'arith:double', 'arith:cdouble', 'convert:double'], min_evals=3000,
   technique='element-by-element differential monitor under ASan/UBSan', note='Every operator and conversion is recomputed element by element in the element type; a pass covers the explored cases.',
   rule='Random pairs of equally shaped matrices and scalars whose operation is defined in the element type. Distinct by the contents of both operands; 1x1 does not count.'),
 'M04': dict(level='exploration', jobs=[J('m04.cpp', 'san', parts=2, shards=4), J('m04.cpp', 'nas', parts=2, shards=4), J('m04.cpp', 'ndeb', parts=2, shards=4, args=['--scale', '0.3'])], must_see=['bad:row:', 'bad:write_pair', 'bad:array_write', 'bad:matmul', 'bad:operator+=', 'legal:'], min_evals=4000,
   technique='trap observation in forked children, and ASan/UBSan with value monitors in an assertion-free build', note='Each illegal request is executed for real: with assertions in a forked child whose abort and diagnostic are observed, without assertions in place under ASan with red zones around every object.',
   rule='Random matrices/arrays and illegal indices (one past the end, far, SIZE_MAX, pairs whose linear index is still in range), shapes that do not fit, short sources. Distinct by request, arguments and contents.'),
 'V01': dict(level='exploration', jobs=[J('v01.cpp', 'san', shards=4), J('v01.cpp', 'nas', shards=4), J('v01.cpp', 'ndeb', shards=2, args=['--scale', '0.3'])], must_see=['reject:select_least_matrix', 'reject:select_most_too_many', 'reject:dijkstra_shape', 'reject:radix2_length', 'reject:lup_shape', 'reject:ccode_memory', 'reject:conv'], min_evals=4000,
   technique='monitor of child processes (assertion diagnostics) and of the calls\' fallbacks with assertions disabled, under ASan/UBSan', note='Each improper call is made in a child that has to die with an assertion diagnostic, and again in a build without assertions where its end, result, arguments and memory are watched.',
   rule='Random improper calls of 28 kinds (search, graphs, convolution, transforms, solvers, transposes, modulation, filter, coder) with arguments just past and far past each condition; with assertions, with NDEBUG, and without assertions. Distinct by arguments.'),
 'M05': dict(level='exploration', jobs=[J('m05.cpp', 'san', parts=4, shards=2), J('m05.cpp', 'nas', shards=4)], must_see=['parse:int', 'parse:double', 'print:double', 'print:uint8', 'ragged:int'], min_evals=5000,
   technique='generator-based differential monitor of parser and printer under ASan/UBSan', note='Texts are generated from known matrices in random formatting; parsed matrices, printed layouts and round trips are compared element by element.',
   rule='Random matrices written in random formatting (separators, brackets, blanks, number notations, rows over 4096 characters), printed with random precision and parsed back, and ragged texts. Distinct by text and contents; 1x1 does not count.'),
 'M06': dict(level='fault_enumeration', jobs=[J('m06.cpp', 'san', parts=3, shards=3), J('m06.cpp', 'nas', parts=3, shards=3)], must_see=['fault:int:parse_assign', 'fault:double:resize', 'fault:int:assign'], min_evals=1000,
   technique='fault injection: every allocation fails in turn, block-accounting allocator and value monitors', note='Each allocation of each operation on sampled shapes is failed in turn; the accounting allocator verifies every release and LeakSanitizer/ASan run along.',
   rule='For each of 39 operations on random shapes, a run for each k in which the k-th allocation fails, until no allocation is left to fail. Distinct by contents, operation and k.'),
 'A01': dict(level='exploration', jobs=[J('a01.cpp', parts=3, shards=2), J('a01.cpp', 'plain', shards=2, defs=['-DHUGE_ARRAY=8'], cpu=120)], must_see=['huge:uint8', 'history:int', 'cells:double'], min_evals=1500,
   technique='model-based history monitor of index mapping and value semantics under ASan/UBSan/LSan', note='All cells of all live arrays are compared with the model after each operation, and each cell is read through eight access paths.',
   rule='Random dimension lists (1-6 dimensions, a few of more than 2^32 cells) and operation histories over 5 arrays; distinct by operation trace and dimensions.'),
 'T01': dict(level='exploration', jobs=[J('t01.cpp', parts=3, shards=2), J('t01.cpp', 'nas', parts=3, shards=1), J('t01.cpp', 'tsan', shards=1, defs=['-DTSAN_ONLY']), J('api.cpp', 'zbase', shards=4, defs=['-DMON_PART=6', '-DTRACK'], no_digest=True)], must_see=['history:int', 'threads:double', 'life:double/log', 'fft:double/log'], min_evals=800,
   technique='conservation monitor: tracker against an independent ledger, single- and multi-threaded, with ThreadSanitizer', note='The tracker is read after every operation (single thread) and at every quiescent point of 2-7 concurrent threads and compared with the bytes the live objects hold; ThreadSanitizer watches a further build.',
   rule='Random histories over matrices and arrays with the logging allocator, including unsatisfiable requests. Distinct by operation trace.'),
 'T02': dict(level='exploration', jobs=[J('t02.cpp', shards=4)], must_see=['block:int', 'block:double'], min_evals=2000,
   technique='model-based history monitor under ASan/LSan', note='Blocks are driven through a derived class as the library does; contents, sizes and independence are compared with std::vector after each operation.',
   rule='Random histories of allocate/reallocate/release/copy/assign/move/write over 5 blocks, and requests that cannot be satisfied (isolated). Distinct by operation trace.'),
 'B01': dict(level='exploration', jobs=[J('b01.cpp', 'plain', shards=2, defs=['-DHUGE_SETS=2'], cpu=150, tiers=('quick',)), J('b01.cpp', 'plain', shards=3, defs=['-DHUGE_SETS=9'], cpu=150, tiers=('thorough',)), J('b01.cpp', shards=8)], must_see=['history', 'huge'], min_evals=2000,
   technique='model-based history monitor against an abstract set under ASan/UBSan', note='Every position (and positions beyond the size) is compared with std::set after every operation, for sizes 0-1100 and occasional ones up to 80000.',
   rule='All sizes 0..69 and random larger ones, a few of more than 2^32 (thorough: 2^35) positions, random histories over three bitsets including copies and moves. Distinct by sizes and operation trace.'),
 'L01': dict(level='exploration', jobs=[J('l01.cpp', parts=6, shards=2)], must_see=['exact:int', 'real:double', 'exact:cdouble'], min_evals=4000,
   technique='differential monitor against exact reference products and assemblies under ASan/UBSan', note='Every product, transpose, concatenation and flip is recomputed independently (exactly for integer values, with a componentwise rounding bound otherwise) and checked with algebraic laws.',
   rule='Random shapes up to 40x40 (occasionally 140, inner dimension up to 1200), small exact values and wide-range reals, aliased and self-assigned operands. Distinct by the contents of both operands; 1x1 does not count.'),
 'L02': dict(level='exploration', jobs=[J('l02.cpp', parts=4, shards=2)], must_see=['det:int', 'detreal:double', 'rank:double', 'rank:int', 'rank:cdouble'], min_evals=5000,
   technique='differential monitor against exact fraction-free and modular elimination under ASan/UBSan', note='Determinants are compared with Bareiss in 128 bits (exact) or pivoted long double elimination, ranks with elimination modulo a prime; metamorphic laws on top.',
   rule='Random square matrices up to 9x9 (10x10 thorough; singular, sparse, extreme entries), random low-rank products up to 70x70, explicit rank precisions, large offsets; matrices whose rank is numerically borderline are skipped and counted. Distinct by contents; 1x1 does not count.'),
 'L03': dict(level='exploration', jobs=[J('l03.cpp', parts=2, shards=4)], must_see=['solve:double', 'solve:float', 'nofactor:double'], min_evals=4000,
   technique='residual monitor with componentwise backward error bounds under ASan/UBSan', note='Factors, solutions and inverses are multiplied out in long double and compared with the input within the standard backward error bound.',
   rule='Random matrices up to 25x25 (occasionally 85x85, a few 280x280): dense, integer, dominant, permuted, sparse, scaled by powers of two; row/column right-hand sides; exactly singular and non-factorisable matrices. Distinct by contents; 1x1 does not count.'),
 'L04': dict(level='exploration', jobs=[J('l04.cpp', shards=8)], must_see=['svd:dense', 'svd:lowrank', 'svd:zero', 'svd:illcond'], min_evals=3000,
   technique='residual monitor and differential monitor against one-sided Jacobi under ASan/UBSan', note='Orthonormality, reconstruction and the singular values of every result are recomputed in long double.',
   rule='Ten families (dense, integer, sparse, low rank, zero, scaled 1e-15..1e15, ill-conditioned, repeated values, structured, tiny entries) of random shape, up to 70x70 or 500 rows. Distinct by contents; 1x1 does not count.'),
 'S01': dict(level='exploration', jobs=[J('s01.cpp', shards=8)], must_see=['fft:double', 'fft:float'], min_evals=2000,
   technique='differential monitor against a long double DFT and Parseval/linearity monitors under ASan/UBSan', note='Every bin of every transform is compared with the definition evaluated with an exact phase table.',
   rule='Impulses, constants, tones, integers and Gaussian signals of length 1-65536 (radix-2) and 1-700 (DFT), as rows, columns and matrices. Distinct by contents; length 1 does not count.'),
 'S02': dict(level='exploration', jobs=[J('s02.cpp', parts=4, shards=2)], must_see=['filter:double/double', 'filter:int/int', 'conv:int', 'conv:int_kron'], min_evals=8000,
   technique='residual monitor of the difference equation and exact differential monitors under ASan/UBSan', note='The difference equation is evaluated on every output sample; convolutions, structured matrices and Kronecker products are recomputed exactly.',
   rule='Random coefficient and signal vectors in both orientations, matrices column by column, scalars and tails, filters, signals and structured matrices of thousands of samples. Distinct by contents of all operands.'),
 'S03': dict(level='exploration', jobs=[J('s03.cpp', shards=8)], must_see=['sampling:int', 'sampling:double'], min_evals=5000,
   technique='exact differential monitor under ASan/UBSan', note='Every sample position of up- and down-sampled signals is compared with the definition, and the round trip is checked.',
   rule='Random shapes, values without zeros and factors 1-50; a few columns of more than 2^24 samples. Distinct by contents and factors; factor 1 on both sides or 1x1 does not count.'),
 'N01': dict(level='exploration', jobs=[J('n01.cpp', parts=5, shards=2)], must_see=['reduce:int', 'reduce:double', 'reduce:uint8', 'reduce:cdouble'], min_evals=5000,
   technique='differential monitor against long double and exact integer definitions under ASan/UBSan', note='Every reduction and statistic is recomputed from its definition, column by column or over the vector.',
   rule='Random shapes (tall ones up to 70000 rows) and values (small, full range, negative, Gaussian over many decades, subnormal, type extremes) of ten element types. Distinct by contents; 1x1 does not count.'),
 'N02': dict(level='exploration', jobs=[J('n02.cpp', shards=8)], must_see=['log2:uint8', 'pow:int', 'mod', 'gauss', 'round'], min_evals=20000,
   technique='differential monitor against exact integer and long double references under UBSan', note='Systematic sweeps around powers of two, range boundaries and ties, plus random arguments.',
   rule='All powers of two and their neighbours, all representable powers of many bases, range-boundary moduli, a grid and random arguments of the distribution functions, ties and random values of rounding to up to 16 decimals. Distinct by arguments.'),
 'R01': dict(level='exploration', jobs=[J('r01.cpp', shards=8)], must_see=['rng', 'mt', 'long'], min_evals=1000,
   technique='differential monitor of draw histories against the standard MT19937 under ASan/UBSan', note='Every draw of interleaved, copied and re-seeded generators is compared with a reference generator that follows the same history.',
   rule='Random seeds (boundary seeds over-represented) and histories of single and block draws, re-seeding, copies and assignments over up to five generators, plus runs of 300000 draws. Distinct by history and seed.'),
 'R02': dict(level='exploration', jobs=[J('r02.cpp', shards=8), J('r02.cpp', 'plain', shards=4, defs=['-DLONG_GAUSS'], cpu=200)], must_see=['long_gauss', 'variates', 'nonuniform', 'moments'], min_evals=2500,
   technique='differential monitor: variates recomputed from a reference uniform stream, under ASan/UBSan', note='Every element of every variate matrix is recomputed from the reference stream; draws closer than 1e-12 to a threshold are not judged.',
   rule='Random seeds, stream offsets, sizes, shapes and probability vectors (zero, tied and deficient ones included). Distinct by seed, size and probabilities.'),
 'C01': dict(level='exploration', jobs=[J('c01.cpp', shards=8)], must_see=['ccode'], min_evals=2000,
   technique='differential monitor against modulo-2 convolution and the state machine, under ASan/UBSan/LSan', note='Every output bit of original, copied, assigned and swapped encoders is recomputed as a convolution, and by walking next_state/next_output.',
   rule='Random rates 1..1/20, memories 1-31, generators (zero ones included), inputs up to 400 (occasionally 73000) bits in any shape, and copy modes. Distinct by input, generators and memory.'),
 'C02': dict(level='exploration', jobs=[J('c02.cpp', shards=8)], must_see=['bcjr', 'noiseless', 'long'], min_evals=1500,
   technique='differential monitor against exhaustive summation over all terminated sequences in long double, under ASan/UBSan', note='Each likelihood ratio is recomputed by brute force over every terminated bit sequence.',
   rule='Random codes (memory 1-6, 1-8 outputs), up to 8 information bits plus termination, random noise, Eb/N0 and priors. Distinct by received values, generators and memory.'),
 'E01': dict(level='exploration', jobs=[J('e01.cpp', parts=2, shards=4)], must_see=['known:double', 'unknown:double', 'known:float', 'unknown:float'], min_evals=2500,
   technique='differential monitor against an exact maximum-likelihood search (long double dynamic programming and brute force), under ASan/UBSan', note='The squared distance of every returned sequence is recomputed from the definition and compared with the exact minimum; the ISI encoder is recomputed sample by sample.',
   rule='Random channels of 2-4 taps, alphabets of 2-4 amplitudes in any order, known and unknown boundary states, up to 120 (occasionally 1200) symbols, any noise. Distinct by received signal, taps, alphabet and state.'),
 'E02': dict(level='exploration', jobs=[J('e02.cpp', shards=8)], must_see=['bcjr', 'noiseless', 'long'], min_evals=2500,
   technique='differential monitor against exhaustive and forward-backward summation in long double, under ASan/UBSan', note='Every ratio is recomputed by summing all terminated sequences (short signals) and by an independent rescaled recursion (all signals).',
   rule='Random channels of 2-5 taps, binary alphabets, up to 230 samples, any noise and Eb/N0 inside the floating-point range. Distinct by received signal, taps and alphabet.'),
 'G01': dict(level='exploration', jobs=[J('g01.cpp', shards=8)], must_see=['order:int', 'order:double', 'order:uint8'], min_evals=8000,
   technique='differential monitor against sorted references and permutation checks, under ASan/UBSan', note='Returned orders are checked as permutations of positions and values; every position reported by find is compared.',
   rule='Random vectors of 2-61 (occasionally 1560) elements in both orientations: few distinct values, extremes of the type, all equal, sorted, reversed; seven element types. Distinct by contents and orientation.'),
 'G02': dict(level='exploration', jobs=[J('g02.cpp', shards=8)], must_see=['graph:int', 'graph:double', 'graph:uint8'], min_evals=8000,
   technique='path-walking monitor against Bellman-Ford distances (128-bit and long double), under ASan/UBSan', note='From each reachable node the predecessors are walked to the source and the weight of the walk is compared with the minimum.',
   rule='Random directed and undirected graphs of 1-40 (occasionally 300) nodes, sparse to complete, self loops, unreachable parts, long chains against index order, weights from 1e-12 to the extremes of the type. Distinct by weights and source; one node does not count.'),
 'Q01': dict(level='exploration', jobs=[J('q01.cpp', shards=8)], must_see=['qam', 'demod', 'bpsk', 'awgn:real', 'awgn:complex'], min_evals=15000,
   technique='differential monitor of constellations and nearest points, and statistical monitor of the noise power, under ASan/UBSan', note='All power-of-two orders up to 4096 are compared with the reference grid; every demodulated input is compared with the true nearest distance.',
   rule='Every order 2..4096; inputs at, near, between and far from the points; random signals, SNRs and oversampling factors. Distinct by input; single elements of matrices do not count.'),
 'Q02': dict(level='exploration', jobs=[J('q02.cpp', shards=8)], must_see=['rrc'], min_evals=2000,
   technique='differential monitor against a long double inverse transform, with energy and symmetry monitors, under ASan/UBSan', note='Every tap is compared with the definition.',
   rule='Random oversampling factors 1-100000, roll-offs including 0 and 1, odd lengths 1-1499. Distinct by parameters; one tap does not count.'),
 'X01': dict(level='exploration', jobs=[J('api.cpp', 'tsan', parts=7, shards=1, defs=['-DTHREADS'], args=['--scale', '2'], cpu=300)], must_see=['same:life:double', 'same:shared:double', 'same:svd', 'same:rng', 'same:ccode', 'same:channel:double', 'same:ccode_any', 'same:mt_draws', 'same:print_narrow', 'same:memory', 'mixed'], min_evals=500,
   technique='ThreadSanitizer plus a monitor comparing every thread\'s results with a sequential execution', note='Two to eight threads run the API sweep on objects of their own and on shared constant matrices and arrays, with random yields and delays; each result is compared bit by bit with the sequential one. The number of operations that overlapped another thread\'s is reported.',
   rule='For each of 250 operation groups rounds in which all threads run that group, then rounds of mixed groups. Distinct by the observed interleaving (global order of the begin and end of all operations); rounds without overlap do not count.'),
 'D01': dict(level='exploration', jobs=[J('api.cpp', 'zero', parts=7, shards=1), J('api.cpp', 'patt', parts=7, shards=1), J('api.cpp', 'patt', parts=7, shards=1, args=['--order', '1']), J('api.cpp', 'zero', parts=7, shards=1, args=['--order', '2']),
      J('api.cpp', 'vg', parts=7, shards=1, args=['--scale', '0.02'], tiers=('thorough',))], must_see=['life:double', 'svd', 'solve:double', 'channel:float', 'rng', 'mt', 'ccode', 'modulation', 'rrcosine', 'ccode_any', 'mt_draws', 'print_narrow', 'parse_odd', 'memory'], min_evals=10000,
   technique='differential monitor of result digests between processes with different memory contents and operation orders (memcheck in the thorough tier)', note='Every operation group runs twice in one process and in four processes whose fresh heap and stack memory holds zeros or a pattern and which execute the operations in three orders; all result bits are compared.',
   rule='241 groups of operations over 14 element types and two allocators with random valid arguments. Distinct by group and result bits; results of 8 bytes or fewer do not count.'),
 'Y01': dict(level='exploration', jobs=[J('y01.cpp', 'plain', shards=10)], must_see=['timestamp', 'toc', 'threads', 'real'], min_evals=20000,
   technique='differential monitor against an independent calendar and a simulated clock', note='The C library clocks are replaced by a clock per thread, every stamp is compared with a calendar computed from the day number, every reported time with the simulated elapsed time; a few cases use the real clock.',
   rule='Random moments of 2000-2099 (midnights, year ends, ends of February, daylight saving changes over-represented) in nine time zones, elapsed times from 0 to 40 days, 2-7 threads with clocks of their own. Distinct by moment, zone and elapsed time.'),
 'Z01': dict(level='exploration', jobs=[J('api.cpp', v, parts=7, shards=1, args=['--scale', '3']) for v in ('zbase', 'znas', 'zlog', 'zndeb', 'zmix')] + [J('api.cpp', 'zboth', parts=7, shards=1, args=['--scale', '3'], tiers=('thorough',)), J('api.cpp', 'zbase', parts=3, shards=2, defs=['-DTWIN'])], between='build switches',
   must_see=['twin:life:double', 'twin:algebra:int', 'life:double', 'svd', 'solve:double', 'channel:float', 'rng', 'mt', 'ccode', 'modulation', 'rrcosine', 'ccode_any', 'mt_draws', 'print_narrow', 'parse_odd', 'memory'], min_evals=20000,
   technique='differential monitor of result digests between builds with different switches and between allocators, and a monitor of the output streams', note='Every operation group runs on the same arguments in builds with assertions, without, with log messages, with NDEBUG and with a program and a library built differently; all result bits are compared, and the two allocators are compared within one process. Builds without log messages must print nothing.',
   rule='250 groups of operations over 14 element types with random valid arguments; 100 groups with both allocators. Distinct by group and result bits; results of 8 bytes or fewer do not count.'),
 'U01': dict(level='exploration', jobs=[J('api.cpp', 'san', parts=7, shards=1, args=['--scale', '3']), J('api.cpp', 'nas', parts=7, shards=1, tiers=('thorough',)), J('api.cpp', 'clang', parts=7, shards=1, tiers=('thorough',)), J('api.cpp', 'vg', parts=7, shards=1, args=['--scale', '0.02'], tiers=('thorough',))],
   must_see=['life:double', 'svd', 'solve:double', 'channel:float', 'rng', 'mt', 'ccode', 'svd:dense', 'history', 'fft:double', 'filter:double', 'bcjr', 'graph:int'], min_evals=50000,
   technique='AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions over an API sweep and the workloads of the other checks', note='Any report, leak, exception, abort or hang of a valid call counts; memcheck and clang sanitizers run in the thorough tier.',
   rule='The API sweep (241 operation groups, 14 element types) and the workloads of 26 other checks, where only abnormal ends count here. Distinct by group and result or arguments.'),
}
# the workloads of the value checks double as workloads of U01
for _p in ('M01', 'M02', 'M03', 'M05', 'A01', 'T02', 'B01', 'L01', 'L02', 'L03', 'L04', 'S01', 'S02', 'S03', 'N01', 'N02', 'R01', 'R02', 'C01', 'C02', 'E01', 'E02', 'Q01', 'Q02', 'G01', 'G02'):
    _j = [j for j in CHECKS[_p]['jobs'] if j['variant'] == 'san'][0]
    assert _j['variant'] == 'san', _p
    CHECKS['U01']['jobs'].append(dict(_j, crash_only=True, args=list(_j.get('args', ())) + ['--scale', '0.5']))

# one operation each on objects of more than 2^31 or 2^32 elements
for _p, _n in dict(M01=1, M03=1, L01=1, S02=3, S03=1, N01=1, G01=1, C01=1, M05=1).items():
    CHECKS[_p]['jobs'].append(J('big.cpp', 'plain', shards=_n, defs=['-DBIG_' + _p], cpu=220))
    CHECKS[_p]['rule'] += ' A case each beyond 2^31 or 2^32 elements (left out on machines without 15 GB of free memory).'

CHECKS['N01']['jobs'].append(J('big.cpp', 'ub', shards=1, defs=['-DBIG_N01V'], cpu=300))

# multiples of the base number of cases in the quick tier (the thorough tier has its own factor)
for _p, _s in dict(M01=3, M02=4, M03=8, V01=4, M05=4, M06=4, A01=3, T01=3, T02=3, L01=4, L02=5, L03=2, L04=10, S01=3, S02=12, S03=15, N01=12, N02=20, R01=10, R02=6, C01=15, E01=6, E02=1.5, G01=12, G02=12, Q01=10, Q02=6, D01=2, Y01=3, X01=2).items():
    CHECKS[_p]['scale'] = _s
