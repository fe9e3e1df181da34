#!/usr/bin/env python3
"""Composes DESIGN.md from the hand-written parts below, checks.py, properties.jsonl, known_findings.json and tools/seeded_catches.json."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]

HEAD = r'''# Runtime monitoring of susalib/susa

(Composed by `tools/gen_design.py`; the manifest by `tools/gen_manifest.py` from `checks.py`.)

## Scheme

Every check runs the real code and decides by observing executions.

* **What runs.** `run.py <ID> quick|thorough` compiles `/repo/src/*.cpp` and the headers in `/repo/inc`, unmodified and
  from the current working tree, together with a harness of `harness/`, in one or more *variants* (below), splits the
  workload over shards (subprocesses) and judges everything that is observed: mismatches reported by the oracle, reports of a
  sanitizer, abnormal ends (signals, aborts, exceptions, wrong exit status), hangs (the same case without progress for most
  of the CPU limit, twice), differing result digests between processes. Anything not listed in `known_findings.json`
  (there is no listed finding: every genuine defect found was repaired) is a violation, with a replay file
  (`run.py --replay FILE`). Compilation failures or too few observations are errors (exit 2), never a pass.
* **Oracles** are independent of susa: plain C++ containers and models, definitions evaluated naively in `long double` or
  128-bit integers, `std::mt19937`, brute-force enumeration. They never look at how the code is written.
* **Reach** comes from workload diversity: every case draws shape, values, element type, history and arguments from a generator
  keyed by (seed, kind, case), with structured and boundary values over-represented, and size classes beyond 8, 16
  and (for access and sets) 32 bits. `VERIF_SEED` changes all of them; quick runs the base number of cases, thorough about 8 times
  as many plus the expensive variants.
* **Evidence** (`evidence/<ID>.json`): cases executed per kind, number of distinct non-trivial cases (64-bit hash of the
  case contents; the rule says what counts), operations, the largest error/tolerance ratios measured, interleavings observed,
  digests compared, samples of cases. A run that saw fewer cases than `min_evals`, or missed a kind in `must_see`, is an error.

| variant | build | used for |
|---|---|---|
| `san` | g++ -O1, ASan + UBSan (incl. float-cast-overflow) + LSan, libstdc++ assertions, fresh memory filled with 0xCD | all value checks |
| `nas` | as `san` with `SUSA_NASSERT` | what happens without assertions (M04, M05, M06, T01) |
| `ndeb` | as `san` with `NDEBUG` | assertions survive `NDEBUG` (M04) |
| `zero` / `patt` | as `san`, heap and stack memory zeroed / filled with a pattern | D01: independence of stale memory |
| `tsan` | g++ ThreadSanitizer | X01, T01 |
| `plain` | g++ -O2 | sizes beyond 2^32 (B01, M02), simulated clock (Y01) |
| `zbase` `znas` `zlog` `zboth` `zndeb` `zmix` | g++ -O1 with the library's build switches; `zmix`: program and library built differently | Z01 |
| `clang`, `vg` | clang sanitizers; valgrind memcheck | thorough tier of U01 and D01 |

MemorySanitizer is not used: it needs an instrumented libstdc++, which is not installed; D01 (two memory fills) and memcheck take its place.

No instrumentation was needed inside the library: all state is observable through the public interface, derived classes
(`memory<T>` is driven through a derived class as the library itself does), replaced allocators (`matrix<T, Allocator>`) and
interposed libc functions. The hook guard of the manifest is unused.

Cost: a quick check takes 5-60 s of wall time with 8 cores including compilation (3-90 s of it); thorough 0.5-8 minutes.

## Properties and how each is decided

Per property: *decides* (method and oracle), *explores* (workload and what is counted distinct), *beyond tests* (why this reaches what the
repository's tests cannot) and *limits* (bounds, tolerances, contract decisions). All are claimed; `not_applicable` is empty:
every property is a statement about observable executions.
'''

WHY = {
 'M01': ('Unit tests exercise single copies; aliasing, stale size fields and double releases only appear after particular histories (assign from a moved-from, resize after self-assignment, ...).',
         'Contents after a resize to a different number of elements are unspecified and not judged. `a = std::move(b)` goes through copy assignment. Empty left operands of operators are out of contract.'),
 'M02': ('Index arithmetic errors show only for particular rows/columns (last, first, beyond 2^16 or 2^32 elements), shapes and slice bounds.',
         'mid(i,i), left(0), dimensions of 0 and shrink of single rows/columns are outside the contract (they assert). set_row/set_col of a matrix from itself is not judged. Huge matrices run without sanitizers and touch only what they write.'),
 'M03': ('Operand order, element types with wrap-around or overflow, aliasing of operands and shapes matter only for particular combinations.',
         'Operations whose element operation is undefined (integer division by zero, signed overflow) are not requested. Casts real to complex are not offered.'),
 'M04': ('Each trap is one line that a change can lose silently; tests never make illegal requests because they would abort.',
         'Index pairs and slices of every view; operators and products with all kinds of mismatch; arrays with wrong numbers of arguments. Shapes and dimension lists whose element count overflows count as requests that have to be refused.'),
 'V01': ('Each condition is one line, and each fallback one more; tests neither break a condition nor build without assertions.',
         'Conditions that are documented but not asserted (a down-sampling factor of zero, probabilities that do not add up) are out of contract. A 1x1 matrix is not used as "not a vector". With assertions disabled, the results of sorting or transforming something improper are not judged, only that the call is harmless.'),
 'M05': ('Formatting (blank space, separators, brackets, notations, long rows) has unboundedly many combinations; parsing depends on what the matrix held before.',
         'A trailing ";" or leading newline, and printing of complex matrices followed by parsing, are not promised. Reals are compared to the printed precision.'),
 'M06': ('No test makes an allocation fail; each of the allocations inside an operation is a separate failure point.',
         'The failing allocator throws or returns according to the library\'s contract (std::bad_alloc from allocate). array lets bad_alloc propagate, which is accepted. Every k is enumerated for the sampled shapes.'),
 'A01': ('Strides, mixed access paths and state kept between calls need many dimensions and histories.',
         'Access by a single raw index is linear. Up to 6 dimensions, occasionally hundreds of dimensions of length one.'),
 'T01': ('Conservation must hold at every point of every history and under concurrency: a missed or doubled release changes one byte count somewhere.',
         'The tracker is process-wide; judged at quiescent points. Single-threaded runs read it after each operation, also after each of the API operation groups.'),
 'T02': ('Growing/shrinking/moving combinations, not single calls, lose elements.',
         'memory<T> is driven through a derived class; element types int, double and a struct.'),
 'B01': ('Bit/byte boundary errors depend on size and position; wrap-around at 2^32 positions needs half a gigabyte.',
         'A moved-from bitset may only be assigned to. Sets of more than 2^35 positions only in the thorough tier.'),
 'L01': ('Shape pairs, aliasing (a = transpose(a), matmul(a, a)) and sizes beyond blocks or counters.',
         'Exact for integers and small values; for reals |error| <= c*n*eps*sum|terms|, so that any summation order passes.'),
 'L02': ('Singular and nearly singular matrices, integers at the limits of the type, and rank-deficient products have no closed-form test values.',
         'det of reals is judged against an error bound proportional to the permanent-like bound of the elimination; rank is judged only where a running rounding-error bound keeps every pivot clearly zero or clearly non-zero.'),
 'L03': ('Pivot orders, tolerances and right-hand side shapes multiply; tests factor a few fixed matrices.',
         'Floating-point types. The LUP tolerance is absolute (1e-4), matrices with pivots near it are not judged. linsolve and inv have no failure channel, so singular inputs are not given to them.'),
 'L04': ('The iteration takes different paths (deflation, wide/tall, zero columns, repeated values) depending on the spectrum.',
         'Residual and orthogonality bounds of c*max(m,n)*eps relative to the norm. Scale range 1e-15..1e15.'),
 'S01': ('Every length is a different butterfly/twiddle structure.',
         'Real input only (the interface takes real matrices). Lengths up to 65536.'),
 'S02': ('State carried across samples, tails, coefficient orientation and lengths matter in combination.',
         'The difference equation is checked as a residual with the library\'s own past outputs, so stable long recursions do not accumulate tolerance; a denormal allowance covers underflow. convmtx and toeplitz need vectors of at least 2; toeplitz with differing corner elements is not judged. conv of two long signals only in one order (the other is quadratic).'),
 'S03': ('Lengths that are not multiples of the factor, matrices, factor larger than the signal.', 'Factor 0 is out of contract.'),
 'N01': ('Narrow and unsigned types, 1x1, rows versus columns, extremes at the ends.',
         'Integers: exact where the sum fits the type (out of contract otherwise), truncated means; reals: order-independent rounding bounds, a condition term sqrt(var)*|mean| for the variance.'),
 'N02': ('Exactness at every power of two and range boundary cannot be sampled by a handful of values.',
         'Distribution functions within their stated accuracy; rounding of |x|*10^d beyond 2^53 not requested; abs of unsigned types of 32 bits and more does not compile.'),
 'R01': ('The stream must match at every draw of every seed, across refills at 624 words, after copies and re-seeding.',
         'mt::init_by_array is private dead code. randint(0) is excluded (division by zero).'),
 'R02': ('Element order, seeds, stream offsets and ties.', 'Draws within 1e-12 of a threshold are not judged; any of tied probabilities is accepted; after mt::nonuniform(mat, len) the stream position is not judged. randn: 1e-12 relative or 1e-10 absolute.'),
 'C01': ('Generators of up to 29 bits, memories up to 31, copied encoders and states.', 'next_output and decode only for up to 8 outputs (its result is one byte).'),
 'C02': ('The exact a-posteriori ratio exists only by summing over all sequences.', 'Judged while weights stay in the floating-point range (exponents up to ~500); ratios compared relative to the conditioning of the sums.'),
 'E01': ('Optimality over all sequences is what the algorithm promises; tests compare single recovered messages.', 'Signals are columns, at least two taps. Unknown state: received length of at least 2(L-1)+1. Ties: any optimal sequence.'),
 'E02': ('As C02.', 'Binary (first two amplitudes). Floating-point range as C02.'),
 'G01': ('Duplicates, order, extremes of the type and sizes.', 'The header says "descending" but sort is (and is used) ascending; ascending is judged.'),
 'G02': ('Relaxation order errors need particular graphs (long chains against index order, ties, unreachable parts, extreme weights).', 'The header text mentions costs, the function returns predecessors. Path costs within the type of the weights.'),
 'Q01': ('All orders, nearest points at cell borders and far away.', 'Noise power is judged statistically with bounds of less than 1e-9 false-alarm probability at fixed seeds.'),
 'Q02': ('Singular points of the pulse formula depend on factor and roll-off.', 'Length odd, roll-off 0..1, up to 1499 taps.'),
 'D01': ('Uninitialised reads give right answers by luck in tests.', 'Objects used are created by the operation groups; the tracker and the chronometer are process-wide by documentation.'),
 'X01': ('Schedules; hidden statics are harmless in sequential tests.', 'tracker, tic/toc excluded (process-wide by documentation). Interleavings are observed, not enumerated; TSan reports races even when the results agree.'),
 'U01': ('Needs every operation with every type under a sanitizer.', 'Arguments within documented preconditions only; wrap-around of unsigned types is not counted.'),
 'Y01': ('Months, midnights, years and time zones cannot be waited for; the clock is simulated per thread.', 'Only the first toc() after a tic() is judged (the header is ambiguous about a reset). Local time zones through TZ and the system\'s zone data or POSIX rules.'),
 'Z01': ('Tests are built with one set of switches.', 'lu/lup/linsolve/inv/channel/sort/select/find/dijkstra/svd do not compile with allocator_log and are compared with std::allocator only.'),
}

TAIL = r'''
## Contract decisions

What the library does not promise (documented preconditions, or no reading of the documentation that promises it) is never requested or never judged:

* Declared but not defined: `operator/(T, matrix)`, stream input, `channel::decode_bpsk_dfe`, `abs<T, Allocator>(vector)`, some duplicates in
  base.h. `mlp.h` is an empty class. The stream operators of `auxiliary.h` run in U01 only.
* Dimensions of 0 abort with assertions; slices of width 0 abort; `nonuniform`/`set_probabilities` need two probabilities or more.
* Norms, sums and products that leave the element type's range are not requested, except where the library widens.
* Workload history: one case in six repeats the previous case of its shard with one drawn number replaced, so that consecutive calls nearly agree (a result kept from an earlier call shows). The thread-sanitizer builds use -O0: an optimised build removes or merges racy accesses.
* Tolerances are of the form c*n*eps*sum|terms| or componentwise backward error bounds: they hold for every order of evaluation, so that refactorings that
  reassociate stay quiet. They were confirmed on a refactored tree (below).

## Genuine defects found and repaired

Each was reported by a check on the tree of that moment, reproduced against the real code and repaired by a `fix:` commit
(listed in `known_findings.json` under `fixed`, which suppresses nothing); reverting a repair makes the named check report again.

'''
FALSE = r'''
## False alarms met and what was corrected

* L02: rank of products whose pivots come close to the tolerance depends on the elimination order. Now a running error bound decides whether a matrix is judged at all (skips are counted in the evidence).
* S02: a float recursion of thousands of samples decays into denormals, where relative bounds fail: a denormal allowance was added; unstable long recursions are scaled to stable ones.
* N01: variance of data with a large mean: the bound lacked the condition term.
* R02: Gaussian variates near zero need an absolute bound; draws on a threshold are not judged.
* C02/E02: extreme noise levels underflow both sums; the property now says "while the weights stay within the floating-point range".
* Y01: the checks on the real clock retry when the second changes during a call.
* M02 (huge): untouched elements of a huge matrix were assumed zero; now they are read through the access path that was verified.
* M05 (own generator): printing the largest finite values with few digits rounds them past the range, so reading them back is infinity; such values are halved before they are printed.

## Silence on behaviour-preserving edits

A refactored copy of the tree (helpers extracted, loops rewritten and reversed, summation orders changed, variables renamed, statements reordered
in most files) is run through all checks at several seeds; all stay quiet. The unchanged tree was run with seeds 1-24.

## Planted bugs

Each directory of `seeded/` holds a patch that compiles and passes the tests, a demonstration and what it needs to manifest. They were written from the
property texts and the code. Besides them, an automatic mutation campaign (operators, constants, bounds, types, deleted statements at random lines of
the library, kept when the tests pass) was used to look for blind spots; surviving mutants were judged by hand as equivalent or led to the
size classes and cases named in the explored workloads (for instance signals longer than 255 in S02, sets and matrices beyond 2^32).
'''
def main():
    o = [HEAD]
    for p in props:
        c = CHECKS[p['id']]; w, lim = WHY[p['id']]
        runs = '; '.join('`%s` in `%s`%s%s' % ('+'.join(j['src']), j['variant'], ' (%d parts)' % j['parts'] if j.get('parts', 1) > 1 else '', '' if 'tiers' not in j else ' (%s only)' % '/'.join(j['tiers'])) for j in c['jobs'] if not j.get('crash_only'))
        o.append('\n### %s — %s\n\n* Decides: %s. %s\n* Explores: %s\n* Runs: %s.\n* Beyond tests: %s\n* Limits: %s\n' % (p['id'], p['title'], c['technique'], c['note'], c['rule'], runs, w, lim))
    o.append(TAIL)
    kf = json.load(open(V + '/known_findings.json'))
    for f in kf['fixed']:
        a = f.split(' ', 3); o.append('* %s `%s`: %s\n' % (a[1].split('=')[1], a[2], a[3]))
    o.append(FALSE)
    cp = V + '/tools/seeded_catches.json'; cat = json.load(open(cp)) if os.path.exists(cp) else {}
    o.append('| bug | property | needs | caught by |\n|---|---|---|---|\n')
    for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
        i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
        o.append('| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'].replace('|', '\\|').replace('\n', ' '), cat.get(i, '?').replace('|', '\\|')))
    open(V + '/DESIGN.md', 'w').write(''.join(o))
main()
