BASE_FLAGS = ['-std=c++14', '-w']
# -Og and no stack redzones: half the compile time at the same speed (stack redzones where a job asks for them)
SAN = ['-Og', '-g1', '-fsanitize=address', '--param', 'asan-stack=0', '-fno-omit-frame-pointer']
SAN_STACK = ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer']
WRAP = '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free'
CAPI = ['-O0', '-g1', '-fsanitize=address', '--param', 'asan-stack=0', '-fno-omit-frame-pointer']
BASE_LIBS = ['-llapack', '-lblas']

def ops(k):
    return [{'name': 'real', 'src': 'ops.cpp', 'flags': ['-DPROP=%d' % k, '-DREAL']}, {'name': 'complex', 'src': 'ops.cpp', 'flags': ['-DPROP=%d' % k, '-DCPLX']}]
OPS_RULE = ('one case = one input matrix of the enumerated space, factorized under every configuration of the product in row or column storage '
            '(with and without explicitly stored zeros), its operators read out column by column; states = distinct hierarchies (level sizes, '
            'permutations, factor patterns) reached; transitions = factorizations and operator applications')

CHECKS = {
 'P01': {'title': 'exactness without dropping', 'rule': OPS_RULE + '; compared with dense Gauss-Jordan', 'jobs': ops(1)},
 'P02': {'title': 'transpose is the adjoint', 'rule': OPS_RULE, 'jobs': ops(2)},
 'P03': {'title': 'multiply inverts solve', 'rule': OPS_RULE, 'jobs': ops(3)},
 'P04': {'title': 'multiple right-hand sides', 'rule': OPS_RULE + '; the single-column solve is the oracle', 'jobs': ops(4)},
 'P05': {
  'title': 'history independence',
  'rule': 'one case = one complete operation sequence on one preconditioner object, compared step by step with fresh '
          'objects; states = distinct (factorized system, filter, calls since) abstractions',
  'jobs': [{'name': 'history', 'src': 'history.cpp'}],
 },
 'P07': {'title': 'thresholds', 'rule': 'one case = one matrix with all its settings; per setting the model is run to its end and the real factorization compared with it level by level; transitions = model steps, states = distinct decision sequences, validated = runs that agree in everything',
         'jobs': [{'name': 'real', 'src': 'dropping.cpp'}, {'name': 'complex', 'src': 'dropping.cpp', 'flags': ['-DCPLX']}]},
 'P08': {'title': 'self-adjointness in symmetric mode', 'rule': OPS_RULE, 'jobs': ops(8)},
 'P06': {'title': 'inputs are read-only', 'rule': 'one case = one matrix, factorized and applied from write-protected memory with unmapped neighbours that is unmapped after the factorization; the same run on ordinary memory is the oracle; states = distinct hierarchies',
         'jobs': [{'name': 'real', 'src': 'inputs.cpp', 'flags': ['-DREAL']}, {'name': 'complex', 'src': 'inputs.cpp', 'flags': ['-DCPLX']}]},
 'P09': {'title': 'singular systems', 'rule': OPS_RULE + '; the exact rank by Gauss-Jordan (enumerated matrices) or by construction is the oracle',
         'jobs': [{'name': 'real', 'src': 'rank.cpp', 'flags': ['-DREAL']}, {'name': 'complex', 'src': 'rank.cpp', 'flags': ['-DCPLX']}]},
 'P10': {'title': 'iterative refinement', 'rule': 'one case = one matrix, factorized under the configurations, refined with every operator kind, rank argument, iteration count and bound pair; the recursion in dense arithmetic is the oracle',
         'jobs': [{'name': 'real', 'src': 'refine.cpp', 'flags': ['-DREAL']}, {'name': 'complex', 'src': 'refine.cpp', 'flags': ['-DCPLX']}]},
 'P11': {'title': 'null-space filter', 'rule': 'filter object: all ranges and all setter sequences against a model; attached: solve/refinement against filter matrix times unfiltered operator; states = filter states and hierarchies',
         'jobs': [{'name': 'filter', 'src': 'filter.cpp'}]},
 'P12': {'title': 'reported structure', 'rule': 'one case = one matrix, its hierarchy exported by rows and by columns and reassembled densely',
         'jobs': [{'name': 'real', 'src': 'levels.cpp', 'flags': ['-DREAL']}, {'name': 'complex', 'src': 'levels.cpp', 'flags': ['-DCPLX']}]},
 'P13': {'title': 'malformed input', 'rule': 'one case = one raw compressed matrix (starting, index and value arrays enumerated independently) or one call with enumerated vector sizes; the definition of a well-formed matrix is the oracle',
         'jobs': [{'name': 'reject', 'src': 'reject.cpp'}]},
 'P14': {'title': 'value, index and precision types', 'rule': 'one case = one matrix; transitions = factorizations/applications; states = distinct bit patterns of operators; oracle = the other type/interface bit for bit, or double-precision residuals',
         'jobs': [{'name': 'types', 'src': 'types.cpp', 'flags': ['-DPART=1']}, {'name': 'mixed', 'src': 'types.cpp', 'flags': ['-DPART=2']},
                  {'name': 'mixedz', 'src': 'types.cpp', 'flags': ['-DPART=2', '-DCPLX']}, {'name': 'hiprec', 'src': 'types.cpp', 'flags': ['-DPART=2', '-DHIF_HIGH_PRECISION_SOLVE']}]},
 'P15': {'title': 'sparse matrix operations', 'rule': 'one case = one sparsity pattern (or triplet list, or raw array set) taken through every operation at every position; a map of stored entries is the oracle; states = distinct input matrices',
         'jobs': [{'name': 'sparse', 'src': 'sparse.cpp'}]},
 'P16': {'title': 'sparse kernels', 'rule': 'one case = one sparsity pattern, value table and type mixture taken through all kernels, row ranges and right-hand side counts; dense sums in extended precision are the oracle; states = distinct input matrices',
         'jobs': [{'name': 'kernels', 'src': 'kernels.cpp'}]},
 'P17': {'title': 'augmented storage', 'rule': 'one case = one sparsity pattern or assembly program with all its interchanges and deferrals, executed step by step against a dense model; after each step every line and every list is walked; states = distinct patterns',
         'jobs': [{'name': 'augmented', 'src': 'augmented.cpp'}]},
 'P18': {'title': 'containers', 'rule': 'one case = one complete program of operations on two or three containers, executed step by step against a reference model (values, sizes, sharing, allocations); states = distinct model abstractions',
         'jobs': [{'name': 'containers', 'src': 'containers.cpp'}]},
 'P19': {'title': 'matching and scaling', 'rule': 'one case = one matrix taken through all listed settings of the preprocessing; dynamic programming over all assignments is the oracle; states = distinct permutations and leading blocks',
         'jobs': [{'name': n, 'src': 'matching.cpp', 'flags': f} for n, f in (('double', ['-DTYPE=0']), ('complex', ['-DTYPE=1']), ('single', ['-DTYPE=2']))]},
 'P20': {'title': 'orderings', 'rule': 'one case = one graph or pattern (all ways to store it), both orderings; the reference is symbolic elimination, the envelope of all minimum external degree eliminations and breadth-first search; states = distinct orderings produced',
         'jobs': [{'name': 'orderings', 'src': 'orderings.cpp'}]},
 'P21': {'title': 'dense solvers', 'rule': 'one case = one dense matrix (x thresholds or definiteness flags) given in one of four ways; transitions = factorizations, solves and products; states = distinct pivot sequences/ranks; oracles = Gauss-Jordan, pseudo-inverse identities, Jacobi eigenvalues in double precision',
         'jobs': [{'name': n, 'src': 'dense.cpp', 'flags': f} for n, f in (('double', ['-DTYPE=0']), ('complex', ['-DTYPE=1']), ('single', ['-DTYPE=2']), ('csingle', ['-DTYPE=3']), ('norm1', ['-DTYPE=1', '-DHIF_TQRCP_USE_1NORM']))]},
 'P22': {'title': 'MatrixMarket exactness', 'rule': 'one case = one matrix/vector/file layout/failing write; the set of entries is the oracle; states = distinct files',
         'jobs': [{'name': 'io', 'src': 'io.cpp', 'flags': ['-DPROP=22']}]},
 'P23': {'title': 'damaged MatrixMarket files', 'rule': 'one case = one damaged file read in five ways; a strict reference reader is the oracle (refuse, accept as given, or unclear: only memory safety and well-formedness); states = distinct files; outcomes = oracle verdicts',
         'jobs': [{'name': 'io', 'src': 'io.cpp', 'flags': ['-DPROP=23']}]},
 'P24': {'title': 'C interface', 'rule': 'one case = one call sequence (or file, or parameter variation) through libhifir, every return value and output compared with the C++ object driven alongside; states = distinct object states',
         'jobs': [{'name': 'c32', 'src': 'capi.cpp', 'san': CAPI, 'flags': ['-DNDEBUG', '-I@REPO@/libhifir/src', '-I@REPO@/libhifir/include']},
                  {'name': 'c64', 'src': 'capi.cpp', 'san': CAPI, 'flags': ['-DNDEBUG', '-DLIBHIFIR_INT_SIZE=64', '-I@REPO@/libhifir/src', '-I@REPO@/libhifir/include']}]},
 'P26': {'title': 'options', 'rule': 'one case = one option, value and way to set it (or one name, one mask), continued by every second setting or every truncation; a table of the fields is the oracle; states = distinct option sets and texts',
         'jobs': [{'name': 'options', 'src': 'options.cpp'}]},
 'P27': {'title': 'threads change nothing', 'rule': 'one case = one input, requested and granted thread count and order of the threads (all single-preemption schedules inside a case where stated), executed on the real code under the controlled scheduler; transitions = executions and context switches; states = distinct results/traces; the single-threaded code is the oracle, the happens-before monitor decides races',
         'jobs': [{'name': 'threads', 'script': '@VERIF@/harness/sched.sh', 'flags': ['threads.cpp']}]},
 'P28': {'title': 'concurrent objects', 'rule': 'one case = one set of programs run by concurrent threads under one order (or all one-preemption schedules); states = distinct trace lengths; the program run alone is the oracle, the happens-before monitor decides races',
         'jobs': [{'name': 'concurrent', 'script': '@VERIF@/harness/sched.sh', 'flags': ['concurrent.cpp']}]},
 'P29': {'title': 'running out of memory', 'rule': 'one case = one program of operations on one input; every memory request of every operation fails alone, with each later one, and with all later ones; states = distinct (operation, request, outcome, result); the undisturbed program is the oracle',
         'jobs': [{'name': n, 'src': 'memory.cpp', 'flags': f + [WRAP]} for n, f in (('real', ['-DREAL']), ('complex', ['-DCPLX']))] +
                 [{'name': n, 'src': 'memory.cpp', 'san': CAPI, 'flags': f + ['-DPART_C', '-DNDEBUG', '-I@REPO@/libhifir/src', '-I@REPO@/libhifir/include', WRAP]} for n, f in (('c_real', ['-DREAL']), ('c_complex', ['-DCPLX']))]},
 'P30': {'title': 'messages and debugging checks', 'rule': 'one case = one input, storage, value type, mode and configuration, run under every verbosity (128 subsets of the flags) and with the debugging checks of the library compiled in, everything printed captured; states = distinct (hierarchy, verbosity); the muted run is the oracle',
         'jobs': [{'name': 'diag', 'script': '@VERIF@/harness/diag.sh', 'flags': ['diag.cpp']}]},
}
