#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['SLIP_LU/Source/' + f if '/' not in f else f for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


p('C01', 'LU_solve and backslash return the exact solution',
  'Whenever SLIP_LU_solve or SLIP_backslash returns SLIP_OK with a solution of type SLIP_MPQ, the returned x satisfies A*x = b exactly over the rationals for every right-hand side column, where A and b are the matrices the user passed in, including their scale factors, row and column permutations. Input entries given in another number type are those read by the documented conversion to integers (doubles as the decimal value rounded to 17 digits after the point, MPFR as the value rounded to prec bits after the point). When x is requested as SLIP_FP64 or SLIP_MPFR it is that exact solution rounded.',
  ['inputs', 'configurations'], 'every square nonsingular A (any size, sparsity, values, scale), every b (any number of columns, any scale), every ordering and pivoting option, option->check on or off',
  'The tests solve a dozen fixed systems in which scales, permutations and zero patterns are mostly trivial; an error in a skipped row, a scale direction or an index mapping shows only for particular patterns and values.',
  ['SLIP_backslash.c', 'SLIP_LU_solve.c', 'slip_forward_sub.c', 'slip_back_sub.c', 'slip_matrix_mul.c', 'slip_matrix_div.c', 'slip_permute_b.c', 'slip_permute_x.c'],
  [('fraction-free forward substitution with history', 'slip_forward_sub.c'), ('multiply by the determinant, back substitution with exact division', 'SLIP_LU_solve.c, slip_back_sub.c'), ('scale = A->scale / b->scale applied to x', 'SLIP_LU_solve.c')],
  observe=['X_handle of SLIP_LU_solve / SLIP_backslash'])
p('C02', 'LU factorization is exact, integral and correctly permuted',
  'When SLIP_LU_factorize returns SLIP_OK, pinv is a permutation of 0..n-1, L is lower triangular and U upper triangular in pivotal order with valid duplicate-free row indices, rhos[k] is the k-th diagonal entry of both and nonzero, and with D = diag(rhos[k-1]*rhos[k]) (rhos[-1]=1) the integer factors satisfy P*A*Q = L*inv(D)*U exactly, where row i of A is row pinv[i] of P*A and column k of A*Q is column S->q[k] of A.',
  ['inputs', 'configurations'], 'every square integer matrix A (any pattern, any magnitude), every column permutation, every pivoting option, every sufficient initial size estimate including those that force reallocation',
  'Tests never look at L and U; they only compare final solutions of a few small systems, so wrong history updates, lost reallocated entries or unsound zero-skipping can cancel or never be exercised.',
  ['SLIP_LU_factorize.c', 'slip_ref_triangular_solve.c', 'slip_reach.c', 'slip_dfs.c', 'slip_get_pivot.c', 'slip_sparse_realloc.c', 'slip_sparse_collapse.c'],
  [('symbolic reach of column k in the graph of L', 'slip_reach.c, slip_dfs.c'), ('history vector h and integer-preserving update with exact division', 'slip_ref_triangular_solve.c'), ('pivot bookkeeping pinv/row_perm', 'slip_get_pivot.c')],
  state=[('h', 'pivot stage up to which each x[i] has been updated', 'slip_ref_triangular_solve.c'), ('pinv/row_perm', 'row permutation under construction', 'SLIP_LU_factorize.c')],
  observe=['L, U, rhos, pinv of SLIP_LU_factorize'])
p('C03', 'Singularity is reported exactly when A is singular',
  'SLIP_LU_factorize (and SLIP_backslash) returns SLIP_SINGULAR for a valid square matrix if and only if its determinant is zero; a nonsingular matrix is never rejected and a singular one never yields a factorization or a solution. No factor is returned with SLIP_SINGULAR.',
  ['inputs', 'configurations'], 'every square integer matrix (also numerically singular ones with full structural rank, and singularities appearing only in the last column), every ordering and pivoting option',
  'One singular matrix is tested; singularity depends on exact cancellation at an arbitrary elimination step and on every pivot search branch.',
  ['SLIP_LU_factorize.c', 'slip_get_pivot.c', 'slip_get_smallest_pivot.c', 'slip_get_largest_pivot.c', 'slip_get_nonzero_pivot.c'],
  [('pivot searches return SLIP_SINGULAR when no eligible nonzero entry exists', 'slip_get_*_pivot.c')], observe=['return code'])
p('C04', 'The selected pivot obeys the pivoting option',
  'At every elimination step the chosen pivot is a nonzero entry of the current column in a not yet pivotal row, and is: the smallest in magnitude for SLIP_SMALLEST, the largest for SLIP_LARGEST, the first nonzero of the column pattern for SLIP_FIRST_NONZERO, the diagonal entry whenever it is eligible for SLIP_DIAGONAL (smallest otherwise), and for the two tolerance options the diagonal entry whenever it is eligible and its magnitude relative to the smallest (largest) satisfies the tolerance, otherwise the smallest (largest). The row permutation and its inverse are updated consistently.',
  ['inputs', 'configurations'], 'every column of values (zeros, ties, negative numbers, huge numbers), every set of pivotal rows, every tolerance, every option',
  'All options give the same correct solution, so the tests (which compare solutions) cannot see which pivot was chosen.',
  ['slip_get_pivot.c', 'slip_get_smallest_pivot.c', 'slip_get_largest_pivot.c', 'slip_get_nonzero_pivot.c'],
  [('switch over the pivoting scheme', 'slip_get_pivot.c'), ('linear scans of the pattern', 'slip_get_*_pivot.c')], observe=['pinv and rhos of SLIP_LU_factorize'])
p('C05', 'LU_analyze returns a column permutation or an error',
  'When SLIP_LU_analyze returns SLIP_OK the analysis holds a permutation q of 0..n-1 (the identity for SLIP_NO_ORDERING) and size estimates for L and U large enough to start the factorization; otherwise no analysis object is returned. A matrix that is not a square CSC matrix is rejected with SLIP_INCORRECT_INPUT, and a failure of the ordering package is reported, never ignored.',
  ['inputs', 'configurations', 'fault_sequences'], 'every CSC matrix of any type, every ordering option, failures of the ordering package',
  'Tests run three orderings on well formed matrices and check only the final solution, which does not depend on q or the estimates.',
  ['SLIP_LU_analyze.c', 'SLIP_LU_analysis_free.c'],
  [('selection of COLAMD / AMD / natural ordering', 'SLIP_LU_analyze.c'), ('lnz/unz floors and caps', 'SLIP_LU_analyze.c')], observe=['SLIP_LU_analysis'])
p('C06', 'matrix_copy preserves the matrix across kinds and types',
  'SLIP_matrix_copy returns a new unshared matrix C of the requested kind and type with the dimensions of A such that every entry of C equals the corresponding entry of A (divided by A->scale and multiplied by C->scale where those apply): exactly for every conversion to SLIP_MPZ (from MPZ, MPQ, INT64) or SLIP_MPQ, correctly rounded to SLIP_MPFR, within one unit in the last place to SLIP_FP64, and truncated or saturated to SLIP_INT64. For sparse targets only explicit zeros may be dropped, and A is not modified. Entries are finite.',
  ['inputs', 'configurations'], 'all 15 source times 15 target combinations of kind and type, any dimensions and patterns (empty columns, unsorted triplets, explicit zeros), shallow or not',
  'The tests copy a few tiny matrices and rarely compare entries, so misplaced entries, wrong scales or wrong pointers in one of 225 paths are not visible.',
  ['SLIP_matrix_copy.c', 'slip_cast_matrix.c', 'slip_cast_array.c'],
  [('conversion by target kind', 'SLIP_matrix_copy.c'), ('conversion by type', 'slip_cast_matrix.c, slip_cast_array.c')], observe=['C_handle'])
p('C07', 'Conversion to integers scales every entry exactly',
  'Converting an array or matrix of rational, multiple precision or double entries to MPZ yields integers and one nonzero scale factor such that every integer equals the original entry times the scale, exactly (for doubles: the entry read as the code documents it); an array of zeros gives zeros and a usable nonzero scale. Entries are finite.',
  ['inputs', 'configurations'], 'every array length and every array of values including all zeros, mixed magnitudes, negative values, common factors and integers',
  'Tests expand a few matrices with uniform entries; the lcm/gcd normalisation, early exits and zero handling depend on values at particular positions.',
  ['slip_expand_double_array.c', 'slip_expand_mpfr_array.c', 'slip_expand_mpq_array.c', 'slip_cast_array.c'],
  [('lcm of denominators, gcd of numerators', 'slip_expand_*_array.c')], observe=['C->x.mpz and C->scale of SLIP_matrix_copy'])
p('C08', 'matrix_check accepts exactly the well formed matrices',
  'SLIP_matrix_check returns SLIP_OK if and only if the matrix is well formed: legal dimensions, kind and type, required arrays present, at most nzmax entries, CSC column pointers monotone from zero, all row and column indices in range and no duplicate entry; otherwise SLIP_INCORRECT_INPUT (or SLIP_OUT_OF_MEMORY when its workspace cannot be allocated). It never modifies the matrix and prints only as the print level allows.',
  ['inputs', 'configurations'], 'every matrix header and content of any of the 15 kinds and types, every print level',
  'Only a handful of corrupted matrices are tried; the decision ranges over every index position, ordering of triplets and duplicate location.',
  ['SLIP_matrix_check.c', 'SLIP_matrix_nnz.c'], [('range checks and workspace marks per column; triplet list sorted to find duplicates', 'SLIP_matrix_check.c')], observe=['return code'])
p('C09', 'No leak, double free or lost error on any path, even out of memory',
  'Whatever allocation fails and wherever, every SLIP_LU function returns an error code without crashing, having freed everything it allocated, leaving the caller\'s objects valid and its output handles NULL; SLIP_OUT_OF_MEMORY is returned only when an allocation really failed. On success exactly the documented outputs remain allocated, and freeing them releases all memory. (A failed shrinking reallocation is no error: the larger block is kept.)',
  ['fault_sequences', 'inputs'], 'every sequence of allocation failures (each allocation may fail), every input of each function',
  'Tests inject failures at a sample of points for a few small inputs and do not track each block; reallocation and error paths depend on combinations of input and fault point.',
  ['SLIP_matrix_allocate.c', 'SLIP_matrix_free.c', 'slip_create_mpz_array.c', 'slip_create_mpq_array.c', 'slip_create_mpfr_array.c', 'slip_sparse_realloc.c', 'slip_sparse_collapse.c', 'slip_permute_b.c', 'slip_permute_x.c', 'SLIP_LU_factorize.c', 'SLIP_LU_solve.c', 'SLIP_backslash.c', 'SLIP_matrix_copy.c'],
  [('SLIP_CHECK / SLIP_FREE_ALL', 'all files in SLIP_LU/Source'), ('NULL-initialised GMP arrays that can be cleared when half initialised', 'SLIP_matrix_allocate.c, slip_create_*_array.c')], observe=['return codes, live blocks'])
p('C10', 'GMP wrappers contain memory failures and compute what they name',
  'Every GMP/MPFR wrapper returns SLIP_OK with exactly the result of the GMP/MPFR function it is named after, applied to its arguments in the right order, or SLIP_OUT_OF_MEMORY when memory ran out inside GMP; in that case control returns to the caller, every block allocated by the interrupted call is freed and the destination, initialised through SLIP_LU, can still be cleared.',
  ['fault_sequences', 'inputs', 'histories'], 'every wrapper, every operand values and aliasing, every point at which an allocation inside GMP fails, including repeated reallocation of the destination and growth of the tracking list',
  'Tests exercise wrappers indirectly with values that rarely allocate; a failure inside GMP at the exact wrong moment, or swapped operands in a rarely used wrapper, is not sampled.',
  ['SLIP_gmp.c', 'SLIP_gmp.h'], [('setjmp/longjmp and list of live GMP blocks', 'SLIP_gmp.c: SLIP_GMP_WRAPPER_START*, slip_gmp_allocate/reallocate/free/failure')],
  state=[('slip_gmp_list', 'blocks allocated by the GMP call in progress', 'SLIP_gmp.c'), ('slip_gmpz_archive etc.', 'destination whose old block must survive a failure', 'SLIP_gmp.c')])
p('C11', 'SuiteSparse/SLIP memory functions honour their size contract',
  'SuiteSparse_malloc, calloc and realloc (and SLIP_malloc, SLIP_calloc, SLIP_realloc) either return a block of at least nitems*size_of_item bytes (never a smaller one because of overflow; zeroed for calloc; with the old contents kept for realloc) or report failure; a failed realloc leaves the old block untouched and valid and sets ok to false, except that shrinking or keeping the size always succeeds. Before SLIP_initialize the SLIP functions return NULL and do nothing.',
  ['inputs', 'fault_sequences', 'configurations'], 'all counts and sizes including 0, 1, values whose product overflows size_t, NULL pointers, every combination of failing allocators and user supplied allocators',
  'Tests use small sizes only; overflow and failing reallocations need extreme sizes or particular faults.',
  ['SuiteSparse_config/SuiteSparse_config.c', 'SLIP_malloc.c', 'SLIP_calloc.c', 'SLIP_realloc.c', 'SLIP_free.c'], [('overflow test against SIZE_MAX', 'SuiteSparse_config/SuiteSparse_config.c')])
p('C12', 'Nothing runs before SLIP_initialize or after SLIP_finalize',
  'Before SLIP_initialize (or after SLIP_finalize) every public SLIP_LU function other than the GMP/MPFR wrappers refuses to run: it returns SLIP_PANIC, NULL or -1 and changes nothing. SLIP_initialize installs the memory functions exactly once (a second initialisation returns SLIP_PANIC and changes nothing), and SLIP_finalize releases all internal workspace.',
  ['histories'], 'every sequence of initialize, initialize_expert, finalize and other public calls, every set of user supplied memory functions',
  'Tests call most functions only between initialize and finalize.',
  ['SLIP_initialize.c', 'SLIP_initialize_expert.c', 'SLIP_finalize.c', 'SLIP_gmp.c', 'SLIP_create_default_options.c'], [('slip_initialized() tested first in every public function', 'all public functions')],
  state=[('slip_initialize_has_been_called', 'library state', 'SLIP_gmp.c')])
p('C13', 'Inputs are never modified',
  'SLIP_LU functions never modify the objects documented as inputs: A, b, L, U, rhos, S, pinv and option keep the value of every field and every entry across SLIP_LU_analyze, SLIP_LU_factorize, SLIP_LU_solve, SLIP_backslash, SLIP_matrix_copy, SLIP_matrix_check and SLIP_matrix_nnz, also when those return an error.',
  ['inputs', 'fault_sequences'], 'every input of these functions and every failure point (the factorization temporarily flips pointers of its own L)',
  'Tests do not compare inputs before and after.',
  ['SLIP_LU_factorize.c', 'SLIP_LU_solve.c', 'SLIP_backslash.c', 'SLIP_matrix_copy.c', 'slip_check_solution.c'], [('working copies; marks in L->p are undone', 'slip_reach.c')], observe=['inputs after each call'])
p('C14', 'AMD validates its input and returns a permutation or an error',
  'amd_valid (and amd_l_valid) classifies a column-form pattern exactly: AMD_INVALID for missing arrays, bad dimensions, non-monotone pointers or out-of-range indices, AMD_OK_BUT_JUMBLED for unsorted or duplicate indices, AMD_OK otherwise. amd_order (amd_l_order) returns AMD_OK or AMD_OK_BUT_JUMBLED accordingly with all its workspace freed, and AMD_INVALID (with P untouched) or AMD_OUT_OF_MEMORY otherwise, and reads nothing outside Ap and Ai.',
  ['inputs', 'fault_sequences'], 'every n, Ap, Ai (also malformed), both integer widths, every allocation failure',
  'AMD demos check a few patterns only.',
  ['AMD/Source/amd_order.c', 'AMD/Source/amd_valid.c', 'AMD/Source/amd_preprocess.c'], [('validation, jumbled input sorted by transposition', 'amd_valid.c, amd_preprocess.c')])
p('C15', 'COLAMD workspace size and defaults are safe',
  'colamd_recommended (colamd_l_recommended) returns either 0 when its arguments are negative or the size would overflow, or a workspace length sufficient for colamd on every matrix of that size; colamd_set_defaults fills exactly the documented defaults. With the recommended workspace colamd returns a permutation for every valid pattern and reports an error otherwise.',
  ['inputs'], 'every nnz, n_row, n_col including overflowing ones, both integer widths',
  'Demos use one matrix.',
  ['COLAMD/Source/colamd.c'], [('overflow-checked size arithmetic t_add/t_mult', 'COLAMD/Source/colamd.c')])
p('C16', 'The solution check accepts exactly the true solutions',
  'With checking requested, a solve returns SLIP_OK only for x with A*x = b exactly and SLIP_INCORRECT for any other x: the check evaluates every row and every right-hand side with exact arithmetic on the integer system (the entries of A and b before their scale factors, x before it is scaled).',
  ['inputs'], 'every A, b and candidate x, any number of right-hand sides, any scale factors, errors in any single entry',
  'The solver never produces a wrong x, so the rejecting branch is never exercised by the tests.',
  ['slip_check_solution.c'], [('exact accumulation of A*x and comparison with b', 'slip_check_solution.c')], observe=['return code'])
p('C17', 'Triangular solve pattern is complete, minimal and leaves L intact',
  'For each column the symbolic step yields a duplicate-free list of row indices containing every row in which the partially factorized column can become nonzero, never writes outside its workspace, visits each node once, and leaves the column pointers of L exactly as they were.',
  ['inputs'], 'every partial L (any sparsity, including empty columns), every row permutation, every column of A',
  'Only a few small patterns are run; wrong marks or a truncated search show only in deep or branching graphs.',
  ['slip_reach.c', 'slip_dfs.c', 'slip_cumsum.c'], [('non-recursive depth-first search with marks flipped in L->p', 'slip_dfs.c')])
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
if __name__ == '__main__':
    try:
        import jsonschema
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for x in P:
            jsonschema.validate(x, s)
            assert len(x['title']) <= 80, x['id']
    except ImportError:
        pass
    print(len(P), 'properties')
