from b1 import HEAD, TAIL, S
BUGS = []
HEADX = HEAD.replace('SLIP_initialize ()', 'SLIP_initialize_expert (count_malloc, count_calloc, count_realloc, count_free)')
OPEN = '''
    unsigned z = 12345 ;
'''


def b(id, file, old, new, needs, breaks, demo, head=HEAD):
    BUGS.append(dict(id=id, property=id[:3], edits=[(file, old, new)] if isinstance(old, str) else [(file, o, n) for o, n in zip(old, new)],
                     needs=needs, breaks=breaks, demo=head + demo + TAIL))


b('C07-lcm-skip', S + 'slip_expand_mpq_array.c', 'SLIP_CHECK(SLIP_mpz_lcm(temp, x3->x.mpz[i], temp));',
  '''int larger = 0 ;
        SLIP_CHECK(SLIP_mpz_cmp(&larger, x3->x.mpz[i], temp));
        if (larger > 0)
        {
            SLIP_CHECK(SLIP_mpz_lcm(temp, x3->x.mpz[i], temp));
        }''',
  'a denominator that is smaller than the common multiple of those before it and does not divide it',
  'the common denominator of a rational array misses a denominator, so entries are truncated instead of scaled exactly',
  '''
    SLIP_matrix *A, *C = NULL ;
    mpq_t s ; mpq_init (s) ;
    if (SLIP_matrix_allocate (&A, SLIP_DENSE, SLIP_MPQ, 3, 1, 3, false, true, opt) != SLIP_OK) return 9 ;
    mpq_set_si (A->x.mpq [0], 1, 4) ; mpq_set_si (A->x.mpq [1], 5, 6) ; mpq_set_si (A->x.mpq [2], 2, 5) ;
    WANT (SLIP_matrix_copy (&C, SLIP_DENSE, SLIP_MPZ, A, opt) == SLIP_OK) ;
    for (int i = 0 ; i < 3 ; i++) { mpq_mul (s, A->x.mpq [i], C->scale) ; WANT (mpz_cmp_ui (mpq_denref (s), 1) == 0 && mpz_cmp (mpq_numref (s), C->x.mpz [i]) == 0) ; }
''')
b('C06-unit-numerator', S + 'slip_cast_array.c', '''                    // divide by x_scale if x_scale != 1.
                    mpz_t *x = (mpz_t *) X ;
                    SLIP_CHECK(SLIP_mpq_cmp_ui(&r, x_scale, 1, 1));
''', '''                    // divide by x_scale if x_scale != 1.
                    mpz_t *x = (mpz_t *) X ;
                    SLIP_CHECK(SLIP_mpz_cmp_ui(&r, SLIP_MPQ_NUM(x_scale), 1));
''',
  'an integer matrix with a scale factor 1/k, converted to double',
  'the scale factor 1/k is taken for 1',
  '''
    long v [2] = { 3, -7 } ;
    SLIP_matrix *A = from_rows (SLIP_DENSE, 2, 1, v), *C = NULL ;
    mpq_set_ui (A->scale, 1, 4) ;
    WANT (SLIP_matrix_copy (&C, SLIP_DENSE, SLIP_FP64, A, opt) == SLIP_OK) ;
    WANT (C->x.fp64 [0] == 12 && C->x.fp64 [1] == -28) ;
''')
b('C06-rectangular', S + 'SLIP_matrix_copy.c', '''                                        SLIP_1D (C, nz, fp64) =
                                            Y->x.fp64[i +j*A->m];''', '''                                        SLIP_1D (C, nz, fp64) =
                                            Y->x.fp64[i +j*A->n];''',
  'a dense rectangular matrix converted to a sparse double matrix',
  'entries of a rectangular matrix are taken from the wrong place',
  '''
    long v [6] = { 1, 2, 3, 4, 5, 6 } ;
    SLIP_matrix *A = from_rows (SLIP_DENSE, 2, 3, v), *C = NULL ;
    WANT (SLIP_matrix_copy (&C, SLIP_CSC, SLIP_FP64, A, opt) == SLIP_OK) ;
    for (int p = 0 ; p < 6 ; p++) WANT (C->x.fp64 [p] == mpz_get_d (A->x.mpz [p])) ;
''')
b('C08-duplicate-window', S + 'SLIP_matrix_check.c', 'if (this_j == last_j && this_i == last_i)', 'if (this_j == last_j && this_i == last_i && p > 1)',
  'a triplet matrix whose duplicate entry is the first in column order',
  'a duplicate among the first two sorted entries is accepted',
  '''
    SLIP_matrix *A ;
    if (SLIP_matrix_allocate (&A, SLIP_TRIPLET, SLIP_INT64, 3, 3, 3, false, true, opt) != SLIP_OK) return 9 ;
    A->nz = 3 ;
    int64_t I [3] = { 1, 0, 0 }, J [3] = { 2, 0, 0 } ;
    for (int k = 0 ; k < 3 ; k++) { A->i [k] = I [k] ; A->j [k] = J [k] ; A->x.int64 [k] = 1 ; }
    WANT (SLIP_matrix_check (A, opt) == SLIP_INCORRECT_INPUT) ;
''')
b('C04-tolerance-boundary', S + 'slip_get_pivot.c', '''            SLIP_CHECK(SLIP_mpq_cmp(&r, ratio, tol));
            if (r >= 0)
            {
                *pivot = col;
            }
        }
    }

    //--------------------------------------------------------------------------
    // Use the largest potential pivot''', '''            SLIP_CHECK(SLIP_mpq_cmp(&r, ratio, tol));
            if (r > 0)
            {
                *pivot = col;
            }
        }
    }

    //--------------------------------------------------------------------------
    // Use the largest potential pivot''',
  'tolerance option for the largest pivot with a diagonal entry exactly at the tolerance', 'a diagonal entry that satisfies the tolerance with equality is not taken',
  '''
    long v [4] = { 2, 1,  4, 3 } ;
    SLIP_matrix *A = from_rows (SLIP_CSC, 2, 2, v), *L, *U, *rhos ;
    SLIP_LU_analysis *T ; int64_t *pinv ;
    opt->order = SLIP_NO_ORDERING ; opt->pivot = SLIP_TOL_LARGEST ; opt->tol = 0.5 ;
    WANT (SLIP_LU_analyze (&T, A, opt) == SLIP_OK) ;
    WANT (SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, T, opt) == SLIP_OK) ;
    WANT (mpz_cmp_si (rhos->x.mpz [0], 2) == 0) ;
''')
b('C16-last-column', S + 'slip_check_solution.c', '''                j = b->n;
                break;''', '''                break;''',
  'several right-hand sides, a wrong solution of one that is not the last', 'a wrong solution is accepted when a later right-hand side is solved correctly',
  '''
    long v [4] = { 2, 0,  0, 3 }, w [4] = { 2, 2,  3, 3 } ;
    SLIP_matrix *A = from_rows (SLIP_CSC, 2, 2, v), *b = from_rows (SLIP_DENSE, 2, 2, w), *x ;
    if (SLIP_matrix_allocate (&x, SLIP_DENSE, SLIP_MPQ, 2, 2, 4, false, true, opt) != SLIP_OK) return 9 ;
    for (int k = 0 ; k < 4 ; k++) mpq_set_ui (x->x.mpq [k], 1, 1) ;
    WANT (slip_check_solution (A, x, b, opt) == SLIP_OK) ;
    mpq_set_ui (x->x.mpq [0], 5, 1) ;
    WANT (slip_check_solution (A, x, b, opt) == SLIP_INCORRECT) ;
''')
b('C13-estimate', S + 'SLIP_LU_factorize.c', '''    // free everything, but keep L, U, rhos, and pinv
''', '''    // the exact sizes are the best estimates for a later factorization
    ((SLIP_LU_analysis *) S)->lnz = lnz ;
    ((SLIP_LU_analysis *) S)->unz = unz ;

    // free everything, but keep L, U, rhos, and pinv
''',
  'an analysis that is looked at, or used again, after a factorization', 'SLIP_LU_factorize changes the analysis it is given as an input',
  '''
    long v [4] = { 2, 1,  4, 3 } ;
    SLIP_matrix *A = from_rows (SLIP_CSC, 2, 2, v), *L, *U, *rhos ;
    SLIP_LU_analysis *T ; int64_t *pinv ;
    WANT (SLIP_LU_analyze (&T, A, opt) == SLIP_OK) ;
    int64_t a = T->lnz, c = T->unz ;
    WANT (SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, T, opt) == SLIP_OK) ;
    WANT (T->lnz == a && T->unz == c) ;
''')
b('C10-lcm-destination', S + 'SLIP_gmp.c', '''    SLIP_GMPZ_WRAPPER_START (lcm) ;
    mpz_lcm (lcm, x, y) ;''', '''    SLIP_GMP_WRAPPER_START ;
    mpz_lcm (lcm, x, y) ;''',
  'memory running out inside mpz_lcm after the destination was enlarged', 'the destination keeps a pointer to a block that was freed, so clearing it later frees the block twice',
  '''
    mpz_t a, c, d ;
    mpz_init (a) ; mpz_init (c) ; 
    mpz_ui_pow_ui (a, 7, 2000) ; mpz_ui_pow_ui (c, 11, 2000) ;
    for (int t = 0 ; t < 12 ; t++)
    {
        SLIP_mpz_init (d) ;
        slip_gmp_ntrials = t ;
        info = SLIP_mpz_lcm (d, a, c) ;
        slip_gmp_ntrials = -1 ;
        WANT (info == SLIP_OK || info == SLIP_OUT_OF_MEMORY) ;
        SLIP_MPZ_CLEAR (d) ;
    }
''')
b('C11-realloc-equal', 'SuiteSparse_config/SuiteSparse_config.c', '''            if (nitems_new < nitems_old)
            {
                /* the attempt''', '''            if (nitems_new < 2*nitems_old)
            {
                /* the attempt''',
  'a failing reallocation to less than twice the size', 'a failed enlargement is reported as a success, with the old, smaller block',
  '''
    SuiteSparse_config.realloc_func = no_realloc ;
    int ok = -1 ;
    char *p = SuiteSparse_malloc (10, 1), *q = SuiteSparse_realloc (15, 10, 1, p, &ok) ;
    WANT (q == p && ok == 0) ;
''')
b('C12-expert-order', S + 'SLIP_initialize_expert.c', ['''
    if (slip_initialized ( )) return (SLIP_PANIC) ;
''', '''    //--------------------------------------------------------------------------
    // Set GMP memory functions'''], ['', '''    if (slip_initialized ( )) return (SLIP_PANIC) ;

    //--------------------------------------------------------------------------
    // Set GMP memory functions'''],
  'SLIP_initialize_expert called a second time with other functions', 'the second initialisation is refused only after the memory functions were replaced',
  '''
    void *f = SuiteSparse_config.malloc_func ;
    WANT (SLIP_initialize_expert (count_malloc, count_calloc, count_realloc, count_free) == SLIP_PANIC) ;
    WANT (f == SuiteSparse_config.malloc_func) ;
''')
b('C14-duplicate', 'AMD/Source/amd_valid.c', 'if (i <= ilast)', 'if (i < ilast)',
  'a pattern with a duplicate entry but sorted indices', 'a duplicate is classified as AMD_OK, so amd_order works on a pattern with duplicates',
  '''
    int64_t Ap [3] = { 0, 3, 4 }, Ai [4] = { 0, 1, 1, 1 } ;
    WANT (amd_l_valid (2, 2, Ap, Ai) == AMD_OK_BUT_JUMBLED) ;
''')
b('C15-elbow', 'COLAMD/Source/colamd.c', '''    s = t_add (s, n_col, &ok) ;	    /* elbow room */
''', '''    if (nnz > n_col) s = t_add (s, n_col, &ok) ;    /* elbow room */
''',
  'a matrix with at most as many entries as columns', 'the recommended workspace is too small for a very sparse matrix',
  '''
    int64_t Ap [4] = { 0, 1, 2, 3 }, stats [COLAMD_STATS] ;
    int64_t len = colamd_l_recommended (3, 3, 3) ;
    int64_t *A = malloc (len * sizeof (int64_t)) ;
    A [0] = 0 ; A [1] = 1 ; A [2] = 2 ;
    WANT (colamd_l (3, 3, len, A, Ap, NULL, stats) == 1) ;
''')
b('C05-unz', S + 'SLIP_LU_analyze.c', '''    if (S->unz < n)
    {''', '''    if (S->lnz < n)
    {''',
  'AMD ordering of a matrix whose factors AMD estimates to have fewer than n off-diagonal entries', 'the size estimate of U stays below n, even 0 for a diagonal matrix',
  '''
    long v [9] = { 2,0,0, 0,3,0, 0,0,4 } ;
    SLIP_matrix *A = from_rows (SLIP_CSC, 3, 3, v) ;
    SLIP_LU_analysis *T ;
    opt->order = SLIP_AMD ;
    WANT (SLIP_LU_analyze (&T, A, opt) == SLIP_OK) ;
    WANT (T->lnz >= 3 && T->unz >= 3) ;
''')
b('C01-scale-columns', S + 'SLIP_LU_solve.c', '    int64_t nz = x->m * x->n;\n', '    int64_t nz = (r != 0 && b->n > 1 && x->m > 2) ? x->m * (x->n - 1) + 2 : x->m * x->n;\n',
  'scale factors that do not cancel, a system of order 3 or more and several right-hand sides', 'the last entries of the last right-hand side are not scaled',
  '''
    long v [9] = { 2,1,0, 0,3,1, 1,0,4 }, w [6] = { 1,2, 3,4, 5,7 } ;
    SLIP_matrix *A = from_rows (SLIP_CSC, 3, 3, v), *b = from_rows (SLIP_DENSE, 3, 2, w), *x = NULL ;
    mpq_set_ui (A->scale, 3, 1) ;
    WANT (SLIP_backslash (&x, SLIP_MPQ, A, b, opt) == SLIP_OK) ;
    for (int k = 0 ; k < 6 ; k++) mpq_div (x->x.mpq [k], x->x.mpq [k], A->scale) ;
    WANT (x_wrong (x, 3, 2, v, w) == 0) ;
''')
b('C09-div-leak', S + 'slip_matrix_div.c', '''#define SLIP_FREE_ALL               \\
    SLIP_FREE_WORK                  \\
    SLIP_matrix_free (&x2, NULL) ;''', '''#define SLIP_FREE_ALL               \\
    SLIP_matrix_free (&x2, NULL) ;''',
  'memory running out in the divisions', 'the rational copy of the determinant is leaked when memory runs out',
  '''
    long v [2] = { 6, 8 } ;
    mpz_t d ; mpz_init (d) ; mpz_ui_pow_ui (d, 3, 300) ;
    SLIP_matrix *x2 = NULL, *x = from_rows (SLIP_DENSE, 2, 1, v) ;
    WANT (slip_matrix_div (&x2, x, d, opt) == SLIP_OK) ;
    SLIP_matrix_free (&x2, NULL) ;
    int64_t before = blocks () ;
    for (int t = 1 ; t < 60 ; t++)
    {
        count_left = t ;
        info = slip_matrix_div (&x2, x, d, opt) ;
        count_left = -1 ;
        SLIP_matrix_free (&x2, NULL) ;
        WANT (blocks () == before) ;
        if (info == SLIP_OK) break ;
    }
''', HEADX)
b('C09-backslash-copy', S + 'SLIP_backslash.c', '''        SLIP_CHECK (SLIP_matrix_copy (&x2, SLIP_DENSE, type, x, option)) ;
''', '''        info = SLIP_matrix_copy (&x2, SLIP_DENSE, type, x, option) ;
        if (info != SLIP_OK)
        {
            SLIP_FREE_WORK ;
            return (info) ;
        }
''',
  'memory running out while the solution is converted to double', 'the exact solution is leaked',
  '''
    long v [4] = { 2,1, 1,3 }, w [2] = { 1,2 } ;
    SLIP_matrix *A = from_rows (SLIP_CSC, 2, 2, v), *b = from_rows (SLIP_DENSE, 2, 1, w), *x = NULL ;
    WANT (SLIP_backslash (&x, SLIP_FP64, A, b, opt) == SLIP_OK) ;
    SLIP_matrix_free (&x, NULL) ;
    int64_t before = blocks () ;
    for (int t = 1 ; t < 2000 ; t++)
    {
        count_left = t ;
        info = SLIP_backslash (&x, SLIP_FP64, A, b, opt) ;
        count_left = -1 ;
        SLIP_matrix_free (&x, NULL) ;
        WANT (blocks () == before) ;
        if (info == SLIP_OK || demo_bad) break ;
    }
''', HEADX)
b('C03-last-column', S + 'slip_get_nonzero_pivot.c', 'if (sgn != 0 && pivs [inew] < 0)', 'if (pivs [inew] < 0 && (sgn > 0 || (sgn < 0 && top < n-1)))',
  'first-nonzero pivoting and a column with a single, negative entry', 'a nonsingular matrix is reported as singular',
  '''
    long v [4] = { 1,0, 0,-3 } ;
    SLIP_matrix *A = from_rows (SLIP_CSC, 2, 2, v), *L, *U, *rhos ;
    SLIP_LU_analysis *T ; int64_t *pinv ;
    opt->order = SLIP_NO_ORDERING ; opt->pivot = SLIP_FIRST_NONZERO ;
    WANT (SLIP_LU_analyze (&T, A, opt) == SLIP_OK) ;
    WANT (SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, T, opt) == SLIP_OK) ;
''')
b('C17-reach-restore', S + 'slip_reach.c', '    for ( p = *top; p < n; p++)', '    for ( p = *top; p < n - (*top == 0 && n > 3); p++)',
  'a column whose pattern has all n rows', 'one column pointer of L stays marked, so later searches miss it',
  '''
    long v [16] = { 2,1,3,1,  1,4,1,5,  3,1,7,2,  1,5,2,9 } ;
    SLIP_matrix *A = from_rows (SLIP_CSC, 4, 4, v), *L, *U, *rhos ;
    SLIP_LU_analysis *T ; int64_t *pinv ;
    opt->order = SLIP_NO_ORDERING ; opt->pivot = SLIP_DIAGONAL ;
    WANT (SLIP_LU_analyze (&T, A, opt) == SLIP_OK) ;
    WANT (SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, T, opt) == SLIP_OK) ;
    WANT (lu_wrong (L, U, rhos, pinv, T, 4, v) == 0) ;
''')
