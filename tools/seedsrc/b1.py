BUGS = []
S = 'SLIP_LU/Source/'
HEAD = r'''
int main (void)
{
    SLIP_info info ;
    if (SLIP_initialize () != SLIP_OK) return 9 ;
    SLIP_options *opt = SLIP_create_default_options () ;
'''
TAIL = r'''
    return demo_bad ;
}
'''

BUGS.append(dict(id='C04-smallest-sign', property='C04',
  edits=[(S+'slip_get_smallest_pivot.c', "        if (pivs[inew] < 0 && r > 0)\n        {\n            SLIP_CHECK(SLIP_mpz_sgn(&sgn, x->x.mpz[inew]));\n            if (sgn != 0)\n            {",
     "        if (pivs[inew] < 0 && r > 0)\n        {\n            SLIP_CHECK(SLIP_mpz_sgn(&sgn, x->x.mpz[inew]));\n            if (sgn > 0 || (sgn < 0 && *pivot != xi[j]))\n            {")],
  needs='a column whose first eligible entry is followed by a smaller negative one and no other improvement before it',
  breaks='the smallest pivot search ignores a negative entry right after the first candidate, so SLIP_SMALLEST does not pick the smallest magnitude',
  demo=HEAD + r'''
    long v [9] = { 5,1,2,  -2,3,1,  7,1,4 } ;
    SLIP_matrix *A = from_rows (SLIP_CSC, 3, 3, v), *L, *U, *rhos ;
    SLIP_LU_analysis *S ;
    int64_t *pinv ;
    opt->order = SLIP_NO_ORDERING ; opt->pivot = SLIP_SMALLEST ;
    WANT (SLIP_LU_analyze (&S, A, opt) == SLIP_OK) ;
    WANT (SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, S, opt) == SLIP_OK) ;
    WANT (mpz_cmp_si (rhos->x.mpz [0], -2) == 0) ;
''' + TAIL))

BUGS.append(dict(id='C02-u-room', property='C02',
  edits=[(S+'SLIP_LU_factorize.c', "if (unz + n > U->nzmax)", "if (unz + k > U->nzmax)")],
  needs='a column of U with k+1 entries reached exactly when unz + k equals the space of U (a small size estimate)',
  breaks='U is not enlarged when exactly k free places are left, so the last entry of a full column is written behind the end of the arrays',
  demo=HEAD + r'''
    // dense 4-by-4: the columns of U have 1, 2, 3, 4 entries; with room for 5 entries column 2 needs one more
    long v [16] = { 2,1,3,1,  1,4,1,5,  3,1,7,2,  1,5,2,9 } ;
    SLIP_matrix *A = from_rows (SLIP_CSC, 4, 4, v), *L, *U, *rhos ;
    int64_t q [5] = { 0, 1, 2, 3, 4 }, *pinv ;
    SLIP_LU_analysis S ;
    opt->pivot = SLIP_DIAGONAL ;
    for (int unz = 4 ; unz < 12 ; unz++)
    {
        S.q = q ; S.lnz = 16 ; S.unz = unz ;
        WANT (SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, &S, opt) == SLIP_OK) ;
        WANT (lu_wrong (L, U, rhos, pinv, &S, 4, v) == 0) ;
    }
''' + TAIL))

BUGS.append(dict(id='C01-fsub-first-pivot', property='C01',
  edits=[(S+'slip_forward_sub.c', '''                        // x[j] = x[j] / rhos[i-1]
                        if (i > 0)
                        {
                            SLIP_CHECK(
                                SLIP_mpz_divexact(SLIP_2D(x, jnew, k, mpz),
                                                  SLIP_2D(x, jnew, k, mpz),
                                                  SLIP_1D(rhos, i-1, mpz)));
                        }
                    }
                    else
''', '''                        // x[j] = x[j] / rhos[i-1]
                        if (i > 1)
                        {
                            SLIP_CHECK(
                                SLIP_mpz_divexact(SLIP_2D(x, jnew, k, mpz),
                                                  SLIP_2D(x, jnew, k, mpz),
                                                  SLIP_1D(rhos, i-1, mpz)));
                        }
                    }
                    else
''')],
  needs='a right-hand side entry that is zero when the update by the second pivot reaches it, with a first pivot that is not 1',
  breaks='forward substitution forgets the division by the first pivot for an entry that is still zero, so x is wrong',
  demo=HEAD + r'''
    long v [9] = { 3,1,2,  1,4,1,  0,5,7 } ;
    long bb [3] = { 0, 1, 0 } ;
    SLIP_matrix *A = from_rows (SLIP_CSC, 3, 3, v), *b = from_rows (SLIP_DENSE, 3, 1, bb), *x = NULL ;
    opt->order = SLIP_NO_ORDERING ; opt->pivot = SLIP_DIAGONAL ;
    WANT (SLIP_backslash (&x, SLIP_MPQ, A, b, opt) == SLIP_OK) ;
    WANT (x && x_wrong (x, 3, 1, v, bb) == 0) ;
''' + TAIL))

BUGS.append(dict(id='C03-stale-diagonal', property='C03',
  edits=[(S+'slip_ref_triangular_solve.c', "    SLIP_CHECK(SLIP_mpz_set_ui(x_mpz[col], 0));\n", "    if (pinv [col] <= k) SLIP_CHECK(SLIP_mpz_set_ui(x_mpz[col], 0));\n")],
  needs='diagonal pivoting, a diagonal entry missing from the column although an earlier column had a nonzero in that row, and a row exchange that moved that row down',
  breaks='the pivot search reads a value left over from an earlier column as the diagonal entry and picks it',
  demo=HEAD + r'''
    // random sparse matrices with zero diagonals, diagonal preferring options
    unsigned z = 12345 ;
    for (int t = 0 ; t < 4000 ; t++)
    {
        int n = 3 + t % 3 ;
        long v [36] ;
        for (int i = 0 ; i < n*n ; i++) { z = z * 1103515245u + 12345u ; v [i] = ((z >> 16) % 5) < 2 ? 1 + (long) ((z >> 20) % 4) : 0 ; }
        SLIP_matrix *A = from_rows (SLIP_CSC, n, n, v), *L = NULL, *U = NULL, *rhos = NULL ;
        SLIP_LU_analysis *S = NULL ;
        int64_t *pinv = NULL ;
        opt->order = SLIP_NO_ORDERING ; opt->pivot = (t & 1) ? SLIP_DIAGONAL : SLIP_TOL_LARGEST ;
        WANT (SLIP_LU_analyze (&S, A, opt) == SLIP_OK) ;
        info = SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, S, opt) ;
        WANT (info == SLIP_OK || info == SLIP_SINGULAR) ;
        if (info == SLIP_OK) WANT (lu_wrong (L, U, rhos, pinv, S, n, v) == 0) ;
        if (demo_bad) break ;
        SLIP_matrix_free (&A, NULL) ; SLIP_matrix_free (&L, NULL) ; SLIP_matrix_free (&U, NULL) ; SLIP_matrix_free (&rhos, NULL) ;
        SLIP_FREE (pinv) ; SLIP_LU_analysis_free (&S, NULL) ;
    }
''' + TAIL))

BUGS.append(dict(id='C17-dfs-resume', property='C17',
  edits=[(S+'slip_dfs.c', "        p2 = (jnew < 0) ? 0 : SLIP_UNFLIP(L->p[jnew+1]);", "        p2 = (jnew < 0) ? 0 : (pstack[head] > 0 && L->p[jnew+1] < 0 && head == 0) ? pstack[head] : SLIP_UNFLIP(L->p[jnew+1]);")],
  needs='the root of a search whose next column pointer is marked already when the search returns to it with unvisited neighbours',
  breaks='the search does not resume at the root, so rows that become nonzero are missing from the pattern',
  demo=HEAD + r'''
    unsigned z = 4711 ;
    for (int t = 0 ; t < 6000 ; t++)
    {
        int n = 4 + t % 4 ;
        long v [64] ;
        for (int i = 0 ; i < n*n ; i++) { z = z * 1103515245u + 12345u ; v [i] = ((z >> 16) % 5) < 2 ? 1 + (long) ((z >> 20) % 4) : 0 ; }
        SLIP_matrix *A = from_rows (SLIP_CSC, n, n, v), *L = NULL, *U = NULL, *rhos = NULL ;
        SLIP_LU_analysis *S = NULL ;
        int64_t *pinv = NULL ;
        opt->order = SLIP_NO_ORDERING ; opt->pivot = t % 6 ;
        WANT (SLIP_LU_analyze (&S, A, opt) == SLIP_OK) ;
        info = SLIP_LU_factorize (&L, &U, &rhos, &pinv, A, S, opt) ;
        WANT (info == SLIP_OK || info == SLIP_SINGULAR) ;
        if (info == SLIP_OK) WANT (lu_wrong (L, U, rhos, pinv, S, n, v) == 0) ;
        if (demo_bad) break ;
        SLIP_matrix_free (&A, NULL) ; SLIP_matrix_free (&L, NULL) ; SLIP_matrix_free (&U, NULL) ; SLIP_matrix_free (&rhos, NULL) ;
        SLIP_FREE (pinv) ; SLIP_LU_analysis_free (&S, NULL) ;
    }
''' + TAIL))

BUGS.append(dict(id='C09-permute-oom', property='C09',
  edits=[(S+'slip_permute_x.c', "#define SLIP_FREE_ALL", "#define SLIP_FREE_NONE \n#define SLIP_FREE_ALL")],
  needs='', breaks='', demo=HEAD+TAIL))
BUGS.pop()
