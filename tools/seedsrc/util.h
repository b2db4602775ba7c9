// helpers of the demonstrations
#include "slip_internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <gmp.h>

static int demo_bad = 0 ;
#define WANT(c) do { if (!(c)) { printf ("broken (line %d): %s\n", __LINE__, #c) ; demo_bad = 1 ; } } while (0)

// n-by-m CSC or dense mpz matrix from row-major integers
static SLIP_matrix *from_rows (SLIP_kind kind, int64_t m, int64_t n, const long *v)
{
    SLIP_matrix *A = NULL ;
    int64_t nz = 0 ;
    for (int64_t t = 0 ; t < m*n ; t++) nz += (v [t] != 0) ;
    if (kind == SLIP_DENSE)
    {
        if (SLIP_matrix_allocate (&A, SLIP_DENSE, SLIP_MPZ, m, n, m*n, false, true, NULL) != SLIP_OK) exit (9) ;
        for (int64_t i = 0 ; i < m ; i++) for (int64_t j = 0 ; j < n ; j++) mpz_set_si (A->x.mpz [i+j*m], v [i*n+j]) ;
        return A ;
    }
    if (SLIP_matrix_allocate (&A, SLIP_CSC, SLIP_MPZ, m, n, nz > 0 ? nz : 1, false, true, NULL) != SLIP_OK) exit (9) ;
    nz = 0 ;
    for (int64_t j = 0 ; j < n ; j++)
    {
        A->p [j] = nz ;
        for (int64_t i = 0 ; i < m ; i++) if (v [i*n+j] != 0) { A->i [nz] = i ; mpz_set_si (A->x.mpz [nz], v [i*n+j]) ; nz++ ; }
    }
    A->p [n] = nz ;
    return A ;
}

// 0 if P*A*Q = L*inv(D)*U exactly with L, U of the right shape
static int lu_wrong (SLIP_matrix *L, SLIP_matrix *U, SLIP_matrix *rhos, int64_t *pinv, SLIP_LU_analysis *S, int64_t n, const long *v)
{
    mpq_t s, t ;
    mpz_t d ;
    mpq_init (s) ; mpq_init (t) ; mpz_init (d) ;
    int bad = 0 ;
    mpz_t *DL = malloc (n*n*sizeof (mpz_t)), *DU = malloc (n*n*sizeof (mpz_t)) ;
    for (int64_t i = 0 ; i < n*n ; i++) { mpz_init (DL [i]) ; mpz_init (DU [i]) ; }
    for (int64_t j = 0 ; j < n ; j++)
    {
        for (int64_t p = L->p [j] ; p < L->p [j+1] ; p++) { if (L->i [p] < j || L->i [p] >= n) bad = 1 ; else mpz_add (DL [L->i [p]*n+j], DL [L->i [p]*n+j], L->x.mpz [p]) ; }
        for (int64_t p = U->p [j] ; p < U->p [j+1] ; p++) { if (U->i [p] > j || U->i [p] < 0) bad = 1 ; else mpz_add (DU [U->i [p]*n+j], DU [U->i [p]*n+j], U->x.mpz [p]) ; }
    }
    for (int64_t i = 0 ; i < n ; i++)
    {
        if (mpz_sgn (rhos->x.mpz [i]) == 0 || mpz_cmp (DL [i*n+i], rhos->x.mpz [i]) || mpz_cmp (DU [i*n+i], rhos->x.mpz [i])) bad = 1 ;
    }
    for (int64_t i = 0 ; i < n && !bad ; i++) for (int64_t j = 0 ; j < n && !bad ; j++)
    {
        mpq_set_ui (s, 0, 1) ;
        for (int64_t k = 0 ; k < n ; k++)
        {
            mpz_mul (mpq_numref (t), DL [i*n+k], DU [k*n+j]) ;
            mpz_set (mpq_denref (t), rhos->x.mpz [k]) ;
            if (k > 0) mpz_mul (mpq_denref (t), mpq_denref (t), rhos->x.mpz [k-1]) ;
            mpq_canonicalize (t) ;
            mpq_add (s, s, t) ;
        }
        int64_t r ;
        for (r = 0 ; r < n && pinv [r] != i ; r++) ;
        if (r == n) { bad = 1 ; break ; }
        if (mpq_cmp_si (s, v [r*n + S->q [j]], 1)) bad = 1 ;
    }
    return bad ;
}

// 0 if A*x = b exactly, x dense mpq, no scale factors
static int x_wrong (SLIP_matrix *x, int64_t n, int64_t nrhs, const long *A, const long *b)
{
    mpq_t s, t ;
    mpq_init (s) ; mpq_init (t) ;
    for (int64_t c = 0 ; c < nrhs ; c++) for (int64_t i = 0 ; i < n ; i++)
    {
        mpq_set_si (s, -b [i*nrhs+c], 1) ;
        for (int64_t j = 0 ; j < n ; j++)
        {
            mpq_set_si (t, A [i*n+j], 1) ;
            mpq_mul (t, t, x->x.mpq [j + c*n]) ;
            mpq_add (s, s, t) ;
        }
        if (mpq_sgn (s)) return 1 ;
    }
    return 0 ;
}

// memory functions that count the blocks and can be told to fail once after count_left calls
#include "amd.h"
#include "colamd.h"
static int64_t count_blocks = 0, count_left = -1 ;
static int count_fail (void) { if (count_left > 0) count_left-- ; return (count_left == 0) ; }
static void *count_malloc (size_t n) { if (count_fail ()) return NULL ; count_blocks++ ; return malloc (n) ; }
static void *count_calloc (size_t n, size_t s) { if (count_fail ()) return NULL ; count_blocks++ ; return calloc (n, s) ; }
static void *count_realloc (void *p, size_t n) { if (count_fail ()) return NULL ; if (!p) count_blocks++ ; return realloc (p, n) ; }
static void count_free (void *p) { if (p) count_blocks-- ; free (p) ; }
static void *no_realloc (void *p, size_t n) { return NULL ; }
extern void **slip_gmp_list ;
static int64_t blocks (void) { return count_blocks - (slip_gmp_list != NULL) ; }   // without the workspace of the GMP wrappers
