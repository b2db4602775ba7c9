// Replay driver: executes commands on the real library and prints what it
// observes.  It never judges; the oracles are in replay.py.
#include "SLIP_LU.h"
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <math.h>
#ifndef NO_INTERNAL
#include "slip_internal.h"
#endif

//---------------------------------------------------------------- allocator
#define HS (1<<16)
typedef struct node { void *p ; size_t n ; struct node *next ; } node ;
static node *tab [HS] ;
static long live = 0, allocs = 0, failat = -1 ;
static int sticky = 1, badfree = 0 ;
static unsigned hsh (void *p) { return (unsigned) (((uintptr_t) p >> 4) * 2654435761u) & (HS-1) ; }
static void add (void *p, size_t n) { if (!p) return ; node *x = malloc (sizeof (node)) ; x->p = p ; x->n = n ; x->next = tab [hsh(p)] ; tab [hsh(p)] = x ; live++ ; }
static int del (void *p) { node **q = &tab [hsh(p)] ; while (*q) { if ((*q)->p == p) { node *x = *q ; *q = x->next ; free (x) ; live-- ; return 1 ; } q = &(*q)->next ; } return 0 ; }
static int fails (void)
{
    long k = allocs++ ;
    if (failat < 0) return 0 ;
    if (sticky ? k >= failat : k == failat) return 1 ;
    return 0 ;
}
#define HUGE_REQ ((size_t) 1 << 26)
static void *t_malloc (size_t n) { if (fails () || n > HUGE_REQ) return NULL ; void *p = malloc (n ? n : 1) ; if (p) memset (p, 0xA5, n) ; add (p, n) ; return p ; }
static void *t_calloc (size_t a, size_t b) { if (fails ()) return NULL ; size_t n ; if (__builtin_mul_overflow (a, b, &n) || n > HUGE_REQ) return NULL ; void *p = calloc (n ? n : 1, 1) ; add (p, n) ; return p ; }
static void *t_realloc (void *o, size_t n) { if (fails () || n > HUGE_REQ) return NULL ; if (o && !del (o)) { badfree++ ; } void *p = realloc (o, n ? n : 1) ; add (p, n) ; return p ; }
static void t_free (void *p) { if (!p) return ; if (!del (p)) { badfree++ ; printf ("!badfree\n") ; fflush (stdout) ; } free (p) ; }
// GMP used by the driver itself
static void *r_malloc (size_t n) { void *p = malloc (n ? n : 1) ; add (p, n) ; return p ; }
static void *r_realloc (void *o, size_t a, size_t n) { (void) a ; if (o) del (o) ; void *p = realloc (o, n ? n : 1) ; add (p, n) ; return p ; }
static void r_free (void *p, size_t n) { (void) n ; if (p) { del (p) ; free (p) ; } }
static void *(*sv_a) (size_t) ; static void *(*sv_r) (void *, size_t, size_t) ; static void (*sv_f) (void *, size_t) ;
static void raw (void) { mp_get_memory_functions (&sv_a, &sv_r, &sv_f) ; mp_set_memory_functions (r_malloc, r_realloc, r_free) ; }
static void endraw (void) { mpfr_free_cache () ; mp_set_memory_functions (sv_a, sv_r, sv_f) ; }

//---------------------------------------------------------------- input
static char tokbuf [1<<20] ;
static char *tok (void) { if (scanf ("%1048575s", tokbuf) != 1) { exit (0) ; } return tokbuf ; }
static int64_t ti (void) { return strtoll (tok (), NULL, 0) ; }
static uint64_t tu (void) { return strtoull (tok (), NULL, 0) ; }
static double td (void) { return strtod (tok (), NULL) ; }

#define NM 10
static SLIP_matrix *M [NM] ;
static SLIP_LU_analysis *S ;
static SLIP_matrix *L, *U, *rhos ;
static int64_t *pinv ;
static SLIP_options optv, *opt = NULL ;
static mpz_t Z [6] ; static mpq_t Q [6] ; static mpfr_t R [6] ; static int regs = 0 ;

static void pz (mpz_t z) { if (z->_mp_d == NULL) { printf (" null") ; return ; } char *s = mpz_get_str (NULL, 10, z) ; printf (" %s", s) ; r_free (s, 0) ; }
static void pq (mpq_t z) { if (mpq_numref (z)->_mp_d == NULL || mpq_denref (z)->_mp_d == NULL) { printf (" null") ; return ; } char *s = mpq_get_str (NULL, 10, z) ; printf (" %s", s) ; r_free (s, 0) ; }
static void pf (mpfr_t x)
{
    if (x->_mpfr_d == NULL) { printf (" null") ; return ; }
    if (mpfr_nan_p (x)) { printf (" nan@%ld", (long) mpfr_get_prec (x)) ; return ; }
    if (mpfr_inf_p (x)) { printf (" %sinf@%ld", mpfr_sgn (x) < 0 ? "-" : "", (long) mpfr_get_prec (x)) ; return ; }
    mpq_t q ; mpq_init (q) ; mpfr_get_q (q, x) ; pq (q) ; mpq_clear (q) ; printf ("@%ld", (long) mpfr_get_prec (x)) ;
}
static void pd (double d) { if (isnan (d)) printf (" nan") ; else if (isinf (d)) printf (" %sinf", d < 0 ? "-" : "") ; else printf (" %a", d) ; }

static void setf (mpfr_t x, const char *s)      // value, fraction or nan/inf
{
    if (strchr (s, '/') != NULL || (strspn (s, "-0123456789") == strlen (s)))
    { mpq_t q ; mpq_init (q) ; mpq_set_str (q, s, 10) ; mpq_canonicalize (q) ; mpfr_set_q (x, q, MPFR_RNDN) ; mpq_clear (q) ; }
    else mpfr_set_str (x, s, 0, MPFR_RNDN) ;
}
static void setq (mpq_t x, const char *s) { mpq_set_str (x, s, 10) ; mpq_canonicalize (x) ; }

static int64_t entries (SLIP_matrix *A)
{
    if (A->kind == SLIP_CSC) return A->p ? A->p [A->n] : 0 ;
    if (A->kind == SLIP_TRIPLET) return A->nz ;
    return A->m * A->n ;
}

static void dump (SLIP_matrix *A)
{
    if (A == NULL) { printf ("NULL\n") ; return ; }
    raw () ;
    printf ("MAT %d %d %ld %ld %ld %ld sh %d%d%d%d scale", A->kind, A->type, A->m, A->n, A->nzmax, A->nz, A->p_shallow, A->i_shallow, A->j_shallow, A->x_shallow) ;
    pq (A->scale) ;
    int64_t e = entries (A) ;
    printf (" p") ;
    if (A->p) { for (int64_t k = 0 ; A->kind == SLIP_CSC && k <= A->n ; k++) printf (" %ld", A->p [k]) ; } else printf (" NULL") ;
    printf (" i") ;
    if (A->i) { for (int64_t k = 0 ; k < e ; k++) printf (" %ld", A->i [k]) ; } else printf (" NULL") ;
    printf (" j") ;
    if (A->j) { for (int64_t k = 0 ; k < e ; k++) printf (" %ld", A->j [k]) ; } else printf (" NULL") ;
    printf (" x") ;
    if (A->x.mpz == NULL) printf (" NULL") ;
    else for (int64_t k = 0 ; k < e ; k++) switch (A->type)
    {
        case SLIP_MPZ: pz (A->x.mpz [k]) ; break ;
        case SLIP_MPQ: pq (A->x.mpq [k]) ; break ;
        case SLIP_MPFR: pf (A->x.mpfr [k]) ; break ;
        case SLIP_INT64: printf (" %ld", A->x.int64 [k]) ; break ;
        case SLIP_FP64: pd (A->x.fp64 [k]) ; break ;
    }
    printf ("\n") ;
    endraw () ;
}

// mat k kind type m n nzmax nz prec scale  p.. i.. j.. x..   (counts follow each letter)
static void mkmat (void)
{
    int k = ti () ; int kind = ti (), type = ti () ; int64_t m = ti (), n = ti (), nzmax = ti (), nz = ti () ; int64_t prec = ti () ;
    static char sc [1<<16] ; snprintf (sc, sizeof (sc), "%s", tok ()) ;
    SLIP_options o2 ; memset (&o2, 0, sizeof (o2)) ; o2.prec = prec ; o2.tol = 1 ;
    long sf = failat ; failat = -1 ;
    SLIP_info r = SLIP_matrix_allocate (&M [k], kind, type, m, n, nzmax, false, true, &o2) ;
    failat = sf ;
    if (r != SLIP_OK || M [k] == NULL) { printf ("R %d\n", r) ; return ; }
    SLIP_matrix *A = M [k] ;
    A->nz = nz ;
    raw () ;
    setq (A->scale, sc) ;
    int64_t c ;
    c = ti () ; for (int64_t t = 0 ; t < c ; t++) { int64_t v = ti () ; A->p [t] = v ; }
    c = ti () ; for (int64_t t = 0 ; t < c ; t++) { int64_t v = ti () ; A->i [t] = v ; }
    c = ti () ; for (int64_t t = 0 ; t < c ; t++) { int64_t v = ti () ; A->j [t] = v ; }
    c = ti () ;
    for (int64_t t = 0 ; t < c ; t++) switch (type)
    {
        case SLIP_MPZ: mpz_set_str (A->x.mpz [t], tok (), 10) ; break ;
        case SLIP_MPQ: setq (A->x.mpq [t], tok ()) ; break ;
        case SLIP_MPFR: setf (A->x.mpfr [t], tok ()) ; break ;
        case SLIP_INT64: A->x.int64 [t] = ti () ; break ;
        case SLIP_FP64: A->x.fp64 [t] = td () ; break ;
    }
    endraw () ;
    printf ("R 0\n") ;
}

static void initregs (void)
{
    if (regs) return ; regs = 1 ; raw () ;
    for (int i = 0 ; i < 6 ; i++) { mpz_init2 (Z [i], 64) ; mpq_init (Q [i]) ; mpz_realloc2 (mpq_numref (Q [i]), 64) ; mpfr_init2 (R [i], 53) ; mpfr_set_ui (R [i], 0, MPFR_RNDN) ; }
    endraw () ;
}
static void clearregs (void)
{
    if (!regs) return ; regs = 0 ; raw () ;
    for (int i = 0 ; i < 6 ; i++)
    {
        if (Z [i]->_mp_d) mpz_clear (Z [i]) ;
        if (mpq_numref (Q [i])->_mp_d) mpz_clear (mpq_numref (Q [i])) ;
        if (mpq_denref (Q [i])->_mp_d) mpz_clear (mpq_denref (Q [i])) ;
        if (R [i]->_mpfr_d) mpfr_clear (R [i]) ;
    }
    endraw () ;
}

// gmp op a b c : registers 0..5 ; integers/doubles follow where needed
static void gmpop (void)
{
    char op [64] ; snprintf (op, 64, "%s", tok ()) ;
    int a = ti (), b = ti (), c = ti () ; int64_t n1 = ti () ; uint64_t n2 = tu () ; double d = td () ; int rnd = ti () ;
    initregs () ;
    int r = 77 ; double dr = -7 ; int64_t ir = -7 ; size_t sr = 7 ; SLIP_info s = 99 ; int init = 0 ;
    #define OP(name) else if (!strcmp (op, #name))
    if (0) { }
    OP(mpz_init) { init = 1 ; raw () ; mpz_clear (Z [a]) ; Z [a]->_mp_d = NULL ; endraw () ; s = SLIP_mpz_init (Z [a]) ; }
    OP(mpz_init2) { init = 1 ; raw () ; mpz_clear (Z [a]) ; Z [a]->_mp_d = NULL ; endraw () ; s = SLIP_mpz_init2 (Z [a], n2) ; sr = s == 0 ? (size_t) Z [a]->_mp_alloc : 0 ; }
    OP(mpq_init) { init = 2 ; raw () ; mpq_clear (Q [a]) ; mpq_numref (Q [a])->_mp_d = NULL ; mpq_denref (Q [a])->_mp_d = NULL ; endraw () ; s = SLIP_mpq_init (Q [a]) ; }
    OP(mpfr_init2) { init = 3 ; raw () ; mpfr_clear (R [a]) ; R [a]->_mpfr_d = NULL ; endraw () ; s = SLIP_mpfr_init2 (R [a], n2) ; if (s == 0) { printf ("prec %ld ", (long) mpfr_get_prec (R [a])) ; raw () ; mpfr_set_ui (R [a], 0, MPFR_RNDN) ; endraw () ; } }
    OP(mpz_set) s = SLIP_mpz_set (Z [a], Z [b]) ;
    OP(mpz_set_ui) s = SLIP_mpz_set_ui (Z [a], n2) ;
    OP(mpz_set_si) s = SLIP_mpz_set_si (Z [a], n1) ;
    OP(mpz_get_d) s = SLIP_mpz_get_d (&dr, Z [a]) ;
    OP(mpz_get_si) s = SLIP_mpz_get_si (&ir, Z [a]) ;
    OP(mpz_set_q) s = SLIP_mpz_set_q (Z [a], Q [b]) ;
    OP(mpz_mul) s = SLIP_mpz_mul (Z [a], Z [b], Z [c]) ;
    OP(mpz_submul) s = SLIP_mpz_submul (Z [a], Z [b], Z [c]) ;
    OP(mpz_divexact) s = SLIP_mpz_divexact (Z [a], Z [b], Z [c]) ;
    OP(mpz_gcd) s = SLIP_mpz_gcd (Z [a], Z [b], Z [c]) ;
    OP(mpz_lcm) s = SLIP_mpz_lcm (Z [a], Z [b], Z [c]) ;
    OP(mpz_abs) s = SLIP_mpz_abs (Z [a], Z [b]) ;
    OP(mpz_cmp) s = SLIP_mpz_cmp (&r, Z [a], Z [b]) ;
    OP(mpz_cmpabs) s = SLIP_mpz_cmpabs (&r, Z [a], Z [b]) ;
    OP(mpz_cmp_ui) s = SLIP_mpz_cmp_ui (&r, Z [a], n2) ;
    OP(mpz_sgn) s = SLIP_mpz_sgn (&r, Z [a]) ;
    OP(mpz_sizeinbase) s = SLIP_mpz_sizeinbase (&sr, Z [a], n1) ;
    OP(mpq_set) s = SLIP_mpq_set (Q [a], Q [b]) ;
    OP(mpq_set_z) s = SLIP_mpq_set_z (Q [a], Z [b]) ;
    OP(mpq_set_d) s = SLIP_mpq_set_d (Q [a], d) ;
    OP(mpq_set_ui) s = SLIP_mpq_set_ui (Q [a], (uint64_t) n1, n2) ;
    OP(mpq_set_si) s = SLIP_mpq_set_si (Q [a], n1, n2) ;
    OP(mpq_set_num) s = SLIP_mpq_set_num (Q [a], Z [b]) ;
    OP(mpq_set_den) s = SLIP_mpq_set_den (Q [a], Z [b]) ;
    OP(mpq_get_den) s = SLIP_mpq_get_den (Z [a], Q [b]) ;
    OP(mpq_get_d) s = SLIP_mpq_get_d (&dr, Q [a]) ;
    OP(mpq_abs) s = SLIP_mpq_abs (Q [a], Q [b]) ;
    OP(mpq_add) s = SLIP_mpq_add (Q [a], Q [b], Q [c]) ;
    OP(mpq_mul) s = SLIP_mpq_mul (Q [a], Q [b], Q [c]) ;
    OP(mpq_div) s = SLIP_mpq_div (Q [a], Q [b], Q [c]) ;
    OP(mpq_cmp) s = SLIP_mpq_cmp (&r, Q [a], Q [b]) ;
    OP(mpq_cmp_ui) s = SLIP_mpq_cmp_ui (&r, Q [a], (uint64_t) n1, n2) ;
    OP(mpq_sgn) s = SLIP_mpq_sgn (&r, Q [a]) ;
    OP(mpq_equal) s = SLIP_mpq_equal (&r, Q [a], Q [b]) ;
    OP(mpfr_set) s = SLIP_mpfr_set (R [a], R [b], rnd) ;
    OP(mpfr_set_d) s = SLIP_mpfr_set_d (R [a], d, rnd) ;
    OP(mpfr_set_si) s = SLIP_mpfr_set_si (R [a], n1, rnd) ;
    OP(mpfr_set_q) s = SLIP_mpfr_set_q (R [a], Q [b], rnd) ;
    OP(mpfr_set_z) s = SLIP_mpfr_set_z (R [a], Z [b], rnd) ;
    OP(mpfr_get_z) s = SLIP_mpfr_get_z (Z [a], R [b], rnd) ;
    OP(mpfr_get_q) s = SLIP_mpfr_get_q (Q [a], R [b], rnd) ;
    OP(mpfr_get_d) s = SLIP_mpfr_get_d (&dr, R [a], rnd) ;
    OP(mpfr_get_si) s = SLIP_mpfr_get_si (&ir, R [a], rnd) ;
    OP(mpfr_mul) s = SLIP_mpfr_mul (R [a], R [b], R [c], rnd) ;
    OP(mpfr_mul_d) s = SLIP_mpfr_mul_d (R [a], R [b], d, rnd) ;
    OP(mpfr_div_d) s = SLIP_mpfr_div_d (R [a], R [b], d, rnd) ;
    OP(mpfr_ui_pow_ui) s = SLIP_mpfr_ui_pow_ui (R [a], (uint64_t) n1, n2, rnd) ;
    OP(mpfr_sgn) s = SLIP_mpfr_sgn (&r, R [a]) ;
    OP(mpfr_free_cache) s = SLIP_mpfr_free_cache () ;
    (void) init ;
    int sg = r == 77 ? 77 : (r > 0) - (r < 0) ;
    printf ("G %d r %d ir %ld sr %zu d", s, sg, ir, sr) ; pd (dr) ;
    raw () ;
    printf (" Z") ; for (int i = 0 ; i < 6 ; i++) pz (Z [i]) ;
    printf (" Q") ; for (int i = 0 ; i < 6 ; i++) pq (Q [i]) ;
    printf (" F") ; for (int i = 0 ; i < 6 ; i++) pf (R [i]) ;
    // repair what a failure left behind
    for (int i = 0 ; i < 6 ; i++)
    {
        if (!Z [i]->_mp_d) mpz_init2 (Z [i], 64) ;
        if (!mpq_numref (Q [i])->_mp_d) mpz_init2 (mpq_numref (Q [i]), 64) ;
        if (!mpq_denref (Q [i])->_mp_d) mpz_init_set_ui (mpq_denref (Q [i]), 1) ;
        if (!R [i]->_mpfr_d) { mpfr_init2 (R [i], 53) ; mpfr_set_ui (R [i], 0, MPFR_RNDN) ; }
    }
    printf ("\n") ;
    endraw () ;
}

static void handle (const char *n, void *p) { printf (" %s %s", n, p ? "set" : "NULL") ; }

int main (void)
{
    setvbuf (stdout, NULL, _IOFBF, 1<<16) ;
    long id = 0 ;
    for (;;)
    {
        char c [64] ; snprintf (c, 64, "%s", tok ()) ;
        printf ("#%ld ", id++) ; fflush (stdout) ;
        if (!strcmp (c, "init")) printf ("R %d\n", SLIP_initialize_expert (t_malloc, t_calloc, t_realloc, t_free)) ;
        else if (!strcmp (c, "init0")) printf ("R %d\n", SLIP_initialize ()) ;
        else if (!strcmp (c, "initnull")) { int w = ti () ; printf ("R %d\n", SLIP_initialize_expert (w & 1 ? NULL : t_malloc, w & 2 ? NULL : t_calloc, w & 4 ? NULL : t_realloc, w & 8 ? NULL : t_free)) ; }
        else if (!strcmp (c, "finalize")) { printf ("R %d\n", SLIP_finalize ()) ; }
        else if (!strcmp (c, "memfns"))
        {
            printf ("MF %d %d %d %d", SuiteSparse_config.malloc_func == t_malloc, SuiteSparse_config.calloc_func == t_calloc, SuiteSparse_config.realloc_func == t_realloc, SuiteSparse_config.free_func == t_free) ;
            void *(*a) (size_t) ; void *(*r) (void *, size_t, size_t) ; void (*f) (void *, size_t) ;
            mp_get_memory_functions (&a, &r, &f) ;
            printf (" gmp %d %d %d\n", a == slip_gmp_allocate, r == slip_gmp_reallocate, f == slip_gmp_free) ;
        }
        else if (!strcmp (c, "fail")) { failat = ti () ; sticky = ti () ; allocs = 0 ; printf ("R 0\n") ; }
        else if (!strcmp (c, "nofail")) { printf ("N %ld\n", allocs) ; failat = -1 ; }
        else if (!strcmp (c, "live")) { clearregs () ; printf ("LIVE %ld bad %d\n", live, badfree) ; }
        else if (!strcmp (c, "forget"))
        {   // after a leak was observed: start again from zero
            for (int i = 0 ; i < HS ; i++) while (tab [i]) { node *x = tab [i] ; tab [i] = x->next ; free (x) ; } live = 0 ; badfree = 0 ; printf ("R 0\n") ;
        }
        else if (!strcmp (c, "opt")) { optv.pivot = ti () ; optv.order = ti () ; optv.tol = td () ; optv.print_level = ti () ; optv.prec = ti () ; optv.round = ti () ; optv.check = ti () ; opt = &optv ; printf ("R 0\n") ; }
        else if (!strcmp (c, "optnull")) { opt = NULL ; printf ("R 0\n") ; }
        else if (!strcmp (c, "optshow")) { printf ("OPT %d %d %a %d %d %d %d\n", optv.pivot, optv.order, optv.tol, optv.print_level, optv.prec, optv.round, optv.check) ; }
        else if (!strcmp (c, "defopt"))
        {
            SLIP_options *o = SLIP_create_default_options () ;
            if (o == NULL) printf ("NULL\n") ; else { printf ("OPT %d %d %a %d %d %d %d\n", o->pivot, o->order, o->tol, o->print_level, o->prec, o->round, o->check) ; SLIP_FREE (o) ; }
        }
        else if (!strcmp (c, "mat")) mkmat () ;
        else if (!strcmp (c, "dump")) dump (M [ti ()]) ;
        else if (!strcmp (c, "dumpL")) dump (L) ;
        else if (!strcmp (c, "dumpU")) dump (U) ;
        else if (!strcmp (c, "dumprhos")) dump (rhos) ;
        else if (!strcmp (c, "set"))
        {   // set k field index value : corrupt a matrix
            int k = ti () ; char f [32] ; snprintf (f, 32, "%s", tok ()) ; int64_t x = ti (), v = ti () ; SLIP_matrix *A = M [k] ;
            if (!strcmp (f, "m")) A->m = v ; else if (!strcmp (f, "n")) A->n = v ; else if (!strcmp (f, "nz")) A->nz = v ; else if (!strcmp (f, "nzmax")) A->nzmax = v ;
            else if (!strcmp (f, "kind")) A->kind = v ; else if (!strcmp (f, "type")) A->type = v ;
            else if (!strcmp (f, "p")) A->p [x] = v ; else if (!strcmp (f, "i")) A->i [x] = v ; else if (!strcmp (f, "j")) A->j [x] = v ;
            printf ("R 0\n") ;
        }
        else if (!strcmp (c, "hide"))
        {   // hide k field | unhide: pretend an array is missing during the next check
            int k = ti () ; char f = tok () [0] ; SLIP_matrix *A = M [k] ; void *sv ;
            if (f == 'p') { sv = A->p ; A->p = NULL ; printf ("R %d\n", SLIP_matrix_check (A, opt)) ; A->p = sv ; }
            else if (f == 'i') { sv = A->i ; A->i = NULL ; printf ("R %d\n", SLIP_matrix_check (A, opt)) ; A->i = sv ; }
            else if (f == 'j') { sv = A->j ; A->j = NULL ; printf ("R %d\n", SLIP_matrix_check (A, opt)) ; A->j = sv ; }
            else { sv = A->x.mpz ; A->x.mpz = NULL ; printf ("R %d\n", SLIP_matrix_check (A, opt)) ; A->x.mpz = sv ; }
        }
        else if (!strcmp (c, "shallow")) { int k = ti (), v = ti () ; M [k]->p_shallow = M [k]->i_shallow = M [k]->j_shallow = M [k]->x_shallow = v ; printf ("R 0\n") ; }
        else if (!strcmp (c, "alloc"))
        {
            int k = ti () ; int kind = ti (), type = ti () ; int64_t m = ti (), n = ti (), z = ti () ; int sh = ti (), in = ti () ;
            SLIP_info r = SLIP_matrix_allocate (&M [k], kind, type, m, n, z, sh, in, opt) ;
            printf ("R %d", r) ; handle ("M", M [k]) ;
            if (r == 0 && M [k]) { SLIP_matrix *A = M [k] ; printf (" %d %d %ld %ld %ld sh %d%d%d%d ptr %d%d%d%d", A->kind, A->type, A->m, A->n, A->nzmax, A->p_shallow, A->i_shallow, A->j_shallow, A->x_shallow, A->p != NULL, A->i != NULL, A->j != NULL, A->x.mpz != NULL) ;
                // every entry must be readable
                uint64_t acc = 0 ; if (A->p) for (int64_t t = 0 ; t <= n ; t++) acc |= A->p [t] ; if (A->i) for (int64_t t = 0 ; t < A->nzmax ; t++) acc |= A->i [t] ; if (A->j) for (int64_t t = 0 ; t < A->nzmax ; t++) acc |= A->j [t] ;
                if (A->x.mpz && type == SLIP_INT64) for (int64_t t = 0 ; t < A->nzmax ; t++) acc |= A->x.int64 [t] ;
                if (A->x.mpz && type == SLIP_FP64) for (int64_t t = 0 ; t < A->nzmax ; t++) acc |= A->x.fp64 [t] != 0 ;
                int bad = 0 ;
                if (A->x.mpz && type == SLIP_MPZ) for (int64_t t = 0 ; t < A->nzmax ; t++) { if (in) { if (A->x.mpz [t]->_mp_d == NULL || mpz_sgn (A->x.mpz [t]) != 0) bad++ ; } else if (A->x.mpz [t]->_mp_d != NULL) bad++ ; }
                if (A->x.mpz && type == SLIP_MPQ) for (int64_t t = 0 ; t < A->nzmax ; t++) { if (in) { if (mpq_numref (A->x.mpq [t])->_mp_d == NULL) bad++ ; } else if (mpq_numref (A->x.mpq [t])->_mp_d != NULL) bad++ ; }
                if (A->x.mpz && type == SLIP_MPFR) for (int64_t t = 0 ; t < A->nzmax ; t++) { if (in) { if (A->x.mpfr [t]->_mpfr_d == NULL) bad++ ; } else if (A->x.mpfr [t]->_mpfr_d != NULL) bad++ ; }
                printf (" zero %d bad %d scale", acc == 0, bad) ; raw () ; pq (A->scale) ; endraw () ; }
            printf ("\n") ;
        }
        else if (!strcmp (c, "free")) { int k = ti () ; SLIP_info r = SLIP_matrix_free (&M [k], opt) ; printf ("R %d", r) ; handle ("M", M [k]) ; printf ("\n") ; }
        else if (!strcmp (c, "copy"))
        {
            int d = ti () ; int kind = ti (), type = ti () ; int s = ti () ; M [d] = NULL ;
            SLIP_info r = SLIP_matrix_copy (&M [d], kind, type, M [s], opt) ; printf ("R %d", r) ; handle ("C", M [d]) ; printf ("\n") ;
        }
        else if (!strcmp (c, "check")) printf ("R %d\n", SLIP_matrix_check (M [ti ()], opt)) ;
        else if (!strcmp (c, "checknull")) printf ("R %d\n", SLIP_matrix_check (NULL, opt)) ;
        else if (!strcmp (c, "nnz")) printf ("R %ld\n", SLIP_matrix_nnz (M [ti ()], opt)) ;
        else if (!strcmp (c, "nnznull")) printf ("R %ld\n", SLIP_matrix_nnz (NULL, opt)) ;
        else if (!strcmp (c, "analyze"))
        {
            int a = ti () ; S = NULL ; SLIP_info r = SLIP_LU_analyze (&S, M [a], opt) ; printf ("R %d", r) ; handle ("S", S) ;
            if (S) { printf (" lnz %ld unz %ld q", S->lnz, S->unz) ; for (int64_t k = 0 ; k <= M [a]->n ; k++) printf (" %ld", S->q [k]) ; }
            printf ("\n") ;
        }
        else if (!strcmp (c, "dumpS")) { if (!S) printf ("NULL\n") ; else { printf ("S %ld %ld q", S->lnz, S->unz) ; for (int64_t k = 0 ; k < ti () ; k++) printf (" %ld", S->q [k]) ; printf ("\n") ; } }
        else if (!strcmp (c, "mkS"))
        {   // mkS n lnz unz q...
            int64_t n = ti () ; long sf = failat ; failat = -1 ; S = SLIP_malloc (sizeof (SLIP_LU_analysis)) ; S->q = SLIP_malloc ((n+1) * sizeof (int64_t)) ; failat = sf ;
            S->lnz = ti () ; S->unz = ti () ; for (int64_t k = 0 ; k < n ; k++) S->q [k] = ti () ; S->q [n] = 0 ; printf ("R 0\n") ;
        }
        else if (!strcmp (c, "factorize"))
        {
            int a = ti () ; L = U = rhos = NULL ; pinv = NULL ;
            SLIP_info r = SLIP_LU_factorize (&L, &U, &rhos, &pinv, M [a], S, opt) ; printf ("R %d", r) ; handle ("L", L) ; handle ("U", U) ; handle ("rhos", rhos) ; handle ("pinv", pinv) ;
            if (pinv) { printf (" pinv") ; for (int64_t k = 0 ; k < M [a]->n ; k++) printf (" %ld", pinv [k]) ; } printf ("\n") ;
        }
        else if (!strcmp (c, "showpinv")) { int64_t n = ti () ; printf ("PINV") ; if (pinv) for (int64_t k = 0 ; k < n ; k++) printf (" %ld", pinv [k]) ; printf ("\n") ; }
        else if (!strcmp (c, "solve"))
        {
            int x = ti (), b = ti (), a = ti () ; M [x] = NULL ;
            SLIP_info r = SLIP_LU_solve (&M [x], M [b], M [a], L, U, rhos, S, pinv, opt) ; printf ("R %d", r) ; handle ("X", M [x]) ; printf ("\n") ;
        }
        else if (!strcmp (c, "backslash"))
        {
            int x = ti () ; int type = ti () ; int a = ti (), b = ti () ; M [x] = NULL ;
            SLIP_info r = SLIP_backslash (&M [x], type, M [a], M [b], opt) ; printf ("R %d", r) ; handle ("X", M [x]) ; printf ("\n") ;
        }
        else if (!strcmp (c, "freelu"))
        {
            SLIP_matrix_free (&L, opt) ; SLIP_matrix_free (&U, opt) ; SLIP_matrix_free (&rhos, opt) ; SLIP_LU_analysis_free (&S, opt) ; SLIP_FREE (pinv) ;
            printf ("R 0") ; handle ("S", S) ; printf ("\n") ;
        }
        else if (!strcmp (c, "zset")) { int k = ti () ; initregs () ; raw () ; mpz_set_str (Z [k], tok (), 10) ; endraw () ; printf ("R 0\n") ; }
        else if (!strcmp (c, "qset")) { int k = ti () ; initregs () ; raw () ; setq (Q [k], tok ()) ; endraw () ; printf ("R 0\n") ; }
        else if (!strcmp (c, "fset")) { int k = ti () ; initregs () ; raw () ; mpfr_set_prec (R [k], ti ()) ; setf (R [k], tok ()) ; endraw () ; printf ("R 0\n") ; }
        else if (!strcmp (c, "gmp")) gmpop () ;
        else if (!strcmp (c, "smem"))
        {   // SuiteSparse_* / SLIP_* memory functions: smem which a b failat
            int w = ti () ; size_t a = tu (), b = tu () ; long long f = ti () ; failat = f ; sticky = 1 ; allocs = 0 ;
            void *p = w == 0 ? SuiteSparse_malloc (a, b) : w == 1 ? SuiteSparse_calloc (a, b) : w == 2 ? SLIP_malloc (a) : SLIP_calloc (a, b) ;
            failat = -1 ;
            node *x = NULL ; if (p) { for (x = tab [hsh (p)] ; x && x->p != p ; x = x->next) ; }
            printf ("P %d size %zu", p != NULL, x ? x->n : 0) ;
            if (p && x && (w == 1 || w == 3)) { int z = 1 ; for (size_t k = 0 ; k < x->n ; k++) if (((char *) p) [k]) z = 0 ; printf (" zero %d", z) ; } else printf (" zero 2") ;
            printf ("\n") ;
            if (w < 2) SuiteSparse_free (p) ; else SLIP_free (p) ;
        }
        else if (!strcmp (c, "srealloc"))
        {   // srealloc which new old size null failat
            int w = ti () ; size_t nw = tu (), old = tu (), sz = tu () ; int isnull = ti () ; long long f = ti () ;
            failat = -1 ; char *p = NULL ; size_t by = 0 ;
            if (!isnull) { by = (old ? old : 1) * (sz ? sz : 1) ; p = t_malloc (by) ; for (size_t k = 0 ; k < by ; k++) p [k] = (char) (k * 7 + 3) ; }
            failat = f ; allocs = 0 ; sticky = 1 ; 
            if (w == 0) { int ok = 5 ; char *q = SuiteSparse_realloc (nw, old, sz, p, &ok) ; failat = -1 ;
                node *x = NULL ; if (q) for (x = tab [hsh (q)] ; x && x->p != q ; x = x->next) ;
                size_t keep = 0 ; if (q && x && !isnull) { size_t mn = by < x->n ? by : x->n ; for (keep = 0 ; keep < mn && q [keep] == (char) (keep * 7 + 3) ; keep++) ; }
                printf ("Q %d same %d ok %d size %zu keep %zu\n", q != NULL, q == p, ok, x ? x->n : 0, keep) ; SuiteSparse_free (q) ; }
            else { bool ok = 0 ; char *q = SLIP_realloc (nw, old, sz, p, &ok) ; failat = -1 ;
                node *x = NULL ; if (q) for (x = tab [hsh (q)] ; x && x->p != q ; x = x->next) ;
                size_t keep = 0 ; if (q && x && !isnull) { size_t mn = by < x->n ? by : x->n ; for (keep = 0 ; keep < mn && q [keep] == (char) (keep * 7 + 3) ; keep++) ; }
                printf ("Q %d same %d ok %d size %zu keep %zu\n", q != NULL, q == p, ok, x ? x->n : 0, keep) ; if (q) t_free (q) ; }
        }
        else if (!strcmp (c, "early"))
        {   // every public function without initialisation
            SLIP_matrix dm ; memset (&dm, 0, sizeof (dm)) ; SLIP_matrix *h = (void *) 8 ; SLIP_LU_analysis *s = (void *) 8 ; SLIP_LU_analysis sv ; memset (&sv, 0, sizeof (sv)) ; SLIP_LU_analysis *sp = &sv ; SLIP_matrix *hl = (void *) 8, *hu = (void *) 8, *hr = (void *) 8 ; int64_t *hp = (void *) 8 ;
            SLIP_matrix *dmp = &dm ;
            printf ("E") ;
            printf (" %d", SLIP_matrix_allocate (&h, 2, 3, 1, 1, 1, false, true, NULL)) ;
            printf (" %d", SLIP_matrix_free (&dmp, NULL)) ;
            printf (" %ld", SLIP_matrix_nnz (&dm, NULL)) ;
            printf (" %d", SLIP_matrix_copy (&h, 2, 3, &dm, NULL)) ;
            printf (" %d", SLIP_matrix_check (&dm, NULL)) ;
            printf (" %d", SLIP_LU_analyze (&s, &dm, NULL)) ;
            printf (" %d", SLIP_LU_analysis_free (&sp, NULL)) ;
            printf (" %d", SLIP_LU_factorize (&hl, &hu, &hr, &hp, &dm, &sv, NULL)) ;
            printf (" %d", SLIP_LU_solve (&h, &dm, &dm, &dm, &dm, &dm, &sv, (int64_t *) 8, NULL)) ;
            printf (" %d", SLIP_backslash (&h, SLIP_MPQ, &dm, &dm, NULL)) ;
            printf (" %d", SLIP_create_default_options () == NULL ? -5 : 0) ;
            printf (" %d", SLIP_malloc (8) == NULL ? -5 : 0) ;
            printf (" %d", SLIP_calloc (8, 1) == NULL ? -5 : 0) ;
            bool ok = true ; void *q = SLIP_realloc (8, 4, 1, NULL, &ok) ;
            printf (" %d", q == NULL ? -5 : 0) ;
            printf (" %d", SLIP_finalize ()) ;
            printf (" untouched %d\n", h == (void *) 8 && s == (void *) 8 && hl == (void *) 8 && hu == (void *) 8 && hr == (void *) 8 && hp == (void *) 8 && dmp == &dm && sp == &sv) ;
        }
        else if (!strcmp (c, "echo")) printf ("%s\n", tok ()) ;
#ifndef NO_INTERNAL
        else if (!strcmp (c, "checksol")) { int a = ti (), x = ti (), b = ti () ; printf ("R %d\n", slip_check_solution (M [a], M [x], M [b], opt)) ; }
        else if (!strcmp (c, "cumsum"))
        {
            int64_t n = ti () ; int64_t *p = malloc ((n + 1) * 8), *w = malloc ((n ? n : 1) * 8) ; for (int64_t k = 0 ; k < n ; k++) w [k] = ti () ;
            printf ("R %d p", slip_cumsum (p, w, n)) ; for (int64_t k = 0 ; k <= n ; k++) printf (" %ld", p [k]) ; printf (" c") ; for (int64_t k = 0 ; k < n ; k++) printf (" %ld", w [k]) ; printf ("\n") ; free (p) ; free (w) ;
        }
        else if (!strcmp (c, "reach"))
        {   // reach L A k pinv.. : M[L] CSC mpz, M[A] CSC mpz
            int l = ti (), a = ti () ; int64_t k = ti () ; int64_t n = M [l]->n ; int64_t top = 0, *xi = malloc (2 * n * 8), *pv = malloc (n * 8) ; for (int64_t i = 0 ; i < n ; i++) pv [i] = ti () ; for (int64_t i = 0 ; i < 2*n ; i++) xi [i] = -1 ;
            slip_reach (&top, M [l], M [a], k, xi, pv) ; printf ("T %ld xi", top) ; for (int64_t t = top ; t < n ; t++) printf (" %ld", xi [t]) ; printf (" p") ; for (int64_t t = 0 ; t <= n ; t++) printf (" %ld", M [l]->p [t]) ; printf ("\n") ; free (xi) ; free (pv) ;
        }
        else if (!strcmp (c, "pivot"))
        {   // pivot n k col top pivs[n] xi[n] x[n] pinv[n] row_perm[n]
            int64_t n = ti (), k = ti (), col = ti (), top = ti () ;
            int64_t *pv = malloc (n*8), *xi = malloc (n*8), *pi = malloc (n*8), *rp = malloc (n*8) ;
            for (int64_t t = 0 ; t < n ; t++) pv [t] = ti () ; for (int64_t t = 0 ; t < n ; t++) xi [t] = ti () ;
            SLIP_matrix *x = NULL, *rh = NULL ; long sf = failat ; failat = -1 ;
            SLIP_matrix_allocate (&x, SLIP_DENSE, SLIP_MPZ, n, 1, n, false, true, NULL) ; SLIP_matrix_allocate (&rh, SLIP_DENSE, SLIP_MPZ, n, 1, n, false, false, NULL) ;
            raw () ; for (int64_t t = 0 ; t < n ; t++) mpz_set_str (x->x.mpz [t], tok (), 10) ; endraw () ;
            for (int64_t t = 0 ; t < n ; t++) pi [t] = ti () ; for (int64_t t = 0 ; t < n ; t++) rp [t] = ti () ;
            int64_t pivot = -77 ; failat = sf ; allocs = 0 ;
            SLIP_info r = slip_get_pivot (&pivot, x, pv, n, top, xi, col, k, rh, pi, rp, opt) ;
            printf ("V %d %ld rho", r, pivot) ; raw () ; pz (rh->x.mpz [k]) ; printf (" x") ; for (int64_t t = 0 ; t < n ; t++) pz (x->x.mpz [t]) ; endraw () ;
            printf (" pinv") ; for (int64_t t = 0 ; t < n ; t++) printf (" %ld", pi [t]) ; printf (" rp") ; for (int64_t t = 0 ; t < n ; t++) printf (" %ld", rp [t]) ; printf (" pivs") ; for (int64_t t = 0 ; t < n ; t++) printf (" %ld", pv [t]) ; printf ("\n") ;
            sf = failat ; failat = -1 ; SLIP_matrix_free (&x, NULL) ; SLIP_matrix_free (&rh, NULL) ; failat = sf ; free (pv) ; free (xi) ; free (pi) ; free (rp) ;
        }
        else if (!strcmp (c, "casti")) { printf ("I %ld\n", slip_cast_double_to_int64 (td ())) ; }
        else if (!strcmp (c, "expand"))
        {   // expand which n prec values...: which 0 double 1 mpfr 2 mpq
            int w = ti () ; int64_t n = ti () ; int64_t prec = ti () ; long sf = failat ; failat = -1 ;
            initregs () ; mpz_t *xo = slip_create_mpz_array (n) ; double *xd = NULL ; mpfr_t *xf = NULL ; mpq_t *xq = NULL ;
            if (w == 0) { xd = malloc (n * 8 + 8) ; for (int64_t k = 0 ; k < n ; k++) xd [k] = td () ; }
            SLIP_options o2 ; memset (&o2, 0, sizeof (o2)) ; o2.prec = prec ; 
            if (w == 1) { xf = slip_create_mpfr_array (n, &o2) ; raw () ; for (int64_t k = 0 ; k < n ; k++) setf (xf [k], tok ()) ; endraw () ; }
            if (w == 2) { xq = slip_create_mpq_array (n) ; raw () ; for (int64_t k = 0 ; k < n ; k++) setq (xq [k], tok ()) ; endraw () ; }
            failat = sf ; allocs = 0 ;
            SLIP_info r = w == 0 ? slip_expand_double_array (xo, xd, Q [0], n, opt) : w == 1 ? slip_expand_mpfr_array (xo, xf, Q [0], n, opt) : slip_expand_mpq_array (xo, xq, Q [0], n, opt) ;
            raw () ; printf ("X %d scale", r) ; pq (Q [0]) ; printf (" x") ; for (int64_t k = 0 ; k < n ; k++) pz (xo [k]) ; printf ("\n") ;
            for (int64_t k = 0 ; k < n ; k++) { if (xo [k]->_mp_d) mpz_clear (xo [k]) ; if (xf) mpfr_clear (xf [k]) ; if (xq) mpq_clear (xq [k]) ; }
            if (!mpq_numref (Q [0])->_mp_d) mpz_init (mpq_numref (Q [0])) ; if (!mpq_denref (Q [0])->_mp_d) mpz_init_set_ui (mpq_denref (Q [0]), 1) ;
            endraw () ; SLIP_free (xo) ; free (xd) ; if (xf) SLIP_free (xf) ; if (xq) SLIP_free (xq) ;
        }
#endif
        else { printf ("unknown command %s\n", c) ; return 3 ; }
        fflush (stdout) ;
    }
}
