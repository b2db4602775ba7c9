// Replay driver for AMD and COLAMD: executes commands, never judges.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "amd.h"
#include "colamd.h"

static long allocs = 0, failat = -1, live = 0 ;
static int sticky = 1 ;
static int fails (void) { long k = allocs++ ; return failat >= 0 && (sticky ? k >= failat : k == failat) ; }
static void *my_malloc (size_t n) { if (fails ()) return NULL ; void *p = malloc (n ? n : 1) ; if (p) { live++ ; memset (p, 0xA5, n) ; } return p ; }
static void *my_calloc (size_t a, size_t b) { if (fails ()) return NULL ; void *p = calloc (a ? a : 1, b ? b : 1) ; if (p) live++ ; return p ; }
static void *my_realloc (void *o, size_t n) { if (fails ()) return NULL ; if (!o) live++ ; return realloc (o, n ? n : 1) ; }
static void my_free (void *p) { if (p) live-- ; free (p) ; }

static char tokbuf [1<<16] ;
static char *tok (void) { if (scanf ("%65535s", tokbuf) != 1) exit (0) ; return tokbuf ; }
static int64_t ti (void) { return strtoll (tok (), NULL, 0) ; }
static double td (void) { return strtod (tok (), NULL) ; }

int main (void)
{
    SuiteSparse_config.malloc_func = my_malloc ; SuiteSparse_config.calloc_func = my_calloc ;
    SuiteSparse_config.realloc_func = my_realloc ; SuiteSparse_config.free_func = my_free ;
    setvbuf (stdout, NULL, _IOLBF, 1 << 16) ;
    for (int cmd = 0 ; ; cmd++)
    {
        char c [64] ; snprintf (c, 64, "%s", tok ()) ;
        printf ("#%d ", cmd) ; fflush (stdout) ;
        if (!strcmp (c, "amd"))
        {   // amd w nrow ncol hasP hasAp hasAi valid_only failat sticky control info  np p.. ni i..
            int w = ti () ; int64_t nr = ti (), nc = ti () ; int hp = ti (), hap = ti (), hai = ti (), vo = ti () ; failat = ti () ; sticky = ti () ; int ctl = ti (), inf = ti () ;
            int64_t np = ti () ; SuiteSparse_long *lp = malloc (np * 8 + 1) ; int *ip = malloc (np * 4 + 1) ; for (int64_t k = 0 ; k < np ; k++) { lp [k] = ti () ; ip [k] = lp [k] ; }
            int64_t nz = ti () ; SuiteSparse_long *li = malloc (nz * 8 + (nz == 0)) ; int *ii = malloc (nz * 4 + (nz == 0)) ; for (int64_t k = 0 ; k < nz ; k++) { li [k] = ti () ; ii [k] = li [k] ; }
            SuiteSparse_long *lp2 = malloc (np * 8 + 1), *li2 = malloc (nz * 8 + 1) ; memcpy (lp2, lp, np * 8) ; memcpy (li2, li, nz * 8) ;
            int64_t psz = nr > 0 ? nr : 1 ; SuiteSparse_long *lP = malloc (psz * 8) ; int *iP = malloc (psz * 4) ; for (int64_t k = 0 ; k < psz ; k++) { lP [k] = -5 ; iP [k] = -5 ; }
            double Control [AMD_CONTROL], Info [AMD_INFO] ; amd_l_defaults (Control) ; if (ctl == 2) { Control [AMD_DENSE] = 0.5 ; Control [AMD_AGGRESSIVE] = 0 ; } for (int k = 0 ; k < AMD_INFO ; k++) Info [k] = -77 ;
            allocs = 0 ; int r ;
            if (vo) r = w ? (int) amd_l_valid (nr, nc, hap ? lp : NULL, hai ? li : NULL) : amd_valid (nr, nc, hap ? ip : NULL, hai ? ii : NULL) ;
            else r = w ? (int) amd_l_order (nr, hap ? lp : NULL, hai ? li : NULL, hp ? lP : NULL, ctl ? Control : NULL, inf ? Info : NULL) : amd_order (nr, hap ? ip : NULL, hai ? ii : NULL, hp ? iP : NULL, ctl ? Control : NULL, inf ? Info : NULL) ;
            int same = 1 ; for (int64_t k = 0 ; k < np ; k++) if ((w ? lp [k] : ip [k]) != (w ? lp2 [k] : (int) lp2 [k])) same = 0 ; for (int64_t k = 0 ; k < nz ; k++) if ((w ? li [k] : ii [k]) != (w ? li2 [k] : (int) li2 [k])) same = 0 ;
            failat = -1 ;
            printf ("A %d allocs %ld live %ld same %d status %g P", r, allocs, live, same, Info [AMD_STATUS]) ; for (int64_t k = 0 ; k < nr ; k++) printf (" %ld", w ? (long) lP [k] : (long) iP [k]) ; printf ("\n") ;
            free (lp) ; free (ip) ; free (li) ; free (ii) ; free (lp2) ; free (li2) ; free (lP) ; free (iP) ;
        }
        else if (!strcmp (c, "rec"))
        {   int w = ti () ; int64_t a = ti (), b = ti (), d = ti () ; printf ("C %zu\n", w ? colamd_l_recommended (a, b, d) : colamd_recommended (a, b, d)) ; }
        else if (!strcmp (c, "defaults"))
        {   int w = ti () ; double k [COLAMD_KNOBS + 1] ; for (int t = 0 ; t <= COLAMD_KNOBS ; t++) k [t] = -7.25 ; if (w) colamd_l_set_defaults (k) ; else colamd_set_defaults (k) ;
            colamd_set_defaults (NULL) ; colamd_l_set_defaults (NULL) ;
            printf ("D") ; for (int t = 0 ; t <= COLAMD_KNOBS ; t++) printf (" %g", k [t]) ; printf ("\n") ; }
        else if (!strcmp (c, "colamd"))
        {   // colamd w nrow ncol short knobs  np p.. ni i..
            int w = ti () ; int64_t nr = ti (), nc = ti () ; int64_t sh = ti () ; int kn = ti () ; double kd = td () ;
            int64_t np = ti () ; SuiteSparse_long *lp = malloc (np * 8 + 1) ; int *ip = malloc (np * 4 + 1) ; for (int64_t k = 0 ; k < np ; k++) { lp [k] = ti () ; ip [k] = lp [k] ; }
            int64_t nz = ti () ; size_t rec = w ? colamd_l_recommended (nz, nr, nc) : colamd_recommended (nz, nr, nc) ;
            int64_t alen = (int64_t) rec - sh ; if (alen < nz) alen = nz ;
            SuiteSparse_long *li = malloc (alen * 8 + 1) ; int *ii = malloc (alen * 4 + 1) ; for (int64_t k = 0 ; k < nz ; k++) { li [k] = ti () ; ii [k] = li [k] ; }
            double knobs [COLAMD_KNOBS] ; colamd_set_defaults (knobs) ; knobs [0] = kd ; knobs [1] = kd ;
            SuiteSparse_long ls [COLAMD_STATS] ; int is [COLAMD_STATS] ;
            int r = w ? (int) colamd_l (nr, nc, alen, li, lp, kn ? knobs : NULL, ls) : colamd (nr, nc, alen, ii, ip, kn ? knobs : NULL, is) ;
            printf ("L %d rec %zu stat %ld q", r, rec, w ? (long) ls [COLAMD_STATUS] : (long) is [COLAMD_STATUS]) ; for (int64_t k = 0 ; k < nc ; k++) printf (" %ld", w ? (long) lp [k] : (long) ip [k]) ; printf ("\n") ;
            free (lp) ; free (ip) ; free (li) ; free (ii) ;
        }
        else { printf ("unknown %s\n", c) ; return 3 ; }
        fflush (stdout) ;
    }
}
