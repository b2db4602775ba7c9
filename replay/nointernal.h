#include <stddef.h>
void *slip_gmp_allocate (size_t) ;
void *slip_gmp_reallocate (void *, size_t, size_t) ;
void slip_gmp_free (void *, size_t) ;
