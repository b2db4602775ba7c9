import subprocess
L=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h|%s','cfbf538..HEAD'],text=True).strip().split('\n')
why={
'SLIP_matrix_allocate reports':('C09','SLIP_matrix_allocate returned SLIP_OK (or crashed) when p, i or j could not be allocated'),
'SLIP_matrix_allocate does not overflow':('C09','m*n and (n+1)*8 overflowed for huge dimensions, so that a block that is too small was used'),
'SLIP_mpq_set_si':('C10','SLIP_mpq_set_si(x,n,d) ignored d and always set the denominator to 1'),
'all-zero double':('C07','an all-zero double or mpfr array got the scale 0 (the number was cleared before its use)'),
'SLIP_TOL_LARGEST':('C04','with SLIP_TOL_LARGEST and a negative largest entry the ratio was compared with a negative denominator: n=1..2, e.g. column (1,-10), tol 0.9'),
'SLIP_LU_analyze reports':('C05','SLIP_LU_analyze ignored AMD_OUT_OF_MEMORY, AMD_INVALID and COLAMD errors and returned SLIP_OK with an uninitialised q'),
'converting 2^63':('C07','slip_cast_double_to_int64(9223372036854775808.0) returned INT64_MIN'),
'an empty mpq':('C07','converting an empty MPQ matrix to MPZ gave scale 0'),
'SLIP_LU_solve handles':('C01','SLIP_LU_solve read rhos[-1] for a 0-by-0 system (crash)'),
'COLAMD garbage':('C15','with duplicate entries in A the garbage collection of colamd read uninitialised workspace'),
'amd_valid does not read':('C14','amd_valid read beyond Ai when a column pointer exceeds Ap[n]'),
'SLIP_matrix_check rejects':('C08','SLIP_matrix_check accepted (and read) more entries than nzmax, and Ap[0] != 0 when nzmax is 0'),
'keeps the scale factor when':('C06','SLIP_matrix_copy dropped the scale factor of an MPZ matrix when only the kind changes'),
'from dense to triplet':('C06','SLIP_matrix_copy from dense to triplet counted the dropped zeros in C->nz'),
'checks that the scale factor':('C09','SLIP_matrix_copy ignored an out-of-memory failure of SLIP_mpq_set on the scale factor'),
'to dense mpfr sets':('C06','SLIP_matrix_copy from sparse to dense MPFR left the entries not in the pattern NaN'),
'numbers initialised by SLIP_mpz_init':('C10','after an out-of-memory failure in a wrapper a number initialised by SLIP_mpz_init/SLIP_mpq_init pointed to a freed dummy limb (GMP 6.2 and later)'),
}
out=['# KNOWN property=<id> key=<function>|<kind>|<description> :: <text>   genuine defects that are not repaired',
'# fixed: property=<id> <commit> <what failed>                            genuine defects repaired in /repo']
for l in L:
    h,s=l.split('|',1)
    for k,(p,w) in why.items():
        if k in s: out.append('fixed: property=%s %s %s'%(p,h,w)); break
    else: print('??',l)
open('/verif/known-findings.txt','w').write('\n'.join(out)+'\n')
