"""which functions decide which property"""

from .contracts.gmp import WRAPFNS
from .contracts.gmplist import LISTFNS
from .contracts.alloc import ALLOCFNS
from .contracts.life import LIFEFNS, UNINITFNS
from .contracts.amd import AMDFNS
from .contracts.analyze import ANALYZEFNS
from .contracts.colamd import COLAMDFNS
from .contracts.check import CHECKFNS
from .contracts.checksol import CHECKSOLFNS
from .contracts.convert import CASTFNS, EXPANDFNS, CASTMATFNS
from .contracts.copy import COPYFNS
from .contracts.reach import REACHFNS
from .contracts.trisolve import TRIFNS
from .contracts.factorize import FACTFNS
from .contracts.solve import SOLVEFNS

PROPS = {}


def prop(id, fns, kinds=None, lean=(), replay=True, note='', bounded=()):
    """fns: names, or (name, case filter), under contract.  kinds: obligation kinds counted for this property (None: all)
    bounded: the functions of the property that are not under contract and for which only the bounded stand-in speaks"""
    PROPS[id] = dict(id=id, fns=list(fns), kinds=kinds, lean=list(lean), replay=replay, note=note, bounded=list(bounded))


MEMFNS = ['SLIP_matrix_allocate', 'SLIP_matrix_free', 'slip_create_mpz_array', 'slip_create_mpq_array', 'slip_create_mpfr_array',
          'slip_sparse_realloc', 'slip_sparse_collapse', 'slip_permute_b', 'slip_permute_x']
PIV = ['slip_get_pivot', 'slip_get_smallest_pivot', 'slip_get_largest_pivot', 'slip_get_nonzero_pivot']

LUFNS = REACHFNS + TRIFNS + FACTFNS         # everything below the factorization
prop('C01', ['slip_permute_b', 'slip_permute_x', 'slip_matrix_mul', 'slip_matrix_div'] + PIV + LUFNS + SOLVEFNS + ['SLIP_LU_analyze'] + CHECKSOLFNS,
     bounded=['entries given in another type (SLIP_matrix_copy: C06, C07)'])
prop('C02', ['slip_get_pivot', 'slip_sparse_realloc', 'slip_sparse_collapse'] + LUFNS,
     lean=['lu-exact'])
prop('C03', PIV + LUFNS + ['SLIP_backslash'])
prop('C04', PIV, bounded=[])
prop('C09', MEMFNS + LUFNS + SOLVEFNS + ANALYZEFNS + CHECKSOLFNS + EXPANDFNS + CASTFNS + CASTMATFNS + CHECKFNS + [('SLIP_matrix_copy', lambda k: k[-1] in ('MPZ', 'FP64') and k[-2] in ('MPZ', 'MPQ', 'FP64'))],
     bounded=['SLIP_matrix_copy between the other types (C06)', 'the GMP wrappers and the memory functions (C10, C11)', 'SLIP_initialize, SLIP_finalize (C12)'])
prop('C10', WRAPFNS + LISTFNS, bounded=['SLIP_gmp_fscanf', 'SLIP_mpfr_asprintf'])
prop('C11', ALLOCFNS, bounded=[])
prop('C12', LIFEFNS + UNINITFNS + ['slip_gmp_finalize'], bounded=['sequences of initialize, finalize and other calls'])
prop('C07', EXPANDFNS + CASTFNS, bounded=['pow(10, 17) is exactly 10^17'])
prop('C06', CASTFNS + CASTMATFNS + COPYFNS + ['SLIP_matrix_nnz', 'slip_cumsum'])
prop('C05', ANALYZEFNS, bounded=['colamd_l (contract assumed)', 'amd_l_order (contract verified by C14)'])
prop('C08', CHECKFNS + ['SLIP_matrix_nnz'])
prop('C13', ['slip_permute_b', 'slip_permute_x', 'SLIP_matrix_nnz', 'SLIP_LU_analyze'] + CHECKFNS + CHECKSOLFNS + [('SLIP_matrix_copy', lambda k: k[-1] == 'MPZ' and k[-2] in ('MPZ', 'MPQ'))] + FACTFNS + ['SLIP_LU_solve', 'SLIP_backslash'])
prop('C14', AMDFNS, bounded=['amd_2, amd_l2 and below (contract assumed): what they do with the adjacency lists amd_1 hands them'])
prop('C15', COLAMDFNS, bounded=['colamd, colamd_l'])
prop('C16', CHECKSOLFNS + ['SLIP_LU_solve', 'SLIP_backslash'])
prop('C17', ['slip_cumsum'] + REACHFNS + TRIFNS)

NA = {}
