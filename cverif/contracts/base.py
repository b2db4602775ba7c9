"""helpers shared by the contracts"""
from ..specs import *
from ..core import *
from ..cfront import *

OK, OOM, SINGULAR, INCORRECT, PANIC = 0, -1, -2, -3, -5


def internal(c):
    """internal function: SLIP_LU is initialised"""
    if c.defmode:
        c.state.ghost['init'] = TRUE
    else:
        from ..lib import init_flag
        c.req('SLIP_LU is initialised', init_flag(c.state))


def public(c):
    """public function: may be called before SLIP_initialize; returns the flag"""
    if c.defmode:
        c.state.ghost['init'] = fresh('slip_init', B)
    return c.state.ghost['init']
