from . import base, matrices, kernels, reach, pivots, gmp, alloc, life, gmplist, amd, analyze, colamd, check, checksol, convert, copy, trisolve, factorize, solve
