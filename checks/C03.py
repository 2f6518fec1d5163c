"""C03: every small Hermitian matrix over an alphabet and structured larger ones, through every routine, ratio and workspace setting of
the real dispatch function; the oracle is a Jacobi diagonalisation, the eigenvalue equation and orthonormality."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from numcheck import run_parts
def body(c):
    run_parts(c, 'eig', 'matrices x routines x ratios x workspace settings',
        'all real symmetric matrices of dimension 1-4 (5, 6 with entries 0, 1) and complex Hermitian ones of dimension 1-4 over alphabets with degenerate, singular and block-diagonal cases; nine structured families up to dimension 50 (quick) or 100 (thorough), three scales',
        ['linear algebra library installed here (OpenBLAS/LAPACK)', 'CUDA routines are not built'])
if __name__ == '__main__': main(body, 'C03', level='exploration')
