"""C07: every small set of spectra over an alphabet of energies (ties, near-degeneracies, gaps), every setting of the truncation
parameters on a grid, through the real functions that set the reference, identify near-degenerate energies, choose the states and truncate."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from numcheck import run_parts
def body(c):
    run_parts(c, 'trunc', 'spectra x partially computed subspaces x truncation settings',
        'up to three subspaces with up to 6 (quick) or 9 (thorough) levels in total; keep, keepenergy, keepmin, safeguard, safeguardmax, keepall, lastall, absolute, fixeps on a grid; real and complex',
        ['energies are ascending within a subspace (C03)', 'the largest spectra are combined with every third setting'])
if __name__ == '__main__': main(body, 'C07', level='exploration')
