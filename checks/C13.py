"""C13: every sequence of delta peaks up to a small length over an alphabet with mesh points, edges, zero and out-of-range frequencies,
for a grid of mesh settings, collected, merged, trimmed and saved by the real code; window factors of every step for a grid of patching settings."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from numcheck import run_parts
def body(c):
    run_parts(c, 'bins', 'mesh settings x peak sequences; patching settings x steps',
        'sequences of 2 (quick) or 3 (thorough) peaks, first peak over the whole alphabet; 96 to 160 mesh settings; 1152 patching settings with all steps and all mesh points',
        ['peaks above a mesh with shifted accumulation point are discarded, as the source documents', 'a peak between the first mesh point and emin belongs to the first point, as the source documents'])
if __name__ == '__main__': main(body, 'C13', level='exploration')
