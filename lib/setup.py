#!/usr/bin/env python3
"""Offline setup: pre-builds the tools and harness binaries (objects are content-addressed; checks rebuild what changed)."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import corebuild
os.makedirs(BUILD, exist_ok=True)
jobs = [lambda: corebuild.build_core('nrgserver', 'nrgserver.cc'), lambda: corebuild.build_core('mpi_explore', 'mpi_explore.cc')]
jobs.insert(0, lambda: corebuild.build_core('probe', 'probe.cc'))
jobs.insert(1, lambda: corebuild.build_core('state_crash', 'state_crash.cc', syms=[], lib=False, opt='-O1'))
jobs.insert(1, lambda: corebuild.build_core('probe_num', 'probe_num.cc', syms=[], lib=False, opt='-O1'))
jobs += [lambda: corebuild.build_instantiate(), lambda: corebuild.build_omp()]
jobs += [lambda t=t: build_tools([t]) for t in ('nrgchain', 'adapt', 'binavg', 'mats', 'specmoments', 'intavg', 'tdavg', 'matrix', 'hilb', 'kk', 'integ', 'diag', 'unitary', 'broaden', 'bw', 'resample')]
for j in jobs:
    try: j()
    except Exception: traceback.print_exc()      # the checks report what they cannot build
open(os.path.join(BUILD, 'setup_marker'), 'w').write('setup ran\n')
print('setup done')
