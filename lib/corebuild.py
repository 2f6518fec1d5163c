"""Builds the solver (c++/) of the current working tree, or parts of it, for the harnesses."""
import hashlib, os, glob
import vlib
from vlib import *

SHIM_MPI = os.path.join(VERIF, 'shim_mpi')
EXT = os.path.join(VERIF, 'harness', 'core_ext.hpp')
CLANG = 'clang++'

def cflags(opt='-O0', openmp=False, extra=()):
    c = [x for x in COMMON if not x.startswith('-DNRG_ENABLE_APP_OPENMP')]
    return c + ['-g0', opt, '-DNRG_ENABLE_APP_OPENMP=%d' % (1 if openmp else 0), '-DNRG_SYM_BASIC', '-DNRG_SYM_MORE', '-DNRG_SYM_ALL',
                '-I' + SHIM_MPI] + inc() + list(extra)

def pch(flags):
    h = hashlib.sha256('\0'.join(flags).encode())
    for f in [EXT] + sorted(glob.glob(SHIM_MPI + '/**/*.hpp', recursive=True) + glob.glob(os.path.join(VERIF, 'shim') + '/**/*.h*', recursive=True)):
        h.update(open(f, 'rb').read())
    d = os.path.join(BUILD, 'pch'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, h.hexdigest()[:20] + '.pch')
    if not os.path.exists(p):
        t = p + '.tmp%d' % os.getpid()
        rc, out = vlib._run([CLANG] + flags + ['-x', 'c++-header', EXT, '-o', t])
        if rc: raise BuildError('pch: ' + out[-3000:])
        os.replace(t, p)
    return ['-include-pch', p]

LIBS = ['-lboost_serialization', '-lopenblas', '-lgmp', '-lgsl', '-lgslcblas', '-lhdf5_serial', '-ldl', '-lpthread', '-lm']

def sym_sources(names=None):
    a = sorted(glob.glob(os.path.join(REPO, 'c++', 'sym-*.cc')))
    return a if names is None else [x for x in a if os.path.basename(x)[4:-3] in names]

def core_units(main=None, syms=None, opt='-O0', openmp=False, extra=(), lib=True, use_pch=True):
    """compile units of the whole solver; main: a harness source, or None"""
    f = cflags(opt, openmp, extra)
    g = f + (pch(f) if use_pch else [])
    # the largest translation units first
    srcs = ([os.path.join(REPO, 'c++', 'nrg-lib.cc')] if lib else []) + sorted(sym_sources(syms), key=lambda s: -size_hint(s))
    u = [(s, g) for s in srcs]
    if main: u.insert(0, (os.path.join(VERIF, 'harness', main), g))
    return u
def size_hint(s):
    n = os.path.basename(s)[4:-3]
    t = 0
    for f in glob.glob(os.path.join(REPO, 'c++', 'symmetry', '**', 'nrg-recalc-%s*.hpp' % n), recursive=True): t += os.path.getsize(f)
    return t

def build_core(name, main, **kw):
    old = os.environ.get('VERIF_CXX'); os.environ['VERIF_CXX'] = CLANG
    try: objs = build_objects(core_units(main, **kw))
    finally:
        if old is None: del os.environ['VERIF_CXX']
        else: os.environ['VERIF_CXX'] = old
    return link(name, objs, LIBS + list(kw.get('libs', [])))

def build_instantiate(opt='-O0'):
    """tools/instantiate with the chain generator and all symmetry types (the same objects as for the solver harnesses)"""
    old = os.environ.get('VERIF_CXX'); os.environ['VERIF_CXX'] = CLANG
    try:
        f = cflags(opt); g = f + pch(f)
        i = ['-I' + REPO, '-I' + os.path.join(REPO, 'tools', 'nrgchain'), '-I' + os.path.join(REPO, 'tools', 'instantiate')]
        units = core_units(None, opt=opt) + [(os.path.join(VERIF, 'harness', 'inst_main.cc'), g + i), (os.path.join(REPO, 'tools', 'nrgchain', 'nrgchain.cc'), f + i + ['-DNRGCHAIN_NO_MAIN'])]
        objs = build_objects(units)
    finally:
        if old is None: del os.environ['VERIF_CXX']
        else: os.environ['VERIF_CXX'] = old
    return link('instantiate', objs, LIBS)

def build_omp():
    """the solver compiled with OpenMP and memory-access callbacks, on the controlled runtime of harness/omp_rt.cc"""
    rt = build_objects([(os.path.join(VERIF, 'harness', 'omp_rt.cc'), ['-std=gnu++20', '-O2', '-w'])])
    x = ['-fopenmp', '-fsanitize=thread', '-I' + os.path.join(VERIF, 'shim_omp')]
    old = os.environ.get('VERIF_CXX'); os.environ['VERIF_CXX'] = CLANG
    try: objs = build_objects(core_units('omp_explore.cc', opt='-O1', openmp=True, extra=x))
    finally:
        if old is None: del os.environ['VERIF_CXX']
        else: os.environ['VERIF_CXX'] = old
    return link('omp_explore', objs + rt, LIBS, ['-rdynamic'])
