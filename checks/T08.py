"""T08: integ reports the integrals of the (Akima) interpolating function of its table: all small tables over a value
alphabet on several meshes, all row orders, all outputs, temperatures; exact piecewise-cubic integration as the oracle."""
import sys, os, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from akima import Akima
import numpy as np
BIN = {}
MESH = {5: [[-1, -.5, 0, .5, 1], [-2, -.25, .125, 1, 4], [.25, .5, 1, 2, 4], [-3, -2, -1, -.5, -.25], [-1, -.75, -.5, .5, 4], [0, 1, 2, 3, 4], [-4, -3, -2, -1, 0]],
        6: [[-1, -.5, -.25, .25, .5, 1], [-1, 0, .5, 1, 1.5, 4], [-8, -4, -2, -1, 1, 8]],
        7: [[-2, -1, -.5, 0, .25, 1, 3]]}
OUT = [('total', ()), ('pos', ('-p',)), ('neg', ('-n',)), ('abs', ('-a',)), ('fermi', ('-f',))]

def fermi(x, T):
    with np.errstate(over='ignore'): return 1 / (1 + np.exp(np.asarray(x) / T))
def expected(A, what, T):
    if what == 'total': return A.integral()
    if what == 'pos': return A.integral(0.0)
    if what == 'neg': return A.integral(hi=0.0)
    if what == 'abs': return A.integral_abs()
    span = max(abs(A.x[0]), abs(A.x[-1]))
    br = [s * k * T for s in (-1, 1) for k in (0, .5, 1, 1.5, 2, 3, 4, 5, 6, 8, 10, 13, 16, 20, 25, 30, 36, 40) if k * T < span]
    return A.weighted(lambda x: fermi(x, T), br)

def one(case):
    pts, what, opt, T, style = case
    d = workdir(); clean(d)
    t = ''
    for i, (x, y) in enumerate(pts):
        if style == 1 and i == 0 or style == 2 and i % 2: t += '# comment 1 2\n'
        t += '%r %r\n' % (x, y) if style != 3 else ' \t%r   %r \n\n' % (x, y)
    if style == 4: t = t.rstrip('\n')
    put(d, {'f': t})
    v = style == 5
    cmd = [BIN['integ']] + (['-v'] if v else []) + (['-T', repr(T)] if T is not None else []) + ['f'] + list(opt)
    r = run(cmd, d)
    rep = {'cmd': cmd, 'file': t}
    def bad(m): return ('integ %s on %r: %s' % (' '.join(cmd[1:]), pts[:8], m), rep)
    if r.rc: return bad('exit %d %s' % (r.rc, r.err[:200]))
    A = Akima(pts); TT = 1e-99 if T is None else T
    sc = A.integral_abs()
    tol = (1e-8 if what in ('total', 'pos', 'neg') else 1e-6) * sc + 1e-10
    try: g = float(r.out.split()[-1])
    except (ValueError, IndexError): return bad('no value printed: %r' % r.out[-100:])
    e = expected(A, what, TT)
    ftol = TT * max(abs(y) for x, y in pts) if TT < 0.02 * (A.x[-1] - A.x[0]) else 0.0      # a thermal step narrower than the quadrature resolves
    if what == 'fermi': tol += ftol
    if style == 6: tol = 1e-6 * abs(e) + 1e-10     # values of one sign, thermal factor resolved by the table
    if not abs(g - e) <= tol: return bad('%s integral %r, exact value %r' % (what, g, e))
    if v:
        got = {}
        for l in r.out.splitlines():
            if '=' in l: got[l.split('=')[0]] = l.split('=')[1]
        for key, w in (('Total', 'total'), ('Positive', 'pos'), ('Negative', 'neg'), ('Total|f|', 'abs'), ('Fermi-Dirac weighted', 'fermi'), ('Sum', 'total')):
            e = expected(A, w, TT)
            if key not in got or not abs(float(got[key]) - e) <= 2e-5 * sc + 1e-9 + (ftol if w == 'fermi' else 0): return bad('%s reported as %r, exact value %r' % (key, got.get(key), e))

def cases():
    k = 0
    temps = [None, 1e-3, 0.1, 1.0, 20.0, 1e-12]
    for n, meshes in MESH.items():
        for mi, mesh in enumerate(meshes):
            mesh = [float(x) for x in mesh]
            al = (-1.0, 0.0, 1.0) if n == 5 else (-1.0, 2.0) if n == 6 or not thorough() else (-1.0, 0.0, 1.0)
            if thorough() and n == 5: al = (-1.0, 0.0, 0.5, 2.0)
            for ys in itertools.product(al, repeat=n):
                for what, opt in OUT:
                    k += 1
                    if not thorough() and n == 5 and mi > 2 and k % 3: continue
                    p = list(zip(mesh, ys))
                    o = k % 4
                    if o == 1: p = p[::-1]
                    if o == 2: p = p[2:] + p[:2]
                    if o == 3: p = p[1::2] + p[::2]
                    yield (tuple(p), what, opt, temps[k % 6] if what == 'fermi' or k % 7 == 0 else None, k % 6)
    for mesh, ys in (([-1., -.5, .25, .5, 2.], (1., -2., 3., .5, 1.)), ([-2., -1., 0., 1., 2.], (0., 1., 4., 1., 0.))):
        for p in itertools.permutations(zip(mesh, ys)):
            k += 1; w, o = OUT[k % 5]; yield (p, w, o, temps[k % 6] if w == 'fermi' else None, k % 6)
    # every pair (mesh, temperature) for a smooth and a linear table; long tables
    for n in (5, 6, 8, 16, 17, 33, 64, 65, 100, 129, 400) + ((1000, 3000) if thorough() else ()):
        for kind in range(4):
            xs = [(i - n // 2) / 16.0 for i in range(n)] if kind < 2 else [i / 8.0 + 1 / 64 for i in range(-(n // 2), n - n // 2)] if kind == 2 else sorted([2.0 ** -(i % 20) for i in range(n // 2)] + [-(2.0 ** -(i % 20)) * .75 for i in range(n - n // 2)])
            xs = sorted(set(xs))
            if len(xs) < 5: continue
            for fk in range(3):
                ys = [[2 * x + 1, round(64 / (1 + x * x)) / 64, ((i * 29) % 11 - 3) / 4.0][fk] for i, x in enumerate(xs)]
                for w, o in OUT:
                    for T in ((None, 1e-4, 0.03, 2.0) if w == 'fermi' else (None,)):
                        k += 1; yield (tuple(zip(xs, ys)), w, o, T, k % 6)

    # values in the thermal tail: the exponentially small factor times large values
    for T in (0.25, 1.0, 8.0):
        for a in range(0, 700, 4):
            if not thorough() and a > 64 and a % 64: continue
            for sl in (0, 1):
                for n in (5, 8):
                    k += 1; big = 2.0 ** min(int(a / math.log(2)), 900)
                    yield (tuple(((a + i) * T, (big * (1 + sl * i)) / T) for i in range(n)), 'fermi', ('-f',), T, 6)
                    yield (tuple((-(a + i) * T, 1.0 + sl * i) for i in range(n)), 'fermi', ('-f',), T, 6)

def check(c):
    BIN.update(build_tools(['integ']))
    c.rule = 'all tables of 5-7 rows over a value alphabet on ten meshes x outputs x temperatures x layouts, all row orders of two tables, size sweep; distinct = distinct (table, output, temperature)'
    c.assumptions = ['the interpolating function is Akima (as coded); numbers agree to 5e-6 of the integral of |f| (plus T max|f| for a thermal step much narrower than the range)', 'values and abscissas are dyadic, so that the interpolation coefficients are not ill-conditioned']
    def keyed():
        for x in cases():
            c.note(1, (x[0] if len(x[0]) < 8 else (len(x[0]), x[0][0], x[0][-1]), x[1], x[3])); c.sample({'table': x[0][:6], 'out': x[1], 'T': x[3]}); yield x
    for r in pmap(one, keyed(), 48, c.deadline):
        if r: c.violation(*r)
    if pmap.cut: c.cut()

main(check, 'T08', budget=pick(200, 2400))
