"""T06: hilb returns the integral of rho(E)/(z-E) for every argument off the real axis: a lattice of arguments (all quadrants,
near-axis, in-band, band-edge, far) x a family of densities (semicircle with every scaling, all small tables over a value
alphabet, orders of rows) x every input mode and option; the oracle is the exact (multiprecision) integral of the
semicircle and of the piecewise-cubic natural spline."""
import sys, os, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import mpmath
mpmath.mp.dps = 40
BIN = {}

class Bethe:
    def __init__(s, scale): s.k = mpmath.mpf(scale)
    def G(s, z):
        w = mpmath.mpc(z) * s.k
        return 2 * s.k * (w - mpmath.sqrt(w - 1) * mpmath.sqrt(w + 1))
    mx = 1.0
class Spline:
    """natural cubic spline through the sorted points, zero outside; exact Hilbert transform"""
    def __init__(s, pts):
        pts = sorted(pts); s.x = [mpmath.mpf(x) for x, y in pts]; y = [mpmath.mpf(v) for x, v in pts]; n = len(pts)
        h = [s.x[i + 1] - s.x[i] for i in range(n - 1)]
        c = [mpmath.mpf(0)] * n                   # half second derivatives, Thomas algorithm
        a = [0] * n; d = [0] * n
        for i in range(1, n - 1):
            b = 2 * (h[i - 1] + h[i]); r = 3 * ((y[i + 1] - y[i]) / h[i] - (y[i] - y[i - 1]) / h[i - 1])
            m = h[i - 1]
            if i > 1: b -= m * a[i - 1]; r -= m * d[i - 1]
            a[i] = h[i] / b; d[i] = r / b
        for i in range(n - 2, 0, -1): c[i] = d[i] - (a[i] * c[i + 1] if i < n - 2 else 0)
        s.p = [(y[i], (y[i + 1] - y[i]) / h[i] - h[i] * (c[i + 1] + 2 * c[i]) / 3, c[i], (c[i + 1] - c[i]) / (3 * h[i])) for i in range(n - 1)]
        s.mx = float(max(abs(v) for v in y)); s.end = (abs(float(y[0])), abs(float(y[-1])), float(y[0]), float(y[-1]))
    def G(s, z):
        z = mpmath.mpc(z); r = mpmath.mpc(0)
        for i, (c0, c1, c2, c3) in enumerate(s.p):
            w = z - s.x[i]; L = s.x[i + 1] - s.x[i]        # int_0^L P(t)/(w-t) dt = P(w) log(w/(w-L)) - int_0^L (P(w)-P(t))/(w-t)
            Pw = c0 + w * (c1 + w * (c2 + w * c3))
            # log(w) - log(w - L) along the real direction (no branch crossing off the axis)
            lg = mpmath.log(w) - mpmath.log(w - L)
            q0 = c1 + c2 * w + c3 * w * w; q1 = c2 + c3 * w; q2 = c3  # (P(w)-P(t))/(w-t) = q0 + q1 t + q2 t^2
            r += Pw * lg - (q0 * L + q1 * L * L / 2 + q2 * L ** 3 / 3)
        return r

def dens(spec):
    return Bethe(spec[1]) if spec[0] == 'bethe' else Spline(spec[1])
def opts(spec, d):
    """command-line options selecting the density"""
    if spec[0] == 'bethe': return {None: [], 's': ['-s', repr(spec[1])], 'B': ['-B', repr(1 / spec[1])]}[spec[2]]
    pts, order = spec[1], spec[2]
    p = list(pts)
    if order == 1: p = p[::-1]
    elif order == 2: p = p[1::2] + p[::2]
    elif order == 3: p = p[2:] + p[:2]
    put(d, {'dos': ''.join('%r %r\n' % q for q in p)})
    return ['-d', 'dos']
def close(g, e, tol): return abs(g.real - float(e.real)) <= tol and abs(g.imag - float(e.imag)) <= tol
def cplx(t): 
    t = t.strip(); assert t[0] == '(' and t[-1] == ')'
    a, b = t[1:-1].split(','); return complex(float(a), float(b))

def tol_of(D, z):
    if isinstance(D, Bethe): return 2e-6
    x = D.x
    # where the integrand jumps inside the integration range (non-zero end value of an asymmetric table) the quadrature is less accurate
    jump = max(D.end[0] if -x[0] < x[-1] else 0.0, D.end[1] if -x[0] > x[-1] else 0.0)
    at = max([D.end[i] for i in (0, 1) if z[0] == float(x[(0, -1)[i]]) and abs(z[1]) < 1e-9] + [0.0])
    return 1e-5 * max(1.0, D.mx) + 1e-2 * jump + 1e-3 * at

EDGE = 'Re z exactly on the edge of the integration range [-B,B] and |Im z| < 1e-3'
def known_edge(D, z, g, tol, G):
    """known finding: there the integral part is dropped, leaving only the subtracted term rho(x) * int_-B^B dE/(z-E)"""
    x, y = z
    B, rho = (float(1 / D.k), 0.0) if isinstance(D, Bethe) else (float(max(abs(D.x[0]), abs(D.x[-1]))), D.end[2] if x == float(D.x[0]) else D.end[3] if x == float(D.x[-1]) else 0.0)
    if abs(x) != B or not abs(y) < 1e-3: return False
    q = mpmath.mpc(x, y); q = mpmath.log(q + B) - mpmath.log(q - B)
    return (not G or abs(g.real - float((q * rho).real)) <= tol) and abs(g.imag - float((q * rho).imag)) <= tol
def one(case):
    mode, spec, zs, ex = case
    d = workdir(); clean(d)
    o = opts(spec, d); D = dens(spec)
    if ex.get('v'): o = o + ['-v']
    sx, sy = ex.get('shift', (0.0, 0.0))
    if sx: o = o + ['-x', repr(sx)]
    if sy: o = o + ['-y', repr(sy)]
    G = ex.get('G', True)
    if G: o = (['-G'] + o) if ex.get('first') else (o + ['-G'])
    rep = {'spec': spec, 'opts': o, 'mode': mode}
    def bad(m): return ('hilb %s mode %s density %s: %s' % (' '.join(o), mode, (spec[0], spec[1] if spec[0] == 'bethe' or len(spec[1]) < 8 else len(spec[1])), m), rep)
    edge = None
    if mode == 'single':
        for z in zs:
            cmd = [BIN['hilb']] + o + (['-o', 'out'] if ex.get('o') else []) + ['--', repr(z[0]), repr(z[1])]
            r = run(cmd, d)
            if r.rc: return bad('%r: exit %d %s' % (z, r.rc, r.err[:100]))
            t = (get(d, 'out') or b'').decode() if ex.get('o') else r.out
            t = t.splitlines()[-1] if t.split() else ''
            e = D.G(complex(z[0] + sx, z[1] + sy)); 
            try: g = cplx(t) if G else complex(float(e.real), float(t))
            except Exception: return bad('%r: unparsable output %r' % (z, t))
            zz = (z[0] + sx, z[1] + sy); tol = tol_of(D, zz)
            if not close(g, e, tol):
                m = bad('argument %r: printed %r, exact %s' % (z, t, mpmath.nstr(e, 17)))
                if known_edge(D, zz, g, tol, G): edge = m + (EDGE,); continue
                return m
        return edge
    if mode == 'stream':
        st = ex.get('style', 0)
        t = ''.join('%r %r %r\n' % (i + 0.5, x, y) if st == 0 else ' \t%r   %r\n %r' % (i + 0.5, x, y) + '\n\n' for i, (x, y) in enumerate(zs))
        put(d, {'in': t})
        r = run([BIN['hilb']] + o + (['-o', 'out'] if ex.get('o') else []) + ['in'], d)
        if r.rc: return bad('exit %d %s' % (r.rc, r.err[:100]))
        L = (get(d, 'out') or b'').decode().splitlines() if ex.get('o') else [l for l in r.out.splitlines() if l[:1].isdigit()]
        if len(L) != len(zs): return bad('%d rows for %d arguments' % (len(L), len(zs)))
        for i, (l, z) in enumerate(zip(L, zs)):
            w = l.split()
            try: w = [float(v) for v in w]
            except ValueError: return bad('unparsable row %r' % l)
            if len(w) != (3 if G else 2) or w[0] != i + 0.5: return bad('row %d is %r' % (i, l))
            e = D.G(complex(z[0] + sx, z[1] + sy))
            g = complex(w[1], w[2]) if G else complex(float(e.real), w[1])
            zz = (z[0] + sx, z[1] + sy); tol = tol_of(D, zz)
            if not close(g, e, tol):
                m = bad('argument %r: row %r, exact %s' % (z, l, mpmath.nstr(e, 17)))
                if known_edge(D, zz, g, tol, G): edge = m + (EDGE,); continue
                return m
        return edge
    # self-energy mode: zs = [(omega, re sigma, im sigma)]
    put(d, {'re': ''.join('%r %r\n' % (w, a) for w, a, b in zs), 'im': ''.join('%r %r\n' % (w + ex.get('dw', 0.0), b) for w, a, b in zs)})
    r = run([BIN['hilb']] + o + ['re', 'im', 'reo', 'imo'], d)
    if ex.get('dw'):
        if r.rc == 0: return bad('frequency mismatch not reported')
        return None
    if r.rc: return bad('exit %d %s' % (r.rc, r.err[:100]))
    A, Bq = [(get(d, f) or b'').decode().splitlines() for f in ('reo', 'imo')]
    if len(A) != len(zs) or len(Bq) != len(zs): return bad('%d and %d rows for %d arguments' % (len(A), len(Bq), len(zs)))
    for la, lb, (w, a, b) in zip(A, Bq, zs):
        xa = [float(v) for v in la.split()]; xb = [float(v) for v in lb.split()]
        if len(xa) != 2 or len(xb) != 2 or xa[0] != w or xb[0] != w: return bad('rows %r and %r for frequency %r' % (la, lb, w))
        zz = complex(w - a + sx, -min(b, -1e-8) + sy)
        e = D.G(zz); f = 1.0 if G else -1 / math.pi
        tol = tol_of(D, (zz.real, zz.imag))
        if not close(complex(xa[1], xb[1]), e * f, tol):
            if known_edge(D, (zz.real, zz.imag), complex(xa[1], xb[1]) / f, tol * 4, True): edge = bad('omega=%r sigma=(%r,%r): rows %r and %r' % (w, a, b, la, lb)) + (EDGE,); continue
            return bad('omega=%r sigma=(%r,%r): rows %r and %r, exact %s' % (w, a, b, la, lb, mpmath.nstr(e * f, 17)))
        if spec[0] == 'bethe' or all(y >= 0 for x, y in spec[1]) and ex.get('nonneg'):
            if not G and xb[1] < -1e-9: return bad('negative spectral function %r at omega=%r' % (xb[1], w))
    return edge

XS = [0.0, .1, .5, .9375, .999, 1.0, 1.001, 1.25, 2.0, 10.0, 1e3]
XS = sorted(set([-x for x in XS] + XS))
YS = [1e-12, 1e-8, 1e-6, 1e-4, .00099, .001, .00101, .01, .1, 1.0, 10.0, 1e3]
YS = [-y for y in YS[::-1]] + YS

TABX = {3: [[-1, 0, 1], [-1, .5, 2]], 4: [[-2, -1, 1, 2], [0, .5, 1, 2], [-4, -2, -1, -.5]], 5: [[-1, -.5, 0, .5, 1], [-2, 0, .25, .5, 1]]}
def tables():
    for n, meshes in TABX.items():
        for m in meshes:
            al = (0.0, 1.0, -.5) if n < 5 else (0.0, 1.0) if not thorough() else (0.0, 1.0, -.5)
            for ys in itertools.product(al, repeat=n):
                if any(ys): yield tuple((float(x), y) for x, y in zip(m, ys))
def lattice(pts, k):
    """arguments relative to a table: nodes, midpoints, outside"""
    xs = [x for x, y in pts]; B = max(abs(xs[0]), abs(xs[-1]))
    X = sorted(set(xs + [(a + b) / 2 for a, b in zip(xs, xs[1:])] + [-B, B, -1.125 * B, 1.125 * B, 8 * B, -8 * B, xs[0] - .125, xs[-1] + .125, .0625]))
    Y = [YS[i] for i in range(k % 3, len(YS), 3)]
    return [(x, y) for x in X for y in Y]

def cases():
    k = 0
    for sc in (1.0, .5, 2.0, 3.0, .125):
        zs = tuple((x / sc, y / sc) for x in XS for y in YS)
        for o in ((None,) if sc == 1.0 else ('s', 'B')) + (('s', 'B') if sc == 1.0 else ()):
            for j, ex in enumerate(({}, {'o': 1}, {'G': False}, {'first': 1, 'v': 1}, {'style': 1}, {'shift': (.25, 0.0)}, {'shift': (-.5, 2.5e3)})):
                z2 = zs if j < 5 else tuple(z for z in zs if abs(z[1]) > .01 or j == 5 and z[1] > 0)
                yield ('stream', ('bethe', sc, o), z2, ex)
            step = 7 if not thorough() else 1
            for i in range(len(YS) if not thorough() else len(zs) // 12 + 1):
                ch = zs[i::len(YS)][::1 if thorough() else 3] if not thorough() else zs[12 * i:12 * i + 12]
                k += 1
                if ch: yield ('single', ('bethe', sc, o), ch, [{}, {'o': 1}, {'G': False}, {'v': 1}, {'shift': (.25, .5)}, {'G': False, 'o': 1}][k % 6])
    # tables
    for pts in tables():
        k += 1
        yield ('stream', ('tab', pts, k % 4), tuple(lattice(pts, k)), [{}, {'o': 1}, {'G': False}, {'style': 1}, {'shift': (.25, 0.0)}][k % 5])
        if k % 4 == 0: yield ('single', ('tab', pts, k // 4 % 4), tuple(lattice(pts, k // 4)[k // 16 % 5::11][:5]), [{}, {'o': 1}, {'G': False}][k // 4 % 3])
    # all row orders of one table
    pts = ((-1.0, .25), (-.25, 1.0), (.5, .75), (2.0, .125))
    for p in itertools.permutations(pts): k += 1; yield ('stream', ('tab', p, 0), tuple(lattice(pts, k))[::3], {})
    # larger tables
    for n in (10, 50, 200) + ((1000,) if thorough() else ()):
        for fk in range(3):
            pts = []
            for i in range(n):
                x = -1.5 + 2.5 * i / (n - 1); pts.append((x, [max(0.0, 1 - x * x), 1.0 + ((i * 7) % 5) / 16., math.exp(-x * x)][fk]))
            yield ('stream', ('tab', tuple(pts), fk), tuple((x, y) for x in (-1.5, -1.2, 0.0, .3, .99, 1.0, 1.5, 1.6, 40.0) for y in YS[::2]), {})
    # self-energy mode
    sig = [(a, b) for a in (-.5, 0.0, .75) for b in (-1.0, -.01, -1e-6, 0.0, .25)]
    for spec in (('bethe', 1.0, None), ('bethe', .5, 's'), ('bethe', 2.0, 'B'), ('tab', ((-1.0, 0.0), (-.5, .5), (0.0, 1.0), (.5, .5), (1.0, 0.0)), 2), ('tab', ((-2.0, .25), (0.0, .5), (1.0, .25)), 1)):
        for ex in ({'G': True}, {'G': False, 'nonneg': 1}, {'G': False, 'shift': (.125, 0.0)}, {'G': True, 'v': 1}):
            for chunk in range(3):
                ws = [(-1.75, -.5, .125), (-1.0, 0.0, 1.0), (-8.0, .25, 3.0)][chunk]
                yield ('sigma', spec, tuple((w, a, b) for w in ws for a, b in sig), ex)
            for i in range(3):
                for dw in (1e-3, -2e-6, .5): yield ('sigma', spec, tuple((w, .1, -.2) for w in (-1.0, .5, 2.0)[:i + 1]), dict(ex, dw=dw))

def check(c):
    BIN.update(build_tools(['hilb']))
    c.rule = 'lattice of arguments x densities (semicircle x scalings, all tables of 3-5 rows over a value alphabet) x row orders x input modes x options; distinct = distinct (density, argument, mode, options)'
    c.assumptions = ['the interpolating function of a table is the natural cubic spline, zero outside (as coded)', 'numbers agree to 2e-6 of the largest density', 'arguments off the real axis only']
    def keyed():
        for x in cases():
            for z in x[2]: c.note(1, (x[0], x[1][0], x[1][1:] if len(x[1][1:][0] if x[1][0] == 'tab' else '') < 9 else len(x[1][1]), z, tuple(sorted(x[3].items()))))
            c.sample({'mode': x[0], 'density': x[1] if x[1][0] == 'bethe' else x[1][1][:5], 'args': x[2][:3], 'opt': x[3]}); yield x
    for r in pmap(one, keyed(), 4, c.deadline):
        if r: c.violation(*r)
    if pmap.cut: c.cut()

main(check, 'T06', budget=pick(200, 2400))
