"""T02: adapt solves the defining integral equations: every (density table, Lambda, grid kind, branch, step, option)
of an enumerated family is run and the written GSOL/FSOL functions are compared with the exact solution of
R(eps(x)) = R(1) Lambda^(2-x) and R(1) - R(E(x)) = int_1^x [R(eps(t)) - R(eps(t+1))] dt (R piecewise quadratic)."""
import sys, os, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import numpy as np
BIN = {}
GL = np.polynomial.legendre.leggauss(8)

class PL:
    """R(w) = int_0^w rho, rho piecewise linear, constant outside the table; vectorised."""
    def __init__(s, t):
        t = [(0.0, t[0][1])] + list(t) + [(max(2.0 * t[-1][0], 1e3), t[-1][1])]
        s.x = np.array([p[0] for p in t]); s.y = np.array([p[1] for p in t])
        s.R = np.concatenate(([0.0], np.cumsum(np.diff(s.x) * (s.y[1:] + s.y[:-1]) / 2)))
        s.m = np.diff(s.y) / np.diff(s.x)
    def rho(s, w): return np.interp(w, s.x, s.y)
    def __call__(s, w):
        w = np.asarray(w, float); i = np.clip(np.searchsorted(s.x, w, 'right') - 1, 0, len(s.m) - 1); d = w - s.x[i]
        return s.R[i] + d * (s.y[i] + s.m[i] * d / 2)
    def inv(s, r):
        r = np.asarray(r, float); i = np.clip(np.searchsorted(s.R, r, 'right') - 1, 0, len(s.m) - 1); q = r - s.R[i]
        return s.x[i] + 2 * q / (s.y[i] + np.sqrt(np.maximum(0, s.y[i] ** 2 + 2 * s.m[i] * q)))

def solution(p, L, adapt, b, xs):
    """eps(x) on demand and the exact E at the output points xs"""
    R1 = float(p(1.0))
    def eps(x):
        x = np.asarray(x, float); u = L ** (2 - x)
        e = p.inv(R1 * u) if adapt else u
        e = np.where(x <= 2, 1.0, e)
        return e if b is None else (1 - b) * e + b
    # breakpoints: where eps(t) or eps(t+1) crosses a node of the table
    xm = xs[-1]; br = {1.0, 2.0}
    for w in p.x[1:-1]:
        e = w if b is None else (w - b) / (1 - b)
        if not 0 < e < 1: continue
        u = float(p(e)) / R1 if adapt else e
        x = 2 - math.log(u) / math.log(L)
        br |= {x, x - 1}
    if b is not None and adapt:
        for w in p.x[1:-1]:
            if 0 < w < 1: x = 2 - math.log(float(p(w)) / R1) / math.log(L); br |= {x, x - 1}
    nodes = np.array(sorted(set(xs) | {x for x in br if 1 < x < xm}))
    a, h = nodes[:-1], np.diff(nodes) / 2
    t = (a + h)[:, None] + h[:, None] * GL[0]
    S = np.concatenate(([0.0], np.cumsum(((p(eps(t)) - p(eps(t + 1))) * GL[1]).sum(1) * h)))
    I = np.array([S[k] for k in np.searchsorted(nodes, xs)])
    return eps, p.inv(np.maximum(float(p(1.0 if b is None else 1.0)) - I, 0))

def columns(s):
    v = [l.split() for l in s.splitlines()]
    if any(len(l) != 2 for l in v): return None
    return np.array([[float(x) for x in l] for l in v])

def one(case):
    tab, kw, args, style = case
    d = workdir(); clean(d)
    neg = any(a.upper().startswith('N') for a in args)
    flat = next((float(args[i + 1]) for i in range(len(args) - 1) if args[i] == '--flat'), None)
    L, adapt, xmax, ostep = kw['Lambda'], kw['adapt'] == 'true', kw['xmax'], kw.get('outputstep', 1 / 64)
    br = kw.get('bandrescale', 1.0)
    sg = -1 if neg else 1
    rows = [(sg * w * br, v / br) for w, v in tab]
    other = [(-sg * w, 7.0) for w in (1e-3, .5, 1.0, 2.0)]
    rows = [rows + other, other + rows, rows[::-1] + other, rows[1::2] + other + rows[::2]][style % 4]
    txt = ('# header\n' if style & 4 else '') + ''.join('%r %r\n' % p for p in rows)
    put(d, {kw.get('dos', 'Delta.dat'): txt, 'param': '[param]\n' + ''.join('%s=%s\n' % p for p in kw.items())})
    cmd = [BIN['adapt']] + list(args)
    rep = {'cmd': cmd, 'params': kw, 'table': txt}
    def bad(m, key=None): return ('adapt %s params %r table %r: %s' % (' '.join(args), kw, tab[:6], m), rep) + ((key,) if key else ())
    sfx = 'NEG' if neg else ''
    if kw.get('loadg') == 'true':      # the grid written by a first run is read back
        kw1 = {k: v for k, v in kw.items() if k != 'loadg'}
        put(d, {'param': '[param]\n' + ''.join('%s=%s\n' % p for p in kw1.items())})
        r = run(cmd, d)
        if r.rc: return bad('exit %d %s' % (r.rc, r.err[:200]))
        first = get(d, 'GSOL%s.dat' % sfx), get(d, 'FSOL%s.dat' % sfx)
        put(d, {'param': '[param]\n' + ''.join('%s=%s\n' % p for p in kw.items())})
    r = run(cmd, d, timeout=300)
    if r.rc: return bad('exit %d %s' % (r.rc, r.err[:300]))
    p = PL([(1e-10, flat), (1.0, flat)] if flat else [(w, v) for w, v in tab])
    if flat and br != 1: p = PL([(1e-10 / br, flat * br), (1.0 / br, flat * br)])
    R1 = float(p(1.0)); rho0 = float(p.rho(0.0))
    others = sorted(f for f in os.listdir(d) if 'SOL' in f)
    if others != sorted((['GSOL%s.dat' % sfx] if adapt else []) + ['FSOL%s.dat' % sfx]): return bad('wrote %r' % others)
    if kw.get('loadg') == 'true':
        if get(d, 'GSOL%s.dat' % sfx) != first[0]: return bad('loadg changes the loaded grid file')
        a, b = columns(first[1]), columns(get(d, 'FSOL%s.dat' % sfx))
        if a.shape != b.shape or not np.allclose(a, b, rtol=1e-7): return bad('FSOL with the loaded grid differs from the one with the computed grid')
    b = kw.get('boundary', 0.0) if kw.get('hardgap') == 'true' else None
    fine = kw.get('dx_fine', 1e-5) <= 1e-4
    ntail = None
    for fn, x0 in (('GSOL', 2.0), ('FSOL', 1.0)):
        if fn == 'GSOL' and not adapt: continue
        v = columns(get(d, fn + sfx + '.dat'))
        if v is None or not len(v): return bad('%s is not a two-column table' % fn)
        if not np.isfinite(v).all(): return bad('%s contains a non-finite value' % fn)
        n = len(v); xs = x0 + ostep * np.arange(n)
        if not np.allclose(v[:, 0], xs, atol=1e-7, rtol=0): return bad('%s: abscissas are not %g + k*outputstep' % (fn, x0))
        ended = fn == 'FSOL' and v[-1, 1] > kw.get('max_abs', 100.0)
        if not ended and not (xmax - 1e-6 <= xs[-1] <= xmax + ostep + 1e-6): return bad('%s ends at x=%g, requested %g' % (fn, xs[-1], xmax))
        u = L ** (2 - xs)
        if fn == 'GSOL':
            e = p.inv(R1 * u) / u
            delta = abs(R1 / rho0 / e[-1] - 1) + 1.2e-4          # the shooting ends when g(xmax) meets its limit to 1e-4
            tol = 2e-6 + 3 * delta * L ** (xs - xs[-1])
            ntail = delta
            w = np.abs(v[:, 1] / e - 1)
        else:
            eps, E = solution(p, L, adapt, b, xs)
            e = E / u
            tol = 4e-5 + (40 * ostep ** 2 if adapt else 0) + (3 * ntail * L ** (xs - xs[-1]) * 2 if adapt else 0) + (3e-10 if fine else 3e-9) * L ** (xs - 1)
            w = np.abs(v[:, 1] / e - 1)
            T = v[:, 1] * u
            if not (np.diff(T) <= 1e-12).all(): return bad('representative energies are not monotonically decreasing, x=%g' % xs[np.argmax(np.diff(T))])
            s = 1 + tol
            if adapt or b is not None or True:
                up, lo = eps(xs), eps(xs + 1)
                k = (T > up * s) | (T * s < lo)
                if k.any(): i = int(np.argmax(k)); return bad('E(x=%g)=%r is not between eps(x+1)=%r and eps(x)=%r' % (xs[i], float(T[i]), float(lo[i]), float(up[i])))
        i = int(np.argmax(w / tol))
        if not w[i] <= tol[i]: return bad('%s at x=%g is %r, the defining equation gives %r (tolerance %.1e)' % (fn, xs[i], float(v[i, 1]), float(e[i]), tol[i]))

def tables():
    V = (.5, 1.0, 2.0)
    for m in ((1e-6, .5, 1.0), (1e-6, .25, 1.0)):
        for ys in itertools.product(V, repeat=3): yield list(zip(m, ys))
    for ys in itertools.product((.5, 2.0), repeat=5): yield list(zip((1e-6, .125, .3, .7, 1.0), ys))
    for ys in itertools.product((.5, 2.0), repeat=3): yield list(zip((1e-4, .4, 1.6), ys))          # straddles the band edge
    for ys in itertools.product((.5, 1.5), repeat=2): yield list(zip((1e-3, .8), ys))               # ends inside the band
    for n in (9, 17, 65, 200): yield [((i + 1) / n, 1 + .5 * ((i * 7) % 5 - 2) / 2) for i in range(n)]
    yield [(2.0 ** -i, 1 + (i % 2)) for i in range(14, -1, -1)]
    yield [(2.0 ** -i, 1 / (1 + 2.0 ** -i)) for i in range(30, -1, -1)]

def cases():
    k = 0
    F = {'dx_fine': 2e-4, 'dx_fast': 5e-3, 'max_subdiv': 16, 'xfine': 2}
    F4 = {'dx_fine': 3e-5, 'dx_fast': 1e-3, 'max_subdiv': 15, 'xfine': 2}
    S = ((), ('P',), ('N',), ('NEG', 'param'), ('pos',), ('negative',))
    def kwargs(L, adapt):
        k = {'Lambda': L, 'adapt': 'true' if adapt else 'false'}
        k.update(F if L <= 2 else F4)
        k['xmax'] = {1.5: 26, 1.7: 20, 2.0: 16, 2.5: 14, 3.0: 12, 4.0: 10, 6.0: 8, 10.0: 6}[L]
        return k
    for tab in tables():
        for L in (1.7, 2.0, 3.0) + ((1.5, 2.5, 4.0, 6.0, 10.0) if thorough() else ()):
            for adapt in (True, False):
                if not thorough() and L == 3.0 and k % 3: k += 1; continue
                k += 1; kw = kwargs(L, adapt)
                m = k % 11
                if m == 3: kw['bandrescale'] = 2.0
                if m == 5: kw['outputstep'] = .125 if not adapt else 1 / 128
                if m == 7: kw['dos'] = 'other.tab'
                if m == 9: kw['xfine'] = 3
                if m == 2 and adapt: kw['loadg'] = 'true'
                if m == 8: kw['bandrescale'] = .5
                yield (tab, kw, S[k % 6], k % 8)
    # the option product for three tables
    tabs = [[(1e-6, 1.), (.25, .5), (.5, 2.), (1., 1.)], [(1e-6, 1.), (1., 1.)], [(1e-5, 2.), (.2, .5), (1.5, 1.5)]]
    for tab in tabs:
        for adapt in (True, False):
            for L in (1.5, 2.0, 4.0):
                for opt in ({}, {'bandrescale': 2.0}, {'bandrescale': .25}, {'outputstep': 1 / 32}, {'outputstep': 1 / 100}, {'loadg': 'true'}, {'xfine': 2}, {'allowed_error': 1e-8}, {'dos': 'x.y'}, {'hardgap': 'false', 'boundary': .1}, {'max_abs': 2.0}):
                    if 'loadg' in opt and not adapt: continue
                    for s in (S if thorough() else (S[1], S[2])):
                        k += 1; kw = kwargs(L, adapt); kw.update(opt); yield (tab, kw, s, k % 8)
    # hard gap: densities positive in the gap as well (the boundary only moves the accumulation point)
    for tab in tabs:
        for adapt in (True, False):
            for L in (1.7, 2.0):
                for bd in (.05, .1, .2):
                    k += 1; kw = kwargs(L, adapt); kw.update(hardgap='true', boundary=bd, max_abs=20.0); yield (tab, kw, S[1 + k % 2], 0)
    # flat band from the command line; bandrescale acts on it as on a table
    for G in (.01, .5, 1.0, 3.0):
        for adapt in (True, False):
            for L in (1.5, 2.0, 4.0):
                for s in (('P',), ('N',)):
                    k += 1; kw = kwargs(L, adapt); yield (tabs[0], kw, ('--flat', repr(G)) + s, k % 8)
    # default numerical parameters
    for tab in tabs[:2]:
        for adapt in (True, False):
            for L in (2.0, 3.0):
                k += 1; yield (tab, {'Lambda': L, 'adapt': 'true' if adapt else 'false', 'xmax': 12 if L > 2 else 20}, S[1 + k % 2], k % 8)

def check(c):
    BIN.update(build_tools(['adapt']))
    c.rule = 'piecewise-linear densities over value alphabets on several meshes x Lambda x adaptive/fixed grid x branch x parameters; distinct = distinct (table, parameters, branch)'
    c.assumptions = ['the grid function is read as the tool uses it: linear between output points (an error of outputstep^2)', 'shooting accuracy: g(xmax) meets its limit to secant_eps; the tolerance grows towards xmax accordingly']
    def keyed():
        for x in cases():
            c.note(1, (tuple(x[0][:8]), len(x[0]), tuple(sorted(x[1].items())), x[2])); c.sample({'table': x[0][:6], 'params': x[1], 'args': x[2]}); yield x
    for r in pmap(one, keyed(), 8, c.deadline):
        if r: c.violation(*r)
    if pmap.cut: c.cut()

main(check, 'T02', budget=pick(200, 2400))
