"""T07: kk returns the principal-value transform of the (Akima) interpolation of its table: all small symmetric tables
over a value alphabet, row orders, both input modes; exact piecewise-cubic principal values as the oracle; closed-form
pairs on long grids; all ways to break the symmetry of the grid are rejected."""
import sys, os, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from akima import Akima
BIN = {}
GRID = {6: [[.25, .5, 1], [1, 2, 3], [.125, 1, 8], [.5, 2.5, 3]], 8: [[.25, .5, 1, 2], [.5, 1.5, 2.5, 3.5]]}

def text(pts, style):
    t = ''
    for i, (x, y) in enumerate(pts):
        if style == 1 and i == 0 or style == 2 and i % 2: t += '# comment 1 2\n'
        t += '%r %r\n' % (x, y) if style != 3 else ' \t%r   %r \n\n' % (x, y)
    return t.rstrip('\n') if style == 4 else t
def one(case):
    kind, pts, style, extra = case
    d = workdir(); clean(d)
    t = text(pts, style)
    put(d, {'in': t})
    if style % 2 == 0: r = run([BIN['kk'], 'in', 'out'], d); out = (get(d, 'out') or b'').decode().splitlines()
    else: r = run([BIN['kk'], '-'], d, t.encode()); out = [l for l in r.out.splitlines() if 'done' not in l]
    rep = {'file': t, 'mode': 'files' if style % 2 == 0 else 'stdin'}
    def bad(m): return ('kk (%s) on %r%s: %s' % (rep['mode'], pts[:8], '...' if len(pts) > 8 else '', m), rep)
    if kind == 'reject':
        if r.rc <= 0: return bad('undefined transform (%s) not rejected: exit %d, %d rows' % (extra, r.rc, len(out)))
        return None
    if r.rc: return bad('exit %d %s' % (r.rc, r.err[:200]))
    try: rows = [tuple(map(float, l.split())) for l in out]
    except ValueError: return bad('unparsable output')
    sp = sorted(pts)
    if len(rows) != len(sp) or any(len(w) != 2 for w in rows): return bad('%d rows for %d frequencies' % (len(rows), len(sp)))
    if [w[0] for w in rows] != [float('%.16g' % x) for x, y in sp]: return bad('output frequencies differ from the input')
    A = Akima(sp); mx = max(abs(y) for x, y in sp)
    over = None
    for i, ((z, g), (x, y)) in enumerate(zip(rows, sp)):
        if kind == 'exact':
            e = A.pv(x)
            if not abs(g - e) <= (1e-6 if len(sp) < 100 else 2e-4) * mx + 1e-10:
                # known finding: a single non-zero row in a long table is overlooked altogether (contributes exactly 0)
                if extra is not None and g == 0.0: extra = 'one non-zero row in %d rows contributes nothing' % len(sp); over = (z, g, e); continue
                return bad('transform at %r is %r, exact value %r' % (z, g, e))
        elif abs(x) < extra[1] * sp[-1][0]:
            if i % 7 == 0 and not abs(g - A.pv(x)) <= 1e-4 * mx: return bad('transform of %s at %r is %r, exact value %r' % (extra[3], z, g, A.pv(x)))
            e = extra[2](x)
            if not abs(g - e) <= extra[0]: return bad('transform of %s at %r is %r, closed form %r' % (extra[3], z, g, e))
    if over: return bad('transform at %r is %r, exact value %r (%s)' % (*over, extra)) + (extra,)
    # parity
    ys = [y for x, y in sp]
    if ys == ys[::-1] and any(abs(rows[i][1] + rows[-1 - i][1]) > 1e-7 * mx for i in range(len(rows))): return bad('transform of an even table is not odd')
    if ys == [-y for y in ys[::-1]] and any(abs(rows[i][1] - rows[-1 - i][1]) > 1e-7 * mx for i in range(len(rows))): return bad('transform of an odd table is not even')
    return None

CLOSED = [('lorentzian', lambda x: 1 / (1 + x * x), lambda x: -x / (1 + x * x)), ('odd lorentzian', lambda x: x / (1 + x * x), lambda x: 1 / (1 + x * x)),
          ('shifted lorentzian', lambda x: .25 / (.25 + (x - .5) ** 2) * 2, lambda x: -.5 * (x - .5) / (.25 + (x - .5) ** 2) * 2)]
class Cl:
    """picklable closed form"""
    def __init__(s, k): s.k = k
    def __call__(s, z): return CLOSED[s.k][2](z)
def sym(pos): return [-x for x in pos[::-1]] + list(pos)

def cases():
    k = 0
    for n, gs in GRID.items():
        al = ((-1.0, 0.0, 2.0) if n == 6 else (0.0, 1.0)) if not thorough() else (-1.0, 0.0, 2.0)
        for gi, g in enumerate(gs):
            xs = sym([float(x) for x in g])
            for ys in itertools.product(al, repeat=n):
                k += 1
                if not thorough() and gi >= 2 and k % 2: continue
                p = list(zip(xs, ys)); o = k % 4
                if o == 1: p = p[::-1]
                if o == 2: p = p[2:] + p[:2]
                if o == 3: p = p[1::2] + p[::2]
                yield ('exact', tuple(p), k % 6, None)
    p0 = list(zip(sym([.25, .5, 1.]), (1., -2., .5, 3., 0., -1.)))
    for p in itertools.permutations(p0): k += 1; yield ('exact', p, k % 6, None)
    # every way to make the table unsuitable
    for n, gs in GRID.items():
        for g in gs:
            xs = sym([float(x) for x in g])
            for style in (0, 1):
                p = [(x, 1.0 + i) for i, x in enumerate(xs)]
                for i in range(n):
                    yield ('reject', tuple(p[:i] + p[i + 1:]), style, 'odd number of points')
                    for f in (1 + 1e-6, 0.999, 1.01, -1.0, 0.0):
                        yield ('reject', tuple(p[:i] + [(p[i][0] * f, p[i][1])] + p[i + 1:]), style, 'asymmetric or repeated grid point')
                    for j in range(i):
                        q = [t for m, t in enumerate(p) if m not in (i, j)]
                        qx = [t[0] for t in q]
                        if len(q) < 6 or [-x for x in qx[::-1]] != qx: yield ('reject', tuple(q), style, 'too few points or asymmetric grid')
                yield ('reject', tuple(p + [(0.0, 1.0)]), style, 'odd number of points')
                yield ('reject', (), style, 'empty table')
                yield ('reject', tuple((x + 1.0, y) for x, y in p), style, 'shifted grid')
                yield ('reject', tuple(t for t in p if t[0] > 0) * 2, style, 'repeated points')
    # long tables: exact transform and closed forms
    for n in (10, 12, 16, 32, 34, 64, 66, 100, 128, 250, 500, 1000):
        xs = sym([(i + 1) / 8.0 for i in range(n // 2)])
        for fk in range(4):
            if fk < 3 and n > 250 and not thorough(): continue
            ys = [[round(4096 / (1 + x * x)) / 4096, round(4096 * x / (1 + x * x)) / 4096, ((i * 29) % 11 - 3) / 4.0, float(i == n // 3)][fk] for i, x in enumerate(xs)]
            k += 1; yield ('exact', tuple(zip(xs, ys)), k % 6, '' if fk == 3 else None)
    for n in (200, 400):
        pos = [2.0 ** (-12 + 22 * i / (n // 2 - 1)) for i in range(n // 2)]
        for j, (nm, f, h) in enumerate(CLOSED): yield ('closed', tuple((x, f(x)) for x in sym(pos)), j, (1e-2, 0.02, Cl(j), nm))

def check(c):
    BIN.update(build_tools(['kk']))
    c.rule = 'all symmetric tables of 6 and 8 rows over a value alphabet on six grids, all row orders of one, both input modes; every single-point corruption of the grid; size sweep; distinct = distinct (kind, table)'
    c.assumptions = ['the interpolating function is Akima and the function vanishes outside the table (as coded)', 'at the two end frequencies the end value is subtracted (the transform of a jump diverges there)', 'tolerance 1e-6 of the largest value (2e-4 for tables of 100 rows and more)']
    def keyed():
        for x in cases():
            c.note(1, (x[0], x[1] if len(x[1]) < 10 else (len(x[1]), sum(map(float, (y for _, y in x[1]))), x[1][0]))); c.sample({'kind': x[0], 'table': x[1][:8]}); yield x
    for r in pmap(one, keyed(), 32, c.deadline):
        if r: c.violation(*r)
    if pmap.cut: c.cut()

main(check, 'T07', budget=pick(200, 2400))
