"""T04: intavg / tdavg average tabulated curves by exact linear interpolation on the union mesh.
All small families of curves (subsets of a mesh alphabet, row orders, numbers of curves, block separators,
references) are run through the real tools and compared with an independent exact interpolation."""
import sys, os, itertools, bisect
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from fractions import Fraction as F
BIN = {}
X = [-2.0, -0.5, 0.0, 1e-9, 0.75, 3.0]
PR = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]

def val(c, k, i):
    """value of curve c, column k, at mesh point i; pairwise independent, both signs"""
    return (PR[(c * 5 + k * 3 + i) % 12] * (-1 if (c + i) % 2 else 1) + c * i) / 4.0 + k

def interp(pts, x):
    pts = sorted(pts)
    if x <= pts[0][0]: return F(pts[0][1])
    if x >= pts[-1][0]: return F(pts[-1][1])
    for (a, fa), (b, fb) in zip(pts, pts[1:]):
        if a <= x <= b: return F(fa) + (F(fb) - F(fa)) * (F(x) - F(a)) / (F(b) - F(a))

def near(a, b): return a == b or (a != 0 and abs((a - b) / a) < 1e-6) or (b != 0 and abs((a - b) / b) < 1e-6)

def num(v): return repr(v)
def run_case(case):
    tool, curves, ncol, style, ref = case     # curves: tuples of (x, (values))
    d = workdir(); clean(d); files = {}
    cmd = [BIN[tool]]
    if tool == 'intavg':
        for i, c in enumerate(curves):
            t = ''
            for j, (x, v) in enumerate(c):
                if (style == 1 and j == 0) or (style == 2 and j % 2): t += '# comment %d 7 8\n' % j
                t += '%s %s\n' % (num(x), num(v[0])) if style != 3 else '  %s\t%s  \n' % (num(x), num(v[0]))
            if style == 4: t = t.rstrip('\n')
            if style == 1: t += '# end\n'
            files['%d/f.dat' % (i + 1)] = t
        files['f.dat'] = 'stale\n'
        cmd += (['-v'] if style == 5 else []) + ['f.dat', str(len(curves))]
        outname = 'f.dat'
    else:
        def table(cs):
            t = ''
            for i, c in enumerate(cs):
                t += '# T first second %d\n' % i if style != 1 or i == 0 else '# a\n# b %d\n#\n' % i
                for x, v in c: t += (' '.join([num(x)] + [num(u) for u in v]) if style != 3 else '  ' + '\t '.join([num(x)] + [num(u) for u in v]) + ' ') + '\n'
            if style == 4: t = t.rstrip('\n')
            if style == 5: t += '# trailing\n'
            if style == 6 and len(cs) == 1: t = t[t.index('\n') + 1:]    # no header
            return t
        default = style != 2
        name = 'td.dat' if default else 'in.txt'
        files[name] = table(curves)
        if ref is not None: files['td-ref.dat' if default else 'refer'] = table(ref)
        cmd += (['-c'] if style in (2, 4) else []) + (['-v'] if style == 5 else []) + ([] if default else [name] + (['refer'] if ref is not None else []))
        outname = 'td-avg.dat' if default else 'in.txt.avg.dat'
    put(d, files)
    r = run(cmd, d)
    rep = {'cmd': cmd, 'files': files}
    def bad(m): return ('%s %s, %d curves: %s' % (tool, ' '.join(cmd[1:]), len(curves), m), rep)
    if r.rc: return bad('exit %d %s' % (r.rc, r.err[:200]))
    out = (get(d, outname) or b'').decode().splitlines()
    if tool == 'tdavg' and style in (2, 4) and ref is None and curves:
        if not out or not out[0].startswith('#') or 'T first second 0' not in out[0]: return bad('the comment line is not copied: %r' % out[:1])
    rows = [list(map(float, l.split())) for l in out if not l.startswith('#')]
    if sum(l.startswith('#') for l in out) > 1: return bad('extra comment lines')
    union = sorted({x for c in curves for x, v in c})
    xs = [w[0] for w in rows]
    r16 = {float('%.16g' % x): x for x in union}      # the tools print 16 digits
    xs = [r16.get(x, x) for x in xs]
    for w, x in zip(rows, xs): w[0] = x
    close_pts = any(near(a, b) for a, b in zip(union, union[1:]))
    if not close_pts and xs != union: return bad('output mesh %r, expected the union %r' % (xs[:12], union[:12]))
    if close_pts:
        if any(a >= b or (near(a, b) and False) for a, b in zip(xs, xs[1:])) or any(x not in union for x in xs): return bad('output mesh %r not an ascending part of %r' % (xs, union))
        if any(not any(near(x, y) for y in xs) for x in union): return bad('mesh point lost: %r of %r' % (xs, union))
        if any(near(a, b) for a, b in zip(xs, xs[1:])): return bad('mesh point doubled: %r' % xs)
    for w in rows:
        if len(w) != 1 + ncol: return bad('%d columns instead of %d' % (len(w), 1 + ncol))
        for k in range(ncol):
            n = len(curves)
            parts = [interp([(x, v[k]) for x, v in c], w[0]) for c in curves]
            e = sum(parts) / n
            sc = float(max([abs(p) for p in parts] + [max(abs(v[k]) for x, v in c) for c in curves]))
            if ref is not None:
                rp = [interp([(x, v[k]) for x, v in c], w[0]) for c in ref]
                e -= sum(rp) / n; sc = max([sc] + [float(abs(p)) for p in rp] + [max(abs(v[k]) for x, v in c) for c in ref])
            if not abs(w[1 + k] - float(e)) <= 1e-13 * max(sc, 1e-300): return bad('column %d at %r is %r, expected %r' % (k + 1, w[0], w[1 + k], float(e)))
    return None

def curve(c, idx, ncol, xs=X): return tuple((xs[i], tuple(val(c, k, i) for k in range(ncol))) for i in idx)

def cases():
    sub = [s for n in (1, 2, 3) for s in itertools.combinations(range(len(X)), n)]
    big = [s for n in (2, 3) for s in itertools.combinations(range(len(X)), n)]
    st = 0
    def nx():
        nonlocal st; st += 1; return st % 7
    # one curve: every subset, every row order
    for n in range(1, pick(4, 5) + 1):
        for p in itertools.permutations(range(len(X)), n):
            if n >= 2: yield ('intavg', (curve(0, p, 1),), 1, nx() % 6, None)
            yield ('tdavg', (curve(0, p, 2),), 2, nx(), None)
    # two curves: every pair of subsets, row orders rotating; every order for the small ones
    for a in sub:
        for b in sub:
            oa = list(itertools.permutations(a)); ob = list(itertools.permutations(b))
            sel = list(itertools.product(oa, ob)) if thorough() or (len(a) <= 2 and len(b) <= 2) else [(oa[st % len(oa)], ob[(st // 7) % len(ob)])]
            for p, q in sel:
                if len(p) > 1 and len(q) > 1: yield ('intavg', (curve(0, p, 1), curve(1, q, 1)), 1, nx() % 6, None)
                yield ('tdavg', (curve(0, p, 1 + st % 3), curve(1, q, 1 + st % 3)), 1 + st % 3, nx(), None)
    # three curves (sorted rows)
    for a in (sub if thorough() else sub[::2]):
        for b in sub[::3]:
            for c in sub[::pick(7, 3)]:
                if min(len(a), len(b), len(c)) > 1: yield ('intavg', (curve(0, a, 1), curve(1, b, 1), curve(2, c, 1)), 1, nx() % 6, None)
                yield ('tdavg', (curve(0, a, 2), curve(1, b, 2), curve(2, c, 2)), 2, nx(), None)
    # references on meshes of their own
    for a in sub:
        for b in (sub if thorough() else sub[::2]):
            o = list(itertools.permutations(b)); yield ('tdavg', (curve(0, a, 2),), 2, nx(), (curve(5, o[st % len(o)], 2),))
    for a, b in itertools.product(sub[::3], sub[1::4]):
        yield ('tdavg', (curve(0, a, 2), curve(1, b, 2)), 2, nx(), (curve(5, b, 2), curve(6, a[::-1], 2)))
    # nearly coinciding mesh points
    for x in (0.0, 1.0, -3.0, 1e-12, 1e8):
        for e in (0.0, 1e-16, 1e-12, 1e-8, 5e-7, 9e-7, 2e-6, 1e-4):
            xs = [x - 1 - abs(x), x, x * (1 + e) if x else e * 1e-3, x + 2 + 2 * abs(x)]
            if xs[1] > xs[2]: xs[1], xs[2] = xs[2], xs[1]
            for s in range(6):
                yield ('intavg', (curve(0, (0, 1, 3), 1, xs), curve(1, (0, 2, 3), 1, xs)), 1, s, None)
                yield ('tdavg', (curve(0, (0, 1, 3), 2, xs), curve(1, (0, 2, 3), 2, xs)), 2, s, None)
    # size and number-of-curves sweep
    for n in (2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 100, 257, 1000):
        for nz in (1, 2, 3, 4, 8, 11):
            if n * nz > 3000: continue
            cs = []
            for z in range(nz):
                xs = [(i * (z + 2) - n) / 8.0 + z / 64.0 for i in range(n)]
                order = list(range(n)) if z % 2 == 0 else list(range(n))[::-1] if z % 4 == 1 else sorted(range(n), key=lambda i: i * 7919 % (n + 1))
                cs.append(tuple((xs[i], (val(z, 0, i),)) for i in order))
            yield ('intavg', tuple(cs), 1, nx() % 6, None); yield ('tdavg', tuple(cs), 1, nx(), None)
    for ncol in (1, 2, 5, 10, 40): yield ('tdavg', (curve(0, (0, 2, 4), ncol), curve(1, (1, 3), ncol)), ncol, nx(), None)

def check(c):
    BIN.update(build_tools(['intavg', 'tdavg']))
    c.rule = 'families of 1-3 curves over all subsets of a mesh alphabet (negative, zero, tiny, positive) in all row orders, file layouts, references; near-coincidence and size sweeps; distinct = distinct (tool, curves, layout)'
    c.assumptions = ['mesh points closer than a relative 1e-6 may be merged into one of them; curves with a repeated abscissa are outside the domain', 'exact rational interpolation as the reference, tolerance 1e-13 of the largest value']
    def keyed():
        for x in cases():
            c.note(1, (x[0], x[1] if len(x[1]) < 4 and len(x[1][0]) < 6 else len(x[1][0]), x[3], x[4])); c.sample({'tool': x[0], 'curves': x[1], 'ref': x[4]}); yield x
    for r in pmap(run_case, keyed(), 48, c.deadline):
        if r: c.violation(*r)
    if pmap.cut: c.cut()

main(check, 'T04', budget=pick(200, 2400))
