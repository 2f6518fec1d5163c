"""T10: broaden, bw and resample. Every peak multiset up to a small size over an alphabet of frequencies (both signs, zero,
extreme) and weights, distributed over 1-3 files in every order, x kernels, filters, meshes, columns and final passes, run on
the real tools; oracle: the documented kernels summed over the multiset, exact kernel normalisation on a fine mesh, the
self-consistent widths of Freyn and Florens for bw, exact Akima interpolation for resample."""
import sys, os, itertools, math, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from akima import Akima
import numpy as np
BIN = {}
SP = math.sqrt(math.pi)
np.seterr(all='ignore')

def merged(files, ncol=1, col=1):
    d = {}
    for f in files:
        for p in f: d[p[0]] = d.get(p[0], 0.0) + p[col]
    return [(x, d[x] / len(files)) for x in sorted(d)]
def binfile(f): return b''.join(struct.pack('=%dd' % len(p), *p) for p in f)
def table(b): return np.array([[float(x) for x in l.split()] for l in b.decode().splitlines()]).reshape(-1, 2)

# ---------------------------------------------------------------- broaden
def loggauss(e, ept, alpha, a):
    sh = np.where((e > a) & (ept > a), a, np.where((e < -a) & (ept < -a), -a, 0.0))
    E = e - sh; P = ept - sh
    g = alpha / 4
    r = np.exp(-(np.log(E / P) / alpha - g) ** 2) / (alpha * np.abs(E) * SP)
    return np.where((E * P <= 0) | (E == 0) | (P == 0), 0.0, r)
def kernel(e, ept, o):
    al = o['alpha']; w0 = o.get('om', 1e-9) * o['T']
    if o.get('g'): return np.exp(-((e - ept) / al) ** 2) / (al * SP)
    G = np.exp(-((e - ept) / w0) ** 2) / (w0 * SP)
    x = np.abs(np.full_like(e, ept) if o.get('n') else e)
    h = np.where(x > w0, 1.0, np.where(x == 0, 0.0, np.exp(-(np.log(x / w0) / al) ** 2)))
    return loggauss(e, ept, al, o.get('a', 0.0)) * h + G * (1 - h)
def conv(mesh, a, sig, ker):
    b = a.copy(); n = len(mesh); w = np.zeros(n); w[1:-1] = (mesh[2:] - mesh[:-2]) / 2
    for i in range(1, n - 1):
        if abs(mesh[i]) < 100 * sig: b[i] = np.sum((a * ker((mesh[i] - mesh) / sig) / sig * w)[1:-1])
    return b

def one_broaden(case):
    files, o = case
    d = workdir(); clean(d)
    ncol = 2 if o.get('col') else 1
    ff = [[p if ncol == 1 else ((p[0], p[1], 10.0 + i) if o['col'] == 2 else (p[0], 10.0 + i, p[1])) for i, p in enumerate(f)] for f in files]
    one = o.get('o') and len(files) == 1
    for i, f in enumerate(ff):
        if one: put(d, {'spec': binfile(f)})
        else: os.makedirs(os.path.join(d, str(i + 1)), exist_ok=True); put(d, {'%d/spec' % (i + 1): binfile(f)})
    cmd = [BIN['broaden']]
    for k, s in (('m', '-m'), ('M', '-M'), ('r', '-r'), ('a', '-a'), ('l', '-l'), ('hi', '-h'), ('f', '-f'), ('x', '-x')):
        if k in o: cmd += [s, repr(o[k])]
    for k, s in (('n', '-n'), ('g', '-g'), ('c', '-c'), ('s', '-s'), ('o', '-o'), ('P', '-P'), ('N', '-N'), ('A', '-A'), ('B', '-B'), ('v', '-v')):
        if o.get(k): cmd.append(s)
    if o.get('col'): cmd.append('-%d' % (o['col']))
    if o.get('col') == 2: pass
    if 'L' in o: put(d, {'mesh': '# x y\n' + ''.join('%r %r\n' % (x, 7.0) for x in o['L'])}); cmd += ['-L', 'mesh']
    cmd += ['spec', str(len(files)), repr(o['alpha']), repr(o['T'])] + ([repr(o['om'])] if 'om' in o else [])
    r = run(cmd, d, timeout=60); rep = {'cmd': cmd, 'files': files}
    def bad(m): return ('broaden %s on %r: %s' % (' '.join(cmd[1:]), files, m), rep)
    if r.rc: return bad('exit %d %s' % (r.rc, r.err[:150]))
    try: T = table(get(d, 'spec.dat'))
    except Exception as e: return bad('unparsable output %s' % e)
    if 'L' in o: mesh = np.array(o['L'], dtype=float)
    else:
        z = o.get('M', 2.0); mn = o.get('m', 1e-7); a = o.get('a', 0.0); M0 = z; mesh = []
        while z > mn:
            x = a + z * (M0 - a) / M0
            if not o.get('B'): mesh.append(x)
            if not o.get('A'): mesh.append(-x)
            z /= o.get('r', 1.01)
        mesh = np.array(sorted(mesh))
    if T.shape[0] != len(mesh): return bad('%d output frequencies, expected %d' % (T.shape[0], len(mesh)))
    if np.abs(T[:, 0] - mesh).max() > 1e-12 * np.abs(mesh).max() or np.any(np.abs(T[:, 0] / mesh - 1)[mesh != 0] > 1e-11): return bad('output frequencies differ from the mesh')
    mesh = T[:, 0]
    pk = merged(files)
    lo, hi = o.get('l', 0.0), o.get('hi', 1e300)
    pk = [(x, w if lo <= abs(x) <= hi and not (o.get('N') and x >= 0) and not (o.get('P') and x < 0) else 0.0) for x, w in pk]
    A = np.zeros(len(mesh)); S = np.zeros(len(mesh)) + 1e-300
    for x, w in pk: k = kernel(mesh, x, o) * w; A += k; S += np.abs(k)
    if 'f' in o: g = lambda u: np.exp(-u * u / 2) / math.sqrt(2 * math.pi); A, S = conv(mesh, A, o['f'] * o['T'], g), conv(mesh, S, o['f'] * o['T'], g)
    if 'x' in o: g = lambda u: 1 / (2 * (1 + np.cosh(u))); A, S = conv(mesh, A, o['x'] * o['T'], g), conv(mesh, S, o['x'] * o['T'], g)
    er = np.abs(T[:, 1] - A)
    if not np.all(er <= 1e-9 * S + 1e-12 * S.max() + 1e-290):
        i = int(np.argmax(np.where(np.isfinite(er), er / (1e-9 * S + 1e-12 * S.max() + 1e-290), np.inf))); return bad('A(%r) = %r, exact %r' % (mesh[i], T[i, 1], A[i]))
    tot = sum(w for x, w in pk); aw = sum(abs(w) for x, w in pk)
    if o.get('norm') is not None:
        W = float(np.sum((T[1:, 1] + T[:-1, 1]) / 2 * np.diff(mesh)))
        if abs(W - tot) > o['norm'] * aw + 1e-12: return bad('integrated weight %r, total weight of the peaks %r' % (W, tot))
        if all(w >= 0 for x, w in pk) and T[:, 1].min() < 0: return bad('negative spectral function for non-negative weights')
        ew = [l for l in r.out.splitlines() if l.startswith('Estimated weight')]
        if not ew or abs(float(ew[0].split('=')[1]) - W) > 1e-5 * abs(W) + 1e-6 * aw + 1e-12: return bad('reported weight %r, integral of the output %r' % (ew, W))
    if o.get('c'):
        C = table(get(d, 'cumulative.dat'))
        E = np.array([sum(w for x, w in pk if x < e) for e in mesh])
        if C.shape[0] != len(mesh) or not np.all(C[:, 0] == mesh) or np.abs(C[:, 1] - E).max() > 1e-12 * (aw + 1): return bad('cumulative spectrum differs from the partial sums of the peaks')
    if o.get('s'):
        Tt = o['T']; e = lambda x: math.exp(min(x, 700))
        fin = lambda f: [w * f(x) for x, w in pk if abs(1 - math.exp(min(-x / Tt, 700))) > 0 and x != 0]
        exp = {'Total weight': tot, 'Positive-omega weight': sum(w for x, w in pk if x > 0), 'Negative-omega weight': sum(w for x, w in pk if x < 0),
               'Integral with fermionic kernel': sum(w / (1 + e(-x / Tt)) for x, w in pk), 'Integral with fermionic kernel (omega -> -omega)': sum(w / (1 + e(x / Tt)) for x, w in pk),
               'Integral with bosonic kernel': sum(w / (1 - e(-x / Tt)) for x, w in pk if 1 - e(-x / Tt) != 0), 'Integral with bosonic kernel (omega -> -omega)': sum(w / (1 - e(x / Tt)) for x, w in pk if 1 - e(x / Tt) != 0)}
        got = {}
        for l in r.out.splitlines():
            if '=' in l and l.rsplit('=', 1)[0] in exp: got.setdefault(l.rsplit('=', 1)[0], l.rsplit('=', 1)[1])
        if o.get('v'): got.pop('Total weight', 0); exp.pop('Total weight')
        for k, v in exp.items():
            sc = aw * max(1.0, max([Tt / abs(x) for x, w in pk if x] + [1.0]))
            if k not in got or not abs(float(got[k]) - v) <= 1e-5 * abs(v) + 1e-5 * sc: return bad('%s reported as %r, exact %r' % (k, got.get(k), v))
    return None

# ---------------------------------------------------------------- bw
def bw_ref(pk, o):
    mn, mx, ra = o.get('m', 1e-7), o.get('M', 2.0), o.get('r', 1.01); b0 = o['b0']; q = o.get('q', 1.0)
    z = mn; mesh = []
    while z < mx: mesh += [z, -z]; z *= ra
    z *= ra; mesh = np.array(sorted(mesh + [z, -z]))
    x = np.array([p for p, w in pk]); w = np.array([v for p, v in pk]); b = np.full(len(x), b0)
    bmin = o.get('x', -1.0); bmin = (ra - 1.0) if bmin < 0 else bmin
    res = []
    for it in range(o.get('iter', 10)):
        a = np.zeros(len(mesh)); s = np.zeros(len(mesh))
        for xi, wi, bi in zip(x, w, b):
            k = np.where((mesh < 0) == (xi < 0), np.exp(-(np.log(mesh / xi) / bi - bi / 4) ** 2) / (bi * np.abs(mesh) * SP), 0.0)
            a += wi * k; s += abs(wi) * k
        if o.get('p'): a = np.where(a < 0, 1e-16, a)
        res.append((a, s))
        I = np.concatenate([[0.0], np.cumsum((a[1:] + a[:-1]) * np.diff(mesh) / 2)])
        i0 = int(np.argmax(mesh > 0)); Z = (I[i0 - 1] + I[i0]) / 2
        def ld(f):
            v = np.log(f[1:] / f[:-1]) / np.log(np.abs(mesh[1:] / mesh[:-1])); return np.concatenate([[0.0], np.where(np.isfinite(v), v, 0.0)])
        da, db, dc = ld(I), ld(I - Z), ld(I[-1] - I)
        f = lambda u, v: b0 * q * (1 / (q + np.abs(u)) + 1 / (q + np.abs(v))) / 2
        bp, bn = f(db, dc), f(da, db)
        b = np.where(x < 0, np.interp(x, mesh, bn), np.interp(x, mesh, bp)); b = np.maximum(b, bmin)
    return mesh, res
def one_bw(case):
    files, o = case
    d = workdir(); clean(d); one = o.get('o') and len(files) == 1
    for i, f in enumerate(files):
        if one: put(d, {'spec': binfile(f)})
        else: os.makedirs(os.path.join(d, str(i + 1)), exist_ok=True); put(d, {'%d/spec' % (i + 1): binfile(f)})
    n = o.get('iter', 10)
    cmd = [BIN['bw']]
    for k, s in (('m', '-m'), ('M', '-M'), ('r', '-r'), ('q', '-q'), ('x', '-x'), ('t', '-t'), ('iter', '-n')):
        if k in o: cmd += [s, repr(o[k])]
    for k in ('o', 'p', 's', 'v'):
        if o.get(k): cmd.append('-' + k)
    cmd += ['spec', repr(o['b0']), str(len(files))]
    r = run(cmd, d, timeout=60); rep = {'cmd': cmd, 'files': files}
    def bad(m): return ('bw %s on %r: %s' % (' '.join(cmd[1:]), files, m), rep)
    if r.rc: return bad('exit %d %s' % (r.rc, r.err[:150]))
    mesh, res = bw_ref(merged(files), o)
    trim = o.get('t', o.get('m', 1e-7) * 10)
    keep = np.abs(mesh) >= trim * (1 - 1e-9)
    for it in range(1, n + 1):
        raw = get(d, 'a%d.dat' % it)
        if raw is None:
            if o.get('s') or it == n: return bad('output of iteration %d missing' % it)
            continue
        try: T = table(raw)
        except Exception: return bad('unparsable output')
        a, s = res[it - 1]
        edge = np.abs(np.abs(mesh) / trim - 1) < 1e-9 if trim else np.zeros(len(mesh), bool)
        m, A, S = mesh[keep], a[keep], s[keep]
        if len(T) != len(m):
            m, A, S = mesh[keep & ~edge], a[keep & ~edge], s[keep & ~edge]
            if len(T) != len(m): return bad('%d output rows, expected %d' % (len(T), len(m)))
        if np.abs(T[:, 0] / m - 1).max() > 1e-5: return bad('output frequencies differ from the mesh')
        tol = 2e-5 * S + (1e-7 if it == 1 else 1e-6) * S.max() + 2e-16
        if not np.all(np.abs(T[:, 1] - A) <= tol):
            i = int(np.argmax(np.abs(T[:, 1] - A) / tol)); return bad('iteration %d: A(%r) = %r, exact %r' % (it, T[i, 0], T[i, 1], A[i]))
        if o.get('norm'):
            W = float(np.sum((T[1:, 1] + T[:-1, 1]) / 2 * np.diff(T[:, 0]))); tot = sum(w for f in files for _, w in f) / len(files)
            if abs(W - tot) > o['norm'] * sum(abs(w) for f in files for _, w in f): return bad('integrated weight %r, total weight of the peaks %r' % (W, tot))
    return None

# ---------------------------------------------------------------- resample
def one_res(case):
    pts, grid, o = case
    d = workdir(); clean(d)
    st = o.get('style', 0)
    fmt = lambda l: ''.join(('# c 1 2\n' if st == 1 or st == 2 and i % 2 else '') + ('%r %r\n' % p if st != 3 else '  %r \t %r  \n\n' % p) for i, p in enumerate(l))
    put(d, {'f': fmt(pts).rstrip('\n') + ('' if st == 4 else '\n'), 'g': fmt([(x, 5.0) for x in grid])})
    cmd = [BIN['resample']] + (['-e'] if o.get('e') else []) + (['-a', repr(o['a'])] if 'a' in o else []) + (['-b', repr(o['b'])] if 'b' in o else []) + (['-v'] if o.get('v') else []) + (['-p', str(o['p'])] if 'p' in o else []) + ['f', 'g', 'g' if o.get('same') else 'out']
    r = run(cmd, d); rep = {'cmd': cmd, 'f': pts, 'grid': grid}
    def bad(m): return ('resample %s of %r on %r: %s' % (' '.join(cmd[1:]), pts, grid, m), rep)
    if o.get('reject'):
        if r.rc in (0, -11) or 'Assertion' in r.err or get(d, 'out') is not None: return bad('not rejected (exit %d)' % r.rc)
        return None
    if r.rc: return bad('exit %d %s' % (r.rc, r.err[:150]))
    try: T = table(get(d, 'g' if o.get('same') else 'out'))
    except Exception: return bad('unparsable output')
    pr = 10.0 ** -(o.get('p', 16) - 1)
    if len(T) != len(grid) or any(abs(a - b) > max(2e-16, pr) * abs(b) for a, b in zip(T[:, 0], grid)): return bad('output abscissas %r differ from the grid' % T[:, 0].tolist())
    A = Akima(sorted(pts)); mx = max(abs(y) for x, y in pts) + 1e-9; lo, hi = min(x for x, y in pts), max(x for x, y in pts); tab = dict(pts)
    for x, y in zip(grid, T[:, 1]):
        if lo <= x <= hi: e = tab.get(x, A(x))
        elif not o.get('e'):
            if math.isfinite(y): return bad('value %r outside the tabulated range without extrapolation' % y)
            continue
        elif x < lo: e = o.get('a', tab[lo])
        else: e = o.get('b', tab[hi])
        if not abs(y - e) <= 1e-12 * mx + pr * abs(e): return bad('value at %r is %r, exact %r' % (x, y, e))
    return None

# ---------------------------------------------------------------- enumeration
FR = (-3.0, -1.0, -.25, -1e-3, -1e-9, 0.0, 1e-9, 1e-3, .25, 1.0, 3.0)
WT = (1.0, -.5, .25)
MESH = {'m': 1e-4, 'M': 4.0, 'r': 1.25}
def bopts():
    base = dict(MESH)
    yield dict(base, alpha=.3, T=1e-3)
    yield dict(base, alpha=.3, T=.1, om=.5)
    yield dict(base, alpha=.6, T=.1, om=1.0, n=1, c=1)
    yield dict(base, alpha=.2, T=.5, g=1, c=1)
    yield dict(base, alpha=.3, T=.01, om=2.0, s=1)
    yield dict(base, alpha=.3, T=.01, om=.5, n=1, f=2.0)
    yield dict(base, alpha=.3, T=.05, om=.5, x=1.5)
    yield dict(base, alpha=.3, T=.05, g=1, f=1.0, x=.5)
    yield dict(base, alpha=.4, T=.01, om=.5, a=.125, c=1)
    yield dict(base, alpha=.4, T=.01, om=.5, n=1, a=.25)
    yield dict(base, alpha=.4, T=.1, om=.5, l=.1, s=1, c=1)
    yield dict(base, alpha=.4, T=.1, om=.5, hi=1.0, c=1)
    yield dict(base, alpha=.4, T=.1, om=.5, l=.25, hi=1.0, n=1, v=1, s=1)
    yield dict(base, alpha=.4, T=.1, om=.5, P=1, c=1, s=1)
    yield dict(base, alpha=.4, T=.1, om=.5, N=1, c=1, s=1)
    yield dict(base, alpha=.4, T=.1, om=.5, A=1, c=1)
    yield dict(base, alpha=.4, T=.1, om=.5, B=1, n=1)
    yield dict(base, alpha=.4, T=.1, om=.5, col=2, n=1, c=1)
    yield dict(base, alpha=.4, T=.1, om=.5, col=3, c=1, v=1)
    yield dict(alpha=.4, T=.1, om=.5, L=(-2.0, -1.0, -.25, -.1, .05, .25, 1.0, 2.5), c=1)
    yield dict(alpha=.4, T=.1, om=.5, n=1, L=(-2.0, -1.0, -.25, 0.0, .25, 1.0, 2.5), c=1)
    yield dict(alpha=.4, T=.1, om=.5, L=(-1.0, 0.0, 1.0), x=1.0)
NORM = [dict(m=1e-6, M=60.0, r=1.02, alpha=.3, T=.05, om=1.0, n=1, norm=2e-2), dict(m=1e-6, M=60.0, r=1.02, alpha=.2, T=.5, g=1, norm=2e-2), dict(m=1e-12, M=60.0, r=1.05, alpha=.4, T=1e-8, norm=1e-2)]

def split(ms, k):
    """distribution k of the multiset over files"""
    n = 1 + k % 3
    out = [[] for _ in range(n)]
    for i, p in enumerate(ms): out[(i + k // 3) % n if k % 2 else (i * 2 + k // 3) % n].append(p)
    return tuple(tuple(f) for f in out)
def cases():
    k = 0; BO = list(bopts()); pk = [(f, w) for f in FR for w in WT]
    yield ('b', (((),), dict(BO[0], o=1)))
    for o in BO:
        for p in pk: k += 1; yield ('b', (((p,),), dict(o, o=k % 2)))
    step = 1 if thorough() else 5
    j = 0
    for a, b in itertools.product(pk, repeat=2):
        for oi in range(len(BO)):
            j += 1
            if j % step == 0: k += 1; yield ('b', (split((a, b), k), dict(BO[oi], o=k % 2)))
    for t in itertools.permutations(((-1.0, 1.0), (.25, .5), (.25, -.125), (1.0, .25))):
        for kk in range(6): k += 1; yield ('b', (split(t, kk), dict(BO[(k * 5) % len(BO)], o=k % 2)))
    for t in itertools.combinations_with_replacement(pk[::4], 3): k += 1; yield ('b', (split(t, k), dict(BO[k % len(BO)], o=k % 2)))
    for o in NORM:
        for f in (-3.0, -1.0, -.25, -1e-3, 1e-3, .25, 1.0, 3.0) + ((0.0,) if o.get('om') or o.get('g') else ()):
            k += 1; yield ('b', (((f, 1.0),),) and ((((f, 1.0),),), dict(o, o=1))) if False else ('b', ((((f, 1.0),)), dict(o, o=1))) if False else ('b', ((((f, 1.0),),), dict(o, o=1)))
        for a, b in itertools.combinations((-3.0, -.25, 1e-3, .25, 1.0), 2): k += 1; yield ('b', (split(((a, 1.0), (b, .5), (a, .25)), k), dict(o)))
    n = 40
    for m in (1, 10, 100, 1000): yield ('b', ((tuple(((-1) ** i * 1.5 ** -(i % 30), 1.0 / m) for i in range(m)),), dict(BO[m % 7], o=1)))
    # bw
    FB = [f for f in FR if f and abs(f) > 1e-8]
    bo = [dict(MESH, b0=.4, iter=1), dict(MESH, b0=.3, iter=2, s=1), dict(MESH, b0=.5, iter=4), dict(MESH, b0=.5, iter=3, q=.3), dict(MESH, b0=.4, iter=2, x=.35, s=1), dict(MESH, b0=.4, iter=3, p=1), dict(MESH, b0=.4, iter=1, t=.1), dict(MESH, b0=.6)]
    pb = [(f, w) for f in FB for w in (1.0, .25)]
    for o in bo:
        for p in pb: k += 1; yield ('w', (((p,),), dict(o, o=k % 2)))
    for a, b in itertools.product(pb, repeat=2): k += 1; yield ('w', (split((a, b), k), dict(bo[k % len(bo)], o=k % 2)))
    for t in itertools.permutations(((-1.0, 1.0), (.25, .5), (.25, .125), (1.0, .25))):
        for kk in range(3): k += 1; yield ('w', (split(t, kk), dict(bo[k % len(bo)], o=k % 2)))
    for f in (-1.0, -.25, .25, 1.0):
        for it in (1, 2, 3): yield ('w', ((((f, 1.0), (-f, .5), (2 * f, .25)),), dict(m=1e-6, M=60.0, r=1.02, b0=.4, iter=it, s=1, norm=1e-2, o=1)))
    for t in ((-1.0, -.5), (.25, -.5)): yield ('w', ((((.5, 1.0), t),), dict(bo[0], o=1))); yield ('w', ((((.5, 1.0), t),), dict(bo[0], o=1, p=1)))
    # resample
    for mesh in ([-2, -1, -.5, .25, 1], [0, 1, 2, 3, 4], [-4, -3, -1, -.5, 0, 2]):
        mesh = [float(x) for x in mesh]; n = len(mesh)
        mid = [(a + b) / 2 for a, b in zip(mesh, mesh[1:])]; fine = sorted(mesh + mid + [mesh[0] + .0625])
        for ys in itertools.product((-1.0, 0.0, 2.0) if n == 5 or thorough() else (0.0, 1.0), repeat=n):
            k += 1; p = list(zip(mesh, ys)); o = [{}, {'v': 1}, {'style': 1}, {'same': 1}, {'e': 1, 'style': 2}, {'style': 3, 'p': 10}, {'e': 1, 'a': 9.0}, {'e': 1, 'b': -7.5, 'style': 4}][k % 8]
            g = [mesh, fine, fine[::-1], mid, [mesh[0] - 1, mesh[0] - 1e-9] + fine + [mesh[-1] + 1e-9, mesh[-1] + 5]][k % 5]
            yield ('s', (tuple(p if k % 2 else p[::-1] if k % 4 else p[2:] + p[:2]), tuple(g), o))
    for p in itertools.permutations([(-1.0, .5), (-.5, 1.0), (0.0, -1.0), (.5, 2.0), (2.0, .25)]): k += 1; yield ('s', (p, (-1.0, -.75, 0.0, .25, 1.0, 2.0, 3.0), {'e': k % 2}))
    for n in range(0, 5): yield ('s', (tuple((float(i), 1.0 + i) for i in range(n)), (0.5,), {'reject': 1}))
    for i in range(5): yield ('s', (tuple((float(max(j, 1) if i == 0 else j if j != i else j - 1), 1.0) for j in range(5)), (1.5,), {'reject': 1}))
    for kk in ('a', 'b'): yield ('s', (tuple((float(i), 1.0) for i in range(5)), (0.5,), {'reject': 1, kk: 1.0}))

F = {'b': one_broaden, 'w': one_bw, 's': one_res}
def one(x): return F[x[0]](x[1])
def check(c):
    BIN.update(build_tools(['broaden', 'bw', 'resample']))
    c.rule = 'all multisets of up to 2 peaks over 33 (frequency, weight) values (3-4 peaks over subsets, all orders) x distributions over 1-3 files x 22 option sets; bw: all pairs of peaks x 8 option sets; resample: all tables of 5-6 rows over a value alphabet; distinct = distinct (tool, input, options)'
    c.assumptions = ['the kernels are the documented ones (log-Gaussian, Gaussian, derivative of the Fermi function); agreement to 1e-9', 'bw prints six digits', 'normalisation is judged on meshes that cover the kernel (documented as conserving only with -n, -g or negligible omega0)']
    def keyed():
        for x in cases():
            c.note(1, repr(x)[:500]); c.sample({'kind': x[0], 'case': repr(x[1])[:200]}); yield x
    for r in pmap(one, keyed(), 32, c.deadline):
        if r: c.violation(*r)
    if pmap.cut: c.cut()

main(check, 'T10', budget=pick(240, 2400))
