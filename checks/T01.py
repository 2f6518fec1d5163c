"""T01: Wilson-chain coefficients are the exact tridiagonal form of the discretised star.
Exhaustive grid of configurations on the real nrgchain binary and on the solver's own routine;
oracle: (a) independent evaluation of the discretisation integrals, (b) an independent Lanczos
recursion in 1500-digit arithmetic applied to the star the tool itself saved."""
import sys, os, math, itertools, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import mpmath as mp
mp.mp.prec = 3200
BIN = {}

# ---------------------------------------------------------------- independent reference
def lin(tab, x):
    if x <= tab[0][0]: return tab[0][1]
    if x >= tab[-1][0]: return tab[-1][1]
    for (a, fa), (b, fb) in zip(tab, tab[1:]):
        if a <= x <= b: return fa + (fb - fa) * (x - a) / (b - a) if b > a else fa
def intrho(tab, x):
    """integral of the piecewise-linear density from its first abscissa to x (constant continuation)"""
    if x <= tab[0][0]: return tab[0][1] * (x - tab[0][0])
    s = 0.0
    for (a, fa), (b, fb) in zip(tab, tab[1:]):
        if b <= a: continue
        if x >= b: s += (fa + fb) / 2 * (b - a)
        else:
            fx = fa + (fb - fa) * (x - a) / (b - a)
            return s + (fa + fx) / 2 * (x - a)
    return s + tab[-1][1] * (x - tab[-1][0])
def star(cfg):
    L, z, M = cfg['Lambda'], cfg['z'], cfg['mMAX']
    if cfg['band'] == 'flat':
        rho = {'p': [(0.0, 0.5), (1.0, 0.5)], 'n': [(0.0, 0.5), (1.0, 0.5)]}
    else:
        br = cfg['bandrescale']
        rho = {}
        for s, sg in (('p', 1), ('n', -1)):
            v = sorted((abs(x) / br, y * br) for x, y in cfg['dos'] if x * sg > 0)
            if v[0][0] > 1e-99: v = [(1e-99, v[0][1])] + v
            rho[s] = v
    def eps(s, x):
        g = lin(sorted(cfg['g' + s]), x) if cfg['adapt'] else 1.0
        return 1.0 if x <= 2 else g * L ** (2 - x)
    def Eps(s, x):
        if cfg['band'] == 'flat':
            j = math.floor(x); zz = x - j
            if j == 1: return (1 - L ** -zz) / math.log(L) + 1 - zz
            return (1 - 1 / L) / math.log(L) * L ** (2 - x)
        return lin(sorted(cfg['f' + s]), x) * L ** (2 - x)
    df = {s: [intrho(rho[s], eps(s, z + m + 1)) - intrho(rho[s], eps(s, z + m + 2)) for m in range(M + 1)] for s in 'pn'}
    theta = sum(intrho(rho[s], eps(s, z + 1)) - intrho(rho[s], eps(s, z + M + 2)) for s in 'pn')
    tot = sum(df['p']) + sum(df['n'])
    du = {s: [math.sqrt(max(x, 0) / tot) for x in df[s]] for s in 'pn'}
    de = {s: [Eps(s, z + m + 1) for m in range(M + 1)] for s in 'pn'}
    return theta, du, de

def lanczos(up, um, ep, em, N):
    """xi_0..xi_N, zeta_0..zeta_N of the star with vectors (up,um) and energies (ep,-em)."""
    v = [mp.mpf(x) for x in up] + [mp.mpf(x) for x in um]
    e = [mp.mpf(x) for x in ep] + [-mp.mpf(x) for x in em]
    nrm = mp.sqrt(sum(x * x for x in v)); v = [x / nrm for x in v]
    prev, b = [mp.mpf(0)] * len(v), mp.mpf(0)
    xi, ze = [], []
    for n in range(N + 1):
        w = [a * x for a, x in zip(e, v)]
        a = sum(x * y for x, y in zip(v, w))
        w = [x - a * y - b * q for x, y, q in zip(w, v, prev)]
        b = mp.sqrt(sum(x * x for x in w))
        xi.append(b); ze.append(a)
        prev, v = v, [x / b for x in w]
    return xi, ze
def scale(L, z, N): return (1 - 1 / L) / math.log(L) * L ** (-(N - 1) / 2 + 1 - z)

def pfile(cfg, order=0):
    kv = [('Lambda', repr(cfg['Lambda'])), ('z', repr(cfg['z'])), ('Nmax', cfg['Nmax']), ('xmax', cfg.get('xmax', 30)), ('band', cfg['band'])]
    if cfg.get('mMAX_given', True): kv.append(('mMAX', cfg['mMAX']))
    if cfg['bandrescale'] != 1: kv.append(('bandrescale', repr(cfg['bandrescale'])))
    if cfg['rescalexi']: kv.append(('rescalexi', 'true'))
    if cfg['adapt']: kv.append(('adapt', 'true'))
    if cfg['band'] != 'flat': kv.append(('dos', 'Bath.dat'))
    if order: kv = kv[::-1]
    return '# comment\n[other]\nLambda=9\n\n[param]\n' + ''.join('%s%s=%s\n' % ('' if order == 0 else '  ', k, v) for k, v in kv) + '\n[extra]\nz=0.77\n'

def tab(t): return '# x y\n' + ''.join('%r %r\n' % p for p in t)
def nums(b): return [float(x) for x in (b or b'').split()]

def one(cfg):
    d = workdir(); clean(d)
    files = {'param': pfile(cfg)}
    if cfg['band'] != 'flat':
        files['Bath.dat'] = tab(cfg['dos'])
        files['FSOL.dat'] = tab(cfg['fp']); files['FSOLNEG.dat'] = tab(cfg['fn'])
        if cfg['adapt']: files['GSOL.dat'] = tab(cfg['gp']); files['GSOLNEG.dat'] = tab(cfg['gn'])
    put(d, files)
    def bad(msg): return ('nrgchain %r: %s' % ({k: v for k, v in cfg.items()}, msg), {'files': files, 'cmd': [BIN['nrgchain']]})
    r = run([BIN['nrgchain']], d)
    if r.rc: return bad('exit %d %s' % (r.rc, r.err[-300:])), None
    comb = {n: get(d, n) for n in ('theta.dat', 'xi.dat', 'zeta.dat')}
    for n in comb:
        if comb[n] is None: return bad('no %s' % n), None
        os.unlink(os.path.join(d, n))
    r = run([BIN['nrgchain'], 's'], d)
    if r.rc: return bad('save tables: exit %d' % r.rc), None
    T = {}
    for q in ('du', 'de'):
        for s, nm in (('p', 'pos'), ('n', 'neg')):
            T[q + s] = nums(get(d, '%s_%s.dat' % (q, nm)))
            if len(T[q + s]) != cfg['mMAX'] + 1: return bad('table %s_%s has %d rows' % (q, nm, len(T[q + s]))), None
    if get(d, 'xi.dat'): return bad('save mode wrote chain coefficients'), None
    r = run([BIN['nrgchain'], 'l'], d)
    if r.rc: return bad('load tables: exit %d' % r.rc), None
    split = {n: get(d, n) for n in comb}
    for n in comb:
        if comb[n] != split[n]: return bad('%s differs between the split (save/load) and the combined run: %r %r' % (n, (split[n] or b'')[:80], comb[n][:80])), None
    # against the defining integrals
    theta, du, de = star(cfg)
    th = nums(comb['theta.dat'])
    if len(th) != 1 or not close(th[0], theta, 1e-11, 0): return bad('theta %r, expected %r' % (th, theta)), None
    for s in 'pn':
        for m in range(cfg['mMAX'] + 1):
            if not close(T['de' + s][m], de[s][m], 1e-11, 0): return bad('star energy %s%d %r expected %r' % (s, m, T['de' + s][m], de[s][m])), None
            # squares: weights are differences of cumulative integrals
            if not close(T['du' + s][m] ** 2, du[s][m] ** 2, 1e-9, 2e-16): return bad('star amplitude %s%d %r expected %r' % (s, m, T['du' + s][m], du[s][m])), None
    xi, ze = lanczos(T['dup'], T['dun'], T['dep'], T['den'], cfg['Nmax'])
    gx, gz = nums(comb['xi.dat']), nums(comb['zeta.dat'])
    if len(gx) != cfg['Nmax'] + 1 or len(gz) != len(gx): return bad('%d hopping, %d on-site coefficients' % (len(gx), len(gz))), None
    for n in range(cfg['Nmax'] + 1):
        ex = float(xi[n]) * cfg['bandrescale'] / (scale(cfg['Lambda'], cfg['z'], n + 1) if cfg['rescalexi'] else 1)
        ez = float(ze[n]) * cfg['bandrescale']
        if not close(gx[n], ex, 1e-13, 0): return bad('xi(%d)=%r, exact tridiagonal form %r' % (n, gx[n], ex)), None
        if not close(gz[n], ez, 1e-13, 1e-60): return bad('zeta(%d)=%r, exact tridiagonal form %r' % (n, gz[n], ez)), None
    return None, (cfg, T, [float(x) for x in xi], [float(x) for x in ze])

def cfgs():
    base = dict(adapt=False, bandrescale=1.0, rescalexi=False)
    Ls, zs = pick([1.5, 2.0, 3.0], [1.25, 1.5, 2.0, 2.5, 3.0, 4.0, 6.0]), pick([0.1, 0.25, 0.5, 1.0], [0.05, 0.1, 0.25, 1 / 3, 0.5, 0.7, 0.75, 0.9, 1.0])
    for L in Ls:
        for z in zs:
            for N in pick([1, 2, 5, 12], [1, 2, 3, 4, 5, 8, 12, 20, 30]):
                for M in (None, N, N + 1, 2 * N + 3):
                    if M is not None and 2 * (M + 1) <= N + 1: continue
                    for br, rx in ((1.0, False), (1.0, True), (2.5, False), (0.5, True)):
                        if not thorough() and br != 1 and M not in (None, N): continue
                        yield dict(base, Lambda=L, z=z, Nmax=N, mMAX=M if M is not None else 2 * N, mMAX_given=M is not None, band='flat', bandrescale=br, rescalexi=rx)
    xs = [1 + 0.25 * i for i in range(0, 160)]
    def const(c): return [(x, c) for x in xs]
    F = {'const': (const(0.8), const(0.7)), 'lin': ([(x, 0.6 + 0.3 / x) for x in xs], [(x, 0.9 - 0.2 / x) for x in xs]),
         'coarse': ([(1.0, 0.5), (2.0, 0.7), (30.0, 0.71)], [(1.0, 0.9), (40.0, 0.72)])}
    G = {'none': None, 'ones': (const(1.0), const(1.0)), 'slow': ([(x, 1 - 0.5 * (1 - 2 / x)) if x > 2 else (x, 1.0) for x in xs], [(x, 1.0) for x in xs])}
    D = {'flat': [(-1.0, 0.5), (1.0, 0.5), (-1e-8, 0.5), (1e-8, 0.5)],
         'asym': [(-1.0, 0.2), (-0.5, 0.9), (-1e-9, 0.4), (1e-9, 0.4), (0.3, 1.0), (1.0, 0.1)],
         'unsorted': [(1.0, 0.1), (-1.0, 0.7), (0.2, 0.4), (-0.3, 0.2), (-1e-6, 0.3), (1e-6, 0.3), (0.1, 0.5)],
         'linear': [(x, abs(x)) for x in (-1.0, -0.1, -1e-3, -1e-9, 1e-9, 1e-3, 0.1, 1.0)],
         'wide': [(-2.0, 0.1), (-1.0, 0.3), (-1e-9, 0.3), (1e-9, 0.2), (1.5, 0.25), (2.0, 0.4)],
         'narrow': [(-0.6, 0.3), (-1e-9, 0.3), (1e-9, 0.2), (0.5, 0.25)],
         'onesided': [(-1.0, 0.0), (-1e-9, 0.0), (1e-9, 0.5), (1.0, 0.5)]}
    for dn, dos in D.items():
        for fn, f in F.items():
            for gn, g in G.items():
                for L in pick([2.0, 3.0], [1.7, 2.0, 3.0, 4.0]):
                    for z in pick([0.5, 1.0], [0.2, 0.5, 0.8, 1.0]):
                        for N in pick([1, 6], [1, 2, 6, 11, 20]):
                            for br in pick([1.0, 2.0], [0.5, 1.0, 2.0, 3.0]):
                                for M in (2 * N, N + 3):
                                    if dn == 'onesided' and N > M - 1: continue
                                    if not thorough() and (M != 2 * N) and (br != 1 or gn != 'none'): continue
                                    yield dict(base, Lambda=L, z=z, Nmax=N, mMAX=M, mMAX_given=M != 2 * N, band='adapt', bandrescale=br, rescalexi=(N == 6 and br == 2),
                                               adapt=g is not None, dos=dos, fp=f[0], fn=f[1], gp=g and g[0], gn=g and g[1])

def core_jobs(c, results):
    """the solver's own tridiagonalisation on the same stars, one and two channels"""
    objs = build_objects([(os.path.join(VERIF, 'harness', 'tridiag.cc'), COMMON + ['-O1'] + inc())])
    exe = link('tridiag', objs, ['-L/usr/lib/x86_64-linux-gnu/openmpi/lib', '-lboost_mpi', '-lboost_serialization', '-lmpi_cxx', '-lmpi', '-lopenblas', '-lgmp', '-lhdf5_serial'])
    jobs = []
    for i, (cfg, T, xi, ze) in enumerate(results):
        chans = [(T, xi, ze)]
        if i % 3 == 1 and results[i - 1][0]['mMAX'] != cfg['mMAX'] and results[i - 1][0]['Nmax'] >= cfg['Nmax']: chans.append(results[i - 1][1:])
        if i % 3 == 2: chans.insert(0, ({'dup': T['dun'], 'dun': T['dup'], 'dep': T['den'], 'den': T['dep']}, xi, [-x for x in ze]))
        for br in ((1.0,) if i % 2 else (0.5,)):
            jobs.append((cfg, br, chans))
    def fmt(j):
        cfg, br, chans = j
        return '%d %d %r 2000\n' % (len(chans), cfg['Nmax'], br) + ''.join('%d\n%s\n' % (len(T['dep']) - 1, ' '.join(repr(x) for k in ('dep', 'den', 'dup', 'dun') for x in T[k])) for T, _, _ in chans)
    n = max(1, (len(jobs) + NPROC - 1) // NPROC)
    parts = [jobs[i:i + n] for i in range(0, len(jobs), n)]
    def go(p):
        d = scratch()
        return run([exe], d, ''.join(map(fmt, p)).encode(), timeout=600)
    with ThreadPoolExecutor(NPROC) as ex: outs = list(ex.map(go, parts))
    for p, r in zip(parts, outs):
        lines = r.out.splitlines()
        for k, (cfg, br, chans) in enumerate(p):
            c.note(1, ('core', cfg['Lambda'], cfg['z'], cfg['Nmax'], cfg['mMAX'], cfg['band'], str(cfg.get('dos'))[:60], len(chans), br))
            rep = {'stdin': fmt((cfg, br, chans)), 'exe': exe}
            if k >= len(lines) or lines[k].startswith('EXC'):
                c.violation('solver tridiagonalisation failed (rc %d) on %r: %s' % (r.rc, {q: cfg[q] for q in ('Lambda', 'z', 'Nmax', 'mMAX')}, lines[k] if k < len(lines) else r.err[-200:]), rep); break
            v = [float(x) for x in lines[k].split()]
            e = [q for T, xi, ze in chans for n in range(cfg['Nmax'] + 1) for q in (xi[n] * br, ze[n] * br)]
            bad = [i for i in range(len(e)) if i >= len(v) or not close(v[i], e[i], 1e-13, 1e-60)]
            if len(v) != len(e) or bad: c.violation('solver tridiagonalisation: coefficient #%s is %r, exact %r (%d channels, %r)' % (bad[:1], [v[i] for i in bad[:1] if i < len(v)], [e[i] for i in bad[:1]], len(chans), {q: cfg[q] for q in ('Lambda', 'z', 'Nmax', 'mMAX', 'band')}), rep)

def check(c):
    BIN.update(build_tools(['nrgchain']))
    c.rule = 'full grid of (Lambda, z, chain length, table length, band, adaptive mesh, rescalings); each case = combined run + save run + load run, checked against defining integrals and high-precision Lanczos; plus the solver routine on the same stars'
    c.assumptions = ['mpmath 3200-bit arithmetic is exact enough; default GMP precision of the tool']
    res = []
    def keyed():
        for x in cfgs():
            c.note(3, (x['Lambda'], x['z'], x['Nmax'], x['mMAX'], x['band'], x['adapt'], x['bandrescale'], x['rescalexi'], str(x.get('dos'))[:60], str(x.get('fp'))[:40], str(x.get('gp'))[-40:]))
            c.sample({k: v for k, v in x.items() if k not in ('fp', 'fn', 'gp', 'gn')})
            yield x
    for v, data in pmap(one, keyed(), 8, c.deadline):
        if v: c.violation(*v)
        if data: res.append(data)
    if pmap.cut: c.cut()
    res.sort(key=lambda q: 0)
    core_jobs(c, res[::pick(4, 2)])

main(check, 'T01', budget=pick(150, 2400))
