"""C12: spectral functions. For an enumerated family (classification, model, coupling pattern, chain pattern, energy units,
temperature, sub-steps, truncation) one run of the solver computes the spectra of doublet, singlet, global, parity-odd and
triplet operators with every algorithm; the peaks, sum rules, moments and imaginary-frequency values are compared with the
Lehmann representation from an independent diagonalisation of the same chain in the full Fock space."""
import sys, os, re, itertools, collections, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import numpy as np
import core, corebuild
from ed import *
from cases import *
from opspace import *

TEMPS = [.1, 1., .02, .3, 5.]
GOOD = 1e-7            # together with Lambda=1e10 (a single iteration): the window of the patching algorithms holds all non-zero energies
EMIN, EMAX, BINS = 1e-7, 1000., 1000
KNOTS = np.arange(-60, 31) * .1                 # decimal logarithms of the positions of the hat functions

def doublets(m, sym):
    """name -> (components in Fock space, channel, [(suffix of the spectrum, physical operator)], type)"""
    comps = SYMS[sym]; out = {}
    if sym in ('PP', 'QSZLR'): return {}         # not available
    sites = ([('A', 0, 0)] if m.nimp else []) + [('BCE'[c], m.orb(c, 0), c) for c in range(m.channels)]
    if m.spinless:
        if sym == 'SL3': sites = sites[:1]          # the operators of the other channels are not available
        for nm, o, c in sites: out[nm] = (lambda F, o=o: [F.c(o)], c)
    elif 'LR' in comps:
        if m.nimp: out['A'] = (lambda F: [F.c(0, 0), F.c(0, 1)], 0)
        a, b = m.orb(0, 0), m.orb(1, 0)
        out['B'] = (lambda F: [(F.c(a, g) + F.c(b, g)) * .7 for g in (0, 1)], 0)
    else:
        for nm, o, c in sites: out[nm] = (lambda F, o=o: [F.c(o, 0), F.c(o, 1)], c)
    if not m.spinless and (m.nimp or 'LR' not in comps):      # composite operator d+_s (n_-s - 1/2)
        o = 0 if m.nimp else m.orb(0, 0)
        out['D'] = (lambda F: [F.c(o, 0) @ (F.n(o, 1) - .5 * F.I), F.c(o, 1) @ (F.n(o, 0) - .5 * F.I)], 0)
    res = {}
    for nm, (f, c) in out.items():
        if sym in ('NONE', 'P', 'PP'):
            for t, (tn, phys) in enumerate((('d', lambda F, f=f: f(F)[1]), ('u', lambda F, f=f: f(F)[0]), ('x', lambda F, f=f: f(F)[1].T), ('y', lambda F, f=f: f(F)[0].T))): res[nm + tn] = (f, c, [('', phys)], t)
        elif sym in ('U1', 'SU2', 'DBLSU2'):
            for t, tn in enumerate('ud'): res[nm + tn] = (f, c, [('', lambda F, f=f, t=t: f(F)[t])], t)
        elif 'SZ' in comps and not m.spinless: res[nm] = (f, c, [('-u', lambda F, f=f: f(F)[0]), ('-d', lambda F, f=f: f(F)[1])], 0)
        else: res[nm] = (f, c, [('', lambda F, f=f: f(F)[0])], 0)
    return res

def triplets(m, sym):
    if sym not in ('QS', 'QSLR', 'SPSU2', 'SPSU2LR'): return {}
    def comp(os_): return lambda F: (lambda Sp, Sz: {1: Sp * -(.5 ** .5), 0: Sz, -1: Sp.T * (.5 ** .5)})(sum(F.Sp(o) for o in os_), sum(F.sz(o) for o in os_))
    f = [m.orb(c, 0) for c in range(m.channels)]
    r = {}
    if m.nimp: r['td'] = comp([0])
    r['tf'] = comp(f if 'LR' in SYMS[sym] else f[:1])
    return r

def plan(m, sym, cplx, rot):
    """operators of the run: kind -> {name: ...}; rotated through the pool from case to case"""
    pick_ = lambda d, k: dict([list(d.items())[(rot * k + j) % len(d)] for j in range(min(k, len(d)))]) if d else {}
    D = doublets(m, sym)
    base = sorted({n.rstrip('duxy') if sym in FTYPES else n for n in D})
    keep = [base[(rot + j) % len(base)] for j in range(min(2, len(base)))]
    Dd = {n: v for n, v in D.items() if (n.rstrip('duxy') if sym in FTYPES else n) in keep}
    if len(Dd) > 4: Dd = dict(list(Dd.items())[rot % 2::2])
    s = {n: f for n, f in pool(m, cplx).items() if n != 'one'}
    if not m.spinless and (m.nimp or m.channels > 1):
        a, b = (0, m.orb(0, 0)) if m.nimp else (m.orb(0, 0), m.orb(1, 0))
        s['cx'] = lambda F: F.c(a, 0) @ F.c(b, 0).T + F.c(a, 1) @ F.c(b, 1).T       # not Hermitian
    s = admitted(m, sym, s)
    ss = {n: f for n, f in s.items() if n in ('cx',)} | pick_({n: f for n, f in s.items() if n != 'cx'}, 3)
    g = pick_(admitted(m, sym, globals_of(m, sym, cplx)), 1)
    p = {}
    if 'LR' in SYMS[sym]:
        a, b = m.orb(0, 0), m.orb(1, 0)
        odd = {'odd_n': lambda F: F.n(a) - F.n(b), 'odd_q': lambda F: F.n(a, 0) @ F.n(a, 1) - F.n(b, 0) @ F.n(b, 1), 'odd_c': lambda F: sum((F.c(a, k) @ F.c(b, k).T - F.c(b, k) @ F.c(a, k).T for k in (0, 1)), 0. * F.I)}
        p = admitted_odd(m, sym, odd)
    return Dd, ss, g, p, triplets(m, sym)

def admitted_odd(m, sym, ops):
    F = m.fock(1); comps = SYMS[sym]
    gen = [sp.diags(x.astype(float)).tocsr() for x in diag_labels(F, m, comps)]
    gen += [R for c in comps if c == 'SS' or c[:2] == 'II' for R in [F.Sp() if c == 'SS' else iso_plus(F, m, None if c == 'II' else int(c[-1]) - 1, 'ISO2' in sym)]]
    M = mirror(F, m)
    return {n: f for n, f in ops.items() for O in [sp.csr_matrix(f(F))] if all(abs(G @ O - O @ G).max() < 1e-10 for G in gen) and abs(M @ O + O @ M).max() < 1e-10}

WIDE = ('absolute', 1.0, 'absolute=true\nLambda=1e10\n')
ALGOS = ('CFS', 'CFSgt', 'CFSls', 'FDM', 'FDMgt', 'FDMls', 'FDMmats')
def cases():
    i = 0
    for s in SPECS:
        if s.ch == 3 and not s.sl and not thorough() and s.sym not in ('QSZ',): continue
        n = s.n[1] if thorough() else min(s.n[0], 2 if s.ch == 1 else 1)
        cs, ks = couplings(s), coefs(s, n)
        out = []
        for k, a in enumerate(cs):
            for j, (nm, C) in enumerate(ks):
                if not thorough() and (k + j) % 4: continue
                i += 1; out.append((a, nm, C, ENERGIES[(k + j) % 6], n, '', TEMPS[i % 5], i))
        if s.sub and n * s.ch <= 4:
            for k, a in enumerate(cs):
                i += 1; nm, C = ks[k % 2]
                if not C.pol and (thorough() or k % 2): out.append((a, nm, C, ENERGIES[k % 2], n, 'sub', TEMPS[i % 5], i))
        if s.cplx:
            for nm, C in ks[:2]:
                for a in (cs[1], cs[-1]): i += 1; out.append((a, nm, C, ENERGIES[1], n, 'cplx', TEMPS[i % 5], i))
        # a single iteration: the algorithms that patch successive iterations have nothing to patch
        for k, (nm, C) in enumerate(coefs(s, 1)):
            if k % pick(3, 1) == 0: i += 1; out.append((cs[i % len(cs)], nm, C, WIDE, 1, 'one', TEMPS[i % 4], i))
        if s.ch == 1:
            # the sites beyond the second one are decoupled: truncation is exact
            nn = 4
            for k, (nm, C) in enumerate(coefs(s, 1)):
                for keep in pick((4,), (3, 6, 11, 30)):
                    if 'xi' in nm: continue
                    i += 1; out.append((cs[i % len(cs)], nm, C, ENERGIES[k % 2], nn, 'dead keep=%d' % keep, (.05, .5, 2.)[i % 3], i))
            for keep in pick((5,), (3, 4, 7, 12, 25)):
                i += 1; out.append((cs[i % len(cs)], ks[i % len(ks)][0], ks[i % len(ks)][1], ENERGIES[i % 2], n, 'trunc keep=%d' % keep, TEMPS[i % 4], i))
        else:
            for keep in pick((9,), (5, 9, 20)): i += 1; out.append((cs[i % len(cs)], ks[i % len(ks)][0], ks[i % len(ks)][1], ENERGIES[i % 2], n, 'trunc keep=%d' % keep, TEMPS[i % 4], i))
        if s.ch == 3 and not s.sl: out = out[::4] if thorough() else out[:1]
        if s.ch == 2 and s.imp and s.sym in ('P', 'U1', 'SPU1', 'NONE'): out = out[::2] if thorough() else out[::5][:1 + (s.sym != 'P')]
        elif s.ch == 2 and not thorough(): out = out[::2]
        if not thorough():
            by = collections.defaultdict(list)
            for p in out: by[p[5].split()[0] if p[5] else ''].append(p)
            out = [p for g in by.values() for p in (g[::3] if len(g) > 4 else g[::2])]
        for p in out: yield (s.sym, s.ch, s.imp) + p

def deaden(C, n, nn):
    """the chain continued by sites that are neither coupled nor shifted"""
    ext = lambda T: None if T is None else [list(t) + [0.] * (nn - n) for t in T]
    txi = [[x if k < n else 0. for k, x in enumerate(t)] + [0.] * (nn - n) for t in C.txi]
    return Coefs(txi, ext(C.tzeta), C.pol, ext(C.tdelta), None if C.tkappa is None else [[x if k < n else 0. for k, x in enumerate(t)] + [0.] * (nn - n) for t in C.tkappa], C.pol2, None if C.txiR is None else [[x if k < n else 0. for k, x in enumerate(t)] + [0.] * (nn - n) for t in C.txiR], ext(C.tzetaR))

def hats(E, w):
    """weights collected into hat functions of log|E| on the knots (both signs; tiny energies common)"""
    out = np.zeros(2 * len(KNOTS), complex); a = np.zeros(2 * len(KNOTS))
    x = (np.log10(np.maximum(np.abs(E), 1e-300)) - KNOTS[0]) / .1
    x = np.clip(x, 0, len(KNOTS) - 1 - 1e-9); k = x.astype(int); f = x - k
    neg = (E < 0)
    for kk, ff in ((k, 1 - f), (k + 1, f)):
        pos = np.where(neg & (kk > 0), kk + len(KNOTS), kk)
        out += np.bincount(pos, (w * ff).real, len(out)) + 1j * np.bincount(pos, (w * ff).imag, len(out)); a += np.bincount(pos, np.abs(w) * ff, len(out))
    return out, a

def compare(E, w, Er, wr, tol=1e-9, lo=0.):
    """-> None or a description of the first difference (E, w: binned peaks; Er, wr: exact peaks)"""
    if lo: k = np.abs(E) > lo; E, w = E[k], w[k]; k = np.abs(Er) > lo; Er, wr = Er[k], wr[k]
    tot = np.abs(wr).sum() + 1e-12
    if abs(w.sum() - wr.sum()) > tol * (1 + tot): return 'total weight %s, exactly %s' % (cx(w.sum()), cx(wr.sum()))
    h, _ = hats(E, w); hr, a = hats(Er, wr)
    near = a + np.roll(a, 1) + np.roll(a, -1)
    d = np.abs(h - hr); lim = .02 * near + tol * (1 + tot)
    k = int(np.argmax(d - lim))
    if d[k] > lim[k]:
        e = 10 ** KNOTS[k % len(KNOTS)]
        return 'weight %s near the energy %s, exactly %s' % (cx(h[k]), ('%.3g' % (e if k < len(KNOTS) else -e)) if k else '0', cx(hr[k]))
def cx(z): z = complex(z); return '%.9g' % z.real if abs(z.imag) < 1e-12 else '%.9g%+.9gi' % (z.real, z.imag)

def read_bin(b, reim):
    a = np.frombuffer(b, float).reshape(-1, 3 if reim else 2)
    return a[:, 0], a[:, 1] + (1j * a[:, 2] if reim else 0)
def read_dat(b): return np.array([[float(x) for x in l.split()] for l in b.decode().splitlines() if l.strip() and l[0] != '#'])

def one(c):
    sym, ch, imp, a, nm, C, (en, sc, extra), n, mode, T, rot = c
    m = Model(channels=ch, nimp=imp, **a)
    par = pairs(extra)
    sub = mode == 'sub'; cplx = mode == 'cplx'; dead = mode.startswith('dead'); trunc = mode.startswith('trunc')
    keep = int(mode.split('=')[1]) if '=' in mode else 100000
    live = n
    if dead: live = 1; C = deaden(C, 1, n)
    if sc is None: sc = scale(0, par, sub, ch)
    D, s, g, p, t = plan(m, sym, cplx, rot)
    if sub: g, t = {}, {}           # not available with sub-steps
    if dead: g = {}                 # these would act on the decoupled sites, too
    if trunc: s = dict(list(s.items())[:2]); g = {}      # no sum rules for operators acting on the truncated states
    if known_key(sym, C): return None, 0
    F0 = m.fock(1)
    prods = {}
    text, sec = data_file(m, sym, C, n, sc or 1.0, singlets={'one': lambda F: F.I, **s} if trunc else s, globals_=g, cplx=cplx, parity=p,
        doublets={k: (lambda F, sec, v=v: doublet_elements(F, sec, sym, m, v[0](F), v[1], True)[v[3]]) for k, v in D.items()},
        triplets={k: (lambda F, sec, v=v: triplet_elements(sec, sym, v(F))) for k, v in t.items()})
    if cplx: text = text.replace('#!9', '# COMPLEX\n#!9', 1)
    spd = [(x, y, sx, fx, fy) for x in D for y in D if D[x][1] == D[y][1] or sym[:3] != 'DBL' for (sx, fx), (_, fy) in zip(D[x][2], D[y][2])]
    bos = [('corr', x, y, A[x], B[y]) for A in (s, p, g) for B in (A,) for x in A for y in A] + [('corr', x, y, s[x], g[y]) for x in list(s)[:1] for y in g] + [('corr', x, y, g[x], s[y]) for x in g for y in list(s)[:1]]
    spt = [('spin', x, y, (lambda F, x=x: t[x](F)[0]), (lambda F, y=y: t[y](F)[0])) for x in t for y in t]
    specs = [('spec', x + '-' + y + sx, fx, fy, -1) for x, y, sx, fx, fy in spd] + [(k, x + '-' + y, fx, fy, 1) for k, x, y, fx, fy in bos + spt]
    chit = [(x + '-' + y, fx, fy) for k, x, y, fx, fy in bos if x not in p][:4]
    patched = mode == 'one'
    names = lambda k: ' '.join(x[1] for x in specs if x[0] == k)
    mats = 4
    betabar, gtp, chitp = 1., (.7, .3)[rot % 2], (1., .5)[rot % 2]
    ptxt = '[param]\n' + params(sym, C, extra) + 'keep=%d\nT=%r\nfdm=true\nfdmgt=true\nfdmls=true\nfdmmats=true\ncfs=true\ncfsgt=true\ncfsls=true\nmats=%d\nsavebins=true\nbroaden=false\nbins=%d\nemin=%r\nemax=%r\nprec_xy=16\nspecs=%s\nspect=%s\nspecd=%s\nspecgt=%s\nspeci1t=%s\nspeci2t=%s\nspecchit=%s\ngtp=%r\nchitp=%r\n' % (
        keep, T, mats, BINS, EMIN, EMAX, names('corr'), names('spin'), names('spec'), names('spec'), names('spec'), names('spec'), ' '.join(x[0] for x in chit), gtp, chitp)
    if patched: ptxt += 'finite=true\nfinitemats=true\ndmnrg=true\ndmnrgmats=true\ncalc0=false\nNN2even=true\nNN1=true\ngoodE=%r\n' % GOOD
    if cplx: ptxt += 'reim=true\n'
    if sub: ptxt += 'substeps=true\n'
    if trunc: ptxt += 'fdmexpv=true\nfdmexpvn=0\nprec_custom=16\nwidth_custom=26\nops=%s\n' % ' '.join(['one'] + list(s) + list(g))
    d = workdir(); clean(d); put(d, {'data': text, 'param': ptxt})
    desc = '%s, %d channel(s), %d impurity orbital(s), %s, chain %s, energies %s, Nmax %d%s, T=%g' % (sym, ch, imp, a, nm, en, n, ', ' + mode if mode else '', T)
    rep = {'param': ptxt, 'data': text}
    def bad(x): return (desc + ': ' + x, rep, None), 0
    rc = core.nrg(d)
    log = (get(d, 'log') or b'').decode('latin1')
    if rc: return bad('the run failed (status %d): %s' % (rc, re.sub(r'(?s)\s+\d+# 0x.*', '', log)[-300:]))
    S = Space(m, sym, C, live)
    cnt = 0
    reps = {'CFS': {}, 'FDM': {}}
    fin = {}
    if trunc:
        h, rows = read_table(get(d, 'customfdm').decode())
    summary = {(nm_, al): (float(x), float(y), float(z)) for nm_, al, x, y, z in re.findall(r'Spectrum: (\S+) (\S+) -> [^\n]*\n\s*pos=(\S+) neg=(\S+) sum= (\S+)', log) if '(' not in x + y + z}
    for kind, name, fx, fy, s_ in specs:
        B = {}
        for al in ('CFS', 'CFSgt', 'CFSls', 'FDM', 'FDMgt', 'FDMls') + (('FT', 'DMNRG') if patched else ()):
            b = get(d, '%s_%s_dens_%s.bin' % (kind, al, name))
            if b is None: return bad('no spectrum %s %s %s' % (kind, al, name))
            B[al] = read_bin(b, cplx)
        if trunc:
            r = sumrules(kind, name, B, s_, F0, fx, fy, S, rows[0], s, g)
            if r: return bad(r)
            cnt += 6; continue
        dE, A, Ep, E1 = S.lehmann((kind, name), fx, fy)
        gt = A * np.exp(-Ep / T) / S.Zof(T); ls = -s_ * A * np.exp(-E1 / T) / S.Zof(T)
        for al, (E, w) in B.items():
            if dead and al[:3] == 'CFS': continue
            wr = gt if al.endswith('gt') else ls if al.endswith('ls') else gt + ls
            if not cplx and np.abs(wr.imag).max(initial=0.) < 1e-12: wr = wr.real
            r = compare(E, w, dE, wr, lo=1e-5 if al in ('FT', 'DMNRG') else 0.); cnt += 1
            if r: return bad('%s %s, algorithm %s: %s' % (kind, name, al, r))
            q = summary.get((name, al))
            if q and not cplx:
                pos, neg = w[E > 0].real.sum(), w[E < 0].real.sum()
                if max(abs(q[0] - pos), abs(q[1] - neg), abs(q[2] - pos - neg)) > 2e-6 * (1 + np.abs(w).sum()): return bad('%s %s, algorithm %s: reported weights %s, the saved peaks have %.9g %.9g' % (kind, name, al, q, pos, neg))
        for al in ('FDMmats',) + (('FTmats', 'DMNRGmats') if patched else ()):
            M = read_dat(get(d, '%s_%s_dens_%s.dat' % (kind, al, name)))
            if len(M) != mats: return bad('%s %s %s: %d rows instead of %d' % (kind, al, name, len(M), mats))
            for k in range(mats):
                w = math.pi * T * (2 * k + (s_ < 0))
                if abs(M[k, 0] - w) > 1e-12 * (1 + w): return bad('%s %s %s: frequency %r, expected %r' % (kind, al, name, M[k, 0], w))
                if s_ > 0 and k == 0:
                    z = np.abs(dE) < 1e-9
                    x = np.sum((gt + ls)[~z] / -dE[~z]) - np.sum(gt[z]) / T
                else: x = np.sum((gt + ls) / (1j * w - dE))
                cnt += 1
                if abs(M[k, 1] + 1j * M[k, 2] - x) > 1e-8 * (1 + abs(x)): return bad('%s %s, algorithm %s: the value at frequency %d is %s, exactly %s' % (kind, name, al, k, cx(M[k, 1] + 1j * M[k, 2]), cx(x)))
    # temperature-dependent quantities, iteration by iteration
    if not trunc and not dead:
        steps = [(k, None) for k in range(0 if not patched else 1, n + 1)]
        if sub: steps = [(0, None)] + [(N + 1, {(q, k) for k in range(1, N + 1) for q in range(ch)} | {(q, N + 1) for q in range(M + 1)}) for N in range(n) for M in range(ch)]
        tab = {}
        for kind, pre, fs, arg in ((0, 'gt_GT', [x[1:4] for x in specs if x[0] == 'spec'], gtp), (1, 'i1t_I1T', [x[1:4] for x in specs if x[0] == 'spec'], gtp), (2, 'i2t_I2T', [x[1:4] for x in specs if x[0] == 'spec'], gtp), (3, 'chit_CHIT', chit, chitp)):
            for name, fx, fy in fs:
                b = get(d, '%s_dens_%s.dat' % (pre, name))
                if b is None: return bad('no table %s %s' % (pre, name))
                M = read_dat(b)
                tab[kind, name] = (M[np.argsort(-M[:, 0])], fx, fy, arg)
        for i, (k, sites) in enumerate(steps):
            if sites is not None and len(sites) == ch * k: sites = None
            Sp = S if k == live and sites is None else Space(m, sym, C, k, sites)
            for (kind, name), (M, fx, fy, arg) in tab.items():
                if len(M) != len(steps): return bad('%s: %d rows instead of %d' % (name, len(M), len(steps)))
                Te = arg * scale(i + (len(steps) == n * (ch if sub else 1)), par, sub, ch)
                if en == 'absolute' and abs(M[i, 0] - arg) < 1e-9: Te = arg         # with absolute energies: the same temperature at every iteration
                if abs(M[i, 0] - Te) > 1e-9 * Te: return bad('%s: temperature %r, expected %r' % (name, M[i, 0], Te))
                dE, A, Ep, E1 = Sp.lehmann((kind == 3, name), fx, fy); Z = Sp.Zof(Te)
                if kind < 3: x = np.sum(A * dE ** kind / Te * np.exp(-np.maximum(Ep, E1) / Te) / (1 + np.exp(-np.abs(dE) / Te))) / Z
                else:
                    z = np.abs(dE) < 1e-9 * Te
                    x = (np.sum(A[z] * np.exp(-Ep[z] / Te)) + np.sum(A[~z] * (np.exp(-Ep[~z] / Te) - np.exp(-E1[~z] / Te)) / dE[~z] * Te)) / Z
                y = M[i, 1] + (1j * M[i, 2] if cplx else 0); cnt += 1
                if not cplx: x = x.real
                if abs(x - y) > 1e-8 * (1 + abs(x)): return bad('%s %s at iteration %d: %s, exactly %s' % (('conductance', 'first moment', 'second moment', 'susceptibility')[kind], name, i - 1, cx(y), cx(x)))
    return None, cnt

def sumrules(kind, name, B, s_, F0, fx, fy, S, row, s, g):
    """with truncation: the total weights of the complete-basis algorithms"""
    A, Bm = sp.csr_matrix(fx(F0)), sp.csr_matrix(fy(F0))
    com = A.conj().T @ Bm - s_ * (Bm @ A.conj().T)
    # a c-number (times the identity)?
    d0 = com.diagonal()[0]
    if abs(com - d0 * F0.I).max() < 1e-12:
        for al in ('CFS', 'FDM'):
            x = B[al][1].sum()
            if abs(x - d0) > 1e-6: return '%s %s, algorithm %s: total weight %s, the sum rule requires %s' % (kind, name, al, cx(x), cx(d0))
    for al in ('CFS', 'FDM'):
        x, y, z = (B[al + q][1].sum() for q in ('', 'gt', 'ls'))
        if abs(x - y - z) > 1e-9 * (1 + abs(y) + abs(z)): return '%s %s: the parts of %s have the weights %s and %s, the total is %s' % (kind, name, al, cx(y), cx(z), cx(x))
    # greater and lesser parts: averages of the products
    if abs(row['one'] - 1) > 1e-6: return None        # customfdm does not hold all of the weight
    for al, O in (('FDMgt', A.conj().T @ Bm), ('FDMls', -s_ * (Bm @ A.conj().T))):
        basis = {k: sp.csr_matrix(f(F0)) for k, f in s.items()} | {'one': F0.I}
        keys = list(basis); X = np.array([basis[k].toarray().ravel() for k in keys]).T
        co, res, rk, sv = np.linalg.lstsq(X, O.toarray().ravel(), rcond=None)
        if np.abs(X @ co - O.toarray().ravel()).max() > 1e-9: continue
        want = sum(v * (1. if k == 'one' else row[k]) for k, v in zip(keys, co))
        x = B[al][1].sum()
        if abs(x - want) > 1e-6 * (1 + abs(want)): return '%s %s, algorithm %s: total weight %s, the average of the product is %s' % (kind, name, al, cx(x), cx(want))

def body(c):
    core.BINARY['nrg'] = corebuild.build_core('nrgserver', 'nrgserver.cc', opt='-O1') if thorough() else corebuild.build_core('nrgserver', 'nrgserver.cc')
    cs = list(cases())
    c.cov['domain'] = len(cs)
    per = collections.Counter(); vals = 0
    cs.sort(key=lambda x: -x[1])
    for cc, (r, k) in zip(cs, pmap(one, cs, 2, c.deadline)):
        c.note(1, repr(cc[:4]) + cc[4] + cc[6][0] + repr(cc[7:])); vals += k; per[cc[0]] += 1
        if r: c.violation(*r)
    if getattr(pmap, 'cut', False): c.cut()
    c.sample({'runs per classification': dict(per)})
    c.cov['states'] = vals; c.cov['transitions'] = sum(per.values()); c.cov['traces_validated_against_impl'] = c.evaluations
    c.cov['values_compared'] = vals
    c.rule = 'product of classification, coupling pattern, chain pattern, energy units, temperature, sub-steps, truncation, operators'
    c.assumptions = ['the exact reference is a Fock-space diagonalisation in Python']
if __name__ == '__main__': main(body, 'C12', budget=pick(500, 2400))
