"""Families of models, couplings and chain coefficients shared by the checks of the solver."""
import math, numpy as np, scipy.sparse as sp
from vlib import *
import ed
from ed import *

X = [[.5, .4, .3, .2], [.45, .35, .25, .15], [.2, .15, .05, .1]]
Z = [[.1, -.2, .15, .3], [-.12, .3, .2, -.1], [.1, .2, .1, .25]]
D = [[.1, .15, -.2, .1], [.2, -.05, .1, .15], [.05, .1, .15, .1]]
K = [[.11, .07, -.1, .05], [.06, .12, .03, .1], [.04, .1, .09, .1]]
# spec of a classification: channels, impurity orbitals, Nmax (quick, thorough), restrictions
#   ph: particle-hole symmetric only; eq: equal channels; f: fields allowed; Z: pairing tables needed; an: inter-site pairing
class S_:
    def __init__(s, sym, ch=1, imp=1, n=(2, 3), ph=0, eq=0, f='', Z=0, an=0, pol=0, sl=0, sub=0, rung=0, cplx=0):
        s.__dict__.update(sym=sym, ch=ch, imp=imp, n=n, ph=ph, eq=eq, f=f, Z=Z, an=an, pol=pol, sl=sl, sub=sub, rung=rung, cplx=cplx)
SPECS = [
    S_('QS', sub=1, cplx=1), S_('QSZ', f='B', pol=1, sub=1, cplx=1), S_('U1', f='BX', pol=2, cplx=1), S_('SPU1', f='BD', pol=1, Z=1, an=1, sub=1, cplx=1),
    S_('SPSU2', f='D', Z=1, an=1, sub=1, cplx=1), S_('NONE', f='BXD', Z=1, an=1, pol=1, cplx=1), S_('P', f='BXD', Z=1, an=1, pol=1, cplx=1), S_('ISO', ph=1, cplx=1), S_('ISO2', ph=1), S_('ISOSZ', ph=1, f='B', cplx=1),
    S_('SU2', ph=1, f='BX', cplx=1), S_('SL', sl=1),
    S_('QS', 2, 1, (1, 1), sub=1, rung=1), S_('QS', 2, 0, (2, 2), sub=1, rung=1), S_('QSZ', 2, 1, (1, 1), f='B', pol=1, sub=1, rung=1), S_('QSZ', 2, 0, (1, 2), f='B', pol=1, rung=1),
    S_('U1', 2, 1, (1, 1), f='BX', pol=1), S_('SPU1', 2, 1, (1, 1), f='BD', Z=1, an=1, pol=1, sub=1), S_('SPU1', 2, 0, (1, 2), f='BD', Z=1, an=1, pol=1), S_('SPSU2', 2, 1, (1, 1), f='D', Z=1, an=1, sub=1), S_('SPSU2', 2, 0, (1, 2), f='D', Z=1, an=1),
    S_('NONE', 2, 0, (1, 1), f='BXD', Z=1, pol=1), S_('P', 2, 0, (1, 1), f='BXD', Z=1, pol=1), S_('P', 2, 1, (1, 1), f='BXD', Z=1, pol=1), S_('PP', 2, 0, (1, 2), f='BXD', Z=1, pol=1),
    S_('ISO', 2, 1, (1, 1), ph=1), S_('ISO', 2, 0, (2, 2), ph=1), S_('ISO2', 2, 0, (2, 2), ph=1), S_('ISO2LR', 2, 0, (1, 2), ph=1, eq=1), S_('ISOSZ', 2, 1, (1, 1), ph=1, f='B'), S_('SU2', 2, 1, (1, 1), ph=1, f='BX'), S_('SU2', 2, 0, (1, 2), ph=1, f='BX'),
    S_('DBLQSZ', 2, 0, (1, 2), f='B'), S_('DBLSU2', 2, 0, (1, 2), ph=2, f='B'), S_('DBLISOSZ', 2, 0, (1, 2), ph=2, f='B'),
    S_('QSLR', 2, 1, (1, 1), eq=1), S_('QSLR', 2, 0, (2, 2), eq=1), S_('QSZLR', 2, 1, (1, 1), eq=1, f='B'), S_('QSZLR', 2, 0, (1, 2), eq=1, f='B'), S_('ISOLR', 2, 1, (1, 1), eq=1, ph=1), S_('ISOLR', 2, 0, (1, 2), eq=1, ph=1), S_('ISOSZLR', 2, 1, (1, 1), eq=1, ph=1, f='B'), S_('ISOSZLR', 2, 0, (1, 2), eq=1, ph=1, f='B'),
    S_('SPU1LR', 2, 1, (1, 1), eq=1, f='BD', Z=1), S_('SPU1LR', 2, 0, (1, 2), eq=1, f='BD', Z=1), S_('SPSU2LR', 2, 1, (1, 1), eq=1, f='D', Z=1), S_('SPSU2LR', 2, 0, (1, 2), eq=1, f='D', Z=1),
    S_('SL', 2, 1, (2, 3), sl=1), S_('SL', 3, 1, (1, 2), sl=1), S_('SL3', 3, 0, (2, 2), sl=1),
    S_('QS', 3, 0, (1, 1), sub=0), S_('QSZ', 3, 0, (1, 1), f='B'), S_('U1', 3, 0, (1, 1), f='BX'), S_('SPSU2', 3, 0, (1, 1), f='D', Z=1), S_('ISO', 3, 0, (1, 1), ph=1),
]

def couplings(s):
    """coupling patterns of the cluster"""
    base = []
    ep = lambda U: -U / 2
    if s.sl:
        for eps, W, T in ((0., 0., 0.), (.1, .4, .1), (-.3, -.5, 0.)):
            a = dict(spinless=True, eps=eps)
            if s.imp: a.update(V=[.3, .2, .15], W=W)
            else: a.update(W01=W)
            base.append(a)
        return base
    lr = [.3, .3] if s.eq else [.3, .2]
    for U, eps in (((0., 0.), (.7, -.35), (2., -1.)) if s.ph == 1 or (s.ph and s.imp) else ((0., 0.), (.7, -.2), (.7, -.35), (-.6, .1))):
        if s.imp: base.append(dict(U=U, eps=eps, V=lr))
        elif s.ph != 2: base.append(dict(U=U, eps=eps) | ({} if s.sym in ('DBLQSZ', 'PP') or s.ph == 1 and s.sym != 'ISO2' else dict(T01=.15)))
    if s.imp:
        base.append(dict(U=.7, eps=-.35, V=lr, J=.25))
        if not s.ph: base.append(dict(U=.7, eps=-.2, V=lr, W=.3))
        base.append(dict(U=.5, eps=-.25, V=[0., 0.]))
    else:
        base.append(dict(J01=.3)); base.append(dict(J01=-.2, U=.4, eps=-.2) if s.ph != 2 else dict(J01=-.2, W01=0.))
        if not s.ph: base.append(dict(W01=.25, J01=.1))
    for k, v in (('B', dict(B=.2)), ('X', dict(Bx=.3)), ('D', dict(D=.15))):
        if k in s.f:
            b = base[1 % len(base)]
            if k == 'B' and s.sym in ('DBLSU2', 'DBLISOSZ', 'SU2') and not s.imp and s.ph == 2: base.append(dict(J01=.3, B=.2)); continue
            base.append(dict(b, **v))
    if 'B' in s.f and 'X' in s.f: base.append(dict(base[1], B=.2, Bx=-.3))
    return base

def coefs(s, n):
    """(name, Coefs) patterns of the chain"""
    ch = s.ch
    cut = lambda T: [list(t[:n + 1]) for t in T]
    x, z = cut(X[:ch]), cut(Z[:ch])
    if s.eq: x, z = [x[0]] * ch, [z[0]] * ch
    z0 = [[0.] * (n + 1)] * ch
    out = []
    kw = dict(delta=[[0.] * (n + 1)] * ch) if s.Z else {}
    if s.ph: z = z0
    out.append(('generic', Coefs(x, z, **kw)))
    out.append(('negative hopping', Coefs([[-t if i == n - 1 else t for i, t in enumerate(r)] for r in x], z, **kw)))
    out.append(('cut link', Coefs([[0. if i == n - 1 else t for i, t in enumerate(r)] for r in x], z, **kw)))
    if not s.ph:
        out.append(('no on-site terms', Coefs(x, z0, **kw)))
        out.append(('large on-site terms', Coefs(x, [[8 * t for t in r] for r in z], **kw)))
    if s.Z:
        d = cut(D[:ch]) if not s.eq else [cut(D[:1])[0]] * ch
        k = cut(K[:ch]) if not s.eq else [cut(K[:1])[0]] * ch
        out.append(('pairing', Coefs(x, z, delta=d)))
        if s.an:
            out.append(('inter-site pairing', Coefs(x, z, delta=d, kappa=k)))
            out.append(('inter-site pairing only', Coefs(x, z0, delta=[[0.] * (n + 1)] * ch, kappa=k)))
    if s.pol:
        xp = x + [[.9 * t + .03 for t in r] for r in x]; zp = z + [[.7 * t + .11 for t in r] for r in z]
        out.append(('polarized', Coefs(xp, zp, polarized=True, **kw)))
        out.append(('polarized, one spin decoupled', Coefs(x + [[0.] * (n + 1)] * ch, zp, polarized=True, **kw)))
        if s.Z: out.append(('polarized pairing', Coefs(xp, zp, polarized=True, delta=cut(D[:ch]))))
    if s.pol == 2:
        m = [[.05, .1, .07, .02][:n + 1]] * ch; q = [[.04, .03, .05, .06][:n + 1]] * ch
        out.append(('2x2 spin matrix', Coefs(xp + m + m, zp + q + q, pol2=True)))
    if s.rung:
        out.append(('rungs', Coefs(x, z, xiR=cut([[.1, .2, .1, .1], [.15, .05, .1, .1]]), zetaR=cut([[.05, .12, .07, .1]] * 2))))
    return out

ENERGIES = [('absolute', 1.0, 'absolute=true\n'), ('rescaled', None, ''), ('scale z=0.6', None, 'z=0.6\n'), ('Yoshida, Lambda 3', None, 'discretization=Y\nLambda=3\n'), ('unscaled data', 0, 'data_has_rescaled_energies=false\n'), ('bandrescale', None, 'bandrescale=1.7\n')]

def scale(N, par, substeps, ch):
    L = par.get('Lambda', 2.); z = par.get('z', 1.)
    s = .5 * (1 + 1 / L) if par.get('discretization') == 'Y' else (1 - 1 / L) / math.log(L)
    return s * par.get('bandrescale', 1.) * (L ** (-(N - 1) / 2 + 1 - z) if not substeps else L ** (-N / (2. * ch) + 1.5 - z))

def partial(m, sym, C, k, sites, ch):
    """exact sectors of a chain whose last shell is incomplete: remove the missing orbitals by projecting them out"""
    F = m.fock(k + 1)
    H = m.H0(F) + m.chain(F, k + 1, C, sites)
    miss = [m.orb(q, k) for q in range(ch) if (q, k) not in sites]
    # the missing orbitals are empty; their charge counts as -1 each
    occ = sum(np.round(_real(F.n(o))).astype(int) for o in miss)
    keep = np.where(occ == 0)[0]
    key = ed.diag_labels(F, m, SYMS[sym])
    out = {}
    H = sp.csr_matrix(H)[keep][:, keep]
    shift = [len(miss) if c == 'Q' else 0 for c in SYMS[sym]]
    key = [x[keep] + s for x, s in zip(key, shift)]
    for q in sorted(set(zip(*key))):
        idx = np.where(np.all([a == b for a, b in zip(key, q)], axis=0))[0]
        out[tuple(map(int, q))] = np.linalg.eigvalsh(H[idx][:, idx].toarray())
    return out
def _real(M): return np.real(M.diagonal())


def params(sym, C, extra, n=None):
    """the parameters every run of the family needs"""
    p = 'symtype=%s\n' % sym + ('' if 'Lambda=' in extra else 'Lambda=2\n') + extra
    if C.pol: p += 'polarized=true\n'
    if C.pol2: p += 'pol2x2=true\n'
    if C.txiR is not None: p += 'rungs=true\n'
    return p

def pairs(extra):
    par = {}
    for l in extra.split():
        k, v = l.split('=')
        try: par[k] = float(v)
        except ValueError: par[k] = v
    return par

def known_key(sym, C):
    """configurations in which the solver is known to be wrong (known_findings.json)"""
    return 'ISO2LR' if sym == 'ISO2LR' else 'inter-site pairing in ' + sym if sym in ('NONE', 'P') and C.tkappa is not None else None
