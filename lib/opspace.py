"""Operators of the cluster and exact averages in the Fock space of a chain (shared by C11, C12)."""
import itertools, numpy as np, scipy.sparse as sp
from ed import *

def pool(m, cplx):
    """name -> function of Fock space giving a local operator of the cluster"""
    P = {'one': lambda F: F.I}
    H = lambda X: X + X.T
    if m.spinless:
        o = [0] if m.nimp else []
        o += [m.orb(c, 0) for c in range(m.channels)]
        for i in range(len(o)): P['n%d' % i] = lambda F, i=i: F.n(o[i])
        for i in range(len(o) - 1):
            P['nn%d' % i] = lambda F, i=i: F.n(o[i]) @ F.n(o[i + 1])
            P['hop%d' % i] = lambda F, i=i: H(F.c(o[i]) @ F.c(o[i + 1]).T)
        return P
    f = [m.orb(c, 0) for c in range(m.channels)]
    sites = ([('d', 0)] if m.nimp else []) + [('f%d' % i, x) for i, x in enumerate(f)]
    for nm, o in sites:
        P['n_' + nm] = lambda F, o=o: F.n(o)
        P['dbl_' + nm] = lambda F, o=o: F.n(o, 0) @ F.n(o, 1)
        P['q2_' + nm] = lambda F, o=o: (F.n(o) - F.I) @ (F.n(o) - F.I)
        P['sz_' + nm] = lambda F, o=o: F.sz(o)
        P['sz2_' + nm] = lambda F, o=o: F.sz(o) @ F.sz(o)
        P['sx_' + nm] = lambda F, o=o: H(F.Sp(o)) * .5
        P['pair_' + nm] = lambda F, o=o: H(F.pair(o))
        P['up_' + nm] = lambda F, o=o: F.n(o, 0)
        if cplx:
            P['sy_' + nm] = lambda F, o=o: (F.Sp(o) - F.Sp(o).T) * (-.5j)
            P['spm_' + nm] = lambda F, o=o: F.Sp(o) * 1j + F.Sp(o).T * (-1j) + F.n(o)
    def ss(F, a, b): return F.sz(a) @ F.sz(b) + .5 * (F.Sp(a) @ F.Sp(b).T + F.Sp(a).T @ F.Sp(b))
    def hop(F, a, b): return H(sum(F.c(a, g) @ F.c(b, g).T for g in range(2)))
    for (n1, a), (n2, b) in itertools.combinations(sites, 2):
        P['ss_%s%s' % (n1, n2)] = lambda F, a=a, b=b: ss(F, a, b)
        P['hop_%s%s' % (n1, n2)] = lambda F, a=a, b=b: hop(F, a, b)
        P['zz_%s%s' % (n1, n2)] = lambda F, a=a, b=b: F.sz(a) @ F.sz(b)
        P['nn_%s%s' % (n1, n2)] = lambda F, a=a, b=b: (F.n(a) - F.I) @ (F.n(b) - F.I)
        P['pair_%s%s' % (n1, n2)] = lambda F, a=a, b=b: H(F.c(a, 0) @ F.c(b, 1) + F.c(b, 0) @ F.c(a, 1))
    if m.nimp and m.channels == 2:
        P['hop_sum'] = lambda F: hop(F, 0, f[0]) + hop(F, 0, f[1])
        P['ss_sum'] = lambda F: ss(F, 0, f[0]) + ss(F, 0, f[1])
    if m.channels == 2:
        P['n_sum'] = lambda F: F.n(f[0]) + F.n(f[1])
        P['q2_sum'] = lambda F: P['q2_f0'](F) + P['q2_f1'](F)
    return P

GLOBALS = {'NONE': 'SZtot SXtot Qtot Iztot Ixtot Iptot Imtot', 'U1': 'SZtot SXtot', 'SU2': 'SZtot SXtot', 'DBLSU2': 'SZtot SXtot', 'QSZ': 'SZtot', 'ISOSZ': 'SZtot', 'DBLQSZ': 'SZtot', 'DBLISOSZ': 'SZtot',
           'QS2': 'Qdiff Q1 Q2 Qtot', 'QSZ1': 'Q1u Q1d', 'SPSU21': 'Qtot Iztot Ixtot Iptot Imtot', 'SPSU22': 'Qtot Iztot Ixtot Iptot Imtot Qdiff Q1 Q2', 'SPU11': 'Qtot Iztot Ixtot Iptot Imtot', 'SPU12': 'Qtot Iztot Ixtot Iptot Imtot Qdiff Q1 Q2 Q1UP Q2UP Q1DO Q2DO', 'SPU1LR2': 'Qtot Iztot Ixtot Iptot Imtot',
           'SL2': 'Qdiff Qtot', 'SL3': 'N1 N2 N3', 'SL33': 'Qtot N1 N2 N3'}
for _s in ('P', 'PP'): GLOBALS[_s] = GLOBALS['NONE']
CPLX_GLOBALS = {'NONE': 'SYtot Iytot', 'P': 'SYtot Iytot', 'PP': 'SYtot Iytot', 'U1': 'SYtot', 'SU2': 'SYtot', 'DBLSU2': 'SYtot'}

def globals_of(m, sym, cplx):
    names = (GLOBALS.get(sym, '') + ' ' + GLOBALS.get('%s%d' % (sym, m.channels), '') + (' ' + CPLX_GLOBALS.get(sym, '') if cplx else '')).split()
    def orbs(F, ch): return range(F.norb) if ch is None else chan_orbs(F, m, ch)
    def site(nm):
        if m.spinless: return (lambda F, o: F.n(o) - F.I), (None if nm[-1] not in '123' else int(nm[-1]) - 1)
        k = {'SZtot': lambda F, o: F.sz(o), 'SXtot': lambda F, o: .5 * (F.Sp(o) + F.Sp(o).T), 'SYtot': lambda F, o: -.5j * (F.Sp(o) - F.Sp(o).T),
             'Iztot': lambda F, o: .5 * (F.n(o) - F.I), 'Qtot': lambda F, o: F.n(o) - F.I}
        if nm in k: return k[nm], None
        up = {'u': 0, 'd': 1, 'P': 0, 'O': 1}.get(nm[-1])
        ch = int(nm[1]) - 1
        # the solver counts n-1/2 in Q1u, Q1d of QSZ, n in Q1, Q2, Q1UP..
        return (lambda F, o: F.n(o, up) - .5 * F.I * (sym == 'QSZ')) if up is not None else (lambda F, o: F.n(o)), ch
    r = {}
    for nm in names:
        if nm in ('Ixtot', 'Iytot', 'Iptot', 'Imtot'):      # isospin: alternating signs along the chain
            def op(F, nm=nm):
                X = iso_plus(F, m)
                return X if nm == 'Iptot' else X.T if nm == 'Imtot' else .5 * (X + X.T) if nm == 'Ixtot' else -.5j * (X - X.T)
        elif nm == 'Qdiff':
            def op(F):
                return sum((F.n(o) for o in chan_orbs(F, m, 1)), 0. * F.I) - sum((F.n(o) for o in chan_orbs(F, m, 0)), 0. * F.I)     # Q2-Q1
        else:
            def op(F, nm=nm):
                f, ch = site(nm)
                return sum((f(F, o) for o in orbs(F, ch)), 0. * F.I)
        r[nm] = op
    return r

def admitted(m, sym, ops):
    """the operators that are singlets of the classification"""
    F = m.fock(1); comps = SYMS[sym]
    gen = [sp.diags(x.astype(float)).tocsr() for x in diag_labels(F, m, comps)]
    gen += [R for c in comps if c == 'SS' or c[:2] == 'II' for R in [F.Sp() if c == 'SS' else iso_plus(F, m, None if c == 'II' else int(c[-1]) - 1, 'ISO2' in sym)]]
    if 'LR' in comps: gen.append(mirror(F, m))
    par = sp.diags((-1.) ** np.round(np.real(F.N().diagonal()))).tocsr(); gen.append(par)
    out = {}
    for nm, f in ops.items():
        O = sp.csr_matrix(f(F))
        if all(abs(G @ O - O @ G).max() < 1e-10 for G in gen): out[nm] = f
    return out

class Space:
    """the Fock space of a chain (sites: those present), its Hamiltonian diagonalised within label blocks"""
    def __init__(s, m, sym, C, k, sites=None):
        F = s.F = m.fock(k + 1)
        H = sp.csr_matrix(m.H0(F) + m.chain(F, k + 1, C, sites))
        keep = np.arange(F.dim)
        if sites is not None:
            occ = sum((np.round(np.real(F.n(m.orb(q, n)).diagonal())).astype(int) for q in range(m.channels) for n in range(1, k + 1) if (q, n) not in sites), np.zeros(F.dim, int))
            keep = keep[occ == 0]
        key = [x[keep] for x in diag_labels(F, m, SYMS[sym])]
        s.parts = []
        for q in sorted(set(zip(*key))):
            idx = keep[np.where(np.all([a == b for a, b in zip(key, q)], axis=0))[0]]
            e, v = np.linalg.eigh(H[idx][:, idx].toarray()); s.parts.append((idx, e, v))
        s.e0 = min(e[0] for _, e, _ in s.parts)
        s.T = None
    def Zof(s, T): return sum(np.exp(-(e - s.e0) / T).sum() for _, e, _ in s.parts)
    def lehmann(s, key, fa, fb):
        """all pairs: E1-Ep, conj(<1|A|p>)<1|B|p>, Ep, E1 (from the ground state)"""
        if not hasattr(s, 'cache'):
            s.cache = {}; s.blk = np.full(s.F.dim, -1)
            for b, (idx, e, v) in enumerate(s.parts): s.blk[idx] = b
        if key in s.cache: return s.cache[key]
        A, B = sp.coo_matrix(fa(s.F)), sp.coo_matrix(fb(s.F))
        r, q = s.blk[B.row], s.blk[B.col]; ok = (r >= 0) & (q >= 0) & (B.data != 0)
        A, B = A.tocsr(), B.tocsr()
        out = [[], [], [], []]
        for i, j in sorted(set(zip(r[ok], q[ok]))):
            (i1, e1, v1), (ip, ep, vp) = s.parts[i], s.parts[j]
            b = v1.conj().T @ (B[i1][:, ip] @ vp); a = v1.conj().T @ (A[i1][:, ip] @ vp)
            x1, xp = np.meshgrid(e1 - s.e0, ep - s.e0, indexing='ij')
            for o, x in zip(out, (x1 - xp, a.conj() * b, xp, x1)): o.append(x.ravel())
        s.cache[key] = [np.concatenate(o) if o else np.zeros(0) for o in out]
        return s.cache[key]
    def mean(s, O, T):
        if s.T != T:
            s.T = T
            s.rho = [(idx, np.ascontiguousarray((v * np.exp(-(e - s.e0) / T)) @ v.conj().T).T) for idx, e, v in s.parts]
            s.Z = sum(np.exp(-(e - s.e0) / T).sum() for idx, e, v in s.parts)
            s.pos = np.full(s.F.dim, -1); s.blk = np.full(s.F.dim, -1)
            for b, (idx, r) in enumerate(s.rho): s.pos[idx] = np.arange(len(idx)); s.blk[idx] = b
        O = sp.coo_matrix(O)
        i, j, x = O.row, O.col, O.data
        b = s.blk[i]; ok = (b >= 0) & (b == s.blk[j])
        a = 0.
        for t in np.unique(b[ok]):
            k = ok & (b == t); a += (x[k] * s.rho[t][1][s.pos[i[k]], s.pos[j[k]]]).sum()
        return a / s.Z

_OPS = {}
def matrix(m, k, f, op):
    key = (m.channels, m.nimp, m.spinless, k, f)
    if key not in _OPS:
        if len(_OPS) > 3000: _OPS.clear()
        _OPS[key] = sp.coo_matrix(op(m.fock(k + 1)))
    return _OPS[key]

def read_table(text):
    L = [l for l in text.splitlines() if l.strip()]
    h = L[1].lstrip('#').split()
    return h, [dict(zip(h, map(float, l.split()))) for l in L[2:]]
