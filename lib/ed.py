"""Exact reference for small chains and generator of the solver's input file `data`.
A cluster (impurity orbitals and the first site of every channel) is diagonalised within each symmetry classification;
reduced matrix elements are obtained numerically from highest-weight states by the Wigner-Eckart theorem."""
import numpy as np, scipy.sparse as sp, itertools, math

import functools
def fock(norb, spinless=False):
    if (norb, spinless) not in _FOCK: _FOCK[norb, spinless] = Fock(norb, spinless)
    return _FOCK[norb, spinless]
_FOCK = {}

class Fock:
    """n spinful orbitals (or spinless): creation operators as sparse matrices, Jordan-Wigner order orb0up,orb0dn,orb1up.."""
    def __init__(s, norb, spinless=False):
        s.norb, s.spinless = norb, spinless
        s.k = 1 if spinless else 2
        m = norb * s.k; s.dim = 1 << m
        a = sp.csr_matrix(np.array([[0., 0.], [1., 0.]])); z = sp.csr_matrix(np.diag([1., -1.]))
        s.cd = []
        for i in range(m):
            o = sp.identity(1, format='csr')
            for j in range(m):
                o = sp.kron(o, a if j == i else z if j < i else sp.identity(2), format='csr')
            s.cd.append(o)
        s.I = sp.identity(s.dim, format='csr')
    def c(s, orb, sig=0): return s.cd[orb * s.k + sig]            # creation; sig 0 = up, 1 = down
    def n(s, orb, sig=None):
        if sig is None: return sum(s.n(orb, t) for t in range(s.k))
        return s.c(orb, sig) @ s.c(orb, sig).T
    def sz(s, orb): return (s.n(orb, 0) - s.n(orb, 1)) * .5
    def N(s): return sum(s.n(o) for o in range(s.norb))
    def Sz(s): return sum(s.sz(o) for o in range(s.norb))
    def Sp(s, orb=None): return s.c(orb, 0) @ s.c(orb, 1).T if orb is not None else sum(s.Sp(o) for o in range(s.norb))
    def pair(s, orb): return s.c(orb, 0) @ s.c(orb, 1)             # c+up c+dn

class Model:
    """channels, impurity orbitals (0 or 1), parameters; chain coefficients per channel: lists
    xi[ch][sigma][n] (hopping n -> n+1), zeta[ch][sigma][n] (site n), delta[ch][n] pairing on site n"""
    def __init__(s, channels=1, nimp=1, U=0., eps=0., B=0., Bx=0., D=0., V=(.3,), W=0., J=0., spinless=False, Vd=None, J01=0., W01=0., T01=0.):
        s.__dict__.update(channels=channels, nimp=nimp, U=U, eps=eps, B=B, Bx=Bx, D=D, V=list(V), W=W, J=J, spinless=spinless, Vd=Vd, J01=J01, W01=W01, T01=T01)
    def orb(s, ch, n):  # orbital index of chain site n of channel ch: cluster first, then shell by shell
        return s.nimp + n * s.channels + ch
    def fock(s, length): return fock(s.nimp + s.channels * length, s.spinless)
    def H0(s, F):
        """the cluster part (impurity, its coupling to site 0 and on-site terms of site 0) in Fock space F"""
        H = F.I * 0.
        k = F.k
        def hop(a, b, t):
            X = sum(F.c(a, g) @ F.c(b, g).conj().T for g in range(k)); return t * X + np.conj(t) * X.conj().T
        imp = [0] if s.nimp else [s.orb(c, 0) for c in range(s.channels)]
        for o in imp:
            H = H + s.eps * F.n(o)
            if not s.spinless:
                H = H + s.U * F.n(o, 0) @ F.n(o, 1) + s.B * F.sz(o)
                if s.Bx: X = F.Sp(o); H = H + s.Bx * .5 * (X + X.T)
                if s.D: X = F.pair(o); H = H + s.D * (X + X.T)
        if s.nimp:
            for c in range(s.channels):
                V = s.V[c % len(s.V)]
                if s.Vd and not s.spinless:
                    for g in range(2):
                        X = F.c(0, g) @ F.c(s.orb(c, 0), g).T; H = H + (V if g == 0 else s.Vd[c % len(s.Vd)]) * (X + X.T)
                else: H = H + hop(0, s.orb(c, 0), V)
                if s.W: H = H + s.W * F.n(0) @ F.n(s.orb(c, 0))
                if s.J:     # exchange d - f0
                    a, b = 0, s.orb(c, 0)
                    H = H + s.J * (F.sz(a) @ F.sz(b) + .5 * (F.Sp(a) @ F.Sp(b).T + F.Sp(a).T @ F.Sp(b)))
        for c in range(1, s.channels):      # couplings between the first sites of the channels
            a, b = s.orb(0, 0), s.orb(c, 0)
            if s.J01: H = H + s.J01 * (F.sz(a) @ F.sz(b) + .5 * (F.Sp(a) @ F.Sp(b).T + F.Sp(a).T @ F.Sp(b)))
            if s.W01: H = H + s.W01 * ((F.n(a) - F.I) @ (F.n(b) - F.I) if not s.spinless else F.n(a) @ F.n(b))
            if s.T01: H = H + hop(a, b, s.T01)
        return H
    def chain(s, F, length, C, sites=None):
        """links and on-site terms of the sites 1..length-1 (as the solver defines them); sites: optional set of (ch, n) present"""
        H = F.I * 0.
        for ch in range(s.channels):
            for n in range(length - 1):
                if sites is not None and (ch, n + 1) not in sites: continue
                a, b = s.orb(ch, n), s.orb(ch, n + 1)
                for g in range(F.k):
                    t = C.xi(ch, g, n); X = F.c(a, g) @ F.c(b, g).T; H = H + t * X + np.conj(t) * X.T
                    H = H + C.zeta(ch, g, n + 1) * (F.n(b, g) - .5 * F.I)
                if C.pol2:
                    for g, tab in ((0, 2), (1, 3)):
                        t = C.txi[ch + tab * C.nch][n]; X = F.c(a, g) @ F.c(b, 1 - g).T; H = H + t * X + np.conj(t) * X.T
                    X = F.Sp(b); H = H + C.tzeta[ch + 2 * C.nch][n + 1] * (X + X.T)
                if C.tdelta is not None: X = F.pair(b); H = H + C.tdelta[ch][n + 1] * (X + X.T)
                if C.tkappa is not None:
                    X = F.c(a, 0) @ F.c(b, 1) + F.c(b, 0) @ F.c(a, 1); H = H + C.tkappa[ch][n] * (X + X.T)
        if C.txiR is not None and s.channels == 2:
            for n in range(length - 1):
                a, b = s.orb(0, n + 1), s.orb(1, n + 1)
                for g in range(F.k):
                    X = F.c(a, g) @ F.c(b, g).T; H = H + C.tzetaR[0][n + 1] * (X + X.T)
                    for c1 in (0, 1):
                        X = F.c(s.orb(c1, n), g) @ F.c(s.orb(1 - c1, n + 1), g).T; H = H + C.txiR[c1][n] * (X + X.T)
        return H

class Coefs:
    """chain coefficients xi[table][n] (hopping n, n+1), zeta[table][n] (site n); tables: channels, doubled (spin up, spin
    down) if polarized, quadrupled (up, down, up-down, down-up) if pol2"""
    def __init__(s, xi, zeta, polarized=False, delta=None, kappa=None, pol2=False, xiR=None, zetaR=None):
        s.txi, s.tzeta, s.pol, s.pol2 = xi, zeta, polarized, pol2
        s.nch = len(xi) // (4 if pol2 else 2 if polarized else 1)
        s.tdelta, s.tkappa, s.txiR, s.tzetaR = delta, kappa, xiR, zetaR
    def xi(s, ch, g, n): return s.txi[ch + (s.nch if (s.pol or s.pol2) and g else 0)][n]
    def zeta(s, ch, g, n): return s.tzeta[ch + (s.nch if (s.pol or s.pol2) and g else 0)][n]
    def tables(s):
        def tab(T): return ''.join('%d\n' % (len(t) - 1) + ''.join(num(x) + '\n' for x in t) for t in T)
        k = len(s.txi) // s.nch
        z = [[0.] * len(t) for t in s.txi]
        r = 'z\n' + tab(s.txi) + tab(s.tzeta)
        if s.tdelta is not None or s.tkappa is not None: r += 'Z\n' + tab((s.tdelta or z[:s.nch]) * k) + tab((s.tkappa or z[:s.nch]) * k)
        if s.txiR is not None: r += 'X\n' + tab(s.txiR * k) + tab(s.tzetaR * k)
        return r

def num(x):
    if isinstance(x, complex) or np.iscomplexobj(x): return '(%.17g,%.17g)' % (x.real, x.imag)
    return '%.17g' % x

# ---- symmetry classifications -------------------------------------------------------------------------------------
# label components, in the order of the quantum numbers: charge Q (channel charges Q1 Q2), SZ = 2Sz+1, multiplicities SS / II
# (of the channels: II1 II2), fermion parity P (of the channels: Pa Pb), mirror parity LR
SYMS = {'QS': ('Q', 'SS'), 'QSZ': ('Q', 'SZ'), 'U1': ('Q',), 'SPU1': ('SZ',), 'SPSU2': ('SS',), 'NONE': ('0',), 'P': ('P',), 'ISO': ('II', 'SS'), 'ISOSZ': ('II', 'SZ'), 'SU2': ('II',),
        'SL': ('Q',), 'SL3': ('Q1', 'Q2', 'Q3'), 'DBLQSZ': ('Q1', 'Q2', 'SZ'), 'DBLSU2': ('II1', 'II2'), 'DBLISOSZ': ('II1', 'II2', 'SZ'), 'PP': ('Pa', 'Pb'),
        'ISO2': ('II', 'SS'), 'ISO2LR': ('II', 'SS', 'LR'), 'QSLR': ('Q', 'SS', 'LR'), 'QSZLR': ('Q', 'SZ', 'LR'), 'ISOLR': ('II', 'SS', 'LR'), 'ISOSZLR': ('II', 'SZ', 'LR'), 'SPU1LR': ('SZ', 'LR'), 'SPSU2LR': ('SS', 'LR')}
FTYPES = {'U1': 2, 'SU2': 2, 'DBLSU2': 2, 'NONE': 4, 'P': 4, 'PP': 4}

def _diag(M): return np.round(np.real(M.diagonal()), 9)

def chan_orbs(F, model, ch): return [o for o in range(F.norb) if o >= model.nimp and (o - model.nimp) % model.channels == ch]

def iso_plus(F, model, ch=None, two=False):
    """sum over sites of (-1)^n c+up c+dn with alternating signs along the chain (impurity next to f_0); two: the second
    channel belongs to the other sublattice (ISO2)"""
    X = F.I * 0.
    for o in range(F.norb):
        if ch is not None and o not in chan_orbs(F, model, ch): continue
        site = 0 if (model.nimp and o == 0) else (o - model.nimp) // model.channels + 1
        if two and o >= model.nimp: site += (o - model.nimp) % model.channels
        X = X + (-1) ** (site + 1) * F.pair(o)
    return X

def mirror(F, model):
    """the unitary exchanging the two channels"""
    perm = []
    for o in range(F.norb):
        if o < model.nimp: perm.append(o)
        else:
            n, ch = divmod(o - model.nimp, 2); perm.append(model.nimp + 2 * n + 1 - ch)
    mp = [perm[m // F.k] * F.k + m % F.k for m in range(F.norb * F.k)]
    nm = len(mp); rows, cols, vals = [], [], []
    for st in range(F.dim):       # mode 0 is the most significant bit (kron order)
        occ = [m for m in range(nm) if st >> (nm - 1 - m) & 1]
        img = [mp[m] for m in occ]
        sg = 1
        for a in range(len(img)):
            for b in range(a + 1, len(img)):
                if img[a] > img[b]: sg = -sg
        rows.append(sum(1 << (nm - 1 - m) for m in img)); cols.append(st); vals.append(sg)
    return sp.csr_matrix((vals, (rows, cols)), shape=(F.dim, F.dim), dtype=float)

def diag_labels(F, model, comps):
    """the commuting diagonal operators behind the components: multiplicities are represented by the projection"""
    N = np.round(_diag(F.N())).astype(int)
    def nch(c): return sum((np.round(_diag(F.n(o))).astype(int) for o in chan_orbs(F, model, c)), 0 * N)
    out = []
    for c in comps:
        added = (F.norb - model.nimp) // model.channels - 1     # SL, SL3: the charge of an added site is counted as -1 (empty), 0
        if c == 'Q': out.append(N - F.norb if not F.spinless else N - added * model.channels)
        elif c in ('SZ', 'SS'): out.append(np.round(2 * _diag(F.Sz())).astype(int) + (c == 'SZ'))      # SSZ = 2 Sz + 1
        elif c == 'II': out.append(N - F.norb)
        elif c[0] == 'Q' or c[:2] == 'II': k = int(c[-1]) - 1; out.append(nch(k) - (added if F.spinless else len(chan_orbs(F, model, k))))
        elif c == 'P': out.append((-1) ** (N + (model.channels + 1) * added))     # the label of a shell is the parity of its charge, counted from half filling
        elif c in ('Pa', 'Pb'): out.append((-1) ** nch('ab'.index(c[1])))
        else: out.append(0 * N)
    return out

def sectors(F, H, sym, model):
    """-> {I: (E, B)}: eigenvalues and eigenvectors (columns, highest-weight states) of each sector, ordered by energy"""
    comps = SYMS[sym]
    key = diag_labels(F, model, comps)
    raises = [F.Sp() if c == 'SS' else iso_plus(F, model, None if c == 'II' else int(c[-1]) - 1, 'ISO2' in sym) for c in comps if c == 'SS' or c[:2] == 'II']
    H = sp.csr_matrix(H)
    mir = mirror(F, model) if 'LR' in comps else None
    out = {}
    for k in sorted(set(zip(*key))):
        if any(v < 0 for v, c in zip(k, comps) if c == 'SS' or c[:2] == 'II'): continue
        idx = np.where(np.all([a == b for a, b in zip(key, k)], axis=0))[0]
        B = np.eye(len(idx))
        for R in raises:
            M = R[:, idx]; M = M[np.diff(M.indptr) > 0].toarray() @ B
            if M.shape[0] == 0: continue
            u, s_, vt = np.linalg.svd(M, full_matrices=True)
            B = B @ vt[int((s_ > 1e-10).sum()):].T
            if B.shape[1] == 0: break
        if B.shape[1] == 0: continue
        parts = [(0, B)]
        if mir is not None:
            p, W = np.linalg.eigh(B.T @ mir[idx][:, idx].toarray() @ B)
            parts = [(sg, B @ W[:, np.abs(p - sg) < .5]) for sg in (-1, 1)]
        h0 = H[idx][:, idx].toarray()
        for sg, b in parts:
            if b.shape[1] == 0: continue
            h = b.T @ h0 @ b; E, U = np.linalg.eigh((h + h.conj().T) / 2)
            full = np.zeros((F.dim, b.shape[1]), dtype=U.dtype); full[idx] = b @ U
            I = tuple(int(v) + 1 if c == 'SS' or c[:2] == 'II' else sg if c == 'LR' else int(v) for v, c in zip(k, comps))
            out[I] = (E, full)
    return out

def blocks(F, H, sym, model):
    """-> {diagonal labels: sorted energies} (multiplets resolved into their components; the mirror parity is left out)"""
    key = diag_labels(F, model, SYMS[sym]); out = {}
    H = sp.csr_matrix(H)
    for k in sorted(set(zip(*key))):
        idx = np.where(np.all([a == b for a, b in zip(key, k)], axis=0))[0]
        out[tuple(map(int, k))] = np.linalg.eigvalsh(H[idx][:, idx].toarray())
    return out

def spread(sym, I):
    """the diagonal labels of the members of a multiplet with quantum numbers I"""
    r = [range(-(i - 1), i, 2) if c == 'SS' or c[:2] == 'II' else (0,) if c == 'LR' else (i,) for i, c in zip(I, SYMS[sym])]
    return itertools.product(*r)

def mult(sym, I):
    return int(np.prod([i for i, c in zip(I, SYMS[sym]) if c == 'SS' or c[:2] == 'II'] or [1]))

def lower(L, B, twoJ, k):
    """apply a lowering operator k times to highest-weight states of spin J (normalised)"""
    j = twoJ / 2.; m = j
    for _ in range(k):
        B = L @ B / math.sqrt(j * (j + 1) - m * (m - 1)); m -= 1
    return B

def doublet_elements(F, sec, sym, model, op, ch=0, even=False):
    """reduced elements <I1||O||Ip> of a spin-1/2 creation operator given by its components op = (O_up, O_dn); ch is the
    channel whose isospin (or charge) it carries. Result: list (by type) of {(I1, Ip): matrix}"""
    comps = SYMS[sym]
    if sym in ('NONE', 'P', 'PP'): types = [[op[1]], [op[0]], [op[1].conj().T], [op[0].conj().T]]
    elif sym in ('U1', 'SU2', 'DBLSU2'): types = [[op[0]], [op[1]]]
    else: types = [op]
    IM = {c: iso_plus(F, model, None if c == 'II' else int(c[-1]) - 1, 'ISO2' in sym).T.tocsr() for c in comps if c[:2] == 'II'}
    res = []
    for T in types:
        d = {}
        for I1, (E1, B1) in sec.items():
            for Ip, (Ep, Bp) in sec.items():
                O = T[0]; cg = 1.; K = Bp; ok = True
                for c, a, b in zip(comps, I1, Ip):
                    if c == 'SS':
                        if abs(a - b) != 1: ok = False; break
                        if a < b: O = T[1]; cg *= cg_half((b - 1) / 2., (b - 1) / 2., -.5, (a - 1) / 2.)
                    elif c == 'SZ':
                        if abs(a - b) != 1: ok = False; break
                        O = T[0 if a > b else 1]
                    elif c[:2] == 'II':
                        if c != 'II' and int(c[-1]) - 1 != ch:
                            if a != b: ok = False; break
                        else:
                            if abs(a - b) != 1: ok = False; break
                            k = (b - 1 - (a - 2)) // 2
                            K = lower(IM[c], K, b - 1, k); cg *= cg_half((b - 1) / 2., (b - 1) / 2. - k, .5, (a - 1) / 2.)
                    elif c == 'Q':
                        if a != b + 1: ok = False; break
                    elif c == 'LR' and even:
                        if a != b: ok = False; break
                if not ok: continue
                M = B1.conj().T @ (O @ K) / cg
                if M.shape[0] and (np.abs(M).max() > 1e-12 or 'LR' in comps): d[I1, Ip] = M
        res.append(d)
    return res

def cg_half(j, m, s, J):
    """<j m; 1/2 s | J m+s>"""
    M = m + s
    if J == j + .5: return math.sqrt((j + (M if s > 0 else -M) + .5) / (2 * j + 1))
    return -math.sqrt((j - M + .5) / (2 * j + 1)) if s > 0 else math.sqrt((j + M + .5) / (2 * j + 1))

@functools.lru_cache(None)
def cg(j1, m1, j2, m2, J, M):
    """Clebsch-Gordan coefficient <j1 m1; j2 m2 | J M> (Racah's formula)"""
    if abs(m1 + m2 - M) > 1e-9 or J < abs(j1 - j2) - 1e-9 or J > j1 + j2 + 1e-9 or abs(M) > J or abs(m1) > j1 or abs(m2) > j2: return 0.
    f = lambda x: math.factorial(int(round(x)))
    a = math.sqrt((2 * J + 1) * f(J + j1 - j2) * f(J - j1 + j2) * f(j1 + j2 - J) / f(j1 + j2 + J + 1))
    b = math.sqrt(f(J + M) * f(J - M) * f(j1 - m1) * f(j1 + m1) * f(j2 - m2) * f(j2 + m2))
    t = 0.
    for k in range(int(j1 + j2 + J) + 2):
        d = (k, j1 + j2 - J - k, j1 - m1 - k, j2 + m2 - k, J - j2 + m1 + k, J - j1 - m2 + k)
        if all(x > -1e-9 for x in d): t += (-1) ** k / float(np.prod([f(x) for x in d]))
    return a * b * t

def triplet_elements(sec, sym, op):
    """reduced elements of a spin-1 operator with the spherical components op = {1: -S+/sqrt2, 0: Sz, -1: S-/sqrt2}"""
    comps = SYMS[sym]; d = {}; p = comps.index('SS')
    for I1, (E1, B1) in sec.items():
        for Ip, (Ep, Bp) in sec.items():
            if any(a != b for i, (a, b) in enumerate(zip(I1, Ip)) if i != p) or abs(I1[p] - Ip[p]) not in (0, 2): continue
            if I1[p] == Ip[p] == 1: continue
            j1, jp = (I1[p] - 1) / 2., (Ip[p] - 1) / 2.
            M = B1.conj().T @ (op[int(j1 - jp)] @ Bp) / cg(jp, jp, 1., j1 - jp, j1, j1)
            if np.abs(M).max() > 1e-12: d[I1, Ip] = M
    return d

def parity_elements(sec, O):
    """elements of a singlet that changes the mirror parity (the last quantum number)"""
    return {(I, J): sec[I][1].conj().T @ (O @ sec[J][1]) for I in sec for J in [I[:-1] + (-I[-1],)] if J in sec}

def singlet_elements(sec, O):
    return {(I, I): B.conj().T @ (O @ B) for I, (E, B) in sec.items()}

def block(d, cplx=False):
    s = '%d\n' % len(d)
    for (I1, Ip), M in d.items():
        s += '%s\t%s\n' % ('\t'.join(map(str, I1)), '\t'.join(map(str, Ip)))
        for r in np.atleast_2d(M): s += '\t'.join(num(complex(x)) if cplx else num(float(np.real(x))) for x in r) + '\n'
    return s

def data_file(model, sym, C, Nmax, scale, singlets=None, doublets=None, triplets=None, globals_=None, cplx=False, extra='', parity=None):
    """the text of `data`; also returns the sectors of the cluster"""
    F = model.fock(1)
    H = model.H0(F)
    sec = sectors(F, H, sym, model)
    e0 = min(E[0] for E, B in sec.values())
    t = '# Input file for NRG Ljubljana\n# symtype \t%s\n#!9\n# Number of channels, chain sites, subspaces: \n%d\t%d\t%d\n# SCALE \t%.17g\n' % (sym, model.channels, Nmax, len(sec), scale)
    for I, (E, B) in sec.items():
        t += '%s\n%d\n%s\n' % ('\t'.join(map(str, I)), len(E), ' '.join(num((e - e0) / scale) for e in E))
    for ch in range(model.channels):
        o = model.orb(ch, 0)
        for i, d in enumerate(doublet_elements(F, sec, sym, model, [F.c(o, g) for g in range(F.k)], ch)):
            t += 'f %d %d\n' % (ch, i) + block(d, cplx)
    t += 'e\n%.17g\n' % e0
    for name, op in (singlets or {}).items(): t += 's%s\n' % name + block(singlet_elements(sec, op(F)), cplx)
    for name, op in (globals_ or {}).items(): t += 'g%s\n' % name + block(singlet_elements(sec, op(F)), cplx)
    for name, op in (parity or {}).items(): t += 'p%s\n' % name + block(parity_elements(sec, op(F)), cplx)
    for name, d in (doublets or {}).items(): t += 'd%s\n' % name + block(d(F, sec), cplx)
    for name, d in (triplets or {}).items(): t += 't%s\n' % name + block(d(F, sec), cplx)
    return t + C.tables() + extra, sec
