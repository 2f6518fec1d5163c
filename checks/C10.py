"""C10: thermodynamic quantities are exact Boltzmann averages: every (classification, model, coupling pattern, chain,
energy units, temperature, truncation) of an enumerated family is run through the solver; without truncation the tables
`td` and `tdfdm` are compared with averages over the spectrum of an independent Fock-space diagonalisation, with truncation
with averages over the states the solver itself reports for the iteration (complete basis of discarded states for tdfdm)."""
import sys, os, re, itertools, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import numpy as np
import core, corebuild
from ed import *
from cases import *

TEMPS = [.1, 1., .01, 10., .3]
BETABAR = [1., .46, 2.5]

def cases():
    i = 0
    for s in SPECS:
        n = pick(*s.n)
        cs, ks = couplings(s), coefs(s, n)
        plan = []
        for k, a in enumerate(cs):
            for j, (nm, C) in enumerate(ks):
                if not thorough() and (k + j) % 2 and k and j: continue
                i += 1
                plan.append((a, nm, C, ENERGIES[(k + j) % 6], n, '', TEMPS[i % 5], BETABAR[i % 3], 0.))
        for k in range(len(TEMPS)):
            for b in BETABAR:
                if thorough() or (k + BETABAR.index(b)) % 3 == 0:
                    plan.append((cs[1 % len(cs)], ks[0][0], ks[0][1], ENERGIES[k % 2], n, '', TEMPS[k], b, 0.))
        for sh in (17.25, -60.): plan.append((cs[1 % len(cs)], ks[0][0], ks[0][1], ENERGIES[1], n, '', .1, 1., sh))
        if s.sub and n * s.ch <= 6:
            for k, a in enumerate(cs):
                i += 1; nm, C = ks[k % 2]
                plan.append((a, nm, C, ENERGIES[k % 2], n, 'sub', TEMPS[i % 5], BETABAR[i % 3], 0.))
        if s.cplx:
            for nm, C in ks[:3]: i += 1; plan.append((cs[1], nm, C, ENERGIES[1], n, 'cplx', TEMPS[i % 5], BETABAR[i % 3], 0.))
        # truncation: the averages refer to the states reported
        for keep in pick((3, 7), (2, 3, 4, 5, 7, 9, 12, 20)):
            for j in range(pick(1, 3)):
                i += 1; plan.append((cs[(1 + j) % len(cs)], ks[j % len(ks)][0], ks[j % len(ks)][1], ENERGIES[i % 2], n, 'keep=%d' % keep, TEMPS[i % 3], BETABAR[i % 3], 0.))
        for p in plan: yield (s.sym, s.ch, s.imp) + p

def qval(sym, field, q):
    """value of the operator whose average `field` is, in a state with labels q"""
    comps = SYMS[sym]
    nm = field.strip('<>').replace('^2', '')
    if nm.startswith('s'): nm = nm[1:]
    for c, v in zip(comps, q):
        if nm == 'Sz' and c in ('SZ', 'SS'): return (v - (c == 'SZ')) / 2.
        if nm == 'Q' and c in ('Q', 'II'): return float(v)
        if nm in ('Q1', 'Q2', 'Q3') and c in (nm, 'II' + nm[1]): return float(v)
    raise KeyError(field)

def averages(sym, fields, states, T):
    """states: {labels: energies}; the exact values of the columns of td (energies in units of T, from the ground state)"""
    e0 = min(e.min() for e in states.values() if len(e))
    Z = E = E2 = 0.
    qs = {f: [0., 0.] for f in fields if f not in ('T', '<E>', '<E^2>', 'C', 'F', 'S')}
    for q, e in states.items():
        x = (e - e0) / T; w = np.exp(-x)
        Z += w.sum(); E += (w * x).sum(); E2 += (w * x * x).sum()
        for f in qs: v = qval(sym, f, q); qs[f][0] += v * w.sum(); qs[f][1] += v * v * w.sum()
    E /= Z; E2 /= Z
    r = {'T': T, '<E>': E, '<E^2>': E2, 'C': E2 - E * E, 'F': -math.log(Z), 'S': E + math.log(Z)}
    for f, (a, b) in qs.items():
        a /= Z; b /= Z
        r[f] = b - a * a if f[1] == 's' else b if '^2' in f else a
    return r

def table(text):
    L = [l for l in text.splitlines() if l.strip()]
    h = L[0].lstrip('#').split()
    return h, [dict(zip(h, map(float, l.split()))) for l in L[1:]]

def one(c):
    sym, ch, imp, a, nm, C, (en, sc, extra), n, mode, T, bb, shift = c
    m = Model(channels=ch, nimp=imp, **a)
    par = pairs(extra)
    sub = mode == 'sub'; keep = int(mode[5:]) if mode.startswith('keep=') else 0
    if sc is None: sc = scale(0, par, sub, ch)
    text, sec = data_file(m, sym, C, n, sc or 1.0, cplx=mode == 'cplx')
    if mode == 'cplx': text = text.replace('#!9', '# COMPLEX\n#!9', 1)
    if shift:
        h, t = text.split('\ne\n', 1); v, t = t.split('\n', 1)
        text = h + '\ne\n%.17g\n' % (float(v) + shift) + t
    p = '[param]\n' + params(sym, C, extra) + 'keep=%d\ndumpannotated=100000\ndumpabs=true\ndumpscaled=false\ndumpgroups=false\ndumpprecision=16\nprec_td=15\nwidth_td=24\nT=%r\nbetabar=%r\nfdm=true\ndumpsubspaces=true\n' % (keep or 100000, T, bb)
    if sub: p += 'substeps=true\n'
    d = workdir(); clean(d); put(d, {'data': text, 'param': p})
    desc = '%s, %d channel(s), %d impurity orbital(s), %s, chain %s, energies %s, Nmax %d%s, T=%g, betabar=%g, energy zero %g' % (sym, ch, imp, a, nm, en, n, ', ' + mode if mode else '', T, bb, shift)
    rep = {'param': p, 'data': text}
    ann = keep or known_key(sym, C)         # a wrong spectrum (C09) is not a matter of this property: refer to the states reported
    def bad(t): return (desc + ': ' + t, rep, None), 0
    rc = core.nrg(d)
    if rc: return bad('the run failed (status %d): %s' % (rc, (get(d, 'log') or b'')[-300:].decode('latin1')))
    h, rows = table(get(d, 'td').decode())
    _, fdm = table(get(d, 'tdfdm').decode())
    steps = [(k, None) for k in range(n + 1)]
    if sub: steps = [(0, None)] + [(N + 1, {(q, k) for k in range(1, N + 1) for q in range(ch)} | {(q, N + 1) for q in range(M + 1)}) for N in range(n) for M in range(ch)]
    if len(rows) != len(steps): return bad('%d rows in td, expected %d' % (len(rows), len(steps)))
    if len(fdm) != 1: return bad('%d rows in tdfdm' % len(fdm))
    want = {'T', '<E>', '<E^2>', 'C', 'F', 'S'}
    if not want <= set(h): return bad('td lacks the columns %s' % sorted(want - set(h)))
    its = None
    if ann:
        its = []
        for x in get(d, 'annotated.dat').decode().split('\n\n'):
            if not x.strip(): continue
            D = collections.defaultdict(list)
            for l in x.strip().splitlines(): w = l.split(); D[tuple(map(int, w[1:])) or (0,)].append(float(w[0]))
            its.append(D)
        if len(its) != len(steps): return bad('%d iterations reported, expected %d' % (len(its), len(steps)))
    cnt = 0
    for i, (row, (k, sites)) in enumerate(zip(rows, steps)):
        if ann:
            st = collections.defaultdict(list)
            for I, e in its[i].items():
                for q in spread(sym, I): st[q] += e
            st = {q: np.array(e) for q, e in st.items()}
        elif sub and sites is not None and len(sites) != ch * k: st = partial(m, sym, C, k, sites, ch)
        else:
            F = m.fock(k + 1); st = blocks(F, m.H0(F) + m.chain(F, k + 1, C, sites), sym, m)
        Te = scale(i, par, sub, ch) / bb
        x = averages(sym, h, st, Te)
        for f in h:
            cnt += 1
            tol = 1e-9 + 1e-10 * abs(x[f]) + (2e-12 * x['<E^2>'] if f in ('C', '<E^2>', '<E>') else 0) + 1e-12 * (abs(shift) + 10) / Te
            if f == 'T': tol = 1e-13 * x[f]
            if not abs(row[f] - x[f]) <= tol: return bad('iteration %d: %s = %.13g, exactly %.13g' % (i - 1, f, row[f], x[f]))
    # full density matrix
    if not ann: E = np.concatenate(list(st.values())) + shift; W = np.ones(len(E))
    else:
        kept = subspaces(get(d, 'subspaces.dat').decode())
        if len(kept) != len(steps) - 1: return bad('%d iterations in subspaces.dat, expected %d' % (len(kept), len(steps) - 1))
        E, W = [], []
        for i in range(1, len(its)):
            for I, e in its[i].items():
                kp = kept[i - 1].get(I, 0) if i < len(its) - 1 else 0
                es = sorted(e)[kp:]
                E += es; W += [mult(sym, I) * float((2 if m.spinless else 4) ** (ch * (len(its) - 1 - i)))] * len(es)
        E, W = np.array(E), np.array(W)
        if W.sum() != sum(len(e) for e in blocks(m.fock(n + 1), m.fock(n + 1).I * 0., sym, m).values()): return bad('the discarded states of all iterations do not count the full Fock space: %g' % W.sum())
    e0 = E.min(); w = W * np.exp(-(E - e0) / T); Z = w.sum(); U = (w * E).sum() / Z; V = (w * (E - U) ** 2).sum() / Z
    x = {'T': T, 'E_fdm': U, 'C_fdm': V / T ** 2, 'F_fdm': e0 - T * math.log(Z), 'S_fdm': 0.}
    x['S_fdm'] = (x['E_fdm'] - x['F_fdm']) / T
    for f in x:
        cnt += 1
        t = (1e-9 + 1e-11 * (abs(shift) + 10)) * (1 + abs(x[f])) * (1 / T if f[0] in 'CS' and T < 1 else 1)
        if not abs(fdm[0].get(f, math.nan) - x[f]) <= t: return bad('%s = %.13g, exactly %.13g' % (f, fdm[0].get(f, math.nan), x[f]))
    return None, cnt

def subspaces(text):
    """-> per iteration {I: number of kept states}"""
    out = []
    for l in text.splitlines():
        l = l.strip()
        if l.startswith('Iteration'): out.append({})
        elif l and not l.startswith('len') and out:
            m = re.search(r'I=\(?([-\d\s,]+)\)? kept=(\d+)', l)
            if m: out[-1][tuple(map(int, m.group(1).replace(',', ' ').split())) or (0,)] = int(m.group(2))
    return out

def body(c):
    core.BINARY['nrg'] = corebuild.build_core('nrgserver', 'nrgserver.cc')
    cs = list(cases())
    c.cov['domain'] = len(cs)
    per = collections.Counter(); vals = 0
    for cc, (r, k) in zip(cs, pmap(one, cs, 2, c.deadline)):
        c.note(1, repr(cc[:4]) + cc[4] + cc[6][0] + repr(cc[7:])); vals += k; per[cc[0]] += 1
        if r: c.violation(*r)
    if getattr(pmap, 'cut', False): c.cut()
    c.sample({'runs per classification': dict(per)})
    c.cov['states'] = vals; c.cov['transitions'] = sum(per.values()); c.cov['traces_validated_against_impl'] = c.evaluations
    c.cov['values_compared'] = vals
    c.rule = 'product of classification, coupling pattern, chain pattern, energy units, temperature, betabar, energy zero, truncation'
    c.assumptions = ['the exact reference is a Fock-space diagonalisation in Python; with truncation, the list of energies in annotated.dat and the numbers of kept states in subspaces.dat']
main(body, 'C10')
