"""C11: expectation values and density matrices. Every (classification, model, coupling pattern, chain, energy units,
temperature, iteration of the full-density-matrix average) of an enumerated family is run through the solver with every local
and global operator of a pool that the classification admits; the tables `custom` and `customfdm` are compared with exact
thermal averages from an independent Fock-space diagonalisation of the same finite chain. With truncation the full density
matrix is followed through the average of the identity at each iteration and through its weights."""
import sys, os, re, itertools, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import numpy as np
import core, corebuild
from ed import *
from cases import *
from opspace import *

TEMPS = [.1, 1., .02, 10., .3]
BETABAR = [1., .46, 2.5]

def cases():
    i = 0
    for s in SPECS:
        n = pick(*s.n)
        cs, ks = couplings(s), coefs(s, n)
        plan = []
        for k, a in enumerate(cs):
            for j, (nm, C) in enumerate(ks):
                if not thorough() and (k + j) % (1 + s.ch) and (s.ch > 1 or k and j): continue
                i += 1
                plan.append((a, nm, C, ENERGIES[(k + j) % 6], n, '', TEMPS[i % 5], BETABAR[i % 3], i % n))
        for k in range(len(TEMPS)):
            for v in range(n):
                if thorough() or (k + v) % 2 == 0: plan.append((cs[1 % len(cs)], ks[0][0], ks[0][1], ENERGIES[k % 2], n, '', TEMPS[k], BETABAR[k % 3], v))
        if s.sub and n * s.ch <= 6:
            for k, a in enumerate(cs):
                i += 1; nm, C = ks[k % 2]
                if not C.pol: plan.append((a, nm, C, ENERGIES[k % 2], n, 'sub', TEMPS[i % 5], BETABAR[i % 3], i % (n * s.ch)))
        if s.cplx:
            for nm, C in ks[:3]:
                for a in (cs[1], cs[-1]): i += 1; plan.append((a, nm, C, ENERGIES[1], n, 'cplx', TEMPS[i % 5], BETABAR[i % 3], i % n))
        for keep in pick((3, 7), (2, 3, 4, 5, 7, 9, 12, 20)):
            for v in range(n): i += 1; plan.append((cs[i % len(cs)], ks[i % len(ks)][0], ks[i % len(ks)][1], ENERGIES[i % 2], n, 'keep=%d' % keep, TEMPS[i % 3], BETABAR[i % 3], v))
        if s.ch == 3 and not s.sl: plan = plan[::pick(8, 3)] if s.sym in ('QS', 'ISO', 'SPSU2') else plan[1::pick(20, 8)]
        if s.ch == 2 and s.imp and s.sym in ('P', 'U1', 'SPU1'): plan = plan[::pick(4, 1)]
        for p in plan: yield (s.sym, s.ch, s.imp) + p

def one(c):
    sym, ch, imp, a, nm, C, (en, sc, extra), n, mode, T, bb, fv = c
    m = Model(channels=ch, nimp=imp, **a)
    par = pairs(extra)
    sub = mode == 'sub'; keep = int(mode[5:]) if mode.startswith('keep=') else 0; cplx = mode == 'cplx'
    if sc is None: sc = scale(0, par, sub, ch)
    ops = admitted(m, sym, pool(m, cplx))
    gl = {} if sub else admitted(m, sym, globals_of(m, sym, cplx))
    text, sec = data_file(m, sym, C, n, sc or 1.0, singlets=ops, globals_=gl, cplx=cplx)
    if cplx: text = text.replace('#!9', '# COMPLEX\n#!9', 1)
    p = '[param]\n' + params(sym, C, extra) + 'keep=%d\nprec_custom=16\nwidth_custom=26\nT=%r\nbetabar=%r\nfdm=true\nfdmexpv=true\nfdmexpvn=%d\nlog=w\nops=%s\n' % (keep or 100000, T, bb, fv, ' '.join(list(ops) + list(gl)))
    if sub: p += 'substeps=true\n'
    d = workdir(); clean(d); put(d, {'data': text, 'param': p})
    desc = '%s, %d channel(s), %d impurity orbital(s), %s, chain %s, energies %s, Nmax %d%s, T=%g, betabar=%g, fdmexpvn=%d' % (sym, ch, imp, a, nm, en, n, ', ' + mode if mode else '', T, bb, fv)
    rep = {'param': p, 'data': text}
    def bad(t): return (desc + ': ' + t, rep, None), 0
    rc = core.nrg(d)
    log = (get(d, 'log') or b'').decode('latin1')
    if rc: return bad('the run failed (status %d): %s' % (rc, log[-300:]))
    h, rows = read_table(get(d, 'custom').decode())
    hf, fdm = read_table(get(d, 'customfdm').decode())
    names = set(ops) | set(gl)
    if set(h) - {'T'} != names or set(hf) - {'T'} != names: return bad('columns %s, expected %s' % (h, sorted(names)))
    if len(fdm) != 1: return bad('%d rows in customfdm' % len(fdm))
    cnt = 0
    steps = [(k, None) for k in range(n + 1)]
    if sub: steps = [(0, None)] + [(N + 1, {(q, k) for k in range(1, N + 1) for q in range(ch)} | {(q, N + 1) for q in range(M + 1)}) for N in range(n) for M in range(ch)]
    if len(rows) != len(steps): return bad('%d rows in custom, expected %d' % (len(rows), len(steps)))
    wn = {int(x): float(y) for x, y in re.findall(r'^w\[(\d+)\]=([-\d.e+naif]+)', log, re.M)}
    if not wn: return bad('the weights of the iterations are not reported')
    if any(not (-1e-12 <= w <= 1 + 1e-9) for w in wn.values()): return bad('a weight lies outside [0, 1]: %s' % wn)
    if not abs(sum(wn.values()) - 1) < 1e-5: return bad('the weights of the iterations add up to %r' % sum(wn.values()))
    last = max(wn)
    if not keep and abs(wn[last] - 1) > 1e-6: return bad('nothing was truncated, yet the last iteration has the weight %r' % wn[last])
    # identity: the trace of the (full) density matrix
    for i, r in enumerate(rows):
        if not abs(r['one'] - 1) < 1e-12: return bad('iteration %d: the average of the identity is %r' % (i - 1, r['one']))
    want1 = sum(w for k, w in wn.items() if k > fv) if fv != last else wn[last]
    if not abs(fdm[0]['one'] - want1) < 2e-5: return bad('the identity averages to %r in the full density matrix of iteration %d, the weights of the later iterations are %r' % (fdm[0]['one'], fv, want1))
    cnt += len(rows) + 1
    if keep or known_key(sym, C): return None, cnt
    if not abs(fdm[0]['one'] - 1) < 1e-9: return bad('the trace of the full density matrix at iteration %d is %r' % (fv, fdm[0]['one']))
    for i, (row, (k, sites)) in enumerate(zip(rows, steps)):
        if sites is not None and len(sites) == ch * k: sites = None
        S = Space(m, sym, C, k, sites)
        Te = scale(i, par, sub, ch) / bb
        if abs(row['T'] - Te) > 1e-12 * Te: return bad('iteration %d: temperature %r, expected %r' % (i - 1, row['T'], Te))
        for f, op in list(ops.items()) + list(gl.items()):
            x = S.mean(matrix(m, k, (f, sym) if f in gl else f, op), Te); cnt += 1
            if not abs(row[f] - np.real(x)) < 1e-9: return bad('iteration %d: <%s> = %.12g, exactly %.12g' % (i - 1, f, row[f], np.real(x)))
    if abs(fdm[0]['T'] - T) > 1e-12 * T: return bad('customfdm refers to the temperature %r' % fdm[0]['T'])
    # local operators in the state of the whole chain (S: the last iteration)
    for f, op in ops.items():
        x = S.mean(matrix(m, n, f, op), T); cnt += 1
        if not abs(fdm[0][f] - np.real(x)) < 1e-8: return bad('full density matrix at iteration %d: <%s> = %.12g, exactly %.12g' % (fv, f, fdm[0][f], np.real(x)))
    return None, cnt

def body(c):
    core.BINARY['nrg'] = corebuild.build_core('nrgserver', 'nrgserver.cc')
    cs = list(cases())
    c.cov['domain'] = len(cs)
    per = collections.Counter(); vals = 0
    cs.sort(key=lambda x: -x[1])       # the expensive ones first
    for cc, (r, k) in zip(cs, pmap(one, cs, 2, c.deadline)):
        c.note(1, repr(cc[:4]) + cc[4] + cc[6][0] + repr(cc[7:])); vals += k; per[cc[0]] += 1
        if r: c.violation(*r)
    if getattr(pmap, 'cut', False): c.cut()
    c.sample({'runs per classification': dict(per)})
    c.cov['states'] = vals; c.cov['transitions'] = sum(per.values()); c.cov['traces_validated_against_impl'] = c.evaluations
    c.cov['values_compared'] = vals
    c.rule = 'product of classification, coupling pattern, chain pattern, energy units, temperature, betabar, iteration of the full-density-matrix average, truncation'
    c.assumptions = ['the exact reference is a Fock-space diagonalisation in Python']
main(body, 'C11')
