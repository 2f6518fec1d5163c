"""C09: the iteratively computed spectrum equals exact diagonalisation: every (classification, model, coupling pattern,
chain coefficients, length, energy units) of an enumerated family is run through the solver without truncation, and the
energies of every iteration are compared, label by label, with a Fock-space diagonalisation of the same finite chain."""
import sys, os, itertools, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import numpy as np
import core, corebuild
from ed import *
from cases import *

def cases():
    T = thorough()
    for s in SPECS:
        n = pick(*s.n)
        cs, ks = couplings(s), coefs(s, n)
        plan = []
        for i, a in enumerate(cs):
            for j, (nm, C) in enumerate(ks):
                plan.append((a, nm, C, ENERGIES[(i + j) % 2 if not T else (i + 2 * j) % 6], n, ''))
        for e in ENERGIES[2:]: plan.append((cs[1 % len(cs)], ks[0][0], ks[0][1], e, n, ''))
        for m in range(1, n): plan.append((cs[-1], ks[0][0], coefs(s, m)[0][1], ENERGIES[m % 2], m, ''))
        if s.sub and n * s.ch <= 6:
            for i, a in enumerate(cs):
                for nm, C in ks:
                    if C.pol or C.pol2 or C.txiR is not None or C.tkappa is not None: continue
                    plan.append((a, nm, C, ENERGIES[i % 2], n, 'sub'))
        if s.cplx:
            for i, a in enumerate(cs[:4]):
                for nm, C in ks: plan.append((a, nm, C, ENERGIES[i % 2], n, 'cplx'))
        for p in plan: yield (s.sym, s.ch, s.imp) + p

def one(c):
    sym, ch, imp, a, nm, C, (en, sc, extra), n, mode = c
    m = Model(channels=ch, nimp=imp, **a)
    par = pairs(extra)
    sub = mode == 'sub'
    if sc is None: sc = scale(0, par, sub, ch)
    text, sec = data_file(m, sym, C, n, sc or 1.0, cplx=mode == 'cplx')
    if mode == 'cplx': text = text.replace('#!9', '# COMPLEX\n#!9', 1)
    p = '[param]\n' + params(sym, C, extra) + 'keep=100000\ndumpannotated=100000\ndumpabs=true\ndumpscaled=false\ndumpgroups=false\ndumpprecision=16\nT=0.1\n'
    if sub: p += 'substeps=true\n'
    d = workdir(); clean(d); put(d, {'data': text, 'param': p})
    desc = '%s, %d channel(s), %d impurity orbital(s), %s, chain %s, energies %s, Nmax %d%s' % (sym, ch, imp, a, nm, en, n, {'': '', 'sub': ', substeps', 'cplx': ', complex arithmetic'}[mode])
    rep = {'param': p, 'data': text}
    fk = known_key(sym, C)
    def bad(t): return (desc + ': ' + t, rep, fk), 0
    rc = core.nrg(d)
    if rc: return bad('the run failed (status %d): %s' % (rc, (get(d, 'log') or b'')[-300:].decode('latin1')))
    its = [x for x in get(d, 'annotated.dat').decode().split('\n\n') if x.strip()]
    steps = [(k, None) for k in range(n + 1)]
    if sub: steps = [(0, None)] + [(N + 1, {(q, k) for k in range(1, N + 1) for q in range(ch)} | {(q, N + 1) for q in range(M + 1)}) for N in range(n) for M in range(ch)]
    if len(its) != len(steps): return bad('%d iterations reported, expected %d' % (len(its), len(steps)))
    total = 0
    for b, (k, sites) in zip(its, steps):
        got = collections.defaultdict(list)
        for l in b.strip().splitlines():
            w = l.split(); I = tuple(map(int, w[1:])) or (0,)
            for q in spread(sym, I): got[q].append(float(w[0]))
        if sub and sites is not None and len(sites) != ch * k:     # a partially filled shell
            exp = partial(m, sym, C, k, sites, ch)
        else:
            F = m.fock(k + 1); exp = blocks(F, m.H0(F) + m.chain(F, k + 1, C, sites), sym, m)
        if set(got) != set(exp): return bad('step %d: sectors %s differ from the exact ones' % (k, sorted(set(got) ^ set(exp))[:4]))
        for q in sorted(exp):
            g = np.sort(got[q]); total += len(g)
            if len(g) != len(exp[q]): return bad('step %d: %d states in sector %s, exactly %d' % (k, len(g), q, len(exp[q])))
            e = np.abs(g - exp[q]); i = int(e.argmax())
            if not e[i] < 1e-9: return bad('step %d: energy %d of sector %s is %.12g, exactly %.12g' % (k, i, q, g[i], exp[q][i]))
    return None, total

def body(c):
    core.BINARY['nrg'] = corebuild.build_core('nrgserver', 'nrgserver.cc')
    cs = list(cases())
    c.cov['domain'] = len(cs)
    states = 0; per = collections.Counter()
    for cc, (r, k) in zip(cs, pmap(one, cs, 2, c.deadline)):
        c.note(1, repr(cc[:4]) + cc[4] + cc[6][0] + str(cc[7]) + cc[8]); states += k; per[cc[0]] += 1
        if r: c.violation(*r)
    if getattr(pmap, 'cut', False): c.cut()
    c.cov['states'] = states; c.cov['transitions'] = sum(per.values()); c.cov['traces_validated_against_impl'] = c.evaluations
    c.sample({'runs per classification': dict(per)})
    c.cov['energies_compared'] = states
    c.rule = 'product of classification, coupling pattern, chain pattern, energy units, length, arithmetic, substeps'
    c.assumptions = ['the exact reference is a Fock-space diagonalisation in Python', 'chains of up to %d spinful orbitals' % pick(6, 7)]
main(body, 'C09')
