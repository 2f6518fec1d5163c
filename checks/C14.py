"""C14: results do not depend on computational strategy. For every classification one reference run computes everything; then
every single setting, every pair of settings (small models), every subset of requested quantities and partial
diagonalisations are run and all result files are compared with the reference."""
import sys, os, re, itertools, collections, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import numpy as np
import core, corebuild
from ed import *
from cases import *
from opspace import *
from C12 import plan, hats, read_bin, read_dat, doublets, triplets, KNOTS, GOOD

ALG = {'cfs': 'CFS', 'cfsgt': 'CFSgt', 'cfsls': 'CFSls', 'fdm': 'FDM', 'fdmgt': 'FDMgt', 'fdmls': 'FDMls', 'fdmmats': 'FDMmats', 'finite': 'FT', 'finitemats': 'FTmats', 'dmnrg': 'DMNRG', 'dmnrgmats': 'DMNRGmats', 'specgt': 'GT', 'speci1t': 'I1T', 'speci2t': 'I2T', 'specchit': 'CHIT'}
KEY = {v: k for k, v in ALG.items()}
REQ = list(ALG) + ['fdmexpv']
DM = set(REQ[:7]) | {'dmnrg', 'dmnrgmats', 'fdmexpv'}
COARSE = [('cfs', 'cfsgt', 'cfsls'), ('fdm', 'fdmgt', 'fdmls'), ('fdmmats',), ('finite', 'finitemats'), ('dmnrg', 'dmnrgmats'), ('specgt', 'speci1t', 'speci2t'), ('specchit',), ('fdmexpv',)]

def settings(cplx, trunc):
    z = ('zheev', 'zheevd', 'zheevr') if cplx else ('dsyev', 'dsyevd', 'dsyevr')
    S = [('diag', x) for x in z] + [('saveram', 'true')] + [('diag_mode', x) for x in ('serial', 'OpenMP', 'MPI')] + [('diagth', '3'), ('removefiles', 'false'), ('logall', 'true'), ('silent', 'true'),
        ('dumpannotated', '20'), ('dumpsubspaces', 'true'), ('dump_f', 'true'), ('dumpenergies', 'true'), ('dumpstates', 'true'), ('dumpabsenergies', 'true'), ('dumpdiagonal', '3'), ('reportdiagonal', '4'),
        ('checksumrules', 'true'), ('checkrho', 'true'), ('done', 'false'), ('resume', 'true'), ('h5raw', 'true'), ('h5raw', 'true\nh5all=true\nh5ham=true\nh5ops=true\nh5vectors=true\nh5U=true\nh5struct=true'), ('-w', 'sub'), ('@reverse', ''), ('restart', 'false'), ('mult', 'blas'), ('dm', 'true'), ('diagratio', '1.0\nrestartfactor=1.5')]
    if not trunc: S += [('strategy', 'all'), ('lastall', 'true'), ('safeguardmax', '0')]
    return S

def models():
    """(spec, coupling, chain, cplx, sub)"""
    i = 0
    for s in SPECS:
        if s.ch == 3 and s.sym != 'SL': continue
        if s.ch == 2 and s.imp and s.sym in ('P', 'U1', 'SPU1', 'NONE'): continue
        n = 2 if s.ch == 1 or s.sl else 1
        cs, ks = couplings(s), coefs(s, n)
        i += 1
        for v in range(pick(1, 3)):
            nm, C = ks[(i + v) % len(ks)]
            if known_key(s.sym, C): nm, C = ks[0]
            yield s.sym, s.ch, s.imp, cs[(1 + i + v) % len(cs)], nm, C, n, '', i + v
        if s.cplx: yield s.sym, s.ch, s.imp, cs[(1 + i) % len(cs)], ks[0][0], ks[0][1], n, 'cplx', i
        if s.sub and (s.ch == 1 or not s.imp): yield s.sym, s.ch, s.imp, cs[(1 + i) % len(cs)], ks[0][0], ks[0][1], n, 'sub', i

def build(mo, trunc):
    sym, ch, imp, a, nm, C, n, mode, rot = mo
    m = Model(channels=ch, nimp=imp, **a)
    en, sc, extra = [e for e in ENERGIES if e[0] in ('rescaled', 'unscaled data')][rot % 2]
    par = pairs(extra); sub = mode == 'sub'; cplx = mode == 'cplx'
    if sc is None: sc = scale(0, par, sub, ch)
    D, s, g, p, t = plan(m, sym, cplx, rot)
    if sub: g, t = {}, {}
    D = dict(list(D.items())[:2 if ch == 1 else 1]); s = dict(list(s.items())[:2]); p = dict(list(p.items())[:1])
    if trunc: s = {'one': lambda F: F.I, **s}
    text, sec = data_file(m, sym, C, n, sc or 1.0, singlets=s, globals_=g, cplx=cplx, parity=p,
        doublets={k: (lambda F, sec, v=v: doublet_elements(F, sec, sym, m, v[0](F), v[1], True)[v[3]]) for k, v in D.items()},
        triplets={k: (lambda F, sec, v=v: triplet_elements(sec, sym, v(F))) for k, v in t.items()})
    if cplx: text = text.replace('#!9', '# COMPLEX\n#!9', 1)
    s.pop('one', 0)
    pairs_ = lambda A, B: [x + '-' + y for x in A for y in B]
    spd = [x + '-' + y + sx for x in D for y in D if D[x][1] == D[y][1] or sym[:3] != 'DBL' for sx, _ in D[x][2]]
    bos = pairs_(s, s) + pairs_(p, p) + pairs_(g, g) + pairs_(list(s)[:1], g)
    chit = [x for x in pairs_(s, s) + pairs_(list(s)[:1], g)][:3]
    keep = 100000 if not trunc else {1: 6, 2: 14}[min(ch, 2)] if not m.spinless else 3
    base = params(sym, C, extra) + 'keep=%d\nT=%r\nmats=3\nsavebins=true\nbroaden=false\nbins=100\nemin=1e-7\nemax=1000.\nprec_xy=16\nprec_td=14\nprec_custom=14\nwidth_td=22\nwidth_custom=22\nfdmexpvn=1\ncalc0=true\n' % (keep, (.3, 1., .05)[rot % 3])
    if trunc: base += 'strategy=all\nlastall=true\n'
    if cplx: base += 'reim=true\n'
    if sub: base += 'substeps=true\n'
    lists = {'specd': spd, 'specs': bos, 'spect': pairs_(t, t), 'specgt': spd, 'speci1t': spd[:1], 'speci2t': spd[-1:], 'specchit': chit}
    return base, lists, text

def ptext(base, lists, req=REQ, drop=(), extra=()):
    r = '[param]\n' + base + ''.join('%s=true\n' % k for k in req if k[:4] != 'spec')
    only = [x for x in drop if isinstance(x, tuple)]
    for k, v in lists.items():
        if only: v = [x for x in v if (k, x) in only]
        if k in drop or (k in ALG and k not in req): continue
        r += '%s=%s\n' % (k, ' '.join(v))
    over = {k for k, v in extra}
    if over: r = '\n'.join(l for l in r.split('\n') if l.split('=')[0] not in over)
    return r + ''.join('%s=%s\n' % kv for kv in extra if kv[0][0] not in '-@')

DUMPS = re.compile(r'^(param|data|log|DONE|raw.*\.h5|annotated\.dat|energies\.nrg|states\.nrg|report\.nrg|absolute_energies\.dat|subspaces\.dat|sub|.*\.core)$')
def results(d):
    out = {}
    for f in sorted(os.listdir(d)):
        if os.path.isdir(os.path.join(d, f)) or DUMPS.match(f): continue
        out[f] = get(d, f)
    return out
def run_one(d, text, p, extra=()):
    clean(d)
    if ('@reverse', '') in extra: text = reverse_ops(text)
    put(d, {'data': text, 'param': p})
    args = ()
    if any(k == '-w' for k, v in extra): os.mkdir(os.path.join(d, 'sub')); args = ('-w', 'sub')
    rc = core.nrg(d, args)
    log = (get(d, 'log') or b'').decode('latin1')
    if rc: return None, 'the run failed (status %d): %s' % (rc, re.sub(r'(?s)\s+\d+# 0x.*', '', log)[-300:])
    e = re.findall(r'Total energy: (\S+)', log)
    r = results(d); r['total energy'] = ' '.join(e).encode()
    done = os.path.exists(os.path.join(d, 'DONE'))
    if done != (('done', 'false') not in extra): return None, 'completion marker %s' % ('missing' if not done else 'written although disabled')
    left = [x for x in os.listdir(d) if os.path.isdir(os.path.join(d, x)) and x != 'sub'] + (os.listdir(os.path.join(d, 'sub')) if args else [])
    if left: return None, 'work directory not removed: %s' % left
    return r, None

def reverse_ops(text):
    """the operator blocks of the data file in the opposite order"""
    L = text.splitlines(True)
    st = [i for i, l in enumerate(L) if re.match(r'^[spgdt] \w', l)]
    if len(st) < 2: return text
    end = next((i for i in range(st[-1], len(L)) if re.match(r'^[zZ#\[]', L[i]) or (L[i][0].isalpha() and i > st[-1])), len(L))
    blocks = [L[a:b] for a, b in zip(st, st[1:] + [end])]
    return ''.join(L[:st[0]] + [x for b in reversed(blocks) for x in b] + L[end:])

def same(f, a, b, cplx, loose=0.):
    """-> None or description"""
    tol = 1e-8 + loose
    if a == b: return None
    if f.endswith('.bin'):
        (E1, w1), (E2, w2) = read_bin(a, cplx), read_bin(b, cplx)
        (h1, a1), (h2, a2) = hats(E1, w1), hats(E2, w2)
        d = np.abs(h1 - h2); k = int(np.argmax(d))
        if d[k] > tol * (1 + a1.sum()): return 'weight near %.3g: %s instead of %s' % (10 ** KNOTS[k % len(KNOTS)], h2[k], h1[k])
        return None
    x, y = [[[num(t) for t in l.split()] for l in z.decode().splitlines() if l.strip()] for z in (a, b)]
    if [len(l) for l in x] != [len(l) for l in y]: return '%d lines instead of %d, or of other lengths' % (len(y), len(x))
    for l, k in zip(x, y):
        sc = max([1.] + [abs(v) for v in l if isinstance(v, float)])
        for u, v in zip(l, k):
            if isinstance(u, str) or isinstance(v, str):
                if u != v: return '%r instead of %r' % (v, u)
            elif not abs(u - v) <= tol * sc: return '%r instead of %r' % (v, u)
def num(t):
    try: return float(t)
    except ValueError:
        m = re.match(r'^\((.*),(.*)\)$', t)
        return t if not m else float(m.group(1))

def alg_of(f):
    m = re.match(r'(corr|spec|spin|gt|i1t|i2t|chit)_([A-Za-z0-9]+)_dens_(.*)\.(bin|dat)$', f)
    return m.groups() if m else None
def expected_files(ref, req, drop):
    out = set()
    for f in ref:
        g = alg_of(f)
        if g:
            if KEY[g[1]] not in req: continue
            lst = {'corr': 'specs', 'spin': 'spect', 'spec': 'specd', 'gt': 'specgt', 'i1t': 'speci1t', 'i2t': 'speci2t', 'chit': 'specchit'}[g[0]]
            if lst in drop or any(isinstance(x, tuple) for x in drop) and (lst, g[2]) not in drop: continue
        elif f == 'customfdm' and 'fdmexpv' not in req: continue
        elif f == 'tdfdm' and not set(req) & {'fdm', 'fdmgt', 'fdmls', 'fdmmats', 'fdmexpv'}: continue
        out.add(f)
    return out

def job(c):
    mo, trunc, kind, items = c
    base, lists, text = build(mo, trunc)
    cplx = mo[7] == 'cplx'
    d = workdir()
    desc = '%s, %d channel(s), %d impurity orbital(s), %s, chain %s, Nmax %d%s%s' % (mo[0], mo[1], mo[2], mo[3], mo[4], mo[6], ', ' + mo[7] if mo[7] else '', ', truncated' if trunc else '')
    p0 = ptext(base, lists)
    ref, err = run_one(d, text, p0)
    if err: return [(desc + ': ' + err, {'param': p0, 'data': text}, None)], 0, 1
    bad = []; cnt = 0
    for it in items:
        req, drop, extra = it
        p = ptext(base, lists, req, drop, extra)
        r, err = run_one(d, text, p, extra)
        what = ', '.join('%s=%s' % kv for kv in extra).replace('\n', ' ') or 'requested %s, without %s' % ('+'.join(req) or 'nothing', '+'.join(drop if not drop or isinstance(drop[0], str) else ('everything except',) + tuple(k + ' ' + x for k, x in drop)) or 'nothing else')
        rep = {'param': p, 'data': text, 'param.reference': p0}
        if err: bad.append(('%s: with %s %s' % (desc, what, err), rep, None)); continue
        # a calculation without density matrices reports the total energy once
        if not set(req) & DM and not dict(extra).get('dm') and r['total energy'].split()[:1] == ref['total energy'].split()[:1]: r['total energy'] = ref['total energy']
        want = expected_files(ref, req, drop)
        if set(r) != want: bad.append(('%s: with %s the result files differ: missing %s, unexpected %s' % (desc, what, sorted(want - set(r))[:3], sorted(set(r) - want)[:3]), rep, None)); continue
        for f in sorted(want):
            cnt += 1
            x = ref[f]; y = r[f]
            if f.startswith('custom') and ('@reverse', '') in extra: x, y = canon(x), canon(y)
            q = same(f, x, y, cplx)
            if q: bad.append(('%s: with %s the results in %s change: %s' % (desc, what, f, q), rep, None)); break
    return bad, cnt, len(items) + 1
def canon(b):
    L = b.decode().splitlines(); return b

def partial_job(c):
    """partial diagonalisation: the states that are kept are those of the full diagonalisation"""
    mo, keep, ratio, cut = c
    base, lists, text = build(mo, True)
    d = workdir(); rt = 'zheevr' if mo[7] == 'cplx' else 'dsyevr'
    desc = '%s, %d channel(s), %d impurity orbital(s), %s, chain %s, Nmax %d%s, keep=%d' % (mo[0], mo[1], mo[2], mo[3], mo[4], mo[6], ', ' + mo[7] if mo[7] else '', keep)
    ex = [('keep', str(keep)), ('lastall', 'false'), ('dumpannotated', '100000'), ('dumpgroups', 'false'), ('dumpprecision', '14'), ('strategy', 'kept')] + ([('keepenergy', cut)] if cut else [])
    def levels(extra):
        p = ptext(base, lists, ('dmnrg',), ('specd', 'specs', 'spect'), ex + extra)
        r, err = run_one(d, text, p)
        if err: return None, err, p
        bl = [[(float(l.split()[0]), ' '.join(l.split()[1:])) for l in b.splitlines()] for b in (get(d, 'annotated.dat') or b'').decode().split('\n\n') if b.strip()]
        log = get(d, 'log').decode('latin1')
        nk = [int(x) for x in re.findall(r'nrkept=(\d+)', log)] if 'nrkept=' in log else None
        return (bl, r['custom'] if ratio == 1. else None), None, p
    A, err, p0 = levels([])
    if err: return (desc + ': ' + err, {'param': p0, 'data': text}, None), 0
    B, err, p = levels([('diag', rt), ('diagratio', repr(ratio)), ('restart', 'true')])
    rep = {'param': p, 'data': text, 'param.reference': p0}
    if err: return ('%s: with diagratio=%g %s' % (desc, ratio, err), rep, None), 0
    if len(A[0]) != len(B[0]): return ('%s: with diagratio=%g %d iterations instead of %d' % (desc, ratio, len(B[0]), len(A[0])), rep, None), 0
    cnt = 0
    for i, (a, b) in enumerate(zip(*[x[0] for x in (A, B)])):
        if len(b) > len(a): return ('%s: with diagratio=%g iteration %d has more states' % (desc, ratio, i), rep, None), 0
        # per subspace: the lowest states in the same order
        for q in {x for _, x in b}:
            ea, eb = [[e for e, y in z if y == q] for z in (a, b)]; cnt += 1
            if len(eb) > len(ea) or any(abs(x - y) > 1e-8 * (1 + abs(x)) for x, y in zip(ea, eb)): return ('%s: with diagratio=%g the states of subspace %s at iteration %d are %s instead of %s' % (desc, ratio, q, i, eb[:4], ea[:4]), rep, None), 0
        # enough states: all of those the truncation keeps
        if len(b) < min(keep, len(a)) and not cut: return ('%s: with diagratio=%g iteration %d has %d states, %d are to be kept of %d' % (desc, ratio, i, len(b), keep, len(a)), rep, None), 0
    return None, cnt

def go(c): return ('p',) + partial_job(c[1:]) if c[0] == 'p' else ('j',) + job(c[1:])

def cases():
    mos = list(models())
    # every single setting, for every classification, in two halves of the list
    for mo in mos:
        for trunc in (False, True):
            if trunc and mo[7] == 'sub': continue
            S = settings(mo[7] == 'cplx', trunc)
            if not thorough() and mo[1] > 1: S = S[(trunc + mo[8]) % 4::4]
            elif not thorough(): S = S[trunc::2]
            items = [(REQ, (), (x,)) for x in S]
            for k in range(0, len(items), 8): yield ('j', mo, trunc, 'single', items[k:k + 8])
    small = [mo for mo in mos if mo[0] in pick(('QS',), ('QS', 'SPSU2', 'QSZ', 'SL')) and mo[1] == 1]
    for mo in small:
        if mo[7] == 'sub' and not thorough(): continue
        S = settings(mo[7] == 'cplx', False)
        prs = [(x, y) for x, y in itertools.combinations(S, 2) if x[0] != y[0]]
        if not thorough(): prs = prs[(mo[7] == 'cplx')::4]
        items = [(REQ, (), p) for p in prs]
        for k in range(0, len(items), 12): yield ('j', mo, False, 'pairs', items[k:k + 12])
    # subsets of the requested quantities
    for mo in mos:
        full = (mo[0] in pick(('SL',), ('QS', 'SL', 'SPSU2', 'U1')) and mo[1] == 1 and mo[7] == '')
        for trunc in (True,) if not full else (False, True):
            if mo[7] == 'sub' and trunc: continue
            subs = [[r] for r in REQ] + [[r for r in REQ if r != x] for x in REQ]
            if full: subs += [[r for i, g in enumerate(COARSE) if k >> i & 1 for r in g] for k in range(2 ** len(COARSE))] + [list(x) for x in itertools.combinations(REQ, 2)]
            elif not thorough(): subs = subs[mo[8] % 4::4] if mo[1] == 1 else subs[mo[8] % 8::8]
            items = [(r, (), ()) for r in subs] + [(REQ, dr, ()) for dr in ((('specs',), ('specd',), ('spect',), ('specd', 'spect'), ('specs', 'specd', 'spect'), ('specgt', 'speci1t')) if thorough() or mo[1] == 1 else (('specs',), ('specd',))[mo[8] % 2:][:1])]
            lists = build(mo, trunc)[1]
            one = [(k, x) for k, v in lists.items() for x in v]
            off = [(k, x) for k, x in one if len(set(re.sub('-[ud]$', '', x).split('-'))) > 1]
            if not thorough(): one = (off or one)[mo[8] % 3::3 if mo[1] == 1 else 7]
            items += [(REQ, (x,), ()) for x in one]
            for k in range(0, len(items), 12): yield ('j', mo, trunc, 'subsets', items[k:k + 12])
    # partial diagonalisation
    for mo in mos:
        if mo[7] == 'sub' or (not thorough() and mo[8] % 2 and mo[1] > 1): continue
        for keep in pick((7,), (3, 7, 12, 30)):
            for ratio in pick((.3, .75), (.1, .3, .5, .75, .9, 1.)): yield ('p', mo, keep, ratio, '')
        if thorough(): yield ('p', mo, 40, .4, '1.5')

def body(c):
    core.BINARY['nrg'] = corebuild.build_core('nrgserver', 'nrgserver.cc', opt='-O1') if thorough() else corebuild.build_core('nrgserver', 'nrgserver.cc')
    cs = list(cases())
    cs.sort(key=lambda x: -x[1][1])
    per = collections.Counter(); runs = vals = 0
    for cc, r in zip(cs, pmap(go, cs, 1, c.deadline)):
        if r[0] == 'p': bad, k, n = ([r[1]] if r[1] else []), r[2], 2
        else: bad, k, n = r[1:]
        vals += k; runs += n; per[(cc[3] if r[0] == 'j' else 'partial')] += n
        c.note(n, repr((cc[0], cc[1][:4], cc[1][4], cc[1][6:], cc[2:])))
        for b in bad: c.violation(*b)
    if getattr(pmap, 'cut', False): c.cut()
    c.sample({'runs': dict(per)})
    c.cov['domain'] = len(cs); c.cov['states'] = runs; c.cov['transitions'] = vals; c.cov['traces_validated_against_impl'] = runs
    c.cov['files_compared'] = vals
    c.rule = 'every setting for every classification; all pairs of settings and all subsets of the requested quantities for small models; partial diagonalisation ratios'
    c.assumptions = ['the reference run itself is judged by C09 to C12']
if __name__ == '__main__': main(body, 'C14', budget=pick(500, 2400))
