"""C08: explicit-state exploration of the sector graph. From the sectors of every cluster of a classification, chain sites are
added by the solver's own bookkeeping (successors, ancestors, dimensions, task list); every reachable sector, every pair of
sectors of a shell and every whole shell is expanded and compared with the decomposition of the tensor product computed from
the multiplet content of a site. The real code is the transition function."""
import sys, os, re, itertools, collections, subprocess, functools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import corebuild
from ed import *

# kinds of quantum numbers: a: additive, 1: additive label 2m+1, m: multiplicative, S: multiplicity of SU(2), T: SO(3) angular momentum, 3: modulo 3
KIND = {'Q': 'a', 'SZ': '1', 'SS': 'S', 'II': 'S', 'II1': 'S', 'II2': 'S', 'P': 'm', 'Pa': 'm', 'Pb': 'm', 'LR': 'm', 'Q1': 'a', 'Q2': 'a', 'Q3': 'a', '0': '0'}
OTHER = {'QJ': 'aS', 'QST': 'aST', 'QSTZ': 'aSa', 'QSZTZ': 'a1a', 'SPSU2T': 'ST', 'QSC3': 'aS3', 'SPSU2C3': 'S3'}
CHANNELS = {'SL3': (3,), 'DBLQSZ': (2,), 'DBLSU2': (2,), 'DBLISOSZ': (2,), 'PP': (2,)}
def kinds(sym): return OTHER[sym] if sym in OTHER else ''.join(KIND[c] for c in SYMS[sym])
def mult_of(k, I): return int(np.prod([i if t == 'S' else 2 * i + 1 if t == 'T' else 1 for t, i in zip(k, I)] or [1]))

@functools.lru_cache(None)
def content(sym, ch, first=False, nimp=0):
    """multiplets of an added site (first: of the first site): {quantum numbers: how many}"""
    if sym in OTHER: return peel(sym)
    m = Model(channels=ch, nimp=nimp, spinless=sym[:2] == 'SL')
    F = m.fock(1)
    out = collections.Counter()
    for I, (E, B) in sectors(F, F.I * 0., sym, m).items():
        r = []
        for c, i in zip(SYMS[sym], I):
            if not first:
                if c == 'Q' and m.spinless: i -= ch
                elif c in ('Q1', 'Q2', 'Q3') and m.spinless: i -= 1
                elif c == 'P': i *= (-1) ** (ch + 1)
            r.append(i)
        out[tuple(r)] += len(E)
    return out
def peel(sym):
    """three channels carrying an orbital momentum: weights of the 64 states, highest weights by differences"""
    lv = []
    for s in (1, -1):
        for t in (-1, 0, 1):
            lv.append({'QST': (1, s, t), 'QSTZ': (1, s, t), 'QSZTZ': (1, s, t), 'SPSU2T': (s, t), 'QSC3': (1, s, t), 'SPSU2C3': (s, t)}.get(sym))
    if sym == 'QJ': lv = [(1, j) for j in (3, 1, -1, -3, 1, -1)]
    W = collections.Counter()
    for occ in itertools.product((0, 1), repeat=6):
        w = [sum(o * l[i] for o, l in zip(occ, lv)) for i in range(len(lv[0]))]
        if len(lv[0]) == len(OTHER[sym]) and OTHER[sym][0] == 'a': w[0] -= 3
        W[tuple(x % 3 if t == '3' else x for t, x in zip(OTHER[sym], w))] += 1
    for p, t in enumerate(OTHER[sym]):
        if t not in 'ST': continue
        d = 2 if t == 'S' else 1
        N = collections.Counter()
        for w, n in W.items():
            if w[p] >= 0: N[w] = n - W.get(w[:p] + (w[p] + d,) + w[p + 1:], 0)
        W = +N
    return {tuple(x + 1 if t in 'S1' else x for t, x in zip(OTHER[sym], w)): n for w, n in W.items()}

def product(k, A, B):
    r = [[]]
    for t, a, b in zip(k, A, B):
        o = [a + b] if t == 'a' else [a + b - 1] if t == '1' else [a * b] if t == 'm' else [0] if t == '0' else [(a + b) % 3] if t == '3' else list(range(abs(a - b) + 1, a + b, 2)) if t == 'S' else list(range(abs(a - b), a + b + 1))
        r = [x + [y] for x in r for y in o]
    return [tuple(x) for x in r]
@functools.lru_cache(200000)
def expand1(sym, ch, I):
    out = collections.Counter()
    for J, c in content(sym, ch).items():
        for K in product(kinds(sym), I, J): out[K] += c
    return dict(out)
def expand(sym, ch, group):
    out = {}
    for I, n in group.items():
        for K, c in expand1(sym, ch, I).items(): out[K] = out.get(K, 0) + n * c
    return out

_P = {}
def ask(head, groups):
    p = _P.get(os.getpid())
    if p is None or p.poll() is not None: p = _P[os.getpid()] = subprocess.Popen([BIN], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    txt = lambda I: ','.join(map(str, I))
    p.stdin.write('sectors ' + head + ' ' + ' '.join('/'.join('%s:%d' % (txt(I), n) for I, n in g.items()) for g in groups) + '\n'); p.stdin.flush()
    L = []
    while True:
        l = p.stdout.readline()
        if not l: return L + ['DIED %s' % p.wait()]
        if l == 'END\n': return L
        L.append(l.rstrip('\n'))

def run(case):
    sym, ch, sub, cplx, depth, width = case
    k = kinds(sym); head = '%s %d %d %d' % (sym, ch, sub, cplx)
    desc = '%s, %d channel(s)%s%s' % (sym, ch, ', interleaved' if sub else '', ', complex' if cplx else '')
    L = ask(head, [])
    if not L or not L[0].startswith('OK'): return case, None, 0, 0, [], 0   # this configuration is refused
    left, right = L[0].split('|')
    n = int(left.split()[1])
    cont = content(sym, 1 if sub else ch)
    dim = 4 if sub else (2 if sym[:2] == 'SL' else 4) ** ch
    qn = collections.Counter(); mul = {}
    parse = lambda s: tuple(map(int, s.split(',')))
    for x in right.split(): q, m_ = x.split('*'); qn[parse(q)] += 1; mul[parse(q)] = int(m_)
    if n != dim: return case, ('%s: %d combinations instead of %d' % (desc, n, dim), {}, None), 0, 0, [], 0
    # the multiplets of the added site: every one appears as often as it has members
    want = collections.Counter()
    for J, c in cont.items(): want[tuple(x - (t == '1') for t, x in zip(k, J))] += c * mult_of(k, J)   # (site states carry 2m, sectors 2m+1)
    if qn != want or any(mul[q] != mult_of(k, q) for q in qn if 'S' in k or 'T' in k): return case, ('%s: the states of the added site are %s, expected %s' % (desc, dict(qn - want), dict(want - qn)), {}, None), 0, 0, [], 0
    layer = set()
    for nimp in (0, 1) if sym not in OTHER and not (sym == 'SL3' or sym[:3] == 'DBL' or sym == 'PP') else (0,): layer |= set(content(sym, ch, True, nimp))
    if sym in OTHER or ch < 3: layer |= set(cont) if sym in OTHER else set()
    seen = set(layer); states = trans = pairs_ = 0
    sizes = []
    for step in range(depth):
        lay = sorted(layer)
        groups = [{I: 1 + i % 3} for i, I in enumerate(lay)]
        pr = list(itertools.combinations(lay, 2))
        groups += [{a: 1 + (i % 5), b: 2 + (i % 3)} for i, (a, b) in enumerate(pr[:width])]
        groups.append({I: 1 + (7 * i) % 11 for i, I in enumerate(lay)})
        groups += [{I: 1 + (3 * i) % 5 for i, I in enumerate(lay) if i % 3 != r} for r in range(3) if len(lay) > 3]
        L = ask(head, groups)[1:]
        if len(L) != len(groups): return case, ('%s: the solver refuses %s: %s' % (desc, groups[min(len(L), len(groups)) - 1], L[-1:]), {'groups': repr(groups)[:4000]}, None), states, trans, sizes, pairs_
        new = set()
        for g, l in zip(groups, L):
            body_, err = l.split(' !', 1) if ' !' in l else (l, ' ' + l)
            gd = lambda: ', '.join('%s x%d' % (I, c) for I, c in list(g.items())[:4])
            if err.strip(): return case, ('%s: shell %s: %s' % (desc, gd(), err.strip()[:200]), {'group': repr(g)}, None), states, trans, sizes, pairs_
            a, b = body_.split('->')
            own = {}
            for x in a.split():
                q, d_, m_, al = x.split(':')
                own[parse(q)] = (int(d_), int(m_))
                if int(m_) != mult_of(k, parse(q)) or al != '1': return case, ('%s: sector %s: multiplicity %s, allowed %s' % (desc, q, m_, al), {'group': repr(g)}, None), states, trans, sizes, pairs_
            got = {}; anc = {}
            for x in b.split():
                f = x.split(':'); I = parse(f[0]); got[I] = int(f[1]); trans += len(f) - 4
                if int(f[2]) != mult_of(k, I) or f[3] != '1': return case, ('%s: successor %s of %s: multiplicity %s, allowed %s' % (desc, I, gd(), f[2], f[3]), {'group': repr(g)}, None), states, trans, sizes, pairs_
            w = expand(sym, 1 if sub else ch, g)
            if got != w:
                d = {I: (got.get(I, 0), w.get(I, 0)) for I in set(got) | set(w) if got.get(I, 0) != w.get(I, 0)}
                I, v = sorted(d.items())[0]
                return case, ('%s: adding a site to %s gives sector %s with %d states instead of %d (%d sectors differ)' % (desc, gd(), I, v[0], v[1], len(d)), {'group': repr(g)}, None), states, trans, sizes, pairs_
            tot, exp = sum(c * mult_of(k, I) for I, c in got.items()), dim * sum(c * mult_of(k, I) for I, c in g.items())
            if tot != exp: return case, ('%s: %d states instead of %d after adding a site to %s' % (desc, tot, exp, gd()), {'group': repr(g)}, None), states, trans, sizes, pairs_
            new |= set(got); states += 1
        pairs_ += min(width, len(pr)); sizes.append(len(lay))
        layer = new; seen |= new
    return case, None, states, trans, sizes, pairs_

def cases():
    for sym in list(SYMS) + list(OTHER):
        chs = (3,) if sym in OTHER else CHANNELS.get(sym) or ((2,) if 'LR' in SYMS[sym] else (1, 2, 3))
        for ch in chs:
            for sub in (0, 1) if sym[:2] != 'SL' else (0,):
                for cplx in (0, 1):
                    depth = pick({1: 7, 2: 4, 3: 2}, {1: 14, 2: 7, 3: 4})[1 if sub else ch]
                    yield sym, ch, sub, cplx, depth - (cplx and sym not in ('QSC3', 'SPSU2C3')), pick(150, 1500)
def body(c):
    global BIN
    BIN = corebuild.build_core('probe', 'probe.cc', opt=pick('-O0', '-O1'))
    cs = sorted(cases(), key=lambda x: -x[1]); have = collections.Counter(); tot = [0, 0]; nbad = 0
    for case, bad, st, tr, sizes, pr in pmap(run, cs, 1, c.deadline):
        c.note(max(1, st), repr(case))
        tot[0] += st; tot[1] += tr
        if bad: c.violation(*bad); nbad += 1
        elif st: have[case[0]] += 1; c.sample({'case': repr(case), 'sectors per shell': sizes, 'shells expanded': st, 'pairs': pr})
    if getattr(pmap, 'cut', False): c.cut()
    missing = [s for s in list(SYMS) + list(OTHER) if not have[s]]
    if missing and not nbad: c.violation('no configuration of the classifications %s is available' % missing, {}, None)
    c.cov['domain'] = len(cs); c.cov['states'] = tot[0]; c.cov['transitions'] = tot[1]; c.cov['traces_validated_against_impl'] = tot[0]; c.cov['classifications'] = len(have)
    c.rule = 'all sectors reachable within the depth from every cluster; single sectors, pairs within a shell, and whole shells'
    c.assumptions = ['the bookkeeping is linear in the dimensions of the sectors (checked for pairs and whole shells)']
if __name__ == '__main__': main(body, 'C08', level='model_checking')
