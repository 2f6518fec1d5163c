"""T12: instantiate. Small templates x symmetry types x Hamiltonian expressions x layouts x parameters, every expression of bounded size over the
evaluator's grammar, every damaged template, and one fault at every system call, on the real tool. Oracle: own evaluation of the expressions, own
diagonalisation, the standalone chain generator."""
import sys, os, re, math, struct, itertools, errno, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import corebuild, T11
import numpy as np
BIN = {}
PARAM = dict(Lambda='2', band='flat', adapt='false', xmax='15', mMAX='12', Nmax='3', z='1.0', keep='10', T='0.001')
EXTRA = {'eps': '-0.25', 'U': '1.5', 'x_1': '3', 'G2': '1e-1', 'name': 'text', 'tiny': '2e-3'}
VARS = {'eps': -.25, 'U': 1.5, 'x_1': 3., 'G2': .1, 'tiny': 2e-3, 'Pi': math.pi, 'pi': math.pi}
# symmetry type -> (subspaces with dimensions, chain blocks, pairs for singlets, pairs for doublets)
SYM = {
 'QS': ([('-1 1', 1), ('0 2', 2), ('1 1', 1)], [[('1 1', '0 2'), ('0 2', '-1 1')]], [('0 2', '0 2'), ('1 1', '1 1')], [('1 1', '0 2')]),
 'U1': ([('-1', 1), ('0', 2), ('1', 1)], [[('1', '0'), ('0', '-1')], [('0', '-1')]], [('0', '0'), ('-1', '-1')], [('0', '-1'), ('1', '0')]),
 'QSZ': ([('-1 0', 1), ('0 -1', 1), ('0 1', 2), ('1 0', 1)], [[('0 1', '-1 0'), ('1 0', '0 -1'), ('0 -1', '-1 0'), ('1 0', '0 1')]], [('0 1', '0 1')], [('0 1', '-1 0')]),
 'SPSU2': ([('1', 3), ('2', 2)], [[('2', '1'), ('1', '2')]], [('1', '1'), ('2', '2')], [('1', '2')]),
}
H = {1: [('{{eps}}', [[-.25]]), ('eps*2 + U/4', [[-.125]]), ('{ -coefxi[1,2] }', 'c'), ('# comment {{9}}\n{{ gammaPolCh(1)\n+ 0 }} # end\n', 'g'), ('{{coefzeta(1,1)-2}}', 'z'), ('{{0}}', [[0.]])],
     2: [('{{eps, 1}, {1, U}}', [[-.25, 1], [1, 1.5]]), ('{{2, 0},\n {0, -1}}', [[2, 0], [0, -1.]]), ('{ {1/2,Sqrt[4]} ,{sqrt(4.0),-(1-U)*2} }', [[.5, 2], [2, 1.]]), ('{{U,tiny},{tiny,U+eps*4}}', [[1.5, 2e-3], [2e-3, .5]])],
     3: [('{{1,2,0},{2,eps,U},{0,U,-3}}', [[1, 2, 0], [2, -.25, 1.5], [0, 1.5, -3]]), ('{{3,0,0},{0,2,0},{0,0,1}}', [[3., 0, 0], [0, 2, 0], [0, 0, 1]])]}
PR = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]
def opmat(n, m, k): return [[PR[(k * 5 + i * 3 + j) % 12] * (-1) ** (i + j + k) / 4. + (i == j) for j in range(m)] for i in range(n)]

class T(object):
    """one template with its files and the expected data file"""
    def __init__(s, sym, hsel=0, scale='1', comments=0, order=0, opfiles=0, nmax='3', param={}, extra=EXTRA, tail='', where='template', exprs=()):
        subs, fb, sp, dp = SYM[sym]; dim = dict(subs)
        s.param = dict(PARAM, symtype=sym, Nmax=nmax, **dict(param)); s.sym = sym; s.extra = extra
        s.files = {}; s.subs = subs; s.hs = {}; s.ops = []; s.scale = float(scale); L = []
        def com(i, t):
            if comments & i: L.append(t)
        L += ['# Input file', '# symtype  ' + sym, '#!9']
        com(1, '# Number of channels'); com(2, '')
        L += ['1 0 %d' % len(subs), '# SCALE  ' + scale]; com(4, '# energies'); 
        for i, (qn, n) in enumerate(subs):
            com(8, '#   subspace %d  ' % i); com(2, '   ')
            m = H[n][(hsel + i * (hsel // 7)) % len(H[n])]; f = 'ham_%d' % i
            L += [qn if not comments & 16 else '  ' + qn.replace(' ', '\t') + ' ', str(n), 'DIAG ' + f]; s.files[f] = m[0]; s.hs[qn] = m[1]
        blocks = []; k = [0]
        def block(header, pairs):
            b = [header, str(len(pairs))]; ms = []
            for p, q in pairs:
                M = opmat(dim[p], dim[q], k[0]); k[0] += 1
                b.append(p + ' ' + q)
                if opfiles & (1 << (k[0] % 3)): f = 'o_%d' % k[0]; s.files[f] = '{' + ','.join('{' + ', '.join('%r' % x if x >= 0 else '-%r' % -x for x in r) + '}' for r in M) + '}'; b.append(f)
                else: b += [' '.join(repr(x) for x in r) for r in M]
                ms.append((p, q, M))
            blocks.append((b, (header, ms)))
        for i, ps in enumerate(fb): block('f 0 %d' % i, ps)
        nf = len(blocks); 
        blocks.append((['e', '7.5'], None))
        block('s XX', sp); block('d A', dp); block('p nothing', [])
        if order & 2: block('g Gop', sp[:1])
        for i, (text, v) in enumerate(exprs): s.files['ox%d' % i] = text; blocks.append((['s ex%d' % i, '1', subs[-1][0] + ' ' + subs[-1][0], 'ox%d' % i], ('s ex%d' % i, [(subs[-1][0], subs[-1][0], [[v]])])))
        rest = blocks[nf:]
        if order & 1: rest = rest[1:] + rest[:1]
        if order & 4: rest = rest[::-1]
        com(1, '# chain operators')
        s.expect = []
        for i, (b, e) in enumerate(blocks[:nf] + rest):
            
            if not 0 < i < nf: com(8, '# block %d' % i)      # the chain operators are read as one group
            com(2, ' '); L += b; s.expect.append(e)
        s.meaning = len(L); s.lines = L + (tail.split('\n') if tail else []); s.where = where
    def text(s): return '\n'.join(s.lines) + '\n'
    def ptext(s): return '[extra]\n' + ''.join('%s=%s\n' % x for x in s.extra.items()) + '# comment\n[param]\n' + ''.join('%s=%s\n' % x for x in s.param.items())
    def put(s, d, more={}):
        w = '' if s.where == '.' else s.where + '/'
        if w: os.makedirs(os.path.join(d, w), exist_ok=True)
        put(d, dict({'param': s.ptext()}, **{w + 'data.in': s.text()}, **{w + f: t for f, t in s.files.items()}, **more))

_chain = {}
def chain(param, files={}):
    key = repr((sorted(param.items()), sorted(files.items())))
    if key not in _chain:
        d = workdir() + '.chain'; os.makedirs(d, exist_ok=True); clean(d); put(d, dict(files, param='[param]\n' + ''.join('%s=%s\n' % (k, v) for k, v in param.items() if k not in ('symtype', 'keep', 'T'))))
        r = run([BIN['nrgchain']], d)
        if r.rc: return None
        _chain[key] = tuple([float(x) for x in get(d, f).split()] for f in ('theta.dat', 'xi.dat', 'zeta.dat'))
    return _chain[key]
def value(h, ch):
    if isinstance(h, list): return np.array(h, dtype=float)
    th, xi, ze = ch
    return np.array([[{'c': -xi[2], 'g': math.sqrt(th[0] / math.pi), 'z': ze[1] - 2}[h]]])
def close(a, b, t=1e-12): return abs(a - b) <= t * (1 + abs(b))

def compare(t, out, stdout, files={}):
    """-> None or the difference between the data file and the template's meaning"""
    ch = chain(t.param, files)
    if ch is None: return 'the standalone chain generator fails'
    lines = out.decode().split('\n')
    if lines[-1] != '': return 'the last line is not complete'
    comments = [l.strip() for l in lines[:-1] if l.startswith('#')]
    want = [l.strip() for i, l in enumerate(t.lines) if l.strip().startswith('#') and (i < t.meaning or not any(x[:1] in 'TzZ' for x in t.lines[t.meaning:i]))]
    if comments != want: return 'comments %r, in the template %r' % (comments[:8], want[:8])
    rows = [l.split() for l in lines[:-1] if not l.startswith('#')]
    if any(not r for r in rows): return 'an empty line'
    pos = [0]
    def row():
        if pos[0] >= len(rows): raise ValueError('ends early')
        pos[0] += 1; return rows[pos[0] - 1]
    def expect(w):
        r = row()
        if r != w.split(): raise ValueError('line %r, expected %r' % (' '.join(r), w))
    try:
        expect('1 %s %d' % (t.param['Nmax'], len(t.subs)))
        ev = {}; V = {}
        for q, n in t.subs:
            w, v = np.linalg.eigh(value(t.hs[q], ch)); ev[q] = w; V[q] = v
        gs = min(w[0] for w in ev.values())
        for q, n in t.subs:
            expect(q); expect(str(n)); r = [float(x) for x in row()]
            if len(r) != n or any(not close(x, (y - gs) / t.scale) for x, y in zip(r, ev[q])): raise ValueError('energies of %s: %r, exact %r' % (q, r, list((ev[q] - gs) / t.scale)))
        got = []
        for e in t.expect:
            if e is None:
                expect('e'); r = row()
                if len(r) != 1 or not close(float(r[0]), gs): raise ValueError('ground-state energy %r, exact %r' % (r, gs))
                continue
            expect(e[0]); expect(str(len(e[1])))
            for p, q, M in e[1]:
                expect(p + ' ' + q); A = np.array([[float(x) for x in row()] for _ in range(len(M))])
                M = np.array(M, dtype=float)
                if A.shape != M.shape: raise ValueError('shape of %s' % e[0])
                got.append((p, q, A, V[p].T @ M @ V[q], e[0]))
        # the signs of the eigenvectors are free
        idx = [(q, i) for q, n in t.subs for i in range(n)]
        sign = {}
        for root in idx:                       # propagate along nonzero elements
            if root in sign: continue
            sign[root] = 1; todo = [root]
            while todo:
                x = todo.pop()
                for p, q, A, B, _ in got:
                    for i in range(A.shape[0]):
                        for j in range(A.shape[1]):
                            a, b = (p, i), (q, j)
                            if abs(B[i, j]) < 1e-6 or x not in (a, b): continue
                            o = b if x == a else a
                            if o not in sign: sign[o] = sign[x] * (1 if A[i, j] * B[i, j] > 0 else -1); todo.append(o)
        for p, q, A, B, name in got:
            C = np.array([[sign[p, i] * sign[q, j] * B[i, j] for j in range(B.shape[1])] for i in range(B.shape[0])])
            if not np.all(np.abs(A - C) <= 1e-11 * (1 + np.abs(C)).max()): raise ValueError('matrix of %s (%s|%s): %r, exact up to signs %r' % (name, p, q, A.tolist(), C.tolist()))
        expect('z'); n = int(t.param['Nmax'])
        for tab, w in zip('xi zeta'.split(), ch[1:]):
            expect(str(n)); r = [float(row()[0]) for _ in range(n + 1)]
            if any(not close(x, y, 1e-14) for x, y in zip(r, w)) : raise ValueError('%s table %r, standalone chain generator %r' % (tab, r, w[:n + 1]))
        if pos[0] != len(rows): raise ValueError('%d more lines: %r' % (len(rows) - pos[0], rows[pos[0]][:5]))
        m = re.search(r'E_gs=(\S+)', stdout)
        if not m or not close(float(m.group(1)), gs): raise ValueError('E_gs=%r on standard output, exact %r' % (m and m.group(1), gs))
    except (ValueError, IndexError, KeyError) as e: return 'data file: %s' % e
    return None

# ---------------------------------------------------------------- expressions
ATOM = [('2', 2.), ('0.5', .5), ('eps', -.25), ('3e0', 3.), ('x_1', 3.)]
def ev(e):
    if len(e) == 2: return e[1]
    if e[0] == 'n': return -ev(e[1])
    a, b = ev(e[1]), ev(e[2])
    if e[0] == '/':
        if b == 0: raise ZeroDivisionError
        return a / b
    return a + b if e[0] == '+' else a - b if e[0] == '-' else a * b
PRE = {'+': 1, '-': 1, '*': 2, '/': 2}
def text(e, full, sp):
    if len(e) == 2: return e[0]
    if e[0] == 'n':
        x = text(e[1], full, sp); return '-' + (x if len(e[1]) == 2 or e[1][0] == 'n' else '(' + x + ')')
    a, b = text(e[1], full, sp), text(e[2], full, sp)
    pa = len(e[1]) == 3 and e[1][0] != 'n' and (full or PRE[e[1][0]] < PRE[e[0]]); pb = len(e[2]) == 3 and e[2][0] != 'n' and (full or PRE[e[2][0]] <= PRE[e[0]])
    return ('(%s)' % a if pa else a) + sp + e[0] + sp + ('(%s)' % b if pb else b)
def trees(n, atoms):
    if n == 1: yield from atoms; return
    for k in range(1, n):
        for a in trees(k, atoms):
            for b in trees(n - k, atoms):
                for o in '+-*/': yield (o, a, b)
def expressions():
    seen = set()
    def out(s, v):
        if s not in seen and math.isfinite(v): seen.add(s); return [(s, v)]
        return []
    def all_trees():
        yield from trees(1, ATOM); yield from trees(2, ATOM); yield from trees(3, ATOM[:pick(3, 5)])
        for x in trees(2, ATOM[:3]): yield ('n', x, 0)
        neg = [('n', a, 0) for a in ATOM[:3]] + [('n', ('n', ATOM[2], 0), 0)]
        yield from trees(2, neg + ATOM[:3]); yield from trees(3, neg[:1] + ATOM[:1] + ATOM[2:3])
        if thorough(): yield from trees(4, ATOM[:3])
    for e in all_trees():
        try: v = ev(e)
        except ZeroDivisionError: continue
        for full, sp in ((0, ''), (1, ' '), (0, '\n ')): yield from out(text(e, full, sp), v)
    for name, f in (('Sqrt', math.sqrt), ('sqrt', math.sqrt), ('exp', math.exp), ('log', math.log), ('Conjugate', lambda x: x)):
        for a, v in list(ATOM) + [('2+eps', 1.75), ('U*(1-eps)', 1.875), ('(4)', 4.), ('sqrt(16)', 4.), ('+U', 1.5), ('1/4', .25)]:
            try: y = f(v)
            except ValueError: continue
            for br in ('()', '[]'):
                yield from out('%s%s%s%s' % (name, br[0], a, br[1]), y); yield from out('2*%s %s %s %s - eps' % (name, br[0], a, br[1]), 2 * y + .25); yield from out('{{1/%s%s%s%s}}' % (name, br[0], a, br[1]), 1 / y)
    for s, v in (('Pi', math.pi), ('pi/2', math.pi / 2), ('2.', 2.), ('.5', .5), ('1E2', 100.), ('1e+2', 100.), ('12.5e-1', 1.25), ('--2', 2.), ('+-+2', -2.), ('- - eps', -.25), ('2--3', 5.), ('2*-3', -6.), ('2/-4', -.5), ('((2))', 2.), ('{2}', 2.), ('{{2}}', 2.), ('# c\n2#d\n', 2.), ('G2', .1), ('tiny*1e3', 2e-3 * 1e3), ('1e-20', 0.), ('-3e-14', -3e-14), ('123456789.123', 123456789.123), ('2-3-4', -5.), ('24/4/2', 3.), ('2*3/4*5', 7.5), ('2+3*4-5', 9.), ('1-(2-3)', 2.), ('\t2\r\n', 2.)): yield from out(s, v)
    for i in range(4):
        for ch in ('1', '2-1', '0.5*2'): yield ('coefxi[%s,%d]' % (ch, i), ('xi', i)); yield ('coefzeta(%s, %d)' % (ch, i), ('zeta', i))
    yield ('gammaPolCh[1]', ('g',)); yield ('gammaPolCh ( 3-2 )', ('g',))
WRONG = ['1/0', '2/(eps+0.25)', 'nope', 'name', 'eps2', 'ep', 'Eps', 'sin(1)', 'sqrt()', 'sqrt(1,2)', 'sqrt 2', 'coefxi[1]', 'coefxi[1,-1]', 'coefxi[1,99999]', 'coefxi[0,0]', 'coefxi[2,0]', 'coefxi[1,0.5]', 'coefxi[1.5,0]', 'coefxi[1,2', 'coefzeta[1,99999]', 'coefzeta[1,-1]',
         'gammaPolCh[0]', 'gammaPolCh[2]', 'gammaPolCh[1.2]', 'gammaPolCh[]', '', ' ', '#2', '1 2', '1..2', '1e', '1,2', '(1', '1)', '()', '2+', '*2', '2**3', '2^3', '2//3', '{1,{2}}', '{{1},2}', '{{1,2}}', '{{1},{2}}', '{{1,2},{3}}', '{}', '{{}}', '{{1}', '{1}}', '{{1}} 2', '{{{1}}}', '{{1};}',
         'sqrt(-1)', 'sqrt(eps)', 'log(0)', 'log(-1)', 'exp(1000)', '1e308*10', '1e400', 'nan', 'inf', '0*exp(1000)', '1-exp(1000)', '!echo 1', ' !ls\n1', 'parse("x")', 'parse x', '1x', 'x_1y', '2eps', '$1', '1;', '"1"', "'1'", '%', '1e5e5', '0.1.2', '-', '+', 'coefxi[1;0]', 'coefxi(1,0]', 'sqrt[4)', 'coefxi[4294967297,0]', 'coefxi[1,4294967296]', 'gammaPolCh[4294967297]']

# ---------------------------------------------------------------- jobs
OPT = [[], ['--generate-temporaries'], ['--diag-seed-only'], ['--generate-temporaries', '--param', 'pfile'], ['--template-dir', 'other'], ['--param', 'pfile']]
ASYM = {'Bath.dat': ''.join('%r %r\n' % x for x in T11.BATH), 'FSOL.dat': ''.join('%r %r\n' % x for x in T11.FS), 'FSOLNEG.dat': ''.join('%r %r\n' % (a, b * .9) for a, b in T11.FS)}
ASY = dict(band='asymode', dos='Bath.dat', bandrescale='1.5', xmax='10', mMAX='6')
def good(job):
    args, opt, files, stale = job
    t = T(**dict(args)); d = workdir(); clean(d)
    t.put(d, dict(files, **({'data': 'stale\n'} if stale else {})))
    if '--template-dir' in opt: os.rename(os.path.join(d, 'template'), os.path.join(d, 'other'))
    if '--param' in opt: os.rename(os.path.join(d, 'param'), os.path.join(d, 'pfile'))
    before = set(os.listdir(d))
    r = run([BIN['instantiate']] + list(opt), d)
    rep = {'param': t.ptext(), 'data.in': t.text(), 'files': t.files, 'options': opt}
    what = 'instantiate %s %r' % (' '.join(opt), args)
    if r.rc: return '%s: status %d %s' % (what[:300], r.rc, r.err[-300:]), rep
    if '--diag-seed-only' in opt:
        gs = min(np.linalg.eigvalsh(value(t.hs[q], chain(t.param, files)))[0] for q, _ in t.subs); g = re.search(r'E_gs=(\S+)', r.out)
        m = None if g and close(float(g.group(1)), gs) else 'E_gs: %r, exact %r' % (g and g.group(1), gs)
        if not stale and get(d, 'data') is not None: m = 'writes the data file'
    else: m = compare(t, get(d, 'data') or b'', r.out, files)
    if m: return '%s: %s' % (what[:300], m), rep
    if not {'--generate-temporaries', '--diag-seed-only'} & set(opt):
        left = set(os.listdir(d)) - before - {'data'}
        if left: return '%s: leaves %r' % (what[:300], sorted(left)), rep
    else:
        ch = chain(t.param, files)
        for f, w in zip(('theta1.dat', 'xi1.dat', 'zeta1.dat'), ch):
            x = get(d, f)
            if x is None or any(not close(float(a), b, 1e-14) for a, b in zip(x.split(), w)) or len(x.split()) != len(w): return '%s: %s differs from the standalone chain generator' % (what[:300], f), rep
        for q, n in t.subs:
            H_, f = value(t.hs[q], ch), 'ham.' + q.replace(' ', '.')
            x = get(d, f); x = [[float(v) for v in l.split()] for l in x.decode().splitlines()] if x else None
            if x is None or np.array(x).shape != H_.shape or np.abs(np.array(x) - H_).max() > 1e-14: return '%s: %s is %r, the matrix is %r' % (what[:300], f, x, H_.tolist()), rep
            b = get(d, f.replace('ham', 'vec')) or b''
            if len(b) != 8 + 8 * n * n or struct.unpack('II', b[:8]) != (n, n): return '%s: vec.%s has %d bytes' % (what[:300], q, len(b)), rep
            v = np.array(struct.unpack('%dd' % (n * n), b[8:])).reshape(n, n); w = np.linalg.eigvalsh(H_)
            if np.abs(v @ H_ @ v.T - np.diag(w)).max() > 1e-12 * (1 + np.abs(H_).max()) or np.abs(v @ v.T - np.eye(n)).max() > 1e-12: return '%s: vec.%s does not diagonalise the matrix: %r' % (what[:300], q, v.tolist()), rep
        x = [float(v) for v in (get(d, 'val') or b'').split()]; y = list(w / t.scale)
        if len(x) != len(y) or any(not close(a, c) for a, c in zip(x, y)): return '%s: val is %r, exact %r' % (what[:300], x, y), rep
        secs = {'param': t.param, 'extra': t.extra}
        for k in secs:
            x = (get(d, ('pfile' if '--param' in opt else 'param') + '.' + k) or b'').decode()
            if dict(l.split('=', 1) for l in x.splitlines() if '=' in l) != secs[k]: return '%s: the file of section %s is %r' % (what[:300], k, x), rep
    return None
def wrong(job):
    text, where = job
    t = T('QS', exprs=[(text, 0)] if where == 'op' else ()); d = workdir(); clean(d)
    if where != 'op': t.files['ham_0'] = text
    t.put(d, {'data': 'stale\n'})
    r = run([BIN['instantiate']], d); rep = {'text': text, 'param': t.ptext(), 'data.in': t.text()}
    if r.rc in (0, -11, -8, -9, -7): return 'expression %r in %s: status %d, data %r' % (text, where, r.rc, (get(d, 'data') or b'')[-200:]), rep
    if get(d, 'data') not in (None, b'stale\n'): return 'expression %r in %s is refused, but the data file is written' % (text, where), rep
    return None
def refuse(job):
    what, files, opt = job
    d = workdir(); clean(d)
    for f in files:
        if '/' in f: os.makedirs(os.path.join(d, os.path.dirname(f)), exist_ok=True)
    put(d, dict({'data': 'stale\n'}, **files))
    r = run([BIN['instantiate']] + opt, d)
    if r.rc in (0, -11, -8, -9, -7): return '%s: status %d, data %r' % (what, r.rc, (get(d, 'data') or b'')[-200:]), {'files': files}
    if get(d, 'data') not in (None, b'stale\n'): return '%s: refused, but the data file is written' % what, {'files': files}
    return None
def same(job):
    """damaged template: refused, or without any effect on the data file"""
    what, files, ref = job
    d = workdir(); clean(d)
    for f in files:
        if '/' in f: os.makedirs(os.path.join(d, os.path.dirname(f)), exist_ok=True)
    put(d, files); r = run([BIN['instantiate']], d)
    if r.rc == 0 and get(d, 'data') == ref: return None
    if r.rc in (0, -11, -8, -9, -7): return '%s: status %d, data %r' % (what, r.rc, (get(d, 'data') or b'')[-200:]), {'files': files}
    return None
def fault(job):
    i, a, b = job[0]; case, ref, what = job[1], job[2], job[3]
    rc, fired, ev_, out, err = T11.execute(workdir(), case, case.files, [job[0]])
    if not fired: return '%s: the fault is not reached' % what, {}
    if rc in (-11, -8, -9, -7): return '%s: ends by signal %d' % (what, -rc), {}
    if rc == 0 and {k: v for k, v in out.items() if k == 'data'} != ref: return '%s: status 0, data %r' % (what, (out.get('data') or b'')[-80:]), {}
    return None
def wilson(job):
    param, files, mode = job
    d = workdir(); clean(d); put(d, dict(files, param='[param]\n' + ''.join('%s=%s\n' % x for x in param.items())))
    r = run([BIN['instantiate'], '--wilson-only'], d); ch = chain(param, files)
    if ch is None: return None if r.rc else ('wilson-only %r succeeds, the standalone tool does not' % (param,), {'param': param})
    if r.rc: return 'wilson-only %r: status %d %s' % (param, r.rc, r.err[-200:]), {'param': param}
    for f, w in zip(('theta1.dat', 'xi1.dat', 'zeta1.dat'), ch):
        x = [float(a) for a in get(d, f).split()]
        if len(x) != len(w) or any(not close(a, b, 1e-14) for a, b in zip(x, w)): return 'wilson-only %r: %s %r, standalone tool %r' % (param, f, x[:4], w[:4]), {'param': param}
    return None
KIND = {'good': good, 'wrong': wrong, 'refuse': refuse, 'same': same, 'fault': fault, 'wilson': wilson}
def one(x): return x[0], KIND[x[0]](x[1])

def jobs():
    for sym in SYM:
        for hsel in range(pick(14, 42)):
            for opf in range(8): yield 'good', ((('sym', sym), ('hsel', hsel), ('opfiles', opf), ('scale', ['1', '2', '0.25', '1.5e-1'][(hsel + opf) % 4]), ('comments', (hsel * 5 + opf * 3) % 32), ('order', (hsel + opf) % 8)), [], {}, hsel % 2)
        for com in range(32):
            for order in range(8): yield 'good', ((('sym', sym), ('hsel', com), ('comments', com), ('order', order), ('opfiles', com % 8)), [], {}, com % 2)
        for opt in OPT:
            for nm in ('1', '2', '3', '5', '8'): yield 'good', ((('sym', sym), ('nmax', nm), ('hsel', int(nm))), opt, {}, 1)
            yield 'good', ((('sym', sym), ('param', tuple(ASY.items())), ('hsel', 2)), opt, ASYM, 0)
        for tail in ('z\n1 2 3', 'Z', 'T\n#x', 'z', '# the end', ''): yield 'good', ((('sym', sym), ('tail', tail)), [], {}, 0)
        for i in range(pick(14, 42)): yield 'good', ((('sym', sym), ('hsel', i), ('scale', '0.5')), ['--generate-temporaries'] if i % 2 else ['--diag-seed-only'], {}, 0)
        yield 'good', ((('sym', sym), ('where', '.'), ('hsel', 1), ('opfiles', 7)), [], {}, 0)
        for L in ('2', '3', '1.5', '4.25'):
            for z in ('1', '0.75', '0.5'):
                for band in ({}, ASY): yield 'good', ((('sym', sym), ('param', tuple(dict(band, Lambda=L, z=z).items())), ('hsel', 3)), [], ASYM if band else {}, 0)
    ex = list(expressions())
    for i in range(0, len(ex), 250): yield 'expr', tuple(ex[i:i + 250])
    for w in WRONG:
        for where in ('op', 'ham'): yield 'wrong', (w, where)
    for L in ('1.1', '2', '3', '7.5'):
        for z in ('1', '0.5', '0.1'):
            for nm in ('0', '1', '4'):
                for band in ({}, ASY, dict(ASY, dos='missing'), dict(band='nope')): yield 'wilson', (dict(dict(PARAM, **band), Lambda=L, z=z, Nmax=nm), ASYM, 0)
    t = T('QS', opfiles=2, comments=0)
    base = dict({'param': t.ptext(), 'template/data.in': t.text()}, **{'template/' + f: x for f, x in t.files.items()})
    P = t.ptext()
    for what, p in [('without %s' % k, re.sub(r'(?m)^%s=.*\n' % k, '', P)) for k in ('Nmax', 'symtype')] + [('%s=%s' % (k, v), re.sub(r'(?m)^%s=.*\n' % k, '%s=%s\n' % (k, v), P)) for k, v in
            (('Nmax', 'x'), ('Nmax', '3.5'), ('Nmax', '-1'), ('Nmax', ''), ('Nmax', '3x'), ('symtype', 'nope'), ('symtype', 'U1'), ('symtype', 'SPSU2'), ('symtype', ''), ('Lambda', 'x'), ('Lambda', '1'), ('Lambda', '0'), ('z', 'x'), ('z', '2'), ('z', '-1'), ('xmax', 'x'), ('mMAX', 'x'), ('band', 'nope'), ('keep', 'x'), ('T', 'x'), ('T', 'nan'), ('mMAX', '1x'), ('mMAX', '0'), ('mMAX', '-1'), ('xmax', '-1'))] + \
            [('with ' + x, P + x + '\n') for x in ('preccpp=-1', 'preccpp=5', 'polarized=true', 'polarized=maybe', 'symtype=QS', 'Nmax=3')] + [('without [param]', P.replace('[param]', '')), ('an empty parameter file', '')]:
        yield 'refuse', ('parameters ' + what, dict(base, param=p), [])
    for o in (['--nope'], ['--param'], ['--param', 'none'], ['--template-dir', 'none'], ['--template-dir'], ['--wilson-only', '--diag-seed-only'], ['x']): yield 'refuse', ('options %r' % o, base, o)
    for f in base: yield 'refuse', ('without ' + f, {k: v for k, v in base.items() if k != f}, [])
    for sym in SYM:
        t = T(sym, opfiles=2, scale='0.5'); base = dict({'param': t.ptext(), 'template/data.in': t.text()}, **{'template/' + f: x for f, x in t.files.items()})
        L = t.lines
        yield 'ref', (sym, base)
        for i, l in enumerate(L):
            d = lambda x: dict(base, **{'template/data.in': '\n'.join(x) + '\n'})
            if not l.startswith('#') or l.startswith('# SCALE') or l.startswith('#!') or 'symtype' in l:
                yield 'damage', (sym, 'line %d (%s) removed' % (i, l), d(L[:i] + L[i + 1:]))
                if not l.startswith('#'): yield 'damage', (sym, 'line %d (%s) twice' % (i, l), d(L[:i + 1] + L[i:]))
            if l[:2] not in ('s ', 'd ', 'p ', 'g '): yield 'damage', (sym, 'cut before line %d (%s)' % (i, l), d(L[:i]))      # otherwise a complete template with fewer operators
            for m in re.finditer(r'\S+', l):
                if l.startswith('#') and not (l.startswith('# SCALE') or l.startswith('#!')): continue
                for b in ['x', '1.5.2', '-', '99'] + (['1e400', 'nan', '0x1p'] if re.match(r'^-?[\d.]+$', m.group()) else []):
                    if m.group() in ('#', 'XX', 'A', 'nothing', 'SCALE') and b == '99': continue
                    if re.match(r'^-?[\d.]+$', m.group()) and b == '99' and (i and '.' in m.group() or l == L[-1]): continue      # another valid value
                    if b == '99' and m.group() == '#!9': continue
                    if l.split()[0] in ('s', 'd', 'p', 'g') and m.start() > 0: continue      # names of operators
                    if l.startswith('f ') and m.start() > 0 and b == '99': continue          # indices of the chain operator
                    if m.group().startswith('o_') and b == '99': continue                    # a number in place of a file
                    if i and L[i - 1] == 'e': continue                               # the placeholder
                    if l.startswith('1 0 ') and m.start() == 2 and b == '99': continue      # number of sites: replaced
                    if l.startswith('# SCALE') and b == '99' : continue
                    yield 'damage', (sym, '%r of line %d (%s) replaced by %s' % (m.group(), i, l, b), d(L[:i] + [l[:m.start()] + b + l[m.end():]] + L[i + 1:]))
                if len(l.split()) > 1 and l[:2] not in ('s ', 'd ', 'p ', 'g ') and not l.startswith('#'): yield 'damage', (sym, '%r of line %d (%s) removed' % (m.group(), i, l), d(L[:i] + [l[:m.start()] + l[m.end():]] + L[i + 1:]))
        for f in t.files:
            if t.files[f].startswith('{') and '#' not in t.files[f]:
                for n in range(len(t.files[f].rstrip())): yield 'damage', (sym, '%s cut at %d' % (f, n), dict(base, **{'template/' + f: t.files[f][:n]}))

def body(c):
    BIN['instantiate'] = T11.BIN['instantiate'] = corebuild.build_instantiate(); BIN.update(build_tools(['nrgchain']))
    T11.BIN['exec'] = link('faultexec', build_objects([(os.path.join(VERIF, 'harness', 'faultexec.cc'), ['-std=gnu++20', '-O1', '-w'])]), [])
    n = collections.Counter(); J = []; ref = {}
    ch = chain(dict(PARAM, symtype='QS'))
    for kind, j in jobs():
        n[kind] += 1
        if kind == 'expr':
            ex = []
            for s, v in j:
                if isinstance(v, tuple): v = math.sqrt(ch[0][0] / math.pi) if v[0] == 'g' else ch[1 if v[0] == 'xi' else 2][v[1]]
                ex.append((s, v))
            J.append(('good', ((('sym', 'QS'), ('exprs', tuple(ex))), [], {}, 0))); n['expressions'] += len(ex); continue
        if kind == 'ref':
            d = workdir(); clean(d); os.makedirs(d + '/template'); put(d, j[1]); r = run([BIN['instantiate']], d); ref[j[0]] = get(d, 'data'); c.note(1, j[0])
            if r.rc: c.violation('%s: the undamaged template is refused: %s' % (j[0], r.err[-200:]), {'files': j[1]}, None)
            continue
        if kind == 'damage': J.append(('same', (j[0] + ': ' + j[1], j[2], ref[j[0]]))); continue
        J.append((kind, j))
    # faults
    t = T('QS', opfiles=2); w = {'template/' + f: x for f, x in t.files.items()}
    case = T11.mk('instantiate', dict({'param': t.ptext(), 'template/data.in': t.text()}, **w), {f: 's' for f in w}, ['data'])
    d = workdir(); clean(d); os.makedirs(d + '/w/template')
    rc, fired, events, out, err = T11.execute(d, case, case.files)
    if rc: c.violation('the fault case fails: %d %s' % (rc, err[-200:]), {}, None)
    for i, e in enumerate(events):
        f = re.sub(r'^.*/w/', '', e[2])
        if f.startswith('STD'): continue
        pl = {'o': [('fail', errno.EACCES)], 'r': [('fail', errno.EIO)], 'w': [('full', 0), ('fail', errno.EIO), ('part', 0), ('partfull', 0)], 'c': [('fail', errno.EIO)] if f == 'data' else []}.get(e[0], [])
        for a, b in pl: J.append(('fault', ((i, a, b), case, {'data': out['data']}, 'instantiate: %s at %s of %s' % (a, e[1], f)))); n['fault'] += 1
    for (kind, res), j in zip(pmap(one, J, 8, c.deadline), J):
        c.note(1, repr(j)[:400])
        if res: c.violation(res[0], res[1], kind)
    if pmap.cut: c.cut()
    c.sample(dict(n))
    c.cov['domain'] = len(J); c.cov['traces_validated_against_impl'] = len(J); c.cov['expressions'] = n['expressions']
    c.rule = 'templates: 4 symmetry types x Hamiltonian sets x operator storage x comments x block order x options x chain parameters; all expressions of up to 3 (thorough: 4) leaves; %d wrong expressions at 2 places; every line of 4 templates removed, repeated, cut, every word replaced; every system call failing' % len(WRONG)
    c.assumptions += ['single-channel templates (the tool refuses others)', 'eigenvectors are fixed up to their signs', 'expressions whose value is below 1e-14 are written as 0 (documented rounding)']
if __name__ == '__main__': main(body, 'T12', level='exploration')
