"""T09: diag prints ascending eigenvalues and matching orthonormal eigenvectors for every symmetric matrix; unitary prints the
product of its three matrices. All small symmetric matrices over an alphabet; for the (trilinear) product all triples of
unit matrices and dense integer matrices of all small shapes x transposition, binary, scale and chop options; all
non-conforming shapes are rejected."""
import sys, os, itertools, math, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import numpy as np
BIN = {}
NUM = [lambda v: '%r' % v, lambda v: '%.17e' % v, lambda v: ('%d' % v if v == int(v) else '%r' % v)]

def mtext(m, style, k=0):
    f = NUM[k % 3]; rows = [[f(float(v)) for v in r] for r in m]
    if style == 0: return ''.join(' '.join(r) + '\n' for r in rows)
    if style == 1: return ''.join('\t  ' + ' \t '.join(r) + '  \n' for r in rows)
    if style == 2: return '\n'.join(' '.join(r) for r in rows)              # no final newline
    if style == 3: return ' '.join(' '.join(r) for r in rows) + '\n'         # one line (diag only)
    if style == 4: return '# header 1 2\n\n' + '\n# x\n'.join(' '.join(r) for r in rows) + '\n\n  # 1 2 3\n'   # comments (unitary only)
def refused(r): return r.rc not in (0, -11, -8, -9, -4, -7) and 'Assertion' not in r.err and (r.err.strip() or r.out.strip())

def one_diag(case):
    M, style, o = case
    d = workdir(); clean(d); n = len(M); k = o.get('k', 0)
    put(d, {'in': mtext(M, style, k)})
    s = o.get('s', 1.0)
    cmd = [BIN['diag']] + o.get('opt', []) + (['-s', repr(s)] if s != 1.0 else []) + ['-o', 'val', '-O', 'vec', 'in']
    r = run(cmd, d); rep = {'cmd': cmd, 'in': mtext(M, style, k)}
    def bad(m): return ('diag %s on %s: %s' % (' '.join(cmd[1:]), M if n < 6 else '%dx%d' % (n, n), m), rep)
    if r.rc: return bad('exit %d %s' % (r.rc, r.err[:100]))
    ops = o.get('opt', [])
    try:
        val = [float(x) for x in (get(d, 'val') or b'').split()]
        raw = get(d, 'vec')
        if '-B' in ops:
            if struct.unpack('=II', raw[:8]) != (n, n) or len(raw) != 8 + 8 * n * n: return bad('binary eigenvector file has wrong size')
            V = np.frombuffer(raw[8:], dtype='=f8').reshape(n, n)
        elif '-t' in ops:
            if raw is not None: return bad('eigenvector file written although text output is switched off')
            V = None
        else: V = np.array([[float(x) for x in l.split()] for l in raw.decode().splitlines()])
    except Exception as e: return bad('unparsable output: %s' % e)
    A = np.array(M, dtype=float); sc = max(1.0, np.abs(A).max())
    if len(val) != n: return bad('%d eigenvalues for dimension %d' % (len(val), n))
    w = [v / s for v in val]
    if any(not math.isfinite(v) for v in w) or any(w[i + 1] < w[i] - 1e-14 * sc for i in range(n - 1)): return bad('eigenvalues %r not ascending' % (w,))
    ref = np.linalg.eigvalsh(A)
    if max(abs(a - b) for a, b in zip(w, ref)) > 1e-12 * sc * n: return bad('eigenvalues %r, exact %r' % (w, list(ref)))
    if V is not None:
        if V.shape != (n, n): return bad('eigenvector shape %r' % (V.shape,))
        if np.abs(V @ V.T - np.eye(n)).max() > 1e-12 * n: return bad('eigenvectors (rows) not orthonormal: %r' % V.tolist())
        if np.abs(A @ V.T - V.T * np.array(w)).max() > 1e-12 * sc * n: return bad('eigenvectors do not match the eigenvalues')
    if '-v' in ops:
        L = r.out.split('Eigenvalues:')[-1].splitlines()[1:n + 1]
        try: got = [float(l.split()[1]) for l in L]
        except Exception: return bad('no eigenvalues on standard output')
        if got != val: return bad('printed eigenvalues %r differ from the file' % (got,))
    if '-V' in ops and n < 8:
        L = r.out.split('Eigenvectors:')[-1].splitlines()[1:n + 1]
        try: got = np.array([[float(x) for x in l.split()[1:]] for l in L])
        except Exception: return bad('no eigenvectors on standard output')
        if V is not None and (got.shape != V.shape or np.abs(got - V).max() > 1e-15): return bad('printed eigenvectors differ from the file')
    if '-q' not in ops and not r.out.startswith('# diag') or '-q' in ops and '# ' in r.out: return bad('quiet switch has no effect')
    return None

def one_rejd(case):
    n, style = case
    d = workdir(); clean(d)
    put(d, {'in': (' ' if style == 0 else '\n').join(str(i % 3 - 1) for i in range(n)) + '\n'})
    r = run([BIN['diag'], '-o', 'val', '-O', 'vec', 'in'], d)
    if not refused(r) or get(d, 'val') is not None or get(d, 'vec') is not None: return ('diag on %d numbers: not rejected (exit %d)' % (n, r.rc), {'n': n})

def one_uni(case):
    A, B, C, o = case
    d = workdir(); clean(d); k = o.get('k', 0)
    A, B, C = [np.array(m, dtype=float) for m in (A, B, C)]
    fa, fc = (A.T if o.get('t') else A), (C.T if o.get('l') else C)
    def enc(m): return struct.pack('=II', *m.shape) + np.ascontiguousarray(m).astype('=f8').tobytes()
    if o.get('B'): put(d, {'a': enc(fa), 'c': enc(fc)})
    else: put(d, {'a': mtext(fa, [0, 1, 2, 4][k % 4], k), 'c': mtext(fc, [4, 2, 0, 1][k % 4], k + 1)})
    put(d, {'b': mtext(B, [2, 4, 1, 0][k % 4], k + 2)})
    s = o.get('s', 1.0); chop = o.get('c')
    cmd = [BIN['unitary']] + (['-t'] if o.get('t') else []) + (['-l'] if o.get('l') else []) + (['-B'] if o.get('B') else ['-b'] if k % 2 else []) + (['-s', repr(s)] if 's' in o else []) + (['-c', repr(chop)] if chop is not None else []) + (['-q'] if k % 5 == 0 else []) + (['-v'] if k % 7 == 0 else [])
    cmd += ['-o', 'out', 'a', 'b', 'c']
    r = run(cmd, d); rep = {'cmd': cmd, 'A': A, 'B': B, 'C': C}
    def bad(m): return ('unitary %s with shapes %r %r %r: %s' % (' '.join(cmd[1:]), fa.shape, B.shape, fc.shape, m), rep)
    if o.get('reject'):
        if not refused(r) or get(d, 'out'): return bad('non-conforming shapes not rejected: exit %d, out %r' % (r.rc, (get(d, 'out') or b'')[:80]))
        return None
    if r.rc: return bad('exit %d %s' % (r.rc, r.err[:100]))
    try: M = np.array([[float(x) for x in l.split()] for l in get(d, 'out').decode().splitlines()])
    except Exception as e: return bad('unparsable output')
    E = s * (A @ B @ C); ct = 1e-14 if chop is None else chop
    if M.shape != E.shape: return bad('shape of the result %r, expected %r' % (M.shape, E.shape))
    E = np.where(np.abs(E) > ct, E, 0.0)
    if not np.abs(M - E).max() <= 1e-13 * max(1.0, np.abs(E).max()): return bad('result %r, exact %r' % (M.tolist(), E.tolist()))
    return None

def unit(n, m, i, j, v): 
    M = [[0.0] * m for _ in range(n)]; M[i][j] = v; return M
def dense(n, m, a): return [[float(((a * 7 + i * m + j) * 5) % 13 - 6 + (0.5 if (i + j + a) % 3 == 0 else 0)) for j in range(m)] for i in range(n)]
OD = [{}, {'opt': ['-v']}, {'opt': ['-V', '-q']}, {'opt': ['-B']}, {'opt': ['-B', '-t'], 's': 2.0}, {'opt': ['-t']}, {'s': .25}, {'opt': ['-vV'.replace('vV', 'v'), '-V'], 's': 3.0}, {'opt': ['-q', '-b', '-T']}, {'s': 1000.0}]

def cases():
    k = 0
    for n, al in ((1, (-2.0, -.5, 0.0, 1.0, 1e-8, 1e8)), (2, (-1.0, 0.0, .5, 1.0, 3.0)), (3, (-1.0, 0.0, 1.0))) + (((4, (0.0, 1.0)),) if not thorough() else ((3, (-1.0, 0.0, .5, 2.0)), (4, (0.0, 1.0)), (4, (-1.0, .5)))):
        idx = [(i, j) for i in range(n) for j in range(i + 1)]
        for v in itertools.product(al, repeat=len(idx)):
            M = [[0.0] * n for _ in range(n)]
            for (i, j), x in zip(idx, v): M[i][j] = M[j][i] = x
            k += 1
            yield ('d', (M, k % 4, dict(OD[k % len(OD)], k=k)))
            if n < 3:
                for o in OD: yield ('d', (M, (k + 1) % 4, dict(o, k=k)))
    for n in list(range(5, 40)) + [63, 64, 65, 100] + ([200, 300] if thorough() else []):
        for f in range(3):
            M = [[[1.0 / (1 + i + j), float((i * j + i + j) % 5 - 2), (2.0 if i == j else -1.0 if abs(i - j) == 1 else 0.0)][f] for j in range(n)] for i in range(n)]
            k += 1; yield ('d', (M, k % 4, dict(OD[k % len(OD)], k=k)))
    for n in range(0, 40):
        if int(math.isqrt(n)) ** 2 != n or n == 0:
            for st in (0, 1): yield ('r', (n, st))
    # unitary
    opts = [dict(t=t, l=l, B=b) for t in (0, 1) for l in (0, 1) for b in (0, 1)]
    for sh in itertools.product((1, 2, 3), repeat=4):
        r, p, q, c = sh
        for o in opts:
            k += 1
            for extra in ({}, {'s': -2.5}, {'c': 2.0}, {'s': .125, 'c': 1e-3}): yield ('u', (dense(r, p, k), dense(p, q, k + 1), dense(q, c, k + 2), dict(o, k=k, **extra)))
        if max(sh) > 2 and not thorough() and k % 3: pass
        for i, j, a, b, e, f in itertools.product(range(r), range(p), range(p), range(q), range(q), range(c)):
            if not thorough() and max(sh) == 3 and not (j == a and b == e) and (i + 2 * j + a + b + e + f) % 9: continue
            k += 1
            if not thorough() and max(sh) == 3 and k % 2: continue
            yield ('u', (unit(r, p, i, j, 2.0), unit(p, q, a, b, -3.0), unit(q, c, e, f, .5), dict(opts[k % 8], k=k)))
        # wrong inner dimensions
        for p2, q2 in itertools.product((1, 2, 3), repeat=2):
            if (p2, q2) == (p, q): continue
            k += 1
            if not thorough() and k % 2: continue
            yield ('u', (dense(r, p, k), dense(p2, q2, k), dense(q, c, k), dict(opts[k // 2 % 8], k=k, reject=1)))
    # chop boundary and large matrices
    for v in (1e-13, 1e-14, 2e-14, 5e-15, 1.0, -1e-13, -5e-15):
        for ch in (None, 0.0, 1e-14, 1e-10, 1.0):
            k += 1; yield ('u', ([[1.0]], [[v]], [[1.0]], {'k': k, **({} if ch is None else {'c': ch})}))
    for n in (4, 5, 8, 16, 17, 33, 64):
        for o in opts: k += 1; yield ('u', (dense(n, n + 1, k), dense(n + 1, n + 2, k), dense(n + 2, 3, k), dict(o, k=k)))

F = {'d': one_diag, 'r': one_rejd, 'u': one_uni}
def one(x): return F[x[0]](x[1])
def check(c):
    BIN.update(build_tools(['diag', 'unitary']))
    c.rule = 'all symmetric matrices of dimension 1-3 (4 over two values) x layouts x options; all triples of unit matrices and dense matrices of all shapes with dimensions 1-3 x options; all mismatched shapes; size sweep; distinct = distinct (tool, matrices, options)'
    c.assumptions = ['the product is trilinear in the three matrices, hence determined by its values on unit matrices (dense ones are run as well)', 'numbers agree to 1e-12 relative to the largest element']
    def keyed():
        for x in cases():
            c.note(1, repr(x)[:400]); c.sample({'kind': x[0], 'case': repr(x[1])[:200]}); yield x
    for r in pmap(one, keyed(), 64, c.deadline):
        if r: c.violation(*r)
    if pmap.cut: c.cut()

main(check, 'T09', budget=pick(200, 2400))
