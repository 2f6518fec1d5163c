"""T05: the expression calculator computes the mathematical value of every script.
All token strings up to a length over the expression alphabet (own independent parser as the oracle),
all short scripts of statements in every distribution over files, all coefficient references."""
import sys, os, math, itertools, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
BIN = {}

# ---------------------------------------------------------------- independent parser / evaluator
class Bad(Exception): pass
class DivZero(Exception): pass
class Undef(Exception): pass
def div(a, b):
    if b == 0: raise DivZero()
    return a / b
OPS = {'+': (1, lambda a, b: a + b), '-': (1, lambda a, b: a - b), '*': (2, lambda a, b: a * b), '/': (2, div)}
FUN = {'sqrt': math.sqrt, 'Sqrt': math.sqrt, 'exp': math.exp, 'log': math.log}
def evaluate(tok, env, coef=None):
    pos = 0
    def peek(): return tok[pos] if pos < len(tok) else None
    def primary():
        nonlocal pos
        t = peek()
        if t is None: raise Bad()
        pos += 1
        if t == '-': return -primary()      # a sign binds tighter than every binary operation
        if t == '(':
            v = expr(0)
            if peek() != ')': raise Bad()
            pos += 1; return v
        if t in FUN or (re.match(r'[A-Za-z]', t) and peek() in ('[', '(') and t not in (coef or {})):
            o = peek()
            if o not in ('[', '('):
                if t in FUN: return 0.0 if False else (_ for _ in ()).throw(Bad())
                raise Bad()
            pos += 1; v = expr(0)
            if peek() != {'[': ']', '(': ')'}[o]: raise Bad()
            pos += 1
            if t not in FUN: raise Undef()
            try: return FUN[t](v)
            except ValueError: return float('nan') if not (t == 'log' and v == 0) else float('-inf')
            except OverflowError: return float('inf')
        if coef and t in coef:
            if peek() != '[': raise Bad()
            pos += 1; args = []
            while True:
                a = peek()
                if a is None or not a.isdigit(): raise Bad()
                args.append(int(a)); pos += 1
                if peek() == ',': pos += 1; continue
                if peek() != ']': raise Bad()
                pos += 1; break
            return coef[t](*args)
        if re.fullmatch(r'[A-Za-z][A-Za-z0-9_]*', t):
            return env[t]
        if re.match(r'[0-9.]', t): return float(t)
        raise Bad()
    def expr(p):
        nonlocal pos
        v = primary()
        while True:
            o = peek()
            if o not in OPS or OPS[o][0] < p + 0 or OPS[o][0] <= p: return v
            pos += 1
            w = expr(OPS[o][0])     # left associative: the right operand holds only tighter operators
            v = OPS[o][1](v, w)
    v = expr(0)
    if pos != len(tok): raise Bad()
    return v

ENV = {'a': 1.25, 'b_2': -3.0, 'Zz9': 0.0, 'gamma': 7e-3}
HEAD = 'a=1.25\nb_2=-3\nZz9=0\ngamma=.007\n'

def strings(atoms, n):
    """all token lists of length n generated by the expression grammar (ambiguity is irrelevant: as a set)"""
    @memo
    def E(n):
        r = set()
        if n == 1: r.update((x,) for x in atoms)
        if n >= 2: r.update(('-',) + e for e in E(n - 1))
        if n >= 3: r.update(('(',) + e + (')',) for e in E(n - 2))
        for i in range(1, n - 1):
            for x in E(i):
                for y in E(n - 1 - i):
                    for o in '+-*/': r.add(x + (o,) + y)
        return r
    return E(n)
def memo(f):
    c = {}
    def g(n):
        if n not in c: c[n] = f(n)
        return c[n]
    return g

def same(g, e):
    if e != e: return g.strip().lstrip('-') in ('nan',)
    try: v = float(g)
    except ValueError: return False
    if v == e: return True
    return abs(v - e) <= 4e-16 * max(abs(v), abs(e))

def write_tok(tok, style):
    if style == 0: return ''.join(tok)
    if style == 1: return ' '.join(tok)
    return '\t' + '  '.join(tok) + ' '

def batch(job):
    """kind 'lines': list of (text, expected or 'div') evaluated in one process"""
    kind, payload = job
    d = workdir(); clean(d)
    put(d, DISC)
    if kind == 'lines':
        style_cmd, lines = payload
        text = HEAD + ''.join(t + '\n' for t, _ in lines)
        if style_cmd == 'stdin': r = run([BIN['matrix']], d, text.encode())
        elif style_cmd == 'file':
            put(d, {'in': text}); r = run([BIN['matrix'], 'in'], d)
        else:
            put(d, {'p': HEAD, 'in': text[len(HEAD):]}); r = run([BIN['matrix'], 'p', 'in'], d)
        out = r.out.splitlines()
        ndiv = sum(1 for _, e in lines if e == 'div')
        if r.rc: return ('batch of %d expressions: exit %d %s' % (len(lines), r.rc, r.err[-200:]), {'script': text})
        if len(out) != len(lines):
            # locate the culprit by evaluating one by one
            return locate(lines, d, 'the batch printed %d values for %d expressions; stderr %s' % (len(out), len(lines), r.err[-200:]))
        for (t, e), g in zip(lines, out):
            if e == 'div': continue
            if not same(g, e): return ('expression %r evaluates to %s, expected %r' % (t, g, e), {'script': HEAD + t + '\n', 'expected': e})
        if r.err.count('divide by zero') < ndiv: return locate(lines, d, 'division by zero reported %d times, expected at least %d' % (r.err.count('divide by zero'), ndiv))
        return None
    if kind == 'bad':
        res = None
        for t in payload:
            r = run([BIN['matrix']], d, (HEAD + t + '\n').encode())
            if not r.err.strip() and r.rc == 0: return ('malformed expression %r accepted, printed %r' % (t, r.out), {'script': HEAD + t + '\n'})
        return None
    if kind == 'script': return script(payload, d)
    if kind == 'coef': return coefs(payload, d)

def locate(lines, d, why):
    for t, e in lines:
        r = run([BIN['matrix']], d, (HEAD + t + '\n').encode())
        o = r.out.split()
        if e == 'div':
            if 'divide by zero' not in r.err: return ('division by zero in %r not reported (printed %s)' % (t, o), {'script': HEAD + t + '\n'})
        elif len(o) != 1 or not same(o[0], e): return ('expression %r evaluates to %s, expected %r (%s)' % (t, o, e, r.err[-80:]), {'script': HEAD + t + '\n'})
    return (why, {'lines': [t for t, _ in lines][:2000]})

# ---------------------------------------------------------------- scripts
STM = [('a=2\n', 'set a 2'), ('a=3*a-1\n', None), ('b = a\n', None), ('a\n', None), ('a-b\n', None), ('{a, b}\n', None), ('{{1, a},\n {b, -2}}\n', None),
       ('# a=77\n', None), ('\n', None), ('[param]\n', None), ('band=flat\n', None), ('symbolx=a\n', None)]
def run_script(idx):
    env = {'a': 0.5, 'b': 4.0}; out = []
    for i in idx:
        if i == 0: env['a'] = 2.0
        elif i == 1: env['a'] = 3 * env['a'] - 1
        elif i == 2: env['b'] = env['a']
        elif i == 3: out.append([env['a']])
        elif i == 4: out.append([env['a'] - env['b']])
        elif i == 5: out.append([env['a'], env['b']])
        elif i == 6: out += [[1.0, env['a']], [env['b'], -2.0]]
    return out
def script(payload, d):
    idx, dist = payload
    init = 'a=.5\nb=4.\n'
    parts = [STM[i][0] for i in idx]
    exp = run_script(idx)
    inc = None
    if dist[0] == 'stdin': r = run([BIN['matrix']], d, (init + ''.join(parts)).encode()); files = {'-': init + ''.join(parts)}
    elif dist[0] == 'split':
        k = dist[1]
        files = {'one': init + ''.join(parts[:k]), 'two': ''.join(parts[k:]) or '\n'}
        put(d, files); r = run([BIN['matrix'], 'one', 'two'], d)
    else:   # include the statements from position k on
        k = dist[1]
        files = {'inc': ''.join(parts[k:]) or '\n', 'main': init + ''.join(parts[:k]) + 'parse inc\n' + 'a\n'}
        put(d, files); r = run([BIN['matrix'], 'main'], d)
        env_out = run_script(tuple(idx) + (3,)); exp = env_out
    got = [l.split() for l in r.out.splitlines() if not l.startswith('parsing')]
    ok = r.rc == 0 and len(got) == len(exp) and all(len(g) == len(e) and all(same(x, y) for x, y in zip(g, e)) for g, e in zip(got, exp))
    if not ok: return ('script %r (%s) printed %r, expected %r; exit %d %s' % (''.join(parts), dist, got, exp, r.rc, r.err[-120:]), {'files': files})

# ---------------------------------------------------------------- coefficients
def tables(nch, n):
    t = {}
    for ch in range(1, nch + 1):
        t[ch] = dict(theta=0.3 + ch, xi=[0.1 * ch + i + 1e-3 for i in range(n)], zeta=[-0.01 * ch + i / 7 for i in range(n + 1)], delta=[ch * 0.2 - i for i in range(n)],
                     kappa=[ch + 1.5 * i for i in range(n + 2)], V={(i, j): ch * 10 + i + j / 10 for i in (1, 2) for j in (1, 2)})
    return t
def coefs(payload, d):
    nch, n, numbered, sc, refs = payload
    clean(d); T = tables(nch, n); files = {}
    for ch, t in T.items():
        s = (str(ch) if numbered else '') + '.dat'
        num = lambda v: ''.join('%.17g\n' % x for x in v)
        files['xi' + s] = num(t['xi']); files['zeta' + s] = num(t['zeta'])
        if sc:
            files['scdelta' + s] = num(t['delta']); files['sckappa' + s] = num(t['kappa'])
            for (i, j), v in t['V'].items(): files['V%d%d%s' % (i, j, s)] = '%.17g\n' % v
        else: files['theta' + s] = '%.17g\n' % t['theta']
    put(d, files)
    cmd = [BIN['matrix']] + (['-c', str(nch)] if numbered else []) + (['-s'] if sc else [])
    lines, exp = [], []
    for name, ch, i in refs:
        e = None
        if name == 'gammaPolCh':
            txt = 'gammaPolCh[%d]' % ch
            if 1 <= ch <= nch: e = math.sqrt(T[ch]['theta'] / math.pi)
        else:
            txt = '%s[%d,%d]' % (name, ch, i)
            if name == 'coefV': e = T[1]['V'].get((ch, i))
            elif ch in T:
                v = T[ch][{'coefxi': 'xi', 'coefzeta': 'zeta', 'coefdelta': 'delta', 'coefkappa': 'kappa'}[name]]
                e = v[i] if i < len(v) else None
        lines.append('2*' + txt + '-1'); exp.append(None if e is None else 2 * e - 1)
    if None in exp:
        r = run(cmd, d, (lines[0] + '\n').encode())
        if r.rc <= 0 or r.out.strip(): return ('%s: reference to a coefficient outside the tables (%s) gives %r, exit %d, instead of an error' % (' '.join(cmd[1:]), lines[0], r.out, r.rc), {'files': files, 'stdin': lines[0]})
        return None
    r = run(cmd, d, ('\n'.join(lines) + '\n').encode())
    got = r.out.split()
    if r.rc or len(got) != len(exp): return ('%s: %d of %d values, exit %d %s' % (cmd[1:], len(got), len(exp), r.rc, r.err[-200:]), {'files': files, 'stdin': lines})
    for l, g, e in zip(lines, got, exp):
        if not same(g, e): return ('%s: %s gives %s, expected %r' % (cmd[1:], l, g, e), {'files': files, 'stdin': l})

DISC = {'theta.dat': '1.0\n', 'xi.dat': '0.5\n0.25\n', 'zeta.dat': '0.1\n0.2\n'}

def expected(tok, env=ENV):
    try: return evaluate(tok, env)
    except DivZero: return 'div'

def jobs(c):
    styles = ['stdin', 'file', 'two']
    k = 0
    def lines(gen, size=400):
        nonlocal k
        buf = []
        for tok in gen:
            e = expected(tok); k += 1
            buf.append((write_tok(tok, k % 3), e))
            if len(buf) == size:
                yield ('lines', (styles[k // size % 3], buf)); buf = []
        if buf: yield ('lines', ('stdin', buf))
    for n in range(1, pick(7, 9) + 1):
        atoms = ['2', '3.5', 'a', 'Zz9', '1e2', 'b_2'] if n <= 3 else ['2', '0.5', 'a', '0'] if n <= 5 else ['3', 'a', '.5'] if n <= 7 else ['3', 'a']
        S = sorted(strings(atoms, n))
        c.note(len(S)); c.distinct.update(S if n <= 7 else ())
        yield from lines(S)
    # number formats
    nums = ['0', '7', '10', '007', '123456789', '2147483647', '2147483648', '3000000000', '12345678901234', '.5', '5.', '0.1', '1.5e3', '1.5E3', '2.e-3', '.25e+2', '1e5', '9e-10', '3e+7', '0.30000000000000004', '1.7976931348623157e308', '4.9e-324', '100000000000000000000.']
    S = [(x,) for x in nums] + [('-', x) for x in nums] + [(x, o, y) for x in nums[:20] for o in '+-*/' for y in nums[:20]]
    c.note(len(S)); c.distinct.update(S); yield from lines(S)
    # functions of expressions
    S = []
    for f in FUN:
        for o, q in ('[]', '()'):
            for arg in sorted(strings(['2', 'a', 'b_2'], 1) | strings(['2', 'a', 'b_2'], 2) | strings(['2', 'a'], 3) | (strings(['2', 'a'], 5) if thorough() else set())):
                base = (f, o) + arg + (q,)
                S += [base, ('-',) + base, ('2', '*') + base, base + ('/', '4'), ('1', '-') + base + ('*', 'a'), (('sqrt' if f == 'exp' else 'exp'), '[') + base + (']',)]
    c.note(len(S)); c.distinct.update(S); yield from lines(S)
    # malformed strings: every string over the alphabet up to a length that is not in the language
    alpha = ['2', 'a', '+', '-', '*', '/', '(', ')', '[', ']', ',', '.5']
    bad = []
    for n in range(1, pick(3, 4) + 1):
        for tok in itertools.product(alpha, repeat=n):
            try: evaluate(list(tok), ENV)
            except Bad: bad.append(' '.join(tok))
            except (DivZero, Undef, KeyError): pass
    bad += ['12e3x', '{1,2', '{1,,2}', '{{1},2}', '1 2', 'coefxi[1]', 'coefxi[1,a]', 'gammaPolCh[1,2]', 'sqrt', 'a b', '{1;2}', 'sqrt[4', '^', '2^3', '2%3', '=3', '3=a']
    bad = [b for b in bad if b not in ('sqrt',)]
    c.note(len(bad))
    for i in range(0, len(bad), 40): yield ('bad', bad[i:i + 40])
    # scripts
    L = pick(3, 4)
    for n in range(1, L + 1):
        for idx in itertools.product(range(len(STM)), repeat=n):
            if n == L and idx[-1] not in (3, 4, 5, 6): continue
            ds = [('stdin',)] + [('split', j) for j in range(n + 1)] + [('inc', j) for j in range(n)]
            if n == L and not thorough(): ds = [ds[sum((i + 1) * x for i, x in enumerate(idx)) % len(ds)]]
            for dist in ds:
                c.note(1, ('script', idx, dist)); yield ('script', (idx, dist))
    # coefficient references, in range and out of range
    for nch in (1, 2, 3):
        for n in (1, 3, 12):
            for sc in (False, True):
                for numbered in ((True, False) if nch == 1 else (True,)):
                    names = [('coefxi', n), ('coefzeta', n + 1)] + ([('coefdelta', n), ('coefkappa', n + 2)] if sc else [])
                    good = [(nm, ch, i) for nm, m in names for ch in range(1, nch + 1) for i in range(m)]
                    good += [('coefV', i, j) for i in (1, 2) for j in (1, 2)] if sc else [('gammaPolCh', ch, 0) for ch in range(1, nch + 1)]
                    c.note(len(good)); c.distinct.update((nch, n, sc, numbered) + g for g in good)
                    yield ('coef', (nch, n, numbered, sc, good))
                    out = [(nm, ch, i) for nm, m in names for ch, i in ((0, 0), (nch + 1, 0), (1, m), (nch, m), (1, m + 5), (nch, 1000000))]
                    out += [('coefV', 0, 1), ('coefV', 3, 1), ('coefV', 1, 0), ('coefV', 2, 3)] if sc else [('gammaPolCh', 0, 0), ('gammaPolCh', nch + 1, 0)]
                    for o in out:
                        c.note(1, ('out', nch, n, sc, numbered) + o); yield ('coef', (nch, n, numbered, sc, [o]))
    # vectors, matrices of all shapes; many symbols; long inputs
    for rows in range(1, 5):
        for cols in range(1, 6):
            M = [['%d*a-%d' % (i, j) for j in range(cols)] for i in range(rows)]
            c.note(1, ('mat', rows, cols))
            for sep in (', ', ',\n  ', ','):
                yield ('script2', ('{' + sep.join('{' + sep.join(r) + '}' for r in M) + '}\n', [[i * 1.25 - j for j in range(cols)] for i in range(rows)]))
    for cols in (1, 7, 100, 2000):
        yield ('script2', ('{' + ', '.join('a*%d' % j for j in range(cols)) + '}\n', [[1.25 * j for j in range(cols)]])); c.note(1, ('vec', cols))
    # distinct names stay distinct: every common-prefix length, case, digits, names that extend reserved words
    pairs = [('n' * k + 'p', 'n' * k + 'q') for k in range(0, pick(40, 300))] + [('n' * k + '1', 'n' * k + '2') for k in range(1, 40)] + [('n' * k, 'n' * (k + 1)) for k in range(1, 40)]
    pairs += [(w, w + x) for w in ('ab', 'U', 'gamma', 'x1') for x in ('_', '1', 'a', 'A', '_1', '0')] + [('delta', 'Delta'), ('aB', 'ab'), ('a_b', 'ab'), ('a1b', 'a2b'), ('ba', 'ab')]
    pairs += [(w + x, w + y) for w in ('sqrt', 'exp', 'log', 'coefxi', 'coefV', 'parse', 'exit', 'gammaPolCh', 'e', 'E') for x, y in (('1', '2'), ('a', 'b'), ('_', '__'))]
    for p, q in pairs:
        c.note(1, ('names', p, q))
        yield ('script2', ('%s=7\n%s=11\n%s\n%s\n%s = %s+1\n%s*100+%s\n' % (p, q, p, q, p, q, p, q), [[7.0], [11.0], [1211.0]]))
    for ns in (1, 50, 150, 180):
        t = ''.join('v%d=%d\n' % (i, i * 3 + 1) for i in range(ns)) + ''.join('v%d-v0\n' % i for i in range(ns))
        yield ('script2', (t, [[float(3 * i)] for i in range(ns)])); c.note(1, ('syms', ns))

_batch = batch
def batch(job):
    if job[0] == 'script2':
        d = workdir(); clean(d); put(d, DISC)
        t, exp = job[1]
        r = run([BIN['matrix']], d, (HEAD + t).encode())
        got = [l.split() for l in r.out.splitlines()]
        if r.rc or len(got) != len(exp) or any(len(g) != len(e) or not all(same(x, y) for x, y in zip(g, e)) for g, e in zip(got, exp)):
            return ('script %r... printed %r, expected %r' % (t[:80], got[:4], exp[:4]), {'script': HEAD + t})
        return None
    return _batch(job)

def check(c):
    BIN.update(build_tools(['matrix']))
    c.rule = 'all token strings of the expression language up to length %d over small atom sets, all strings outside it up to length %d, all statement sequences up to length %d in all distributions over input files, all coefficient references; distinct = distinct token strings / scripts / references' % (pick(7, 9), pick(3, 4), pick(3, 4))
    c.assumptions = ['IEEE double arithmetic of the reference (Python) equals the tool; transcendental functions compared to 2 ulp', 'undefined names and assignments of words are outside the language judged']
    for s in ('2-3-a', '{1, {2}}'): c.sample(s)
    for r in pmap(batch, jobs(c), 4, c.deadline):
        if r: c.violation(*r)
    if pmap.cut: c.cut()

main(check, 'T05', budget=pick(150, 2400))
