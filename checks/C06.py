"""C06: the real program is run on every damaged version of small data and parameter files: cut off at every token, every token replaced
by something that is no number or dropped, every parameter set to values of the wrong type, repeated, unknown, moved or padded."""
import sys, os, re, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import core, corebuild, C14

BAD = pick(['x', '1.5.2', 'nan'], ['x', '1.5.2', 'nan', '-', '1e', '0x', '1,5', '.'])
IO = ('param', 'data', 'log')
def blocks(text):
    """-> list of (token, start, end, kind); kind: 'num' a number, 'sym' anything else; and the offsets at which a whole block has ended"""
    out, ends, pos = [], [], 0
    for line in text.split('\n'):
        s = line.strip()
        num = s and not s.startswith('#') and re.match(r'^[-+0-9.(]', s)
        if num:
            for m in re.finditer(r'\S+', line): out.append((m.group(), pos + m.start(), pos + m.end()))
        elif s and not s.startswith('#') and out: ends.append(pos)   # a block letter: everything before is complete
        pos += len(line) + 1
    return out, ends + [len(text)]
def results(d):
    r = {}
    for root, dirs, fs in os.walk(d):
        for f in fs:
            if f not in IO: r[os.path.relpath(os.path.join(root, f), d)] = open(os.path.join(root, f), 'rb').read()
    return r
def execute(text, p):
    d = workdir(); clean(d); put(d, {'data': text, 'param': p})
    rc = core.nrg(d, (), env={'OPENBLAS_NUM_THREADS': '1'})
    log = open(os.path.join(d, 'log'), 'rb').read().decode('latin1')
    return rc, log, results(d)
def refused(rc, log, res, before_start=True):
    """an error that is reported, and nothing that looks like the outcome of a completed run"""
    if rc == 0: return 'status 0'
    if 'DONE' in res: return 'completion marker although status %d' % rc
    if rc < 0 and not (rc == -6 and ('terminate called' in log)): return 'ends by signal %d' % -rc
    if before_start and any(res.values()): return 'result files %s although status %d' % (sorted(k for k in res if res[k]), rc)
    return None
def small(mo):
    base, lists, text = C14.build(mo, False)
    lists = {k: v[:1] for k, v in lists.items()}
    return text, C14.ptext(base.replace('bins=100', 'bins=10'), lists, ('finite', 'fdm')), lists
def data_job(job):
    mo, i = job
    text, p, lists = small(mo)
    toks, ends = blocks(text)
    t, a, b = toks[i]
    bad, n = [], 0
    def check(what, new):
        nonlocal n
        n += 1
        rc, log, res = execute(new, p)
        x = refused(rc, log, res)
        if x: bad.append(('%s%d %s: token %d (%r after %r) %s: %s' % (mo[0], mo[1], mo[7], i, t, text[max(0, a - 25):a], what, x), {'model': mo[:3], 'token': i, 'what': what, 'data': new, 'param': p}))
    check('is where the file ends', text[:a])
    last = any(not text[b:e].strip() for e in ends)   # the last number of a block: what is left of it could be meant
    if not last and b - a > 1: check('is cut off, and the file ends there', text[:a + (b - a + 1) // 2])
    for v in BAD: check('replaced by %s' % v, text[:a] + v + text[b:])
    for v in ('x', '.'): check('followed by %s' % v, text[:b] + v + text[b:]) if v != '.' or '.' in t or 'e' in t else None
    if last:
        m = re.match(r'\s*([a-zA-Z]\S*)', text[b:])   # the file ends inside or right after the title of the next block
        if m:
            for q in sorted({b + m.start(1) + 1, b + m.end(1)}): check('is followed by an unfinished block title', text[:q])
    return n, bad
def param_job(job):
    what, mo, p, kind, word, ref = job
    text, p0, lists = small(mo)
    rc, log, res = execute(text, p)
    if kind == 'refuse':
        return what, refused(rc, log, res, before_start=word != 'late')
    if kind == 'report':
        if rc == 0 and word in log.split('Unused settings')[-1].split('\n\n')[0] and 'Unused settings' in log: return what, None
        return what, None if rc and not refused(rc, log, res) else 'not reported'
    if rc: return what, 'status %d: %s' % (rc, log[-200:])
    diff = [k for k in set(res) | set(ref) if res.get(k) != ref.get(k)]
    return what, None if not diff else 'results differ: %s' % diff
def known_params():
    """keyword and type of every parameter, as the program itself prints them"""
    src = open(os.path.join(REPO, 'c++/params.hpp')).read()
    return re.findall(r'^\s*param<([\w:]+)>\s*\w+\s*\{\s*"(\w+)"', src, re.M)
def param_jobs(mo, ref):
    text, p, lists = small(mo)
    L = [l for l in p.strip().split('\n')[1:]]
    J = lambda x: '[param]\n' + '\n'.join(x) + '\n'
    K = {l.split('=')[0] for l in L}
    j = []
    for ty, k in known_params():
        if ty == 'std::string': vals = []
        elif ty == 'bool': vals = ['x', '2', '1.5', '-1', 'truee', 'tru', '', 'true false']
        elif ty == 'double': vals = ['x', '1x', '1.5.2', '', '1 2', '1,5', 'true', '1e']
        else: vals = ['x', '1x', '1.5', '', '1 2', '1e2', 'true', '99999999999999999999999']
        rest = [l for l in L if l.split('=')[0] != k]
        for v in vals: j.append(('%s=%s' % (k, v), mo, J(rest + [k + '=' + v]), 'refuse', '', None))
        # the same parameter twice
        cur = [l for l in L if l.split('=')[0] == k] or [k + '=' + {'bool': 'false', 'double': '1.0', 'std::string': ''}.get(ty, '5')]
        for g in (0, len(rest) // 2, len(rest)):
            j.append(('%s twice (%d)' % (cur[0], g), mo, J(rest[:g] + cur + rest[g:] + cur), 'refuse', '', None))
    for k, v in (('discretization', 'X'), ('mult', 'foo'), ('diag_mode', 'foo'), ('diag', 'foo'), ('symtype', 'FOO'), ('T', '0'), ('T', '-1'), ('Lambda', '1'), ('Lambda', '0.5'), ('keep', '0'), ('Lambda', 'nan'), ('T', 'nan')):
        rest = [l for l in L if l.split('=')[0] != k]
        j.append(('%s=%s' % (k, v), mo, J(rest + [k + '=' + v]), 'refuse', 'late' if k == 'diag' else '', None))   # the eigensolver is selected at the first diagonalisation
    for g in range(len(L) + 1): j.append(('unknown at %d' % g, mo, J(L[:g] + ['nosuchparameter=7'] + L[g:]), 'report', 'nosuchparameter=7', None))
    for i, l in enumerate(L):   # misspelt
        k, v = l.split('=', 1)
        for k2 in {k[:-1], k + 'x', k.swapcase()} - {'', k} - {x for _, x in known_params()}: j.append(('%s misspelt %s' % (k, k2), mo, J(L[:i] + [k2 + '=' + v] + L[i + 1:]), 'report', k2 + '=' + v, None))
    same = []
    for i in range(len(L)): same.append(('order: %d first' % i, [L[i]] + L[:i] + L[i + 1:])); same.append(('order: swapped %d' % i, L[:i] + L[i:i + 2][::-1] + L[i + 2:]))
    same.append(('order reversed', L[::-1]))
    for i, l in enumerate(L):
        k, v = l.split('=', 1)
        for w, x in (('blank before', '  \t' + l), ('blank after', l + ' \t '), ('blanks around =', k + ' \t= ' + v), ('comment line', '# ' + l + '\n' + l), ('empty line', '\n \t \n' + l), ('indented comment', '  # foo=bar\n' + l), ('carriage return', l + '\r')):
            same.append(('%s in line %d' % (w, i), L[:i] + [x] + L[i + 1:]))
    for w, x in same: j.append((w, mo, J(x), 'same', '', ref))
    for w, t in (('text before the block', '# c\n\n[sweep]\nT=7\nfoo=3\n' + J(L)), ('block after', J(L) + '[sweep]\nT=7\nkeep=x\n'), ('blank around the block name', J(L).replace('[param]', '  [param] \t')), ('extra block', J(L) + '[extra]\nU=0.3\n'), ('no newline at the end', J(L)[:-1])):
        j.append((w, mo, t, 'same', '', ref))
    for w, t in (('no block', '\n'.join(L)), ('other block only', '[sweep]\n' + '\n'.join(L)), ('empty', ''), ('block name cut', J(L)[1:]), ('extra block with a repeated key', J(L) + '[extra]\nU=0.3\nU=0.4\n')):
        j.append((w, mo, t, 'refuse', '', None))
    return j
def body(c):
    core.BINARY['nrg'] = corebuild.build_core('nrgserver', 'nrgserver.cc')
    M = [m for m in C14.models()]
    M = [m for m in M if m[8] % pick(1, 1) == 0]
    jobs = []; pj = []; pm = []
    seen = collections.Counter()
    for mo in M:
        text, p, lists = small(mo)
        toks, ends = blocks(text)
        if len(toks) > pick(500, 10 ** 9): continue
        if seen[(mo[0], mo[1], mo[7])] >= 1 and len(toks) > 400: continue
        seen[(mo[0], mo[1], mo[7])] += 1
        rc, log, res = execute(text, p)
        c.note(1, str(mo[:3]))
        if rc or 'DONE' not in res: c.violation('%s: the undamaged input is refused: %s' % (mo[:3], log[-300:]), {'model': mo[:3], 'data': text, 'param': p}, None); continue
        jobs += [(mo, i) for i in range(len(toks))]
        if not mo[7] and mo[0] in pick(('QS',), ('QS', 'QSZ', 'SPSU2', 'NONE')) and mo[1] == 1 and not pm: pj += param_jobs(mo, res); pm.append(mo)
        c.sample({'model': mo[:3], 'mode': mo[7], 'tokens': len(toks)})
    for n, bad in pmap(data_job, jobs, 8, c.deadline):
        c.note(n)
        for what, rep in bad: c.violation('data: ' + what, rep, 'data: ' + re.sub(r'token \d+', 'token', what))
    for what, x in pmap(param_job, pj, 8, c.deadline):
        c.note(1, 'param ' + what)
        if x: c.violation('param: %s: %s' % (what, x), {'what': what}, 'param: %s: %s' % (what, x))
    if getattr(pmap, 'cut', False): c.cut()
if __name__ == '__main__': main(body, 'C06', level='exploration')
