"""T11: every tool on small valid inputs with one damage: every input file missing, empty, cut inside a record, too short, every number
replaced by something that is none; and one fault at every output-related system call. The tool must fail, or produce the undamaged output."""
import sys, os, re, struct, subprocess, errno, collections, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import corebuild
BIN = {}
BAD = pick(['x', '1.5.2', '-'], ['x', '1.5.2', '-', '1e', '0.5x', '1,5', '#', '.'])

def binf(rows): return b''.join(struct.pack('<%dd' % len(r), *r) for r in rows)
def tab(rows): return ''.join(' '.join(repr(float(x)) for x in r) + '\n' for r in rows)
SPEC = [(-1., .25), (-.5, .5), (.25, -.125), (.5, 1.), (2., .25)]
SPEC2 = [(-2., .5), (.5, .75), (1., .125)]
SYM = [(-2., .25), (-1., .5), (-.5, 1.), (-.25, 2.), (.25, 1.), (.5, -.5), (1., .75), (2., .125)]
CURVE = [(-2., 1.), (-.5, 3.), (.25, -2.), (1., 5.), (2., 4.), (3., 1.)]
CURVE2 = [(-1., 2.), (0., 1.), (1.5, 7.), (2., 3.), (4., 2.5), (5., 1.)]
BATH = [(-1., .5), (-.5, .7), (-.1, .4), (.1, .6), (.5, .5), (1., .3)]
FS = [(1. + .5 * i, .5 + .2 * i / 20) for i in range(21)]
DOS = [(-1., 0.), (-.5, .5), (0., .75), (.25, 1.), (.5, .5), (1., .25)]
# name: (command, files, {file: kind}, outputs, stdin file, minimal records of the files). Kinds: b2, b3: binary records of 2 or 3 doubles; B: binary, square or given shape;
# t<n>: text table of n columns; l: list of numbers; p: parameters; m: matrix (every row as long as the first); s: script
PAR = '[param]\nLambda=2.0\nz=0.75\nNmax=4\nmMAX=6\nxmax=10\nband=asymode\ndos=Bath.dat\nbandrescale=1.5\n'
ADP = '[param]\nLambda=2.0\nadapt=false\ndx_fine=0.001\ndx_fast=0.01\nmax_subdiv=4\nxfine=2\nxmax=5\noutputstep=0.25\ndos=Bath.dat\n'
C = collections.namedtuple('C', 'cmd files kinds out stdin minimal')
def mk(cmd, files, kinds, out=(), stdin=None, minimal={}): return C(cmd.split(), files, kinds, out, stdin, minimal)
CHAIN = {'theta.dat': '1.25\n', 'xi.dat': '0.5\n0.25\n0.125\n', 'zeta.dat': '0.25\n0.5\n-0.125\n'}
CASES = {
 'binavg': mk('binavg raw 2', {'1/raw': binf(SPEC), '2/raw': binf(SPEC2)}, {'1/raw': 'b2', '2/raw': 'b2'}, ['raw']),
 'binavg -o -3': mk('binavg -o -3 raw 1', {'raw': binf([p + (3.,) for p in SPEC])}, {'raw': 'b3'}, ['spec.bin']),
 'mats': mk('mats raw 2 0.1 3', {'1/raw': binf(SPEC), '2/raw': binf(SPEC2)}, {'1/raw': 'b2', '2/raw': 'b2'}, ['spec.dat']),
 'mats -2': mk('mats -2 raw 1 0.1 3', {'1/raw': binf([p + (3.,) for p in SPEC])}, {'1/raw': 'b3'}, ['spec.dat']),
 'specmoments': mk('specmoments raw 2', {'1/raw': binf(SPEC), '2/raw': binf(SPEC2)}, {'1/raw': 'b2', '2/raw': 'b2'}),
 'broaden': mk('broaden -m 0.01 -M 4 -r 2 raw 2 0.3 0.01', {'1/raw': binf(SPEC), '2/raw': binf(SPEC2)}, {'1/raw': 'b2', '2/raw': 'b2'}, ['spec.dat']),
 'broaden -L': mk('broaden -o -L mesh -c raw 1 0.3 0.01', {'raw': binf(SPEC), 'mesh': tab(CURVE)}, {'raw': 'b2', 'mesh': 't1'}, ['spec.dat']),
 'bw': mk('bw -m 0.01 -M 4 -r 2 -n 2 raw 0.3 2', {'1/raw': binf(SPEC), '2/raw': binf(SPEC2)}, {'1/raw': 'b2', '2/raw': 'b2'}, None),
 'bw -s': mk('bw -o -s -m 0.01 -M 4 -r 2 -n 2 raw 0.3 1', {'raw': binf(SPEC)}, {'raw': 'b2'}, None),
 'intavg': mk('intavg f 2', {'1/f': tab(CURVE), '2/f': tab(CURVE2)}, {'1/f': 't2', '2/f': 't2'}, ['f'], minimal={'1/f': 1, '2/f': 1}),
 'integ': mk('integ f', {'f': tab(CURVE)}, {'f': 't2'}, minimal={'f': 2}),
 'integ -T': mk('integ -T 0.5 -f f', {'f': tab(CURVE)}, {'f': 't2'}, minimal={'f': 2}),
 'kk': mk('kk in out', {'in': tab(SYM)}, {'in': 't2'}, ['out'], minimal={'in': 2}),
 'kk stdin': mk('kk -', {'in': tab(SYM)}, {'in': 't2'}, stdin='in', minimal={'in': 2}),
 'tdavg': mk('tdavg', {'td.dat': '# T a b\n' + tab([(x, y, y * y) for x, y in CURVE]) + '# T a b\n' + tab([(x, y, -y) for x, y in CURVE2])}, {'td.dat': 't3'}, ['td-avg.dat']),
 'tdavg ref': mk('tdavg in ref', {'in': '# T a\n' + tab(CURVE) + '# T a\n' + tab(CURVE2), 'ref': '# T a\n' + tab(CURVE2) + '# T a\n' + tab(CURVE)}, {'in': 't2', 'ref': 't2'}, ['in.avg.dat']),
 'hilb number': mk('hilb -d dos 0.25 0.5', {'dos': tab(DOS)}, {'dos': 't2'}, minimal={'dos': 3}),
 'hilb -o': mk('hilb -d dos -o res 0.25 0.5', {'dos': tab(DOS)}, {'dos': 't2'}, ['res'], minimal={'dos': 3}),
 'hilb stream': mk('hilb -d dos in', {'dos': tab(DOS), 'in': tab([(.1, .2, .5), (.3, -.5, .25), (2., 1., .75)])}, {'dos': 't2', 'in': 't3'}, minimal={'dos': 3}),
 'hilb files': mk('hilb re im reo imo', {'re': tab([(.1, .2), (.3, .5), (2., 1.)]), 'im': tab([(.1, -.2), (.3, -.5), (2., -1.)])}, {'re': 't2', 'im': 't2'}, ['reo', 'imo'], minimal={'re': 3, 'im': 3}),
 'diag': mk('diag -o val -O vec in', {'in': tab([(1., 2., 3.), (2., 4., 5.), (3., 5., 6.)])}, {'in': 'm'}, ['val', 'vec'], minimal={'in': 3}),
 'diag -B': mk('diag -B -t -o val -O vec in', {'in': tab([(1., 2.), (2., 4.)])}, {'in': 'm'}, ['val', 'vec'], minimal={'in': 2}),
 'unitary': mk('unitary -o out A B C', {'A': tab([(1., 2.), (3., 4.)]), 'B': tab([(5., 6.), (7., 8.)]), 'C': tab([(1., -1.), (2., 3.)])}, {'A': 'm', 'B': 'm', 'C': 'm'}, ['out'], minimal={'B': 2, 'C': 2}),
 'unitary stdout': mk('unitary -q A B C', {'A': tab([(1., 2.), (3., 4.)]), 'B': tab([(5., 6.), (7., 8.)]), 'C': tab([(1., -1.), (2., 3.)])}, {'A': 'm', 'B': 'm', 'C': 'm'}, minimal={'B': 2}),
 'unitary -B': mk('unitary -B -o out A B C', {'A': struct.pack('<II', 2, 2) + binf([(1., 2.), (3., 4.)]), 'B': tab([(5., 6.), (7., 8.)]), 'C': struct.pack('<II', 2, 2) + binf([(1., -1.), (2., 3.)])}, {'A': 'B', 'B': 'm', 'C': 'B'}, ['out'], minimal={'B': 2}),
 'resample': mk('resample in grid out', {'in': tab(CURVE), 'grid': tab([(0., 1.), (.5, 1.), (1., 1.)])}, {'in': 't2', 'grid': 't2'}, ['out'], minimal={'in': 2}),
 'matrix': mk('matrix p in', dict(CHAIN, **{'p': 'a=1.5\nb=2\n', 'in': 'a+b\ncoefxi[1,1]\n2*coefzeta[1,0]\ngammaPolCh[1]\n'}), {'theta.dat': 'l', 'xi.dat': 'l', 'zeta.dat': 'l', 'in': 's', 'p': 's'}, minimal={'theta.dat': 1, 'xi.dat': 2, 'zeta.dat': 1}),
 'matrix stdin': mk('matrix', dict(CHAIN, **{'in': 'a=2\na*3\n3/4+a\n'}), {'theta.dat': 'l', 'in': 's'}, stdin='in', minimal={'theta.dat': 1}),
 'nrgchain': mk('nrgchain', {'param': PAR, 'Bath.dat': tab(BATH), 'FSOL.dat': tab(FS), 'FSOLNEG.dat': tab(FS)}, {'param': 'p', 'Bath.dat': 't2', 'FSOL.dat': 't2', 'FSOLNEG.dat': 't2'}, ['theta.dat', 'xi.dat', 'zeta.dat']),
 'nrgchain s': mk('nrgchain s', {'param': PAR, 'Bath.dat': tab(BATH), 'FSOL.dat': tab(FS), 'FSOLNEG.dat': tab(FS)}, {'param': 'p', 'Bath.dat': 't2', 'FSOL.dat': 't2', 'FSOLNEG.dat': 't2'}, None),
 'nrgchain adapt': mk('nrgchain', {'param': PAR + 'adapt=true\n', 'Bath.dat': tab(BATH), 'FSOL.dat': tab(FS), 'FSOLNEG.dat': tab(FS), 'GSOL.dat': tab(FS), 'GSOLNEG.dat': tab(FS)}, {k: 't2' for k in ('GSOL.dat', 'GSOLNEG.dat')}, ['theta.dat', 'xi.dat', 'zeta.dat']),
 'adapt': mk('adapt P', {'param': ADP, 'Bath.dat': tab(BATH)}, {'param': 'p', 'Bath.dat': 't2'}, ['FSOL.dat']),
 'adapt grid': mk('adapt N', {'param': ADP.replace('false', 'true'), 'Bath.dat': tab(BATH)}, {'Bath.dat': 't2'}, ['FSOLNEG.dat', 'GSOLNEG.dat']),
}
WORDS = {'param': ('band', 'dos', 'adapt')}       # settings that are no numbers

def damages(name, case):
    """-> (file, damage, files). An empty list of points at which hilb or resample evaluate is no damage: the list of results is empty"""
    for f, k in sorted(case.kinds.items()):
        t = case.files[f]; put1 = lambda x: dict(case.files, **{f: x})
        if f != case.stdin: yield f, 'missing', {n: v for n, v in case.files.items() if n != f}
        if isinstance(t, bytes):
            rec = 8 * int(k[1]) if k[0] == 'b' else len(t)
            for n in range(1, len(t)):
                if n % rec and (rec - n % rec <= 8 or n % rec <= 8 or n % 8 == 0 or thorough()): yield f, 'cut at byte %d' % n, put1(t[:n])
            if k == 'B': yield f, 'empty', put1(b'')
            continue
        if k != 's' and (name, f) not in (('hilb stream', 'in'), ('resample', 'grid')): yield f, 'empty', put1('')
        if k[0] == 't' and (name, f) not in (('hilb stream', 'in'), ('resample', 'grid')):
            yield f, 'no rows', put1('# nothing\n')
        lines = t.splitlines(True)
        if k in ('l', 's'): pass
        toks = [m for m in re.finditer(r'[^\s=,+*/{}\[\]()]+' if k in 'sp' else r'\S+', t)]
        ncol = int(k[1:]) if k[0] == 't' else 99
        for m in toks:
            line = t[t.rfind('\n', 0, m.start()) + 1:]; line = line[:line.find('\n')]
            if line.startswith(('#', '[')) or not re.match(r'^[-+]?[0-9.]', m.group()): continue
            col = len(t[t.rfind('\n', 0, m.start()) + 1:m.start()].split())
            if k[0] == 't' and col >= ncol: continue
            for b in (BAD if k != 's' else ['1.5.2', '1+', '(', '1]']):
                if b == '#' and col == 0: continue
                yield f, 'number replaced by %s at %d' % (b, m.start()), put1(t[:m.start()] + b + t[m.end():])
        if k[0] == 't' and ncol > 1 or k == 'm':      # the last record is cut off (the one before, too)
            rows = [i for i, l in enumerate(lines) if not l.startswith('#')]
            for i in rows:
                w = lines[i].split()
                for n in range(1, min(ncol, len(w))):
                    left = sum(len(lines[x].split()) for x in rows[:rows.index(i)]) + n + (sum(len(lines[x].split()) for x in rows[rows.index(i) + 1:]) if i != rows[-1] and n % 2 == 0 else 0)
                    if case.cmd[0] == 'diag' and round(left ** .5) ** 2 == left: continue      # still a square matrix
                    yield f, 'row %d cut after column %d' % (rows.index(i), n), put1(''.join(lines[:i]) + ' '.join(w[:n]) + ('\n' if n % 2 else '') + (''.join(lines[i + 1:]) if i != rows[-1] and n % 2 == 0 else ''))
        if f in case.minimal:
            rows = [i for i, l in enumerate(lines) if not l.startswith('#')]
            for n in range(1, case.minimal[f]): yield f, 'only %d records' % n, put1(''.join(l for i, l in enumerate(lines) if i not in rows[n:]))

_srv = {}
def execute(d, case, files, plans=()):
    clean(d); w = os.path.join(d, 'w'); os.mkdir(w); put(w, files)
    k = os.getpid(); p = _srv.get(k)
    if p is None or p.poll() is not None: p = _srv[k] = subprocess.Popen([BIN['exec']], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)
    ev = os.path.join(d, 'ev')
    p.stdin.write('\t'.join(['%s;%s;%s;20' % (','.join('%d:%s:%d' % x for x in plans), w + '/', ev), w, os.path.join(w, case.stdin) if case.stdin and case.stdin in files else '-', os.path.join(w, 'STD'), BIN[case.cmd[0]]] + case.cmd[1:]) + '\n'); p.stdin.flush()
    rc, fired = [int(x) for x in p.stdout.readline().split()]
    events = [l.split('\t') for l in open(ev).read().splitlines()]
    err = (get(w, 'STD.err') or b'').decode('latin1') + (get(w, 'STD.out') or b'').decode('latin1')
    out = {}
    for root, _, fs in os.walk(w):
        for f in fs:
            r = os.path.relpath(os.path.join(root, f), w)
            if r != 'STD.err' and (r not in files or case.files.get(r) == files.get(r) and get(w, r) != (files[r] if isinstance(files[r], bytes) else files[r].encode())): out[r] = get(w, r)
    if case.out is None or case.out: out.pop('STD.out', None)      # progress messages
    return rc, fired, events, out, err
def one(job):
    name, kind, arg, ref = job
    case = CASES[name]; d = workdir()
    files = case.files if kind == 'fault' else arg[2]
    plans = [] if kind != 'fault' else [(arg[0], 'len', arg[2]), (arg[0] + 1, 'fail', errno.EIO)] if 'then' in arg[1] else [arg]
    rc, fired, ev, out, err = execute(d, case, files, plans)
    tool = case.cmd[0]
    if kind == 'fault':
        x = ev[arg[0]] if arg[0] < len(ev) else ['?'] * 5
        f = re.sub(r'^.*/w/', '', x[2]); f = {'STD.out': 'standard output', 'STD.err': 'standard error'}.get(f, f)
        what = '%s: %s%s at %s of %s' % (' '.join(case.cmd), arg[1], ' ' + errno.errorcode[arg[2]] if arg[1] == 'fail' else '', x[1], f)
        key = '%s: %s %s' % (name, 'reading' if f in case.kinds or ' read ' in what else 'output to', f)
        if not fired: return job, what, 'the fault is not reached', key
    else:
        what = '%s: %s of %s' % (' '.join(case.cmd), arg[1], arg[0]); key = '%s: %s of %s' % (name, re.sub(r' (at |after )?[\d.]+.*', '', arg[1]), arg[0])
    if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGALRM, -signal.SIGILL): return job, what, 'ends by signal %d' % -rc, key
    if rc == 0 and out != ref: return job, what, 'exit status 0, but the output differs from the undamaged one: %s' % '; '.join('%s: %r' % (k, (out.get(k) or b'')[:60]) for k in sorted(set(out) | set(ref)) if out.get(k) != ref.get(k))[:200], key
    if rc == 0 and kind != 'fault' and re.match('missing|empty|no rows|only', arg[1]) : return job, what, 'exit status 0', key
    if rc != 0 and not err.strip() and not (kind == 'fault' and 'full' in arg[1]): return job, what, 'status %d without any message' % rc, key
    return job, what, None, key
def body(c):
    BIN.update(build_tools(sorted({x.cmd[0] for x in CASES.values()})))
    BIN['exec'] = link('faultexec', build_objects([(os.path.join(VERIF, 'harness', 'faultexec.cc'), ['-std=gnu++20', '-O1', '-w'])]), [])
    jobs = []; n = collections.Counter()
    for name, case in CASES.items():
        rc, fired, ev, ref, err = execute(workdir(), case, case.files)
        if rc: c.violation('%s: the undamaged input is refused: status %d %s' % (name, rc, err[-200:]), {'case': name, 'files': {k: str(v) for k, v in case.files.items()}}, None); continue
        if not ref or case.out and any(o not in ref for o in case.out): c.violation('%s: no output: %s' % (name, sorted(ref)), {'case': name}, None); continue
        c.note(1, name)
        for dm in damages(name, case): jobs.append((name, 'damage', dm, ref)); n[case.cmd[0] + ' damages'] += 1
        written = {e[2] for e in ev if e[0] == 'w'}
        for i, e in enumerate(ev):
            f = re.sub(r'^.*/w/', '', e[2])
            if f == 'STD.err' or f == 'STD.out' and 'STD.out' not in ref: continue
            if e[0] == 'o' and f in ref: pl = [('fail', errno.EACCES), ('fail', errno.ENOSPC)]
            elif e[0] == 'w' and f in ref: pl = [('full', 0), ('fail', errno.EIO)] + ([('part', 0), ('partfull', 0)] if int(e[3]) > 1 else [])
            elif e[0] == 'c' and f in ref and e[2] in written: pl = [('fail', errno.EIO)]
            elif e[0] == 'r' and (f in case.kinds or case.stdin): pl = [('fail', errno.EIO)] + ([('len', int(e[4]) // 2), ('short, then fail', int(e[4]) // 2)] if int(e[4]) > 1 else [])
            elif e[0] == 'o' and f in case.kinds: pl = [('fail', errno.EACCES)]
            else: continue
            for a, b in pl: jobs.append((name, 'fault', (i, a, b), ref)); n[case.cmd[0] + ' faults'] += 1
    for job, what, bad, key in pmap(one, jobs, 8, c.deadline):
        c.note(1, repr(job[:3])[:300])
        if bad: c.violation('%s: %s' % (what, bad), {'case': job[0], 'damage': repr(job[2])[:1500]}, key)
    if pmap.cut: c.cut()
    c.sample(dict(n))
    c.cov['domain'] = len(jobs) + len(CASES); c.cov['fault_points'] = sum(v for k, v in n.items() if 'faults' in k); c.cov['traces_validated_against_impl'] = len(jobs)
    c.rule = 'every case x {every input file missing, empty, without rows, too short, cut inside every record; every number replaced by each malformed token; every write, close and open of an output failing, short or on a full disk}'
    c.assumptions += ['an abort by an uncaught exception or a failed assertion counts as refusal', 'a cut at a record boundary that leaves enough records cannot be noticed', 'progress messages on standard output are not results where a tool writes a result file']
if __name__ == '__main__': main(body, 'T11', level='fault_enumeration')
