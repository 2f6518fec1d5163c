"""C02: threaded diagonalisation. The program's own code, compiled with OpenMP and memory-access callbacks, runs on a
controlled OpenMP runtime: every order of the synchronisation operations is enumerated, with a happens-before race check
of all accesses on each, and the result is compared bit by bit with the sequential code."""
import sys, os, re, json, subprocess, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import corebuild, C14
BIN = {}
M = os.path.join(VERIF, 'models')
QS = '[param]\nsymtype=QS\nLambda=2.0\nbandrescale=1\nNmax=2\nkeep=20\nkeepmin=5\nops=n_d A_d\nspecd=A_d-A_d\nT=0.1\nbins=20\nbroaden_max=4\nbroaden_ratio=2\n%s'
QSZ = '[param]\nsymtype=QSZ\nLambda=2.0\nbandrescale=1\nNmax=2\nkeep=20\nT=0.1\nbins=20\n%s'
SP = '[param]\nsymtype=SPSU2\nLambda=2.0\nNmax=1\nkeep=1000\nops=n_f\nT=0.3\ndata_has_rescaled_energies=false\n%s'
H5 = 'h5raw=true\nh5all=true\nh5ham=true\nh5vectors=true\nh5ops=true\nh5U=true\nh5struct=true\n'
MODELS = {'qs': ('qs_siam.data', QS), 'cplx': ('spsu2_cplx.data', SP), 'qsz': ('qsz.data', QSZ)}
_gen = {}
def generated(mo):
    """models of C14: all symmetry types, all quantities requested"""
    if mo not in _gen:
        base, lists, text = C14.build(MO[mo], False)
        _gen[mo] = text, re.sub(r'(?m)^mats=\d+', 'mats=%d' % pick(2, 20), C14.ptext(base, lists)).replace('%', '%%') + '%s'
    return _gen[mo]
MO = {}
VAR = {'': '', 'fdm': 'fdmexpv=true\n', 'h5': H5, 'dsyevr': 'diag=dsyevr\ndiagratio=0.4\n', 'dsyevd': 'diag=dsyevd\n', 'zheevr': 'diag=zheevr\ndiagratio=0.4\n', 'log': 'log=(DR\n', 'substeps': 'lastall=true\n'}

def start(job):
    t0 = time.time()
    r = start0(job)
    if os.environ.get('C02T'): sys.stderr.write('TIME %.2f %r %s\n' % (time.time() - t0, job, r[1] and (r[1]['execs'], r[1]['regions'], r[1]['complete'])))
    return r
def start0(job):
    model, extra, spec = job
    d = scratch('o')
    if model in MODELS: dat, par = MODELS[model]; dat = open(os.path.join(M, dat)).read()
    else: dat, par = generated(model)
    put(d, {'data': dat, 'param': par % extra})
    p = subprocess.run([BIN['x']], input='%s %s\n' % (d, spec), stderr=subprocess.PIPE, stdout=subprocess.DEVNULL, text=True, cwd=d, timeout=880 if not thorough() else 3500, env=dict(os.environ, VERIF_H5_TEXT='1', OPENBLAS_NUM_THREADS='1'))
    files = {f: open(os.path.join(d, f), 'rb').read() for f in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, f))}
    shutil.rmtree(d, ignore_errors=True)
    for l in p.stderr.splitlines():
        if l.startswith('RESULT '): return job, json.loads(l[7:]), files, p.stderr[-600:]
    return job, None, files, p.stderr[-600:]
def one(job):
    if job[2].startswith('B'):
        job, r, files, err = start(job)
        return job, r, files, err
    job, r, files, err = start(job); return job, r, None, err

def jobs():
    T = thorough(); lim = pick(60000, 3000000)
    J = []
    def a(model, var, threads, n, dev, windows, kind='A'): J.append((model, VAR[var], '%s %d %d %d %d %d' % (kind, threads, n, dev, lim, windows)))
    for model in MODELS:
        vs = ['', 'h5', 'log'] + (['zheevr', 'fdm'] if model == 'cplx' else ['dsyevr', 'dsyevd'])
        if not T and model == 'qsz': vs = ['', 'h5']
        for var in vs:
            for n in (0, 1, 2): a(model, var, 2, n, -1, 0 if T or var in ('', 'h5') else 2)
            for n in (0, 1): a(model, var, 3, n, -1, 0 if T else 2)
            a(model, var, 2, 3, -1, 0 if T else 1)
            if var in ('', 'h5') or T:
                a(model, var, 3, 2, pick(3, -1), pick(1, 3)); a(model, var, 3, 3, pick(2, 4), pick(1, 3)); a(model, var, 3, 4, pick(2, 3), pick(1, 3))
                a(model, var, 2, 4, pick(3, -1), pick(1, 3)); a(model, var, 2, 50, pick(1, 2), 1); a(model, var, 3, 50, 1, 1); a(model, var, 1, 50, -1, 1)
        a(model, '', 2, 2, -1, 0, 'W'); a(model, '', 3, 4, 0, 0, 'W')
    if T: a('qs', '', 3, 2, -1, 1)
    B = []
    for k, mo in enumerate(C14.models()):
        nm = '%s-%d%s#%d' % (mo[0], mo[1], mo[7], k); MO[nm] = mo
        if not T and mo[1] == 3: continue
        big = mo[1] > 1 and not T
        J.append((nm, H5 if k % 3 == 0 and not big else '', 'A 2 2 %d %d %d' % (1 if big else -1, lim, pick(1, 4))))
        if not big: J.append((nm, H5 if k % 3 == 1 else '', 'A 3 3 1 %d %d' % (lim, pick(1, 2))))
        J.append((nm, H5 if k % 3 == 2 else '', 'A 3 200 0 %d 1' % pick(20, 500)))
        if big: continue
        for th, pol in ((2, 1), (3, 0), (3, 1), (4, 1), (1, 0))[:pick(1, 5)] if k % 2 else ((3, 1), (2, 0), (2, 1), (4, 0), (1, 1))[:pick(1, 5)]:
            B.append((nm, (H5 if k % 2 else '') + 'diag_mode=OpenMP\ndiagth=%d\n' % th, 'B %d %d 0 1 0' % (th, pol)))
    return J, B

def describe(f):
    w, trail = f
    return '%s (schedule %s)' % (w, trail or 'first')
def body(c):
    BIN['x'] = corebuild.build_omp()
    J, B = jobs(); total = {}
    def account(job, r):
        c.note(r['execs'], job)
        for k in ('states', 'transitions', 'accesses', 'windows', 'regions', 'execs', 'untracked'): total[k] = total.get(k, 0) + r[k]
    for (job, r, files, err), _ in zip(pmap(one, J, 1, c.deadline), J):
        rep = {'model': job[0], 'extra': job[1], 'job': job[2]}
        if r is None: c.violation('no result for %r: %s' % (job, err), rep, None); continue
        account(job, r)
        died = r.get('died')
        if job[2][0] == 'W':
            # one subspace raises an error: it may reach the caller or stop the program, but it may not be lost
            if died is not None and died not in (-6,): c.violation('an error raised by one subspace: the program ends with %r: %s' % (died, err), rep, None)
            if died is None and r['fails']: c.violation('an error raised by one subspace, %s: %s' % (job[2], describe(r['fails'][0])), rep, None)
            continue
        if died is not None: c.violation('%r: the program dies (%r): %s' % (job, died, err), rep, None); continue
        for f in r['fails']: c.violation('%s, %s%s: %s' % (job[0], job[2], ' with ' + job[1].replace('\n', ' ') if job[1] else '', describe(f)), dict(rep, schedule=f[1]), None)
        if not r['complete'] and not r['fails'] and job[2].split()[2] != '200': c.cut()
    # whole program: all result files against the sequential run
    ref = {}
    R = [(m, x.replace('diag_mode=OpenMP', 'diag_mode=serial').split('diagth')[0], 'B 1 0 0 1 0') for m, x, s in B]
    R = sorted(set(R))
    for job, r, files, err in pmap(one, R, 1, c.deadline):
        if r is None or r.get('died') is not None or r['fails']: c.violation('sequential run fails: %r %r %s' % (job, r, err), {'job': job}, None); continue
        c.note(1, job); ref[job[0], job[1]] = files
    own = {'param', 'data'}
    for job, r, files, err in pmap(one, B, 1, c.deadline):
        key = job[0], job[1].replace('diag_mode=OpenMP', 'diag_mode=serial').split('diagth')[0]
        rep = {'model': job[0], 'extra': job[1], 'job': job[2]}
        if r is None or r.get('died') is not None: c.violation('whole program %r: %r %s' % (job, r, err), rep, None); continue
        account(job, r)
        for f in r['fails']: c.violation('whole program, %s with %s: %s' % (job[0], job[1].replace('\n', ' '), f[0]), rep, None)
        if key not in ref: continue
        a, b = ref[key], files
        def strip(name, t): return b'\n'.join(l for l in t.split(b'\n') if b'diag_mode' not in l and b'diagth' not in l) if name.endswith('.h5.txt') else t
        for f in sorted((set(a) | set(b)) - own):
            if f not in a or f not in b: c.violation('whole program, %s with %s: file %s exists in only one of the sequential and the threaded run' % (job[0], job[1].replace('\n', ' '), f), rep, None)
            elif strip(f, a[f]) != strip(f, b[f]): c.violation('whole program, %s with %s: %s differs from that of the sequential run' % (job[0], job[1].replace('\n', ' '), f), rep, None)
    if pmap.cut: c.cut()
    c.sample(total)
    c.cov.update({'states': total['states'], 'transitions': total['transitions'], 'schedules': total['execs'], 'traces_validated_against_impl': total['execs']})
    c.cov['domain'] = len(J) + len(B); c.cov['accesses_checked'] = total['accesses']; c.cov['parallel_regions'] = total['regions']; c.cov['accesses_not_checked_for_lack_of_shadow_memory'] = total['untracked']
    c.rule = 'every order of the synchronisation operations (thread start, chunk acquisition, critical sections, end) for teams of 1-3 and windows of 0-3 subspaces of 3 models; larger windows and all subspaces with a bounded number of preemptions; whole program with teams of 1-4 and two scheduling policies; vector-clock race check of every instrumented access on each execution'
    c.assumptions += ['libraries without instrumentation (LAPACK, libstdc++ internals) keep no unsynchronised state', 'HDF5 output is the in-memory stand-in of /verif/shim, treated as not thread safe', 'accesses to memory are compared on each executed schedule; threads are switched at synchronisation operations only, which loses nothing when no race exists']
if __name__ == '__main__': main(body, 'C02', level='model_checking', budget=pick(300, 3000))
