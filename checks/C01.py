"""C01: distributed diagonalisation on every message schedule. The program's own master and worker code runs on
coroutines over a controlled message layer; all answers MPI may give are enumerated."""
import sys, os, json, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import corebuild
BIN = {}
M = os.path.join(VERIF, 'models')
QS = '[param]\nsymtype=QS\nLambda=2.0\nbandrescale=1\nNmax=%d\nkeep=20\nkeepmin=5\nops=n_d A_d\nspecd=A_d-A_d\nT=0.1\nbins=20\nbroaden_max=4\nbroaden_ratio=2\n%s'
SP = '[param]\nsymtype=SPSU2\nLambda=2.0\nNmax=1\nkeep=1000\nops=n_f\nT=0.3\nfdmexpv=true\ndata_has_rescaled_energies=false\n%s'
MODELS = {'qs': ('qs_siam.data', QS % (2, 'fdm=true\nfdmexpv=true\n')), 'qs_long': ('qs_siam.data', QS % (4, 'diag=dsyevr\ndiagratio=0.4\nstrategy=kept\n')),
          'cplx': ('spsu2_cplx.data', SP % '')}
MODE = ['buffered', 'synchronous', 'mixed']

def one(job):
    model, spec, files = job
    d = scratch('m')
    dat, par = MODELS[model]
    put(d, {'data': open(os.path.join(M, dat)).read(), 'param': par})
    for f in files: os.unlink(os.path.join(d, f))
    p = subprocess.run([BIN['x']], input='%s %s\n' % (d, spec), stderr=subprocess.PIPE, stdout=subprocess.DEVNULL, text=True, cwd=d, timeout=1500)
    shutil.rmtree(d, ignore_errors=True)
    for l in p.stderr.splitlines():
        if l.startswith('RESULT '): return job, json.loads(l[7:])
    return job, {'execs': 0, 'fails': [['no result: ' + p.stderr[-300:], '']], 'transitions': 0, 'states': 0, 'messages': 0, 'complete': False, 'depth': 0}

def jobs():
    """(model, 'KIND ranks mode policy maxdev maxexec delay a b', missing files)"""
    r = []
    T = thorough()
    lim = pick(20000, 400000)
    # one round of diagonalisations: every schedule
    for model in ('qs', 'cplx'):
        for ranks in (1, 2, 3, 4, 5):
            for nt in range(0, pick({1: 4, 2: 8, 3: 6, 4: 5, 5: 5}, {1: 6, 2: 12, 3: 9, 4: 8, 5: 7})[ranks] + 1):
                for mode in (0, 1, 2):
                    if not T and mode == 2 and nt > 4: continue
                    r.append((model, 'A %d %d 0 -1 %d 0 1 %d' % (ranks, mode, lim, nt), ()))
    # several rounds with changing diagonalisation parameters
    for model in ('qs', 'cplx'):
        for ranks, nt, rounds in ((2, 2, 3), (2, 3, 2), (3, 2, 3), (3, 3, 2), (4, 2, 2), (2, 1, 4), (3, 0, 3), (4, 1, 3)) + (((3, 4, 2), (4, 4, 2), (3, 3, 3)) if T else ()):
            for mode in (0, 1): r.append((model, 'A %d %d 0 -1 %d 0 %d %d' % (ranks, mode, lim, rounds, nt), ()))
    # workers that look too early, bounded deviations, all subspaces
    for model in ('qs', 'cplx'):
        for ranks in (2, 3, 4):
            for policy in (0, 1):
                for mode in (0, 1):
                    r.append((model, 'A %d %d %d %d %d 1 1 %d' % (ranks, mode, policy, pick(1, 3), lim, 20), ()))
                    r.append((model, 'A %d %d %d %d %d 0 2 %d' % (ranks, mode, policy, pick(2, 3), lim, 20), ()))
    # the whole program
    for model in ('qs', 'cplx', 'qs_long'):
        for ranks in (2, 3, 5):
            for policy in (0, 1):
                for mode in (0, 1):
                    if model == 'qs_long' and (ranks == 5 or mode): continue
                    dev = pick(1 if model != 'qs_long' else 0, 2 if model == 'cplx' else 1)
                    r.append((model, 'B %d %d %d %d %d 0 0 0' % (ranks, mode, policy, dev, pick(400, 4000)), ()))
    for miss in (('data',), ('param',), ('data', 'param')):
        for ranks in (1, 2, 4): r.append(('qs', 'B %d 0 0 -1 100 0 0 0' % ranks, miss))
    # transport
    for mode in (0, 1): r.append(('qs', 'T 2 %d 0 -1 1 0 %d %d' % (mode, pick(12, 40), pick(512, 2048)), ()))
    return sorted(r, key=lambda j: -(('B' in j[1]) * 1000 + int(j[1].split()[1]) * 10 + int(j[1].split()[-1])))

def check(c):
    BIN['x'] = corebuild.build_core('mpi_explore', 'mpi_explore.cc')
    c.cov.update(states=0, transitions=0, traces_validated_against_impl=0, messages=0, configurations=0)
    c.rule = 'every answer of every probe/receive, for each number of workers, tasks, rounds and buffering mode'
    c.assumptions = ['messages between a pair of ranks with the same communicator do not overtake; a probe may or may not see a message that has been sent',
                     'workers are deterministic between messages (the explorer runs them eagerly; delays are covered by the answers to the master and by delayed answers to the workers)',
                     'the message layer stands in for Boost.MPI/Open MPI, the Boost serialization of the program is used']
    for job, r in pmap(one, jobs(), 1, c.deadline):
        model, spec, files = job
        w = spec.split()
        c.note(r['execs'], None); c.distinct.add(job)
        c.cov['states'] += r['states']; c.cov['transitions'] += r['transitions']; c.cov['traces_validated_against_impl'] += r['execs']; c.cov['messages'] += r['messages']; c.cov['configurations'] += 1
        if not r['complete'] and not r['fails']: c.cut()
        if len(c.samples) < 8 and (r['execs'] > 50 or w[0] == 'T'): c.sample('%s: %s -> %d schedules, %d choice points, depth %d' % (model, spec, r['execs'], r['transitions'], r['depth']))
        for what, trail in r['fails'][:2]:
            c.violation('%s, %s ranks, %s messages [%s]: %s\n schedule: %s' % (model, w[1], MODE[int(w[2])], spec, what, trail),
                        {'model': model, 'spec': spec, 'missing': files, 'choices': [x.split('/')[0] for x in trail.split()], 'data': MODELS[model]})
    if pmap.cut: c.cut()
    for w in (): pass

main(check, 'C01', level='model_checking', budget=pick(120, 3000))
