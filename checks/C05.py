"""C05: complete runs of the real program with one fault at every file-related system call (failing, full disk from there on, partial transfer,
killed before or after, torn write); exit status, completion marker, result files and work directory are judged against an undisturbed run."""
import sys, os, re, signal, errno, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import core, corebuild, C14

OUT = 'dumpannotated=20\ndumpsubspaces=true\ndumpenergies=true\ndumpstates=true\nreportdiagonal=3\nchecksumrules=true\ndumpdiagonal=2\n'
CASES = {  # name: (requested quantities, further parameters, arguments)
    'first run only': ((), OUT, ()),
    'spectra': (('finite', 'finitemats', 'specgt', 'speci1t', 'speci2t', 'specchit'), 'broaden=true\nbroaden_max=2.\nbroaden_min=0.05\nbroaden_ratio=1.5\n', ('-w', 'sub')),
    'density matrices': (('fdm', 'fdmexpv', 'dmnrg', 'cfs', 'fdmmats', 'dmnrgmats'), '', ('-w', 'sub')),
    'density matrices, files kept': (('fdm', 'fdmgt', 'cfsgt'), 'removefiles=false\ndumpabsenergies=true\n', ()),
}
MODEL = [m for m in C14.models() if m[0] == 'QS' and m[1] == 1 and not m[7]][0]
MODEL2 = [m for m in C14.models() if m[0] == 'QSZ' and m[1] == 1 and not m[7]][0]
EXTERNAL = ('param', 'data')

def setup(name, model):
    req, more, args = CASES[name]
    base, lists, text = C14.build(model, False)
    lists = {k: v[:1] for k, v in lists.items()}
    p = C14.ptext(base.replace('bins=100', 'bins=10'), lists, req)
    over = {l.split('=')[0] for l in more.split('\n') if l}
    p = '\n'.join(l for l in p.split('\n') if l.split('=')[0] not in over) + more
    return text, p, args
def execute(d, text, p, args, plans, tag, stale=False):
    """-> status, fired, events, files of the run directory, what is left"""
    clean(d); run = os.path.join(d, 'run'); os.mkdir(run)
    put(run, {'data': text, 'param': p})
    if stale: put(run, {'DONE': 'stale'})
    if args: os.mkdir(os.path.join(run, 'sub'))
    ev = os.path.join(d, 'events')
    rc = core.nrg('@%s;%s;%s' % (','.join('%d:%s:%d' % x for x in plans) or '', run + '/', ev), (run,) + tuple(args), env={'OPENBLAS_NUM_THREADS': '1'})
    L = open(ev).read().splitlines()
    events = [l.split('\t') for l in L[1:]]
    files, left = {}, []
    for root, dirs, fs in os.walk(run):
        rel = os.path.relpath(root, run)
        for f in fs:
            if rel == '.': files[f] = open(os.path.join(root, f), 'rb').read()
            else: left.append(os.path.join(rel, f))
        for x in dirs:
            if os.path.join(rel, x) != './sub': left.append(os.path.join(rel, x) + '/')
    log = open(run + '.log', 'rb').read().decode('latin1') if os.path.exists(run + '.log') else ''
    outside = [x for x in os.listdir(d) if x not in ('run', 'run.log', 'events')]
    return rc, int(L[0]), events, files, left, log, outside
def faults(ev, i):
    kind, name, path, ln, ret = ev; ln = int(ln)
    v = []
    if kind == 'o': v = [('fail', errno.EACCES)]
    elif kind == 'r': v = [('fail', errno.EIO)] + ([('part', 0)] if ln > 1 else [])
    elif kind == 'w': v = [('full', 0), ('fail', errno.EIO)] + ([('part', 0), ('partfull', 0)] if ln > 1 else [])
    elif kind == 'c': v = [('fail', errno.EIO)]
    elif kind == 'm': v = [('fail', errno.ENOSPC if name.startswith(('rename', 'mkdir')) else errno.EACCES)]
    v += [('kill', 0), ('killafter', 0)] + ([('torn', 0)] if kind == 'w' and ln > 1 else [])
    return [(i, a, e) for a, e in v]
def base_name(path, run):
    r = os.path.relpath(path, run)
    return re.sub(r'^(sub/)?[A-Za-z0-9]{6}(/|$)', r'\1WORK\2', r)
def judge(d, name, model, ref, plans):
    text, p, args = setup(name, model)
    rc, fired, ev, files, left, log, outside = execute(d, text, p, args, plans, name)
    run = os.path.join(d, 'run')
    x = ev[plans[-1][0]] if plans and plans[-1][0] < len(ev) else None
    what = '%s: %s at call %s' % (name, ' and '.join('%s %s' % (a, errno.errorcode.get(e, '')) for i, a, e in plans), ', '.join('%d (%s %s %s)' % (i, ev[i][1], base_name(ev[i][2], run), ev[i][3]) if i < len(ev) else str(i) for i, a, e in plans))
    key = '%s %s' % (x[1] if x else '', re.sub(r'\d+', '', base_name(x[2], run)) if x else '')
    if fired != len(plans) and (len(plans) == 1 or not fired): return what, 'the fault is not reached', key, len(ev)
    done = 'DONE' in files
    killed = fired == len(plans) and plans and plans[-1][1] in ('kill', 'killafter', 'torn')
    results = {k: v for k, v in files.items() if k not in EXTERNAL + ('DONE',)}
    if outside: return what, 'files outside the run directory: %s' % outside, key, len(ev)
    if any(files.get(k) != v.encode() for k, v in (('data', text), ('param', p))): return what, 'the input files are changed', key, len(ev)
    complete = {k: v for k, v in results.items()} == ref
    diff = [k for k in sorted(set(ref) | set(results)) if ref.get(k) != results.get(k)]
    if killed:
        if rc != -9: return what, 'ends with status %d although killed' % rc, key, len(ev)
        if done and not complete: return what, 'killed, but the completion marker is there and %s differ from the complete run' % diff, key, len(ev)
        return what, None, key, len(ev)
    if rc < 0 and not (rc == -signal.SIGABRT and 'terminate called' in log): return what, 'ends by signal %d' % -rc, key, len(ev)   # an exception that reaches the end of main() is the program's way of reporting errors
    if rc == 0 and not complete: return what, 'claims success (status 0%s), but %s differ from the undisturbed run' % (', completion marker' if done else '', diff), key, len(ev)
    if rc == 0 and not done: return what, 'status 0, but no completion marker', key, len(ev)
    if rc != 0 and done: return what, 'fails with status %d, but leaves the completion marker' % rc, key, len(ev)
    # the work directory of a run that completes disappears, unless its own removal fails
    hits = [ev[q[0]] for q in plans if q[0] < len(ev)]
    if rc == 0 and left and not any(h[0] in 'mco' and 'WORK' in base_name(h[2], run) for h in hits): return what, 'work directory not removed: %s' % left[:3], key, len(ev)
    if rc == 0 and left and 'Failed to remove' not in log and any(h[1].startswith(('unlink', 'rmdir')) for h in hits): return what, 'work directory not removed, and nothing is reported', key, len(ev)
    return what, None, key, len(ev)
def one(job):
    name, model, ref, plans = job
    return job, judge(workdir(), name, model, ref, plans)
def body(c):
    core.BINARY['nrg'] = corebuild.build_core('nrgserver', 'nrgserver.cc')
    jobs = []; calls = 0; kinds = collections.Counter()
    for name in CASES:
        for model in pick([MODEL], [MODEL, MODEL2]):
            text, p, args = setup(name, model)
            rc, fired, ev, files, left, log, outside = execute(workdir(), text, p, args, [], name)
            if rc or 'DONE' not in files or left: c.violation('%s: the undisturbed run fails: %s %s' % (name, rc, log[-300:]), {'case': name}, None); continue
            ref = {k: v for k, v in files.items() if k not in EXTERNAL + ('DONE',)}
            rc, fired, ev2, files2, left, log, outside = execute(workdir(), text, p, args, [], name, stale=True)
            if {k: v for k, v in files2.items() if k not in EXTERNAL + ('DONE',)} != ref: c.violation('%s: two undisturbed runs differ in %s' % (name, [k for k in files if files2.get(k) != files[k]]), {'case': name}, None); continue
            c.note(2, name); calls += len(ev)
            for i in range(len(ev)):
                for pl in faults(ev[i], i):
                    jobs.append((name, model, ref, [pl])); kinds[ev[i][1] + ' ' + pl[1]] += 1
                    if thorough() and pl[1] == 'fail' and ev[i][0] in 'wcm':   # a second failure soon after a survived or reported one
                        for j in range(i + 1, min(i + 6, len(ev))): jobs.append((name, model, ref, [pl, (j, 'kill', 0)]))
            c.sample({'case': name, 'system calls': len(ev), 'files': sorted(ref)})
    n = 0
    for job, (what, bad, key, k) in pmap(one, jobs, 4, c.deadline):
        c.note(1, what); n += k
        if bad: c.violation('%s: %s' % (what, bad), {'case': job[0], 'faults': job[3]}, '%s: %s' % (key, re.sub(r'\[.*?\]|status \d+', '', bad)))
    if getattr(pmap, 'cut', False): c.cut()
    c.cov['domain'] = 'algorithm settings x system calls x faults'; c.cov['system_calls'] = n; c.cov['faults by kind'] = dict(kinds)
    c.rule = 'every file-related system call below the run directory of %d complete runs, each applicable fault' % len(CASES)
    c.assumptions = [pick('one fault per run', 'one fault per run, or a failing write, close or rename followed by a kill within five calls') + '; a full disk stays full', 'HDF5 output is not built here', 'a killed run may leave its work directory', 'writes to standard output are not judged']
if __name__ == '__main__': main(body, 'C05', level='fault_enumeration')
