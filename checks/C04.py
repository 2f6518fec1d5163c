"""C04: every history of store and load operations up to a bound on the real classes; every file-related system call of each history as crash
point (before, after, half-written) or failing call (error, full disk, partial transfer), and pairs of faults; every truncation length."""
import sys, os, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import corebuild
def part(job):
    binary, size, k, n, limit = job
    d = workdir(); clean(d)
    try: p = subprocess.run([binary, str(size), str(k), str(n), d], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=limit, env=dict(os.environ, OPENBLAS_NUM_THREADS='1'))
    except subprocess.TimeoutExpired as e: return k, (e.stdout or b'').decode(), None
    return k, p.stdout.decode(), p.returncode
def body(c):
    binary = corebuild.build_core('state_crash', 'state_crash.cc', syms=[], lib=False, opt='-O1')
    size = pick(0, 1); n = pick(32, 256); tot = [0, 0, 0, 0]
    for k, out, rc in pmap(part, [(binary, size, k, n, pick(400, 3000)) for k in range(n)], 1, c.deadline):
        done = None
        for l in out.splitlines():
            if l.startswith('VIOL '):
                key, text = l[5:].split(' | ', 1); c.violation(text, {'command': 'state_crash %d %d %d SCRATCHDIR' % (size, k, n), 'kind': key}, key)
            if l.startswith('DONE '): done = [int(x) for x in l.split()[1:5]]
        if done: tot = [a + b for a, b in zip(tot, done)]; c.note(done[0], 'part %d: %s' % (k, done))
        elif rc is None: c.cut()
        else: c.violation('the enumeration ends with status %s after %s' % (rc, out[-300:]), {'command': 'state_crash %d %d %d SCRATCHDIR' % (size, k, n)}, None)
        if k % 8 == 0: c.sample({'part': k, 'executions, states, violations, system calls': done})
    if getattr(pmap, 'cut', False): c.cut()
    c.cov['distinct_nontrivial'] = tot[1]; c.cov['system_calls'] = tot[3]
    c.cov['domain'] = 'histories of store/load/load-and-remove operations x fault or crash at every file-related system call'
    c.rule = 'all histories of up to %s operations (eigenstates and density matrices, three versions, real and complex) starting with a store; each file-related system call: killed before, after, or with half of the data written; failing; full disk from there on; partial transfer; pairs of faults for histories of 2; every truncation length of six files' % pick('2 (3 on reduced alphabets)', '3')
    c.assumptions = ['a crash is the end of the process; data handed to the kernel survives', 'the real code runs; system calls are intercepted with ptrace']
if __name__ == '__main__': main(body, 'C04', level='fault_enumeration')
