"""Checks whose enumeration and oracle are in harness/probe_num.cc, split over processes."""
import subprocess
from vlib import *
import corebuild
def part(job):
    binary, what, size, k, n, limit = job
    d = workdir(); clean(d)
    try: p = subprocess.run([binary, what, str(size), str(k), str(n)], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=limit, env=dict(os.environ, OPENBLAS_NUM_THREADS='1'))
    except subprocess.TimeoutExpired as e: return k, (e.stdout or b'').decode(), None
    return k, p.stdout.decode(), p.returncode
def run_parts(c, what, domain, rule, assumptions):
    binary = corebuild.build_core('probe_num', 'probe_num.cc', syms=[], lib=False, opt='-O1')
    size = pick(0, 1); n = pick(32, 256); ev = st = ref = 0; cut = False
    for k, out, rc in pmap(part, [(binary, what, size, k, n, pick(600, 6000)) for k in range(n)], 1, c.deadline):
        done = None
        for l in out.splitlines():
            if l.startswith('VIOL '):
                key, text = l[5:].split(' | ', 1); c.violation(text, {'command': 'probe_num %s %d %d %d' % (what, size, k, n), 'kind': key}, key)
            if l.startswith('DONE '): done = [int(x) for x in l.split()[1:5]]
        if done: ev += done[0]; st += done[1]; ref += done[3]; c.note(done[0], 'part %d: %s' % (k, done))
        elif rc is None: cut = True
        else: c.violation('the enumeration ends with status %s after %s' % (rc, out[-300:]), {'command': 'probe_num %s %d %d %d' % (what, size, k, n)}, None)
        if k % 16 == 0: c.sample({'part': k, 'evaluations, states, violations': done})
    if cut or getattr(pmap, 'cut', False): c.cut()
    c.cov['distinct_nontrivial'] = st; c.cov['domain'] = domain
    if ref: c.cov['library_failures_reported'] = ref
    c.rule = rule; c.assumptions = assumptions
