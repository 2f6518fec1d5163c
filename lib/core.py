"""Running the solver: one server process per worker, one forked child per job."""
import subprocess, os, atexit
from vlib import *
BINARY = {}
_srv = {}
def nrg(d, args=(), which='nrg', env=None):
    """run the program in directory d; exit status (or -signal). Output in d/log."""
    k = (os.getpid(), which, tuple(sorted((env or {}).items())))
    p = _srv.get(k)
    if p is None or p.poll() is not None:
        e = dict(os.environ); e.setdefault('VERIF_JOB_SECONDS', str(pick(300, 1500))); e.update(env or {})
        p = _srv[k] = subprocess.Popen([BINARY[which]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=e, bufsize=1)
    p.stdin.write('\t'.join([d] + list(args)) + '\n'); p.stdin.flush()
    return int(p.stdout.readline())
