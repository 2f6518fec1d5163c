"""Common machinery of the checks: content-addressed builds from /repo's working
tree, scratch directories, a parallel executor for tool processes, evidence
files, VIOLATION / KNOWN-FINDING reporting."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time, itertools, atexit, signal
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = max(1, min(8, os.cpu_count() or 1))
for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'GOTO_NUM_THREADS'): os.environ[k] = '1'
os.environ['LC_ALL'] = 'C'
for k in list(os.environ):
    if k.startswith('NRG_'): del os.environ[k]

def thorough(): return TIER == 'thorough'
def pick(q, t): return t if TIER == 'thorough' else q

# ---------------------------------------------------------------- scratch
_scr = []
def scratch_root():
    if not _scr:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 256 << 20: base = tempfile.gettempdir()
        except OSError: base = tempfile.gettempdir()
        d = tempfile.mkdtemp(prefix='vchk.', dir=base)
        _scr.append(d)
        pid = os.getpid()
        def rm():
            if os.getpid() == pid: shutil.rmtree(d, ignore_errors=True)
        atexit.register(rm)
    return _scr[0]

def scratch(name=None):
    d = tempfile.mkdtemp(prefix=(name or 'w') + '.', dir=scratch_root())
    return d

# ---------------------------------------------------------------- building
MPI_INC = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
COMMON = ['-std=gnu++20', '-w', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS', '-DFMT_HEADER_ONLY',
          '-DNRG_ENABLE_APP_OPENMP=0', '-DNRG_HAVE_OPENBLAS=1', '-DNRG_HAVE_MKL=0', '-DNRG_HAVE_MKL_RT=0',
          '-DNRG_ENABLE_CUDA=0', '-DNRG_BLAS_VENDOR="OpenBLAS"', '-DNRG_MKL_THREADING_LAYER="AUTO"', '-DNRG_MKL_REQUIRES_OPENMP=0']
def inc(core_first=False):
    r = ['-I' + os.path.join(VERIF, 'shim')]
    r += ['-I' + os.path.join(REPO, x) for x in ('c++', 'c++/symmetry', 'c++/symmetry/coefnew', 'tools', 'tools/common')]
    r += ['-I/usr/include/eigen3', '-I/usr/include/hdf5/serial'] + MPI_INC
    return r

class BuildError(Exception): pass

def _run(cmd, timeout=850):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')

def _sha(path, memo={}):
    st = os.stat(path); k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in memo:
        with open(path, 'rb') as fh: memo[k] = hashlib.sha256(fh.read()).hexdigest()
    return memo[k]

def _dep_hash(deps):
    h = hashlib.sha256()
    for d in deps:
        if not os.path.exists(d): return None
        h.update(d.encode() + b'\0' + _sha(d).encode())
    return h.hexdigest()[:24]

def build_objects(units):
    """units: list of (source, flags). Returns the object paths. An object is reused only if
    the contents of every file of /repo and /verif it was compiled from (dependency list of the
    compiler) are unchanged."""
    od = os.path.join(BUILD, 'obj'); os.makedirs(od, exist_ok=True)
    cc = os.environ.get('VERIF_CXX', 'g++')
    objs, jobs = [None] * len(units), []
    for i, (src, flags) in enumerate(units):
        key = os.path.basename(src) + '.' + hashlib.sha256('\0'.join([cc, src] + flags).encode()).hexdigest()[:20]
        df = os.path.join(od, key + '.deps')
        try: dh = _dep_hash(json.load(open(df)))
        except (OSError, ValueError): dh = None
        o = os.path.join(od, '%s.%s.o' % (key, dh))
        if dh and os.path.exists(o): objs[i] = o
        else: jobs.append((i, key, df, src, flags))
    def go(j):
        i, key, df, src, flags = j
        t = os.path.join(od, '%s.tmp%d.%d' % (key, os.getpid(), i))
        rc, out = _run([cc, '-c', src, '-o', t, '-MMD', '-MF', t + '.d'] + flags)
        if rc != 0: raise BuildError('compile failed: %s\n%s' % (src, out[-4000:]))
        txt = open(t + '.d').read().replace('\\\n', ' ')
        deps = sorted({os.path.realpath(x) for x in txt.split(':', 1)[1].split()})
        deps = [x for x in deps if x.startswith((os.path.realpath(REPO) + '/', os.path.realpath(VERIF) + '/'))]
        with open(df + '.tmp%d' % os.getpid(), 'w') as f: json.dump(deps, f)
        os.replace(f.name, df)
        o = os.path.join(od, '%s.%s.o' % (key, _dep_hash(deps)))
        os.replace(t, o); os.unlink(t + '.d')
        objs[i] = o
    if jobs:
        with ThreadPoolExecutor(NPROC) as ex: list(ex.map(go, jobs))
    return objs

def link(name, objs, libs, flags=()):
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    key = hashlib.sha256('\0'.join(list(objs) + list(libs) + list(flags)).encode()).hexdigest()[:16]
    b = os.path.join(BUILD, 'bin', name + '.' + key)
    if not os.path.exists(b):
        t = b + '.tmp%d' % os.getpid()
        rc, out = _run(['g++'] + list(flags) + list(objs) + ['-o', t] + list(libs))
        if rc != 0: raise BuildError('link failed: ' + out[-4000:])
        os.replace(t, b)
    return b

TOOLS = {  # tool -> (sources, libs)
    'adapt': (['adapt.cc'], []), 'binavg': (['binavg.cc'], []), 'broaden': (['broaden.cc'], ['-lgsl', '-lgslcblas']),
    'bw': (['bw.cc'], ['-lgsl', '-lgslcblas']), 'diag': (['diag.cc'], ['-lopenblas']), 'hilb': (['hilb.cc'], ['-lgsl', '-lgslcblas']),
    'intavg': (['intavg.cc'], ['-lgsl', '-lgslcblas']), 'integ': (['integ.cc'], ['-lgsl', '-lgslcblas']),
    'kk': (['kk.cc'], ['-lgsl', '-lgslcblas']), 'matrix': (['matrix.cc', 'parser.cc'], ['-lgsl', '-lgslcblas']),
    'mats': (['mats.cc'], ['-lgsl', '-lgslcblas']), 'nrgchain': (['nrgchain.cc'], ['-lgmp']),
    'resample': (['resample.cc'], ['-lgsl', '-lgslcblas']), 'specmoments': (['specmoments.cc'], []),
    'tdavg': (['tdavg.cc'], ['-lgsl', '-lgslcblas']), 'unitary': (['unitary.cc'], []),
    'instantiate': (['instantiate.cc'], ['-lgmp']),
}
ALLLIBS = ['-lgsl', '-lgslcblas', '-lgmp', '-lopenblas', '-lboost_serialization', '-lpthread']

def build_tools(names, opt='-O1', extra=()):
    """Build tools from /repo's working tree; returns {name: path}."""
    units, idx = [], {}
    for n in names:
        srcs, libs = TOOLS[n]
        srcs = list(srcs)
        flags = COMMON + [opt, '-I' + os.path.join(REPO, 'tools', n)] + inc() + list(extra)
        if n == 'instantiate': flags = flags + TOOL_EXTRA_FLAGS.get(n, [])
        s = [(os.path.join(REPO, 'tools', n, x), flags) for x in srcs] + TOOL_EXTRA_UNITS(n, flags)
        idx[n] = (len(units), len(units) + len(s)); units += s
    objs = build_objects(units)
    return {n: link(n, objs[a:b], ['-Wl,--as-needed'] + ALLLIBS, [f for f in extra if f.startswith('-fsan')]) for n, (a, b) in idx.items()}
TOOL_EXTRA_FLAGS = {}
def TOOL_EXTRA_UNITS(n, flags):
    return []

# ---------------------------------------------------------------- running
class R:
    __slots__ = ('rc', 'out', 'err', 'timeout')
    def __init__(s, rc, out, err, timeout=False): s.rc, s.out, s.err, s.timeout = rc, out, err, timeout

def run(cmd, cwd, stdin=b'', timeout=20, env=None):
    """Run one tool process; never raises."""
    try:
        p = subprocess.run(cmd, cwd=cwd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, close_fds=True)
        return R(p.returncode, p.stdout.decode('latin1'), p.stderr.decode('latin1'))
    except subprocess.TimeoutExpired as e:
        return R(-999, (e.stdout or b'').decode('latin1'), (e.stderr or b'').decode('latin1'), True)

def clean(d):
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isdir(p) and not os.path.islink(p): shutil.rmtree(p, ignore_errors=True)
        else: os.unlink(p)

def put(d, files):
    for n, c in files.items():
        p = os.path.join(d, n)
        if '/' in n: os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f: f.write(c if isinstance(c, bytes) else c.encode())

def get(d, n):
    try:
        with open(os.path.join(d, n), 'rb') as f: return f.read()
    except OSError: return None

_wd = None
def workdir():
    """A private scratch directory of this worker process."""
    global _wd
    if _wd is None or not os.path.isdir(_wd) or _wd_pid != os.getpid(): _new_wd()
    return _wd
_wd_pid = 0
def _new_wd():
    global _wd, _wd_pid
    _wd = scratch('p%d' % os.getpid()); _wd_pid = os.getpid()

def pmap(fn, items, chunk=16, deadline=None):
    """Ordered parallel map over a (possibly lazy) iterable in forked workers. fn must be
    a module-level function. Stops submitting at the deadline; yields results."""
    scratch_root()
    ctx = mp.get_context('fork')
    it = iter(items)
    def gen():
        for x in it:
            if deadline is not None and time.time() > deadline: gen.cut = True; return
            yield x
    gen.cut = False
    pmap.cut = False
    with ctx.Pool(NPROC) as pool:
        if deadline is None:
            for r in pool.imap(fn, it, chunk): yield r
        else:
            # bounded look-ahead so that the deadline is effective
            from collections import deque
            q = deque(); batch = []
            def push():
                nonlocal batch
                if batch: q.append(pool.apply_async(_apply, (fn, batch, deadline))); batch = []
            done = False
            while True:
                while not done and len(q) < NPROC * 12:
                    if time.time() > deadline:
                        try: next(it); pmap.cut = True
                        except StopIteration: pass
                        done = True; push(); break
                    try: batch.append(next(it))
                    except StopIteration: done = True; push(); break
                    if len(batch) >= chunk: push()
                if not q: break
                for r in q.popleft().get():
                    if isinstance(r, str) and r == _CUT: pmap.cut = True; return
                    yield r
pmap.cut = False
_CUT = 'deadline passed'
def _apply(fn, batch, deadline): return [fn(x) if time.time() < deadline else _CUT for x in batch]

# ---------------------------------------------------------------- reporting
class Check:
    def __init__(self, pid, level='exploration', budget=None):
        self.id, self.level = pid, level
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.viol = []
        self.known_hit = {}
        self.cov = {}
        self.assumptions = []
        self.rule = ''
        self.exhaustive = True
        self.known = []
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))['findings'] if k['property'] == pid and k.get('status') == 'known']
        self.rdir = os.path.join(VERIF, 'replays', pid)
        shutil.rmtree(self.rdir, ignore_errors=True)
        self.budget = budget or pick(240, 2400)
        self.deadline = self.t0 + self.budget
        self.max_viol = 20
    def note(self, n=1, key=None):
        self.evaluations += n
        if key is not None: self.distinct.add(key)
    def sample(self, s, limit=6):
        if len(self.samples) < limit: self.samples.append(s)
    def cut(self):
        self.exhaustive = False
    def violation(self, what, replay=None, fkey=None):
        """what: text. replay: dict written to the replay file. fkey: the identity of the
        failing input/call site/history, compared with the known findings."""
        if fkey is not None:
            for k in self.known:
                if k['key'] == fkey:
                    self.known_hit[k['key']] = k
                    return
        if len(self.viol) >= self.max_viol: self.viol.append((what, None)); return
        os.makedirs(self.rdir, exist_ok=True)
        path = os.path.join(self.rdir, 'v%d.json' % len(self.viol))
        with open(path, 'w') as f: json.dump({'property': self.id, 'what': what, 'replay': replay, 'key': fkey}, f, indent=1, default=repr)
        self.viol.append((what, path))
    def finish(self):
        cov = dict(self.cov)
        if self.level == 'model_checking':
            cov.setdefault('evaluations', self.evaluations)
        else:
            cov['evaluations'] = self.evaluations
            cov.setdefault('distinct_nontrivial', len(self.distinct))
            cov['rule'] = self.rule
            cov.pop('traces_validated_against_impl', None)      # every evaluation is a run of the real code
            for k in ('states', 'transitions', 'schedules'):    # (no count under two names)
                if cov.get(k) in (cov['evaluations'], cov['distinct_nontrivial']): cov.pop(k)
        cov['samples'] = self.samples
        cov['exhaustive'] = bool(self.exhaustive)
        ev = {'property': self.id, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.id + '.json')
        with open(p + '.tmp', 'w') as f: json.dump(ev, f, indent=1, default=repr)
        os.replace(p + '.tmp', p)
        for k in self.known_hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.id, k['what']))
        for what, path in self.viol[:self.max_viol]:
            print('  %s' % what.replace('\n', '\n    '))
            print('VIOLATION property=%s replay=%s' % (self.id, path))
        print('%s %s: %d evaluations, %d distinct, exhaustive=%s, %d violations, %.1f s, prebuilt=%s' % (
            self.id, TIER, self.evaluations, len(self.distinct), self.exhaustive, len(self.viol), time.time() - self.t0, os.path.exists(os.path.join(BUILD, 'setup_marker'))))
        sys.stdout.flush()
        return 1 if self.viol else 0

def main(fn, pid, **kw):
    """Run a check function; a build failure or internal error of the check is neither 0 nor 1."""
    c = Check(pid, **kw)
    try:
        fn(c)
    except BuildError as e:
        print('CHECK-ERROR %s: %s' % (pid, e)); sys.exit(3)
    sys.exit(c.finish())

def close(a, b, rel=1e-9, abs_=1e-12):
    return a == b or abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
