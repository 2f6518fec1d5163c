"""T03: binavg / mats / specmoments treat the z-averaged raw spectra as one multiset of peaks.
Bounded-exhaustive exploration of the real tools: all ordered peak sequences up to a length over an
alphabet, all ways to cut the sequence into Nz files, all option combinations; oracle in exact rationals."""
import sys, os, struct, itertools, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from fractions import Fraction as F

FREQ = [-2.0, -0.25, 0.0, 1e-9, 0.5, 2.0]
W = [1.0, -0.5, 0.0]
BIN = {}

def peaks_alphabet(k):
    full = [(f, w) for f in FREQ for w in W]
    small = [(-2.0, 1.0), (-0.25, 0.5), (0.0, 0.25), (-0.0, 1.0), (0.5, 1.0), (0.5, -1.0), (2.0, 0.0), (1e-9, 2.0)]
    return full if k <= 2 else small

def cuts(n, nz):
    """all ways to cut a sequence of n records into nz consecutive files (possibly empty)"""
    for c in itertools.combinations_with_replacement(range(n + 1), nz - 1):
        b = (0,) + c + (n,)
        yield tuple(b[i + 1] - b[i] for i in range(nz))

def third(i, w): return w * (2 if i % 2 else -4) + (i % 3)   # decoy/second weight column

def encode(seq, nrcol):
    out = b''
    for i, (f, w) in enumerate(seq):
        out += struct.pack('<dd', f, w) if nrcol == 1 else struct.pack('<ddd', f, w, third(i, w))
    return out

def expected_merge(files, col):
    m = {}
    for seq in files:
        for i, (f, w) in enumerate(seq):
            v = F(w) if col == 1 else F(third(i, w))
            m[F(f)] = m.get(F(f), F(0)) + v
    nz = len(files)
    return sorted((f, w / nz) for f, w in m.items())

def feq(a, b, scale=1.0, tol=1e-13):
    a = float(a); b = float(b)
    return abs(a - b) <= tol * max(scale, abs(b)) + 1e-300

def one(case):
    tool, files, opts, extra = case
    d = workdir(); clean(d)
    nz = len(files)
    colopt = [o for o in opts if o in ('-2', '-3')]
    nrcol = 2 if colopt else 1
    col = 2 if '-3' in opts else 1
    single = '-o' in opts and nz == 1
    inp = {}
    for i, seq in enumerate(files): inp['raw' if single else '%d/raw' % (i + 1)] = encode(seq, nrcol)
    if not single: inp['raw'] = b'stale contents that must not be used'
    if single: inp['1/raw'] = struct.pack('<dd', 7.0, 7.0)
    put(d, inp)
    exp = expected_merge(files, col)
    cmd = [BIN[tool]] + list(opts) + ['raw', str(nz)] + [str(x) for x in extra]
    r = run(cmd, d)
    rep = {'cmd': cmd, 'inputs': {k: v.hex() for k, v in inp.items()}}
    def bad(msg): return ('%s %s files=%r: %s' % (tool, ' '.join(map(str, cmd[1:])), files, msg), rep)
    scale = max([1e-300] + [float(sum(abs(F(w) if col == 1 else F(third(i, w))) for s in files for i, (f, w) in enumerate(s)))])
    if tool == 'binavg':
        if r.rc != 0: return bad('exit %d %s' % (r.rc, r.err[:200]))
        for k, v in inp.items():
            if k != 'raw' or (single) :
                if get(d, k) != v: return bad('input %s modified' % k)
        out = get(d, 'spec.bin' if '-o' in opts else 'raw')
        if '-o' in opts and not single and get(d, 'raw') != inp['raw']: return bad('file of the raw name overwritten with -o')
        if out is None or len(out) % 16: return bad('no/odd output')
        got = [struct.unpack_from('<dd', out, 16 * i) for i in range(len(out) // 16)]
        if len(got) != len(exp): return bad('merged spectrum has %d rows, expected %d: %r' % (len(got), len(exp), got))
        for (gf, gw), (ef, ew) in zip(got, exp):
            if F(gf) != ef or not feq(gw, ew, scale): return bad('row (%r,%r), expected (%r,%r)' % (gf, gw, float(ef), float(ew)))
    elif tool == 'mats':
        if r.rc != 0: return bad('exit %d %s' % (r.rc, r.err[:200]))
        T, n = extra
        out = get(d, 'spec.dat')
        rows = [list(map(float, l.split())) for l in (out or b'').decode().splitlines()]
        if len(rows) != n: return bad('%d Matsubara rows, expected %d' % (len(rows), n))
        for i, row in enumerate(rows):
            om = math.pi * T * (2 * i + 1)
            g = sum((float(w) / complex(-float(f), om) for f, w in exp), 0j)
            if len(row) != 3 or not feq(row[0], om, 0) or not feq(row[1], g.real, scale / om) or not feq(row[2], g.imag, scale / om):
                return bad('row %d is %r, expected %r %r %r' % (i, row, om, g.real, g.imag))
    else:
        sel = []
        lo = hi = None
        o = list(opts)
        if '-l' in o: lo = float(o[o.index('-l') + 1])
        if '-h' in o: hi = float(o[o.index('-h') + 1])
        for f, w in exp:
            ff = float(f)
            if lo is not None and abs(ff) < lo: continue
            if hi is not None and abs(ff) > hi: continue
            if '-p' in o and ff < 0: continue
            if '-n' in o and ff > 0: continue
            sel.append((f, w))
        m = [sum((w * f ** k for f, w in sel), F(0)) for k in range(5)]
        if '-c' in o:
            if m[0] == 0:
                return None if r.rc != 0 else bad('central moments of zero weight reported: ' + r.out)
            mean = m[1] / m[0]
            m = m[:2] + [sum((w * (f - mean) ** k for f, w in sel), F(0)) / m[0] for k in (2, 3, 4)]
        if r.rc != 0: return bad('exit %d %s' % (r.rc, r.err[:200]))
        lines = r.out.strip().splitlines()
        try:
            if '-v' in o:
                import re
                if '-c' in o:
                    g = {}
                    for l in lines:
                        if '=' in l: g[l.split('=')[0].strip()] = float(l.split('=')[1].split()[0]) if l.split('=')[1].strip() else None
                    got = [g['0. moment (weight)'], g['1. moment'], g['2. central moment'], g['3. central moment'], g['4. central moment']]
                    if not feq(g['mean'], mean, 1e-30, 1e-11): return bad('mean')
                else:
                    got = [float(l.split('=')[1]) for l in lines if 'raw moment' in l]
            else: got = list(map(float, lines[-1].split()))
        except (ValueError, KeyError, IndexError): return bad('unparsable output %r' % r.out[-300:])
        if len(got) != 5: return bad('%d moments' % len(got))
        for k in range(5):
            sc = max(float(sum(abs(w) * (abs(f) ** k) for f, w in sel)), 1e-300)
            if '-c' in o and k >= 2: sc = float(sum(abs(w) * (abs(f - mean) ** k) for f, w in sel) / abs(m0 if (m0 := sum(w for f, w in sel)) else 1)) or 1e-300; sc = max(sc, 1e-12)
            if not feq(got[k], m[k], sc, 1e-11): return bad('moment %d is %r, expected %r' % (k, got[k], float(m[k])))
    return None

def cases():
    L = pick(3, 4)
    def optsets(tool):
        if tool == 'specmoments':
            return [(), ('-c',), ('-p',), ('-n',), ('-l', '0.25'), ('-h', '0.5'), ('-c', '-p'), ('-c', '-l', '0.3', '-h', '2'), ('-v',), ('-v', '-c'), ('-p', '-n'), ('-n', '-h', '0.5', '-l', '1e-9')]
        return [(), ('-2',), ('-3',), ('-v',), ('-v', '-3')]
    mats_extra = [(0.1, 3), (1e-3, 1), (2.5, 2)]
    def emit(files, tool, opts, k):
        nz = len(files)
        ex = () if tool != 'mats' else mats_extra[k % 3]
        yield (tool, files, opts, ex)
    # 1. everything of length <= 1 (and 2 over the small alphabet) with every option set
    k = 0
    for n in range(0, L + 1):
        A = peaks_alphabet(n) if n <= 2 else peaks_alphabet(3)[: pick(6, 8) if n == 3 else 5]
        for seq in itertools.product(A, repeat=n):
            for nz in (1, 2, 3):
                if nz == 3 and n > 2: continue
                if n == 2 and nz == 3 and not thorough() and (hash_seq(seq) % 4): continue
                for c in cuts(n, nz):
                    files, p = [], 0
                    for x in c: files.append(tuple(seq[p:p + x])); p += x
                    files = tuple(files)
                    k += 1
                    for tool in ('binavg', 'mats', 'specmoments'):
                        os_ = optsets(tool)
                        # all options for short sequences, rotating options for long ones
                        sel = os_ if (n <= 1) else [os_[(k + j) % len(os_)] for j in range(1)]
                        for o in sel:
                            yield from emit(files, tool, o, k)
                            if n <= 1: yield from emit(files, tool, ('-o',) + o, k + 1)
    # 2. size sweep: one record to several buffers' worth, every tool
    for n in list(range(1, pick(34, 70))) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]:
        seq = tuple((((i * 7919) % n - n // 2) / 8.0 if i % 5 else 0.5, ((i * 31) % 17 - 5) / 4.0) for i in range(n))
        for nz in (1, 2, 4, 11):
            if nz > n: continue
            if n > 64 and nz in (2, 4): continue
            h = [n * j // nz for j in range(nz + 1)]
            files = tuple(tuple(seq[h[j]:h[j + 1]]) for j in range(nz))
            for tool in ('binavg', 'mats', 'specmoments'):
                for o in (optsets(tool) if n in (5, 33) else optsets(tool)[:1] + optsets(tool)[2:3]):
                    yield from emit(files, tool, o, 1)
def hash_seq(s):
    return sum((i + 1) * int(8 * f * 3 + 8 * w) for i, (f, w) in enumerate(s)) & 0xffff

def check(c):
    BIN.update(build_tools(['binavg', 'mats', 'specmoments']))
    c.rule = ('ordered peak sequences over an alphabet of frequencies x weights (both signs, zero, -0, duplicates), cut into Nz files in every way, '
              'times tool x options; size sweep; distinct = distinct (tool, options, merged multiset)')
    c.assumptions = ['exact rational reference; floating-point comparison tolerance 1e-13 (1e-11 for moments) of the absolute weight']
    def keyed():
        for x in cases():
            c.note(1, (x[0], x[2], x[3], tuple(sorted(p for s in x[1] for p in s)) if sum(map(len, x[1])) < 10 else len(x[1][0])))
            c.sample({'tool': x[0], 'opts': x[2], 'files': x[1]})
            yield x
    for res in pmap(one, keyed(), 64, c.deadline):
        if res: c.violation(*res)
    if pmap.cut: c.cut()
    if not c.samples: c.sample('none')

main(check, 'T03', budget=pick(200, 2400))
