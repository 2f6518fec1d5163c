"""Independent Akima interpolation (natural boundary) and exact integrals of the piecewise cubic."""
import math
class Akima:
    def __init__(s, pts):
        pts = sorted(pts); s.x = [p[0] for p in pts]; y = s.y = [p[1] for p in pts]; x = s.x; n = len(x)
        m = {i: (y[i + 1] - y[i]) / (x[i + 1] - x[i]) for i in range(n - 1)}
        m[-1] = 2 * m[0] - m[1]; m[-2] = 3 * m[0] - 2 * m[1]; m[n - 1] = 2 * m[n - 2] - m[n - 3]; m[n] = 3 * m[n - 2] - 2 * m[n - 3]
        s.c = []
        for i in range(n - 1):
            ne = abs(m[i + 1] - m[i]) + abs(m[i - 1] - m[i - 2])
            if ne == 0: s.c.append((y[i], m[i], 0.0, 0.0)); continue
            h = x[i + 1] - x[i]
            nn = abs(m[i + 2] - m[i + 1]) + abs(m[i] - m[i - 1])
            a = abs(m[i - 1] - m[i - 2]) / ne
            if nn == 0: t = m[i]
            else:
                a1 = abs(m[i] - m[i - 1]) / nn; t = (1 - a1) * m[i] + a1 * m[i + 1]
            b = (1 - a) * m[i - 1] + a * m[i]
            s.c.append((y[i], b, (3 * m[i] - 2 * b - t) / h, (b + t - 2 * m[i]) / h ** 2))
    def pieces(s):
        for i, c in enumerate(s.c): yield s.x[i], s.x[i + 1], c
    def __call__(s, z):
        import bisect
        i = min(max(bisect.bisect_right(s.x, z) - 1, 0), len(s.c) - 1); d = z - s.x[i]; c = s.c[i]
        return c[0] + d * (c[1] + d * (c[2] + d * c[3]))
    @staticmethod
    def _prim(c, d): return d * (c[0] + d * (c[1] / 2 + d * (c[2] / 3 + d * c[3] / 4)))
    def integral(s, lo=-math.inf, hi=math.inf):
        t = []
        for a, b, c in s.pieces():
            l, h = max(a, lo), min(b, hi)
            if l < h: t.append(s._prim(c, h - a) - s._prim(c, l - a))
        return math.fsum(t)
    def integral_abs(s):
        import numpy as np
        t = []
        for a, b, c in s.pieces():
            h = b - a
            co = list(c[::-1])
            r = [z.real for z in (np.roots(co) if any(co[:3]) else []) if abs(z.imag) < 1e-7 * h and 0 < z.real < h]
            k = [0.0] + sorted(r) + [h]
            for u, v in zip(k, k[1:]): t.append(abs(s._prim(c, v) - s._prim(c, u)))
        return math.fsum(t)
    def weighted(s, w, breaks=()):
        """integral of f*w, w smooth between the breaks; high-order Gauss-Legendre on a fine partition"""
        import numpy as np
        X, W = np.polynomial.legendre.leggauss(20); t = []
        for a, b, c in s.pieces():
            k = sorted({a, b, *(z for z in breaks if a < z < b)})
            for u, v in zip(k, k[1:]):
                xx = (u + v) / 2 + (v - u) / 2 * X; d = xx - a
                t.append(float(np.dot(W, (c[0] + d * (c[1] + d * (c[2] + d * c[3]))) * w(xx)) * (v - u) / 2))
        return math.fsum(t)
    def pv(s, z):
        """1/pi P-int f(x)/(x-z) over the range; at the ends the f(end)-subtracted integral"""
        t = []; fz = s(z); xmin, xmax = s.x[0], s.x[-1]; end = z in (xmin, xmax)
        for a, b, c in s.pieces():
            e = z - a; h = b - a     # p(x)=sum c_k (x-a)^k ; (p(x)-p(z))/(x-z) is a polynomial in d=x-a, p extended from this piece
            q0 = c[1] + c[2] * e + c[3] * e * e; q1 = c[2] + c[3] * e; q2 = c[3]
            t.append(h * (q0 + h * (q1 / 2 + h * q2 / 3)))
            pz = c[0] + e * (c[1] + e * (c[2] + e * c[3]))
            k = pz - (fz if end else 0.0)
            if z == a: 
                if not end: t.append(pz * math.log(h))
            elif z == b:
                if not end: t.append(-pz * math.log(h))
            elif k: t.append(k * math.log(abs((b - z) / (a - z))))
        return math.fsum(t) / math.pi
