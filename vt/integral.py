"""Accurate values of  int_a^b K(z) z^-p dz  with K = sin^4 ('a') or (4/3) sin^6 ('h')."""
import math

K = {"a": lambda z: math.sin(z) ** 4, "h": lambda z: 4.0 / 3.0 * math.sin(z) ** 6}
# Fourier cosine series of K: c0 + sum c_j cos(w_j z)
F = {"a": (3 / 8., [(2, -.5), (4, .125)]), "h": (5 / 12., [(2, -.625), (4, .25), (6, -1 / 24.)])}
ORDER = {"a": 4, "h": 6}
CACHE = {}


def kernel(kind, z, p):
    return K[kind](z) / z ** p


def smooth(kind, p, a, b):
    """Gauss-Legendre on pieces of half a period"""
    import numpy as np
    x, w = np.polynomial.legendre.leggauss(20)
    tot = 0.0
    if a < 1e-3:                      # leading power of z: K ~ c z^q
        q = ORDER[kind]
        c = 1.0 if kind == "a" else 4. / 3.
        e = min(b, 1e-3)
        tot += c * (e ** (q + 1 - p) - (a ** (q + 1 - p) if a > 0 else 0.0)) / (q + 1 - p)
        if b <= e:
            return tot
        a = e
    grid = [a]
    while grid[-1] < min(b, 1.5):
        grid.append(min(grid[-1] * 1.5, b, 1.5))
    if b > 1.5:
        n = int(math.ceil((b - grid[-1]) / 1.5))
        grid += [grid[-1] + (b - grid[-1]) * (i + 1) / n for i in range(n)]
    for l, r in zip(grid[:-1], grid[1:]):
        z = (r + l) / 2 + (r - l) / 2 * x
        f = np.sin(z) ** 4 if kind == "a" else 4. / 3. * np.sin(z) ** 6
        tot += float(np.sum(w * f / z ** p)) * (r - l) / 2
    return tot


def tail(kind, p, Z):
    """int_Z^inf by the Fourier series and the asymptotic expansion of the incomplete gamma function"""
    c0, cs = F[kind]
    t = c0 * Z ** (1 - p) / (p - 1)
    for w, c in cs:
        s, term, sgn = 0.0, Z ** -p / w, 1
        # int_Z^inf cos(w z) z^-p dz = -sin(wZ) Z^-p/w + p/w int_Z^inf sin(w z) z^(-p-1) dz ...
        acc, coefn, pw = 0.0, 1.0, p
        for k in range(6):
            if k % 4 == 0:
                acc += -coefn * math.sin(w * Z) * Z ** -pw / w
            elif k % 4 == 1:
                acc += coefn * math.cos(w * Z) * Z ** -pw / w
            elif k % 4 == 2:
                acc += coefn * math.sin(w * Z) * Z ** -pw / w
            else:
                acc += -coefn * math.cos(w * Z) * Z ** -pw / w
            coefn *= pw / w
            pw += 1
        t += c * acc
    return t


def accurate(kind, p, a, b):
    key = (kind, round(p, 10), float(a), float(b))
    if key in CACHE:
        return CACHE[key]
    if p <= 1 and b == math.inf:
        r = math.inf
    elif p >= ORDER[kind] + 1 and a == 0:
        r = math.inf
    elif a > b:
        r = -accurate(kind, p, b, a)
    else:
        Z = max(a, 200 * math.pi)
        if b == math.inf:
            r = (smooth(kind, p, a, Z) if Z > a else 0.0) + tail(kind, p, Z)
        elif b > 4000:
            r = (smooth(kind, p, a, Z) if Z > a else 0.0) + tail(kind, p, Z) - tail(kind, p, b) if p > 1.0001 else smooth(kind, p, a, b)
        else:
            r = smooth(kind, p, a, b)
    CACHE[key] = r
    return r


class Unknown(Exception):
    pass


def identify(fn, args, log, num):
    """fn(z) = scale * K(z) z^-p with K one of the two kernels -> (kind, p, scale); the kernel is recognised at several points"""
    z0, z1, z2, z3 = 1.0, 1.0 + math.pi, 2.5, 0.3
    v0, v1, v2, v3 = [fn(z, *args) for z in (z0, z1, z2, z3)]
    p = num(log(v0 / v1) / math.log(z1 / z0))
    for kind in ("a", "h"):
        sc = v0 / K[kind](z0)
        ok = True
        for z, v in ((z2, v2), (z3, v3)):
            d = num(log(v / sc) - (math.log(K[kind](z)) - p * math.log(z)))
            if not (isinstance(d, float) and abs(d) < 1e-8):
                ok = False
        if ok:
            return kind, p, sc
    raise Unknown()
