"""C21 lag-1 autocorrelation noise identification."""
from ..ctx import Raised
from .c18 import shape

BOUNDS = {"quick": "phase and frequency, averaging factors 1..3, dmin 0..2, dmax 0..3; series of 30..41 decimated points from six two-parameter families (any mixture, with any sign and size, of two fixed noise shapes) plus any offset, frequency offset and drift; five of these families also with averaging factors 1, 2, 5, 8, 10 and up to 64 points; rejection of every series that leaves fewer than 30 points",
          "thorough": "fourteen families, up to 64 decimated points, averaging factors 1..5"}
OUTSIDE = "series outside the listed families (the full 30-dimensional space makes the thresholded ratio of quadratic forms intractable); rounding errors of the polynomial fit"


def residual(z, deg):
    """least-squares residual by orthogonal polynomials on 0..n-1"""
    from fractions import Fraction as Fr
    n = len(z)
    basis = []
    for k in range(deg + 1):
        v = [Fr(t) ** k for t in range(n)]
        for b, bb in basis:
            f = sum(p * q for p, q in zip(v, b)) / bb
            v = [p - f * q for p, q in zip(v, b)]
        basis.append((v, sum(p * p for p in v)))
    out = list(z)
    for b, bb in basis:
        f = sum(Fr(p) * q for p, q in zip(z, b)) / bb
        out = [p - f * q for p, q in zip(out, b)]
    return out


def acf(x):
    """numerator and denominator quadratic forms of r1 for x = p*A + q*B, as coefficient triples"""
    A, B = x
    n = len(A)
    ma, mb = sum(A) / n, sum(B) / n
    A, B = [v - ma for v in A], [v - mb for v in B]
    num = (sum(A[i] * A[i + 1] for i in range(n - 1)), sum(A[i] * B[i + 1] + B[i] * A[i + 1] for i in range(n - 1)), sum(B[i] * B[i + 1] for i in range(n - 1)))
    den = (sum(v * v for v in A), 2 * sum(u * v for u, v in zip(A, B)), sum(v * v for v in B))
    return num, den


def ident(ctx, dt, fam, n, af, dmin, dmax, deg):
    p, q = ctx.pos("p"), ctx.real("q")
    e = [ctx.real("e%d" % k) for k in range(deg + 1)]
    N = n * af - (af - 1 if dt == "phase" else 0) + (1 if af > 2 else 0) * (1 if dt == "freq" else 0)
    A, B = shape(fam[0], N, 3), shape(fam[1], N, 5)
    x = ctx.arr([p * (A[i] / 256.) + q * (B[i] / 256.) + sum(e[k] * i ** k for k in range(deg + 1)) for i in range(N)])
    r = ctx.call(ctx.at.autocorr_noise_id, x, af, data_type=dt, dmin=dmin, dmax=dmax)
    if not ctx.ok("autocorr_noise_id", r):
        return
    if len(r) != 4:
        return ctx.fail("four results expected")
    aint, alpha, d, rho = r
    # the definition, on the two shapes separately (everything up to the ratio is linear)
    from fractions import Fraction as Fr
    z = []
    for S in (A, B):
        S = [Fr(v, 256) for v in S]
        S = S[::af] if dt == "phase" else [sum(S[i * af:(i + 1) * af]) / af for i in range(N // af)]
        z.append(residual(S, 2 if dt == "phase" else 1))
    d = ctx.concrete(d)
    if not (dmin <= d <= dmax):
        return ctx.fail("d = %d outside %d..%d" % (d, dmin, dmax))
    if not ctx.sym:
        ctx.scale = 1.0
    for k in range(d + 1):
        num, den = acf(z)
        a = [float(v / den[0]) for v in num]
        b = [float(v / den[0]) for v in den]
        a, b = [c[0] * p * p + c[1] * p * q + c[2] * q * q for c in (a, b)]
        tol = 1e-6 * b                     # rho may be judged either way within the rounding error of the fit
        if k < d and k >= dmin:
            ctx.true("d=%d is not enough" % k, 3 * a >= b - tol)
        if k == d:
            if d < dmax:
                ctx.true("d=%d is enough" % k, 3 * a <= b + tol)
            near(ctx, "rho", rho, a, a + b)
        z = [[v[i + 1] - v[i] for i in range(len(v) - 1)] for v in z]
    add = 2 if dt == "phase" else 0
    ctx.eq("alpha", alpha, -2 * (rho + d) + add)
    ctx.eq("alpha_int", aint, -ctx.rint(2 * rho) - 2 * d + add)


def near(ctx, label, r, num, den):
    """r = num/den within 1e-6 (den > 0)"""
    ctx.true(label, ctx.and_(r * den <= num + 1e-6 * den, r * den >= num - 1e-6 * den))


def few(ctx, dt, n, af):
    x = ctx.reals("x", n)
    ctx.raises("%d points" % n, ctx.call(ctx.at.autocorr_noise_id, x, af, data_type=dt, dmin=0, dmax=2))


def jobs(tier):
    q = tier == "quick"
    out = []
    fams = [(0, 1), (0, 2), (1, 2), (0, 0), (1, 1), (2, 3)] + ([] if q else [(3, 3), (0, 3), (1, 3), (2, 2), (0, 4), (1, 4), (2, 4), (3, 4)])
    for dt in ("phase", "freq"):
        deg = 2 if dt == "phase" else 1
        for fam in fams:
            for af in (1, 2, 3) if q else (1, 2, 3, 4, 5):
                for n in ((30 if af == 1 else 33 + af,) if q else (30, 31 + af, 64)):
                    for dmin, dmax in [(0, 2), (0, 3)] + ([(1, 2), (2, 2), (0, 0), (0, 1), (1, 1)] if af == 1 else []):
                        out.append(dict(h="ident", params=dict(dt=dt, fam=list(fam), n=n, af=af, dmin=dmin, dmax=dmax, deg=deg), cost=5))
        for fam, af, n in [((0, 2), 5, 31), ((1, 2), 8, 40), ((0, 1), 1, 64), ((1, 2), 2, 57), ((2, 3), 10, 30)]:
            out.append(dict(h="ident", params=dict(dt=dt, fam=list(fam), n=n, af=af, dmin=0, dmax=2, deg=deg), cost=9))
        for n, af in [(29, 1), (10, 1), (57, 2), (86, 3), (5, 1)]:
            out.append(dict(h="few", params=dict(dt=dt, n=n if dt == "phase" else n + af - 1 - (af == 1) * 0, af=af)))
    return out
