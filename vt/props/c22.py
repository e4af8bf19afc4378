"""C22 B1 and R(n) ratios."""
import math
from .. import spec
from ..ctx import Raised

BOUNDS = {"quick": "rn and b1: every real phase series of 7..14 points, every rate, averaging factors 1..3; b1 also 20..40 points and factors up to 6; theory values: every real N >= 2 for mu = -2..4 and every averaging factor >= 1 for b = 0..-4; boundaries for b = 0..-5",
          "thorough": "the same with rn up to 17 points, b1 up to 75 points, averaging factors up to 9"}
OUTSIDE = "longer series; non-integer mu (N^mu is not expressible to the solver)"


def f(ctx, name):
    return getattr(ctx.at.ci, name, None) or getattr(ctx.at, name)


def ratio_eq(ctx, label, r, num, den):
    ctx.eq(label, r * den, num)


def rn(ctx, N, m):
    x = ctx.reals("x", N)
    rate = ctx.pos("rate")
    xs = list(x)
    a = spec.adev(xs, rate, m)[0]
    ctx.assume(a > 0)
    r = ctx.call(f(ctx, "rn"), x, m, rate)
    if ctx.ok("rn", r):
        ratio_eq(ctx, "R(%d)" % m, r, spec.mdev(xs, rate, m)[0], a)


def b1(ctx, N, m):
    x = ctx.reals("x", N)
    rate = ctx.pos("rate")
    xs = list(x)
    a = spec.adev(xs, rate, m)[0]
    ctx.assume(a > 0)
    r = ctx.call(f(ctx, "b1"), x, m, rate)
    if not ctx.ok("b1", r):
        return
    k = (N - 1) // m
    y = [(xs[(i + 1) * m] - xs[i * m]) * rate / m for i in range(k)]
    mu = spec.total(y) / k
    ratio_eq(ctx, "B1(%d)" % m, r, spec.total([(v - mu) * (v - mu) for v in y]) / (k - 1), a)


def theory(ctx, mu):
    N = ctx.pos("N", (2, 200))
    ctx.assume(N >= 2)
    r = ctx.call(f(ctx, "b1_theory"), N, mu)
    if not ctx.ok("b1_theory", r):
        return
    if mu == 0:
        ctx.eq("B1 theory mu=0", r * (N - 1), N * ctx.log(N) / (2 * math.log(2)))
        return
    p = N ** mu if mu > 0 else 1 / N ** (-mu)
    ctx.eq("B1 theory mu=%s" % mu, r * (N - 1), N * (1 - p) / (2 * (1 - 2.0 ** mu)))


def rtheory(ctx, b):
    m = ctx.pos("m", (1, 50))
    ctx.assume(m >= 1)
    r = ctx.call(f(ctx, "rn_theory"), m, b)
    if not ctx.ok("rn_theory", r):
        return
    if b == 0:
        ctx.eq("R theory", r * m, 1)
    elif b == -1:
        # modified over plain Allan variance of flicker PM, f_h = 1/(2 tau0)
        ctx.eq("R theory flicker PM", r * (1.038 + 3 * ctx.log(math.pi * m)), 1.5 * math.log(256. / 27.))
    else:
        ctx.eq("R theory", r, 1)


def between(ctx, kind, b):
    if kind == "b1":
        N = ctx.pos("N", (2, 200))
        ctx.assume(N >= 2)
        mu = {0: -2, -1: -2, -2: -1, -3: 0, -4: 1, -5: 2, -6: 3}
        r = ctx.call(f(ctx, "b1_boundary"), b, N)
        hi, lo = ctx.call(f(ctx, "b1_theory"), N, mu[b]), ctx.call(f(ctx, "b1_theory"), N, mu[b - 1])
    else:
        m = ctx.pos("m", (1, 50))
        ctx.assume(m >= 1)
        r = ctx.call(f(ctx, "rn_boundary"), m, b)
        hi, lo = ctx.call(f(ctx, "rn_theory"), m, b), ctx.call(f(ctx, "rn_theory"), m, b - 1)
    for v in (r, hi, lo):
        if not ctx.ok("boundary", v):
            return
    ctx.true("%s boundary positive" % kind, r > 0)
    # r lies between lo and hi
    ctx.true("%s boundary b=%d between the theory values" % (kind, b), ctx.or_(ctx.and_(lo * (1 - 1e-9) <= r, r <= hi * (1 + 1e-9)), ctx.and_(hi * (1 - 1e-9) <= r, r <= lo * (1 + 1e-9))))


def tomu(ctx, b, mu):
    g = getattr(ctx.at.ci, "b_to_mu", None)
    if g is None:
        return ctx.checked()
    ctx.eq("mu of b=%d" % b, ctx.call(g, b), mu)


def jobs(tier):
    q = tier == "quick"
    out = []
    for N, m in [(7, 1), (8, 1), (9, 2), (10, 2), (13, 2), (13, 3), (14, 3)] + ([] if q else [(16, 4), (17, 2)]):
        out.append(dict(h="rn", params=dict(N=N, m=m), cost=N))
        out.append(dict(h="b1", params=dict(N=N, m=m), cost=N))
    for N, m in [(20, 1), (25, 4), (31, 5), (40, 6), (40, 3)] + ([] if q else [(60, 9), (75, 7)]):
        out.append(dict(h="b1", params=dict(N=N, m=m), cost=N))
    for mu in (-2, -1, 0, 1, 2, 3, 4, -3):
        out.append(dict(h="theory", params=dict(mu=mu)))
    for b in (0, -1, -2, -3, -4):
        out.append(dict(h="rtheory", params=dict(b=b)))
        out.append(dict(h="between", params=dict(kind="rn", b=b)))
    for b in (0, -1, -2, -3, -4, -5):
        out.append(dict(h="between", params=dict(kind="b1", b=b)))
    for b, mu in ((0, -2), (-1, -2), (-2, -1), (-3, 0), (-4, 1), (-5, 2), (-6, 3)):
        out.append(dict(h="tomu", params=dict(b=b, mu=mu)))
    return out
