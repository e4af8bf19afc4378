"""C27 psd2allan."""
import math

BOUNDS = {"quick": "4..13, 16, 17, 24, 33 PSD samples, every sample value; every real frequency step (scalar), and 24 given floating-point steps bit by bit (scalar and vector); adev and mdev; bases 2, 10, 1.5 and 1; scaling by every c >= 0",
          "thorough": "4..40 samples, 200 given steps"}
ASSUME = "the integral of the interpolated PSD is at least 1e-4 of the sum of its absolute terms (cubic interpolation of wildly oscillating PSDs can go negative)"
OUTSIDE = "the accuracy of the numerical integration itself (cubic interpolation, four-fold oversampling, Simpson's rule are taken as the documented algorithm); more samples; rounding for frequency steps outside the given list"
STEPS = [0.1, 0.2, 0.3, 0.7, 1.0, 1, 2, 3, 1e-3, 1e-5, 0.01, 0.03, 1 / 3., 1 / 7., 0.9, 1.1, 2.5, 3.3, 10, 17.7, 0.07, 0.41, 123.456, 1e6]


def weights(N, k):
    """m -> weights w with dev(m tau0)^2 = df * sum_i w[i] S[i]"""
    import numpy as np
    from scipy.interpolate import interp1d
    from scipy.integrate import simpson
    J = 4 * (N - 1)
    f0 = np.arange(N) * 4.0
    f = np.arange(1, J + 1) * 1.0
    M = interp1d(f0, np.eye(N), kind="cubic", axis=0)(f)
    g = np.insert(f / 4, 0, 0.0)
    sw = np.array([simpson(e, x=g) for e in np.eye(J + 1)])[1:]

    def w(m):
        z = math.pi * (f / 4) * m / (N - 1)
        T = np.abs(np.sin(z) ** (k + 1) / z ** k) ** 2
        return [float(v) for v in 2 * (sw * T) @ M]
    return w


def mlists(n, base):
    """acceptable lists of averaging factors (n within rounding of a power of base: both neighbours)"""
    import numpy as np
    if base <= 1:
        return [[m + 1 for m in range(int(math.ceil(n - 1)))], [m + 1 for m in range(int(math.floor(n)))]]
    K = math.log(n) / math.log(base)
    out = []
    for k in {math.floor(K), math.floor(K + 1e-9), math.floor(K - 1e-9), math.ceil(K)}:
        for nn in (n - 1e-9, n, n + 1e-9):         # half-way cases round either way
            out.append([int(v) for v in sorted(set(np.round(np.append(np.asarray(base, dtype=float) ** np.arange(max(k, 0)), nn))))])
    return out


def run(ctx, N, kind, base=2, df=None, vec=False, default=()):
    S = [ctx.pos("S%d" % i) for i in range(N)]
    d = ctx.pos("df", (.1, 3)) if df is None else df
    w = weights(N, 2 if kind[0].lower() == "m" else 1)
    n = (N - 1) / 2.0
    wm = {}
    for ml in mlists(n, base):
        for m in ml:
            if m not in wm:
                wm[m] = w(m)
    spec = {m: d * ctx.sum([v * s for v, s in zip(wm[m], S)]) for m in wm}
    for m in spec:                       # the interpolated integral is positive, not a cancellation of huge terms
        ctx.assume(spec[m] >= 1e-4 * d * ctx.sum([abs(v) * s for v, s in zip(wm[m], S)]))
    f = d
    if vec:
        f = ctx.arr([i * d for i in range(N)]) if df is None else ctx.np.arange(N) * d
    kw = {"kind": kind, "base": base}
    for k in default:
        kw.pop(k)
    r = ctx.call(ctx.at.psd2allan, ctx.arr(S), f, **kw)
    if not ctx.ok("psd2allan", r):
        return
    taus, dev = list(r[0]), list(r[1])
    if len(taus) != len(dev):
        return ctx.fail("psd2allan: %d taus, %d deviations" % (len(taus), len(dev)))
    ms = []
    for t in taus:
        v = t * d * (N - 1)
        ms.append(ctx.concrete(v))
        ctx.true("tau is a multiple of the smallest", ctx.and_(v <= ms[-1] + 1e-6, v >= ms[-1] - 1e-6))
    ctx.checked()
    if ms not in mlists(n, base):
        return ctx.fail("psd2allan: averaging factors %s, expected %s" % (ms, mlists(n, base)[0]))
    for m, v in zip(ms, dev):
        ctx.eq2("dev(%d)" % m, v, spec[m])


def scaling(ctx, N, kind):
    S = [ctx.pos("S%d" % i) for i in range(N)]
    T = [ctx.pos("T%d" % i) for i in range(N)]
    c, d = ctx.pos("c"), ctx.pos("df", (.1, 3))
    w = weights(N, 2 if kind == "mdev" else 1)
    for m in set(sum(mlists((N - 1) / 2.0, 2), [])):
        for Z in (S, T):
            ctx.assume(ctx.sum([v * s for v, s in zip(w(m), Z)]) >= 1e-4 * ctx.sum([abs(v) * s for v, s in zip(w(m), Z)]))
    rs = [ctx.call(ctx.at.psd2allan, ctx.arr(z), d, kind=kind) for z in (S, T, [c * s for s in S], [s + t for s, t in zip(S, T)])]
    for r in rs:
        if not ctx.ok("psd2allan", r):
            return
    for j in range(len(rs[0][1])):
        a, b, e, g = [r[1][j] for r in rs]
        ctx.eq2("scaling", e, c * a * a)
        ctx.eq2("additivity", g, a * a + b * b)
    z = ctx.call(ctx.at.psd2allan, ctx.arr([0.0] * N), d, kind=kind)
    if ctx.ok("psd2allan(0)", z):
        for v in z[1]:
            ctx.eq("zero PSD", v, 0)


def reject(ctx, what):
    S = ctx.arr([ctx.pos("S%d" % i) for i in range(6)])
    d = ctx.pos("df", (.1, 3))
    if what == "list":
        r = ctx.call(ctx.at.psd2allan, list(S), d)
    elif what == "scalar":
        r = ctx.call(ctx.at.psd2allan, 1.0, d)
    elif what == "flist":
        r = ctx.call(ctx.at.psd2allan, S, [i * d for i in range(6)])
    elif what == "ftuple":
        r = ctx.call(ctx.at.psd2allan, S, (0.0, 1.0))
    elif what == "fnone":
        r = ctx.call(ctx.at.psd2allan, S, None)
    elif what == "fdict":
        r = ctx.call(ctx.at.psd2allan, S, {})
    ctx.raises("psd2allan %s" % what, r)


def jobs(tier):
    q = tier == "quick"
    out = []
    Ns = list(range(4, 14)) + [16, 17, 24, 33] if q else list(range(4, 25)) + [32, 33, 40]
    for N in Ns:
        for kind in ("adev", "mdev"):
            out.append(dict(h="run", params=dict(N=N, kind=kind), cost=N * N))
        out.append(dict(h="run", params=dict(N=N, kind="m", base=1), cost=N * N))
        out.append(dict(h="run", params=dict(N=N, kind="A", base=10, vec=True), cost=N * N))
    for N in (9, 13):
        out.append(dict(h="run", params=dict(N=N, kind="adev", base=1.5), cost=N * N))
        out.append(dict(h="run", params=dict(N=N, kind="adev", default=["kind", "base"]), cost=N * N))
    steps = list(STEPS)
    if not q:
        import random
        r = random.Random(3)
        steps += [10 ** r.uniform(-4, 3) for _ in range(176)]
    for i, s in enumerate(steps):
        for N in (7, 10 + i % 5) if q else (7, 10 + i % 5, 15 + i % 7):
            out.append(dict(h="run", params=dict(N=N, kind=["adev", "mdev"][i % 2], df=s, vec=i % 3 == 1, base=[2, 10, 1][i % 3]), cost=N * N))
    for N in (6, 9):
        for k in ("adev", "mdev"):
            out.append(dict(h="scaling", params=dict(N=N, kind=k), cost=N * N))
    for w in ("list", "scalar", "flist", "ftuple", "fnone", "fdict"):
        out.append(dict(h="reject", params=dict(what=w)))
    return out
