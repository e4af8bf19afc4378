"""C08 GRADEV."""
import math
from .. import spec

BOUNDS = {"quick": "all 2^N gap patterns: N = 3..7 every m (dev, n, both error values, five noise types for N <= 6), N = 9, 11 (dev and n); 17 given gap patterns (single, blocks, edges, combs) at N = 20, 41, 120; no gaps: N = 24, 131; "
                   "every real phase value, rate > 0, confidence in (0.5, 1)",
          "thorough": "all 2^N gap patterns: N = 3..9 with errors for the five noise types, N = 11, 13 (dev and n); no gaps: N = 24, 131, 600"}
OUTSIDE = "longer gapped series; confidences below 0.5; unknown noise types; patterns whose degrees of freedom are not positive (error values not compared)"
ASSUME = ["chi-squared quantiles are an uninterpreted positive function, increasing in the probability"]
ALPHA = {"wp": 2, "fp": 1, "wf": 0, "ff": -1, "rf": -2}


def edf_simple(N, m, alpha):
    """NIST SP1065 Table 5; None where the expression is undefined"""
    try:
        if alpha == 2:
            return (N + 1.0) * (N - 2.0 * m) / (2.0 * (N - m))
        if alpha == 1:
            return math.exp(math.sqrt(math.log((N - 1) / (2.0 * m)) * math.log((2.0 * m + 1) * (N - 1) / 4.0)))
        if alpha == 0:
            return (3.0 * (N - 1) / (2.0 * m) - 2.0 * (N - 2) / N) * 4.0 * m * m / (4.0 * m * m + 5)
        if alpha == -1:
            if m == 1:
                return 2.0 * (N - 2) ** 2 / (2.3 * N - 4.9)
            return 5.0 * N * N / (4.0 * m * (N + 3 * m))
        if alpha == -2:
            return (N - 2.0) / m * ((N - 1) ** 2 - 3.0 * m * (N - 1) + 4.0 * m * m) / (N - 3.0) ** 2
    except (ValueError, ZeroDivisionError):
        return None


def run(ctx, N, ms, nt, gaps=True, errors=True, conf=None, holes=()):
    base = ctx.reals("x", N)
    x = ctx.maybe_nan("f", base) if gaps else base
    ok = ctx.is_missing("f", N) if gaps else [1] * N
    if holes:
        x = ctx.np.array([float("nan") if i in holes else v for i, v in enumerate(base)])
        ok = [int(i not in holes) for i in range(N)]
    rate = ctx.pos("rate")
    if conf is None:
        c = ctx.pos("c")
        ctx.assume(c > 0.5)
        ctx.assume(c < 1)
    else:
        c = conf
    r = ctx.call(ctx.at.gradev, x, rate=rate, data_type="phase", taus=[m / rate for m in ms], ci=c, noisetype=nt)
    rows = []
    nv = ctx.concrete(ctx.sum(ok)) if gaps else sum(ok)
    for m in ms:
        I = range(N - 2 * m)
        w = [ok[i] * ok[i + m] * ok[i + 2 * m] for i in I]
        n = ctx.concrete(ctx.sum(w)) if gaps else sum(w)
        if n >= 2:
            rows.append((m, n, spec.total([wi * spec.sq(spec.d2(base, i, m)) for i, wi in zip(I, w)]) * rate * rate / (2 * n * m * m)))
    if not rows:
        return ctx.raises("gradev: nothing to report", r)
    if not ctx.ok("gradev", r):
        return
    taus, devs, errs, ns = r
    if not (len(taus) == len(devs) == len(ns) == len(rows)) or len(errs) != 2 or len(errs[0]) != len(rows) or len(errs[1]) != len(rows):
        return ctx.fail("gradev: wrong number of rows (expected %d)" % len(rows))
    for k, (m, n, v) in enumerate(rows):
        lab = "gradev m=%d" % m
        ctx.eq(lab + " tau", taus[k] * rate, m)
        ctx.eq(lab + " n", ns[k], n)
        ctx.eq2(lab + " dev", devs[k], v)
        if not errors:
            continue
        edf = edf_simple(nv, m, ALPHA[nt])
        if edf is None or edf <= 1e-9:
            continue
        qh, ql = ctx.chi2ppf((1 + c) / 2, edf), ctx.chi2ppf((1 - c) / 2, edf)
        ctx.eq2(lab + " low end", devs[k] - errs[0][k], v * edf / qh)
        ctx.eq2(lab + " high end", devs[k] + errs[1][k], v * edf / ql)


def jobs(tier):
    q = tier == "quick"
    out = []
    for N in range(3, 8 if q else 10):
        for nt in ALPHA:
            if N == 7 and q and nt not in ("wp", "ff"):
                continue
            for m in range(1, (N + 1) // 2):
                out.append(dict(params=dict(N=N, ms=[m], nt=nt), cost=N * 2))
    for N in ((9, 11) if q else (11, 13)):
        for m in (1, 2, 3):
            out.append(dict(params=dict(N=N, ms=[m], nt="wp", errors=False), cost=30))
    out.append(dict(params=dict(N=13, ms=[4], nt="wp"), cost=60))
    for N, ms in [(24, list(range(1, 26))), (131, [1, 2, 7, 60, 64])] + ([] if q else [(600, [1, 3, 77, 298])]):
        for nt in ALPHA:
            out.append(dict(params=dict(N=N, ms=ms, nt=nt, gaps=False), cost=4))
    pats = {20: [[0], [19], [10], [0, 19], [1, 2, 3], list(range(7, 13)), list(range(1, 20, 4)), [0, 1, 2, 17, 18, 19], [5, 11, 14]],
            41: [[20], list(range(10, 25)), list(range(0, 41, 3)), [0, 40], [3, 4, 5, 30, 31]],
            120: [list(range(50, 61)), [0, 1, 118, 119], list(range(5, 120, 17))]}
    for N, hs in pats.items():
        for k, h in enumerate(hs):
            ms = list(range(1, N // 2 + 2)) if N < 40 else [1, 2, 3, 5, N // 3, N // 2 - 1]
            out.append(dict(params=dict(N=N, ms=ms, nt=list(ALPHA)[(N + k) % 5], gaps=False, holes=h), cost=5))
            if not q:
                for nt in ALPHA:
                    out.append(dict(params=dict(N=N, ms=ms, nt=nt, gaps=False, holes=h), cost=5))
    return out
