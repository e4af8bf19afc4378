"""C09 GCODEV and three-cornered hat."""
from .. import spec
from .c01 import sizes

BOUNDS = {"quick": "gcodev: N = 3..9 every m, N = 14, 40, 60, 131, 300 selected m (value, symmetry, equality with oadev); three-cornered hat: N = 6, 8, 11 with adev, oadev, mdev, hdev, ohdev, totdev, tierms, tdev, pdev, N = 40 with oadev, N = 70 with adev, ohdev, mdev; all real phases, all rates",
          "thorough": "gcodev: N = 3..16 every m, up to 700 selected m; three-cornered hat: N = 6..14, 40, 80 with ten statistics"}
OUTSIDE = "series of different length; longer series"


def cov(x, y, rate, m):
    n = len(x) - 2 * m
    return spec.total([spec.d2(x, i, m) * spec.d2(y, i, m) for i in range(n)]) * rate * rate / (2 * n * m * m)


def gco(ctx, N, ms):
    x, y = ctx.reals("x", N), ctx.reals("y", N)
    rate = ctx.pos("rate")
    taus = [m / rate for m in ms]
    r = ctx.call(ctx.at.gcodev, x, y, rate=rate, data_type="phase", taus=taus)
    rows = [m for m in sorted(set(ms)) if N - 2 * m >= 2]
    if not rows:
        return ctx.raises("gcodev: nothing to report", r)
    if not ctx.ok("gcodev", r):
        return
    if any(len(a) != len(rows) for a in r):
        return ctx.fail("gcodev: wrong number of rows")
    r2 = ctx.call(ctx.at.gcodev, y, x, rate=rate, data_type="phase", taus=taus)
    if not ctx.ok("gcodev swapped", r2):
        return
    xs, ys = list(x), list(y)
    for k, m in enumerate(rows):
        lab = "gcodev m=%d" % m
        v = ctx.abs(cov(xs, ys, rate, m))
        ctx.eq(lab + " tau", r[0][k] * rate, m)
        ctx.eq2(lab + " dev", r[1][k], v)
        ctx.eq2(lab + " err", r[2][k], v / (N - 2 * m))
        ctx.eq(lab + " n", r[3][k], N - 2 * m)
        ctx.eq2(lab + " swapped dev", r2[1][k], v)
        ctx.eq2(lab + " swapped err", r2[2][k], v / (N - 2 * m))


def same(ctx, N, ms):
    x = ctx.reals("x", N)
    rate = ctx.pos("rate")
    taus = [m / rate for m in ms]
    r = ctx.call(ctx.at.gcodev, x, x, rate=rate, data_type="phase", taus=taus)
    o = ctx.call(ctx.at.oadev, x, rate=rate, data_type="phase", taus=taus)
    if not (ctx.ok("gcodev", r) and ctx.ok("oadev", o)):
        return
    for nm, a, b in zip(("taus", "devs", "errs", "ns"), r, o):
        ctx.eqlist("gcodev(x,x) vs oadev " + nm, a, b)


def hat(ctx, N, ms, stat):
    s = {k: ctx.reals(k, N) for k in ("ab", "bc", "ca")}
    rate = ctx.pos("rate")
    taus = [m / rate for m in ms]
    r = ctx.call(ctx.at.three_cornered_hat_phase, s["ab"], s["bc"], s["ca"], rate, taus, getattr(ctx.at, stat))
    if stat == "mtie":
        rows = [(m, N - m) for m in sorted(set(ms)) if m < N and N - m >= 2]
    else:
        rows = [(m, spec.SPEC[stat](list(s["ab"]), rate, m)[1]) for m in sorted(set(ms)) if m in spec.candidates(stat, N)]
        rows = [(m, n) for m, n in rows if n >= 2]
    if not rows:
        return ctx.raises("hat: nothing to report", r)
    if not ctx.ok("hat", r):
        return
    if any(len(a) != len(rows) for a in r):
        return ctx.fail("hat: wrong number of rows")
    for k, (m, n) in enumerate(rows):
        v = {q: spec.SPEC[stat](list(s[q]), rate, m)[0] for q in s}
        va = ctx.max([(v["ab"] + v["ca"] - v["bc"]) / 2, 0])
        lab = "hat(%s) m=%d" % (stat, m)
        ctx.eq(lab + " tau", r[0][k] * rate, m)
        ctx.eq2(lab + " dev", r[1][k], va)
        ctx.eq2(lab + " err", r[2][k], va / n)
        ctx.eq(lab + " n", r[3][k], n)


def jobs(tier):
    q = tier == "quick"
    out = []
    for N in range(3, 10 if q else 17):
        for m in range(1, N + 1):
            out.append(dict(h="gco", params=dict(N=N, ms=[m]), cost=N))
    for N, ms in [(14, [2, 5]), (40, [1]), (40, [7]), (131, [3]), (131, [64]), (300, [140]), (60, [1, 9])] + ([] if q else [(300, [1]), (700, [300])]):
        out.append(dict(h="gco", params=dict(N=N, ms=ms), cost=N))
    for N, ms in [(5, [1]), (8, [1, 2, 3]), (20, [1, 3, 8, 9]), (131, [1, 7, 50])]:
        out.append(dict(h="same", params=dict(N=N, ms=ms), cost=N))
    stats = ["adev", "oadev", "mdev", "hdev", "ohdev", "totdev", "tierms"] + ["tdev", "pdev"] + ([] if q else ["mtotdev"])
    for N in ((6, 8, 11) if q else range(5, 15)):
        for st in stats:
            for m in (1, 2, 3):
                out.append(dict(h="hat", params=dict(N=N, ms=[m, N], stat=st), cost=N))
    out.append(dict(h="hat", params=dict(N=8, ms=[1, 2], stat="oadev"), cost=20))
    for st in ("adev", "ohdev", "mdev"):
        out.append(dict(h="hat", params=dict(N=70, ms=[9], stat=st), cost=40))
    for N in ((40,) if q else (40, 80)):
        out.append(dict(h="hat", params=dict(N=N, ms=[7], stat="oadev"), cost=20))
    return out
