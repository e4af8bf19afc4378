"""C28 deviation <-> piecewise power-law PSD."""
import math

BOUNDS = {"quick": "reconstruction: two to six nodes at thirteen given tau sets (octave, decade, irregular, 86400 s scale), every amplitude and every slope vector in the open convergence range (distinct slopes at least 0.05 apart), every pattern of merged neighbours, adev and hdev; conversion: one to six segments, exponents -2.5..1.5 in halves, every coefficient, every ascending set of break frequencies, one to three symbolic taus",
          "thorough": "up to eight nodes"}
OUTSIDE = "accuracy of scipy's quad (an exact integral stands in for it, except in the quadrature jobs at the slopes -1.75, -1.5, -1, -0.5, 0.5, 1, 1.5); slopes exactly at the ends of the convergence range; more nodes"
ASSUME = "scipy's quad returns the exact value of the integral it is given (a positive number that depends only on the integrand and the limits)"

TAUS = {2: [[1., 10.], [1., 2.], [0.3, 86400.]],
        3: [[1., 10., 100.], [1., 2., 8.], [1000., 3000., 86400.]],
        4: [[1., 10., 100., 1000.], [1., 2., 4., 8.], [.5, .7, 3., 400.]],
        5: [[1., 2., 4., 8., 16.], [1., 3., 10., 30., 900.]],
        6: [[1., 2., 4., 10., 20., 40.], [.5, 2., 7., 30., 100., 5000.]],
        8: [[1., 2., 5., 10., 20., 50., 100., 1000.]]}


def tolerance(ctx, taus, vt, near, tol=0.3):
    """slopes closer than mu_tol to the current segment's slope belong to it, others start a new segment"""
    ctx.integrals()
    n = len(taus)
    mus = []
    ref = None
    seg = []
    for i in range(n - 1):
        mu = ctx.real("mu%d" % i, (-1.9, 1.9))
        ctx.assume(mu >= -1.999)
        ctx.assume(mu <= 1.999)
        if i == 0 or not near[i - 1]:
            if i:
                d = mu - ref
                ctx.assume(ctx.or_(d >= tol + 0.01, d <= -tol - 0.01))
            ref = mu
            seg.append(i)
        else:
            d = mu - ref
            ctx.assume(ctx.and_(d <= tol - 0.01, d >= 0.01 - tol))
        mus.append(mu)
    ls = [ctx.real("l0", (-3, 3))]
    for i in range(n - 1):
        ls.append(ls[-1] + mus[i] * (math.log(taus[i + 1] / taus[i]) / 2))
    r = ctx.call(ctx.at.adev2psd_piecewise_approx, ctx.arr([ctx.exp(v) for v in ls]), ctx.np.array(taus), vt, mu_tol=tol)
    if not ctx.ok("adev2psd", r):
        return
    fn, Sy, h, al = [list(v) for v in r]
    if not (len(h) == len(al) == len(seg)):
        return ctx.fail("adev2psd: %d coefficients, %d exponents, expected %d" % (len(h), len(al), len(seg)))
    for k, i in enumerate(seg[::-1]):
        # the exponent lies within the tolerance of the slope of every interval of the segment
        members = [j for j in range(n - 1) if j >= i and (i == seg[-1] or j < seg[seg.index(i) + 1])]
        for j in members:
            d = -al[k] - 1 - mus[j]
            ctx.true("alpha[%d] within mu_tol of interval %d" % (k, j), ctx.and_(d <= 2 * tol, d >= -2 * tol))
        ctx.true("h[%d] > 0" % k, h[k] > 0)
    if len(seg) > 1:
        if len(fn) != len(seg) - 1:
            return ctx.fail("adev2psd: %d nodes for %d segments" % (len(fn), len(seg)))
        for k in range(len(fn)):
            lf = ctx.log(fn[k])
            ctx.eq("continuity at f[%d]" % k, ctx.log(h[k]) + al[k] * lf, ctx.log(h[k + 1]) + al[k + 1] * lf)


def rebuild(ctx, taus, vt, pattern=None, default=False):
    """pattern: index of the slope of each interval (equal neighbours are merged)"""
    ctx.integrals()
    n = len(taus)
    pattern = list(range(n - 1)) if pattern is None else pattern
    K = max(pattern) + 1
    hi = 2 if vt.lower() == "adev" else 4
    l0 = ctx.real("l0", (-3, 3))
    mus = []
    for i in range(K):
        mu = ctx.real("mu%d" % i, (-1.9, hi - .1))
        ctx.assume(mu >= -1.999)
        ctx.assume(mu <= hi - 0.001)
        mus.append(mu)
    for i in range(n - 2):
        if pattern[i] != pattern[i + 1]:
            d = mus[pattern[i]] - mus[pattern[i + 1]]
            ctx.assume(ctx.or_(d >= 0.05, d <= -0.05))
    ls = [l0]
    for i in range(n - 1):
        ls.append(ls[-1] + mus[pattern[i]] * (math.log(taus[i + 1] / taus[i]) / 2))
    adev = ctx.arr([ctx.exp(v) for v in ls])
    f = ctx.at.adev2psd_piecewise_approx
    r = ctx.call(f, adev, ctx.np.array(taus)) if default else ctx.call(f, adev, ctx.np.array(taus), vt)
    if not ctx.ok("adev2psd", r):
        return
    fn, Sy, h, al = [list(v) for v in r]
    # distinct consecutive slopes, in order of frequency (long averaging times first)
    seg = [i for i in range(n - 1) if i == 0 or pattern[i] != pattern[i - 1]][::-1]
    if len(h) != len(seg) or len(al) != len(seg):
        return ctx.fail("adev2psd: %d coefficients, %d exponents, expected %d" % (len(h), len(al), len(seg)))
    kind = "a" if vt.lower() == "adev" else "h"
    for k, i in enumerate(seg):
        mu = mus[pattern[i]]
        ctx.eq("alpha[%d]" % k, al[k], -mu - 1)
        J = ctx.integral(kind, 3 + mu, 0.0, math.inf)
        ctx.true("h[%d] > 0" % k, h[k] > 0)
        # dev(tau)^2 = 2 h pi^mu tau^mu J at both ends of the segment
        for t in (i, i + 1):
            ctx.eq("segment %d reproduces the deviation at node %d" % (k, t), ctx.log(h[k]) + math.log(2) + ctx.log(J) + mu * math.log(math.pi * taus[t]), 2 * ls[t])
    if len(fn) != len(Sy):
        return ctx.fail("adev2psd: %d nodes, %d values" % (len(fn), len(Sy)))
    if len(seg) > 1 and len(fn) != len(seg) - 1:
        return ctx.fail("adev2psd: %d nodes for %d segments" % (len(fn), len(seg)))
    for k in range(len(fn)):
        ctx.true("f[%d] > 0" % k, fn[k] > 0)
        lf, lS = ctx.log(fn[k]), ctx.log(Sy[k])
        j = k if len(seg) > 1 else 0
        ctx.eq("S(f[%d])" % k, lS, ctx.log(h[j]) + al[j] * lf)
        if len(seg) > 1:
            ctx.eq("continuity at f[%d]" % k, ctx.log(h[k]) + al[k] * lf, ctx.log(h[k + 1]) + al[k + 1] * lf)


def range_(ctx, vt, side, n=3):
    """a slope outside the convergence range anywhere is rejected; between 2 and 4 only hdev is accepted"""
    ctx.integrals()
    taus = TAUS[n][1]
    for bad in range(n - 1):
        l = ctx.real("l%d" % bad, (-3, 3))
        ls = [l]
        for i in range(n - 1):
            mu = ctx.real("m%d_%d" % (bad, i), (-1.9, 1.9))
            if i == bad:
                lo, hi = {"low": (-50, -2.001), "mid": (2.001, 3.999), "high": ((2.001 if vt == "adev" else 4.001), 50)}[side]
                mu = mu * 0 + ctx.real("b%d" % bad, (lo, hi))
                ctx.assume(mu >= lo)
                ctx.assume(mu <= hi)
            else:
                ctx.assume(mu >= -1.9)
                ctx.assume(mu <= 1.9)
            ls.append(ls[-1] + mu * (math.log(taus[i + 1] / taus[i]) / 2))
        r = ctx.call(ctx.at.adev2psd_piecewise_approx, ctx.arr([ctx.exp(v) for v in ls]), ctx.np.array(taus), vt)
        if side == "mid" and vt == "hdev":
            ctx.ok("slope %d between 2 and 4" % bad, r)
            ctx.checked()
        else:
            ctx.raises("slope %d outside the range" % bad, r)


def malformed(ctx, what):
    ctx.integrals()
    a = [ctx.pos("a%d" % i) for i in range(3)]
    ctx.assume(a[1] == a[0])
    ctx.assume(a[2] == a[0])
    t, vt = [1., 2., 4.], "adev"
    z = ctx.real("z", (-3, 0))
    ctx.assume(z <= 0)
    f = ctx.at.adev2psd_piecewise_approx
    if what == "length":
        t = t[:2]
    elif what == "one":
        a, t = a[:1], t[:1]
    elif what == "empty":
        a, t = [], []
    elif what == "dev":
        a = [a[0], z, a[2]]
    elif what == "devlast":
        a = [a[0], a[1], z]
    elif what == "tau0":
        t = [0., 1., 2.]
    elif what == "tauneg":
        t = [-1., 1., 2.]
    elif what == "order":
        t = [1., 4., 2.]
    elif what == "equal":
        t = [1., 2., 2.]
    elif what == "type":
        vt = "mdev"
    elif what == "type2":
        vt = "dev"
    r = ctx.call(f, ctx.arr(a), ctx.np.array(t), vt)
    ctx.raises("malformed %s" % what, r)


def powr(ctx, x, e):
    e2 = int(round(2 * e))
    r = ctx.sqrt(x) ** abs(e2) if e2 % 2 else x ** (abs(e2) // 2)
    return r if e2 >= 0 else 1 / r


def back(ctx, alphas, nt=1):
    ctx.integrals()
    K = len(alphas)
    h = [ctx.pos("h%d" % i) for i in range(K)]
    us = []
    for i in range(K - 1):
        us.append((us[-1] if us else 0) + ctx.pos("u%d" % i, (.05, .6)))
    taus = [ctx.pos("t%d" % i, (.5, 20)) for i in range(nt)]
    r = ctx.call(ctx.at.psd_piecewise_to_adev, ctx.arr(h), ctx.np.array([float(v) for v in alphas]), ctx.arr(us), ctx.arr(taus))
    if not ctx.ok("psd_piecewise_to_adev", r):
        return
    if len(r) != nt:
        return ctx.fail("psd_piecewise_to_adev: %d values for %d taus" % (len(r), nt))
    for k, t in enumerate(taus):
        s = []
        for i in range(K):
            lo = math.pi * t * us[i - 1] if i else 0.0
            hi = math.pi * t * us[i] if i < K - 1 else math.inf
            s.append(2 * h[i] / powr(ctx, math.pi * t, alphas[i] + 1) * ctx.integral("a", 2 - alphas[i], lo, hi))
        ctx.eq2("adev(t%d)" % k, r[k], ctx.sum(s))


def quadrature(ctx, mu, vt):
    """the package with the real quadrature at one slope, every amplitude; the coefficient within 1%"""
    A = ctx.pos("A")
    t = [1., 10.]
    r = ctx.call(ctx.at.adev2psd_piecewise_approx, ctx.arr([A, A * 10 ** (mu / 2)]), ctx.np.array(t), vt)
    if not ctx.ok("adev2psd", r):
        return
    from .. import integral
    want = A * A / (2 * math.pi ** mu * integral.accurate("a" if vt == "adev" else "h", 3 + mu, 0.0, math.inf))
    h = list(r[2])[0]
    ctx.true("coefficient within 1%", ctx.and_(h >= 0.99 * want, h <= 1.01 * want))


def jobs(tier):
    q = tier == "quick"
    out = []
    for n in (2, 3, 4, 5, 6) if q else (2, 3, 4, 5, 6, 8):
        for taus in TAUS[n]:
            for vt in ("adev", "hdev"):
                out.append(dict(h="rebuild", params=dict(taus=taus, vt=vt), cost=n))
    for vt in ("adev", "hdev"):
        for pat in ([0, 0], [0, 0, 1], [0, 1, 1], [0, 0, 0], [0, 1, 0], [0, 1, 1, 2], [0, 0, 1, 1, 0], [0, 1, 2, 1, 0]):
            for taus in TAUS[len(pat) + 1][1:]:
                out.append(dict(h="rebuild", params=dict(taus=taus, vt=vt, pattern=pat), cost=4))
        for side in ("low", "mid", "high"):
            for n in (2, 3):
                out.append(dict(h="range_", params=dict(vt=vt, side=side, n=n), cost=4))
        for mu in (-1.75, -1.5, -1.0, -0.5, 0.5, 1.0, 1.5) + ((2.5, 3.0, 3.5) if vt == "hdev" else ()):
            out.append(dict(h="quadrature", params=dict(mu=mu, vt=vt)))
    out.append(dict(h="rebuild", params=dict(taus=[1., 10.], vt="adev", default=True)))
    for vt in ("ADEV", "HDEV", "Adev", "hDev"):
        out.append(dict(h="rebuild", params=dict(taus=[1., 10., 100.], vt=vt)))
    for vt in ("adev", "hdev"):
        for near in ([True], [False], [True, False], [False, True], [True, True]):
            out.append(dict(h="tolerance", params=dict(taus=TAUS[len(near) + 2][1], vt=vt, near=near), cost=3))
    for w in ("length", "one", "empty", "dev", "devlast", "tau0", "tauneg", "order", "equal", "type", "type2"):
        out.append(dict(h="malformed", params=dict(what=w)))
    sets = [[0], [-2], [.5], [-1.5], [0, -1], [-2.5, .5], [-1, .5], [-2, 0, .5], [-.5, -1.5, -.5], [-2, -1, 0, .5], [-2, -1.5, -1, -.5, 0], [.5, 0, -1, 0, -1, -2]]
    if not q:
        sets += [[-2, -1.5, -1, -.5, 0], [-2, -1, 0, -1, 0, .5], [.5, .5], [-2, -2, -2]]
    for al in sets:
        for nt in (1, 2, 3):
            out.append(dict(h="back", params=dict(alphas=al, nt=nt), cost=len(al) * nt))
    return out
