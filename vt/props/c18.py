"""C18 chi-squared confidence intervals."""
from ..ctx import Raised

BOUNDS = {"quick": "every positive deviation, every positive real edf and every confidence 0.5 <= c < 1 (quantile function uninterpreted, strictly increasing); the default confidence; "
                   "noise-identifying variant: all six statistics, phase and frequency, 10 fixed series shapes of 64..200 points with every scale (so that white PM .. random-walk FM are all identified), averaging factors 1, 2, 3",
          "thorough": "the same with 20 series shapes of 64..400 points, averaging factors 1..5"}
OUTSIDE = "the numerical accuracy of scipy's chi-squared quantile; confidence below 0.5 (the function folds it) and exactly 1; series shapes other than the listed ones for the noise-identifying variant (see C21 for the identification)"


def interval(ctx, default=False, edf=None, c=None):
    dev = ctx.pos("dev")
    e = ctx.pos("edf") if edf is None else edf
    if default:
        c = 0.6826894921370859
        r = ctx.call(ctx.at.confidence_interval, dev, e)
    else:
        if c is None:
            c = ctx.real("c")
            ctx.assume(ctx.and_(c >= 0.5, c < 0.999))
        r = ctx.call(ctx.at.confidence_interval, dev, e, ci=c)
    if not ctx.ok("confidence_interval", r):
        return
    if len(r) != 2:
        return ctx.fail("two limits")
    qh, ql = ctx.chi2ppf((1 + c) / 2, e), ctx.chi2ppf((1 - c) / 2, e)
    ctx.eq2("low", r[0], dev * dev * e / qh)
    ctx.eq2("high", r[1], dev * dev * e / ql)
    ctx.le("low^2 <= high^2", r[0] * r[0] / (dev * dev * e), r[1] * r[1] / (dev * dev * e))
    k = ctx.pos("k")
    s = ctx.call(ctx.at.confidence_interval, k * dev, e) if default else ctx.call(ctx.at.confidence_interval, k * dev, e, ci=c)
    if not ctx.ok("confidence_interval", s):
        return
    ctx.eq2("low scales", s[0], r[0] * r[0] * k * k)
    ctx.eq2("high scales", s[1], r[1] * r[1] * k * k)


def widens(ctx):
    dev, e = ctx.pos("dev"), ctx.pos("edf")
    c1, c2 = ctx.real("c1"), ctx.real("c2")
    ctx.assume(ctx.and_(c1 >= 0.5, c1 < c2, c2 < 0.999))
    r, s = ctx.call(ctx.at.confidence_interval, dev, e, ci=c1), ctx.call(ctx.at.confidence_interval, dev, e, ci=c2)
    if not (ctx.ok("c1", r) and ctx.ok("c2", s)):
        return
    w = dev * dev * e
    ctx.le("low falls", s[0] * s[0] / w, r[0] * r[0] / w)
    ctx.le("high grows", r[1] * r[1] / w, s[1] * s[1] / w)


def shape(kind, n, seed):
    """integer-valued deterministic series: kind = how often it is integrated"""
    st = 12345 + 7919 * seed
    z = []
    for _ in range(n):
        st = (1103515245 * st + 12345) % (1 << 31)
        z.append(((st >> 16) & 1023) - 512)
    for _ in range(kind):
        acc, o = 0, []
        for v in z:
            acc += v
            o.append(acc)
        z = o
    return z


DEV = {"adev": (2, False, False), "oadev": (2, True, False), "mdev": (2, True, True), "tdev": (2, True, True), "hdev": (3, False, False), "ohdev": (3, True, False)}


def noiseid(ctx, stat, kind, n, seed, af, dt, c=None):
    p = ctx.pos("p")
    dev = ctx.pos("dev")
    x = ctx.arr([p * v for v in shape(kind, n, seed)])
    d, ov, mod = DEV[stat]
    kw = {} if c is None else dict(ci=c)
    r = ctx.call(ctx.at.confidence_interval_noiseID, x, dev, af, dev_type=stat, data_type=dt, **kw)
    a = ctx.call(ctx.at.autocorr_noise_id, x, af, data_type=dt, dmin=0, dmax=3 if d == 3 else 2)
    if isinstance(a, Raised):
        return ctx.raises("no identification", r)
    e = ctx.call(ctx.at.edf_greenhall, alpha=int(a[0]), d=d, m=af, N=n + (dt == "freq"), overlapping=ov, modified=mod)
    if isinstance(e, Raised):
        return ctx.raises("no degrees of freedom", r)
    if not ctx.ok("confidence_interval_noiseID", r):
        return
    w = ctx.call(ctx.at.confidence_interval, dev, e, **kw)
    if ctx.ok("confidence_interval", w):
        ctx.eqlist("%s interval (alpha %s)" % (stat, a[0]), r, w)


def unknown(ctx, stat):
    p = ctx.pos("p")
    x = ctx.arr([p * v for v in shape(1, 64, 1)])
    ctx.raises("unknown statistic %r" % stat, ctx.call(ctx.at.confidence_interval_noiseID, x, p, 1, dev_type=stat))


def jobs(tier):
    q = tier == "quick"
    out = [dict(h="interval", params={}), dict(h="interval", params=dict(default=True)), dict(h="widens", params={})]
    for e in (1, 2.5, 10, 99):
        for c in (0.5, 0.6827, 0.9, 0.99):
            out.append(dict(h="interval", params=dict(edf=e, c=c)))
        out.append(dict(h="interval", params=dict(edf=e, default=True)))
    seeds = range(2) if q else range(4)
    for st in DEV:
        for kind in range(4 if st in ("adev", "oadev", "mdev", "tdev") else 5):
            for seed in seeds:
                for af in (1, 2, 3) if q else (1, 2, 3, 4, 5):
                    for dt in ("phase", "freq"):
                        n = (64 if seed == 0 else 133 + 50 * seed) + 40 * (af - 1)
                        out.append(dict(h="noiseid", params=dict(stat=st, kind=kind, n=n, seed=seed, af=af, dt=dt, c=0.9 if (kind + seed) % 2 else None), cost=3))
    for st in ("totdev", "theo1", "", "ADEV", "nosuch", "mtotdev", "gradev"):
        out.append(dict(h="unknown", params=dict(stat=st)))
    return out
