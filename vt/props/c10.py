"""C10 frequency <-> phase."""
import math
from .. import spec
from ..ctx import Raised

ALL = ["adev", "oadev", "mdev", "tdev", "hdev", "ohdev", "totdev", "mtotdev", "ttotdev", "htotdev", "pdev", "theo1", "tierms", "mtie"]
SLOW = ("mtotdev", "ttotdev", "htotdev", "pdev", "theo1", "mtie")
BOUNDS = {"quick": "all 14 statistics plus gcodev and gradev: 4, 6 and 9 frequency points with every m, 40 points with selected m (fast statistics), leading/trailing NaN runs "
                   "0..3 each, array and list input; converters: 1..12, 50 and 300 points; all real values, all rates, any start phase",
          "thorough": "as quick with 2..16 points every m, 40, 131 and 300 points selected m, converters up to 1000 points"}
OUTSIDE = "NaNs inside the record; longer series; mtie_phase_fast (phase only)"


def accumulate(ctx, y, rate, x0, n_total=None):
    n = len(y)
    mean = spec.total(list(y)) / n
    xs, s = [x0], 0
    for v in y:
        s = s + v
        xs.append(x0 + s / rate)
    return xs, mean


def compare(ctx, lab, r, q):
    if isinstance(q, Raised):
        return ctx.raises(lab + ": nothing to report", r)
    if not ctx.ok(lab, r):
        return
    for nm, a, b in zip(("taus", "devs", "errs", "ns"), r, q):
        if nm == "errs" and isinstance(a, list) and len(a) == 2:
            continue
        if len(a) != len(b):
            return ctx.fail("%s: %d %s with freq input, %d with phase input" % (lab, len(a), nm, len(b)))
        for i in range(len(a)):
            if nm in ("devs", "errs"):
                ctx.eq("%s %s[%d] squared" % (lab, nm, i), a[i] * a[i], b[i] * b[i])
                ctx.le("%s %s[%d] sign" % (lab, nm, i), 0, a[i])
            else:
                ctx.eq("%s %s[%d]" % (lab, nm, i), a[i], b[i])


def phase_of(ctx, y, rate, stat):
    x0 = ctx.real("xstart")
    xs, mean = accumulate(ctx, y, rate, x0)
    if stat in ("mtie", "tierms"):
        xs = [v - mean * i / rate for i, v in enumerate(xs)]
    return ctx.arr(xs)


def stat(ctx, stat, n, ms, lead=0, trail=0, aslist=False):
    y = ctx.reals("y", n)
    rate = ctx.pos("rate")
    taus = [m / rate for m in ms]
    f = getattr(ctx.at, stat)
    yy = y
    if lead or trail:
        nan = float("nan")
        yy = ctx.np.array([nan] * lead + list(y) + [nan] * trail)
    if aslist:
        yy = list(yy)
    r = ctx.call(f, yy, rate=rate, data_type="freq", taus=taus)
    q = ctx.call(f, phase_of(ctx, list(y), rate, stat), rate=rate, data_type="phase", taus=taus)
    compare(ctx, stat, r, q)


def two(ctx, n, ms):
    y, w = ctx.reals("y", n), ctx.reals("w", n)
    rate = ctx.pos("rate")
    taus = [m / rate for m in ms]
    r = ctx.call(ctx.at.gcodev, y, w, rate=rate, data_type="freq", taus=taus)
    x1, _ = accumulate(ctx, list(y), rate, ctx.real("xstart"))
    x2, _ = accumulate(ctx, list(w), rate, ctx.real("wstart"))
    q = ctx.call(ctx.at.gcodev, ctx.arr(x1), ctx.arr(x2), rate=rate, data_type="phase", taus=taus)
    compare(ctx, "gcodev", r, q)


def bad(ctx, stat):
    x = ctx.reals("x", 8)
    a = (x, x) if stat == "gcodev" else (x,)
    r = ctx.call(getattr(ctx.at, stat), *a, rate=1.0, data_type="phaze", taus=[1.0])
    ctx.raises(stat + ": unknown data type", r)


def conv(ctx, n, lead=0, trail=0):
    y = ctx.reals("y", n)
    rate = ctx.pos("rate")
    nan = float("nan")
    yy = ctx.np.array([nan] * lead + list(y) + [nan] * trail) if lead or trail else y
    x = ctx.call(ctx.at.frequency2phase, yy, rate)
    if not ctx.ok("frequency2phase", x):
        return
    if len(x) != n + 1:
        return ctx.fail("frequency2phase: %d points from %d" % (len(x), n))
    xs, mean = accumulate(ctx, list(y), rate, 0)
    for i in range(n + 1):
        ctx.eq("frequency2phase[%d]" % i, x[i], xs[i] - mean * i / rate)
    b = ctx.call(ctx.at.phase2frequency, x, rate)
    if not ctx.ok("phase2frequency", b):
        return
    if len(b) != n:
        return ctx.fail("phase2frequency: %d points" % len(b))
    for i in range(n):
        ctx.eq("phase2frequency[%d]" % i, b[i], y[i] - mean)


def trim(ctx, n, lead, trail):
    y = ctx.reals("y", n)
    nan = float("nan")
    t = ctx.call(ctx.at.trim_data, ctx.np.array([nan] * lead + list(y) + [nan] * trail))
    if ctx.ok("trim_data", t):
        ctx.eqlist("trim_data", t, list(y))


def units(ctx, n, sign=1):
    x = ctx.reals("x", n)
    rate, v0 = ctx.pos("rate"), ctx.pos("v0")
    if sign < 0:        # nothing restricts the reference frequency to positive values (-1 stands for "use the mean")
        v0 = -v0
        ctx.assume(ctx.not_(v0 == -1))
    b = ctx.call(ctx.at.phase2frequency, x, rate)
    if ctx.ok("phase2frequency", b):
        ctx.eqlist("phase2frequency of any phase", b, [(x[i + 1] - x[i]) * rate for i in range(n - 1)])
    p = ctx.call(ctx.at.phase2radians, x, v0)
    if ctx.ok("phase2radians", p):
        ctx.eqlist("phase2radians", p, [x[i] * v0 * (2 * math.pi) for i in range(n)])
    y = ctx.call(ctx.at.frequency2fractional, x, mean_frequency=v0)
    if ctx.ok("frequency2fractional", y):
        ctx.eqlist("frequency2fractional", y, [(x[i] - v0) / v0 for i in range(n)])


def units_default(ctx, n, sign=1, aslist=False):
    # frequencies of a real oscillator: positive; a beat note below the reference: negative
    f = ctx.arr([sign * ctx.pos("f%d" % i) for i in range(n)])
    if aslist:
        f = list(f)
    y = ctx.call(ctx.at.frequency2fractional, f)
    if ctx.ok("frequency2fractional default", y):
        mu = spec.total(list(f)) / n
        for i in range(n):
            ctx.eq("frequency2fractional default[%d]" % i, y[i] * mu, f[i] - mu)


def jobs(tier):
    q = tier == "quick"
    out = []
    for st in ALL:
        for n in ((4, 6, 9) if q else range(2, 17)):
            if st == "mtie" and n > 12:
                continue
            out.append(dict(h="stat", params=dict(stat=st, n=n, ms=list(range(1, n + 3))), cost=n * (3 if st in SLOW else 1)))
        for lead, trail in ((1, 0), (0, 1), (2, 3), (3, 1)):
            out.append(dict(h="stat", params=dict(stat=st, n=7, ms=[1, 2, 3, 5], lead=lead, trail=trail), cost=5))
        out.append(dict(h="stat", params=dict(stat=st, n=7, ms=[2, 1, 4], aslist=True), cost=5))
        out.append(dict(h="stat", params=dict(stat=st, n=6, ms=[1, 2, 3], lead=1, trail=1, aslist=True), cost=5))
        if st not in ("mtie",):
            for n in ((40,) if q else (40, 131, 300)):
                ms = [1, 3, 8, n // 4, n // 2, n - 1, n, n + 1] if st not in SLOW else [1, 4, n // 3]
                if n > 40 and st in SLOW:
                    ms = [2]
                    if st in ("mtotdev", "ttotdev", "htotdev") or n > 131:
                        continue
                out.append(dict(h="stat", params=dict(stat=st, n=n, ms=ms), cost=n))
    for n in (3, 5, 8) if q else range(2, 14):
        for m in (1, 2, 3):
            out.append(dict(h="two", params=dict(n=n, ms=[m])))
    out.append(dict(h="two", params=dict(n=40, ms=[7]), cost=10))
    for n in (4, 7) if q else range(3, 10):
        out.append(dict(h="stat", params=dict(stat="gradev", n=n, ms=[1, 2, 3]), cost=8))
    for st in ALL + ["gradev", "gcodev"]:
        out.append(dict(h="bad", params=dict(stat=st)))
    for n in list(range(1, 13)) + ([50, 300] if q else list(range(13, 50)) + [300, 1000]):
        out.append(dict(h="conv", params=dict(n=n), cost=n / 10))
    for lead in range(4):
        for trail in range(4):
            for n in (1, 2, 5):
                out.append(dict(h="conv", params=dict(n=n, lead=lead, trail=trail)))
                out.append(dict(h="trim", params=dict(n=n, lead=lead, trail=trail)))
    for n in (2, 5, 30):
        out.append(dict(h="units", params=dict(n=n)))
        out.append(dict(h="units_default", params=dict(n=n)))
        out.append(dict(h="units", params=dict(n=n, sign=-1)))
        out.append(dict(h="units_default", params=dict(n=n, sign=-1)))
        out.append(dict(h="units_default", params=dict(n=n, aslist=True)))
    return out
