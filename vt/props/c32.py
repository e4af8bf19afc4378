"""C32 container, memory layout and number type of the arguments do not matter."""
from .c10 import ALL
from ..ctx import Raised
from .c14 import compare as compare14, flat

BOUNDS = {"quick": "14 statistics, gradev (with and without gaps) on phase and frequency data, gcodev, three-cornered hat, B1, R(n), mtie_phase_fast, lag-1 autocorrelation, noise identification (30 points, one shape of any "
                   "amplitude), converters, numpy_psd, tau_generator, Dataset, real-time objects: 8..16 samples of any value and 20 for the fast statistics; data as list, tuple, slice inside a longer array, every second element "
                   "of an array, reversed view, matrix column, read-only array; taus as tuple, array, integers, view, reversed list; rate as int, numpy.int64, numpy.float64, numpy.float32 with a list or a keyword for taus; averaging factors of real-time objects as tuple and array; "
                   "spectra and deviations as lists",
          "thorough": "the same with 16..40 samples"}
OUTSIDE = "scipy_psd() with a list (scipy.signal.welch is given a list with a fractional segment length); psd2allan(), which accepts arrays only and says so; other than double precision data; empty tuples or arrays for taus"

def compare(ctx, lab, a, b):
    compare14(ctx, lab, a, b if isinstance(b, Raised) else flat(b))


FORMS = ("list", "tuple", "slice", "step", "rev", "column", "readonly")


def form(ctx, kind, x, name):
    """the values x in another container; the memory between and around them holds other numbers"""
    v = list(x)
    n = len(v)
    if kind == "list":
        return v
    if kind == "tuple":
        return tuple(v)
    if kind == "readonly":
        a = ctx.arr(v)
        a.flags.writeable = False
        return a
    if kind == "rev":
        return ctx.arr(v[::-1])[::-1]
    g = list(ctx.reals("other" + name, n + 6))
    if kind == "slice":
        return ctx.arr(g[:3] + v + g[3:])[3:3 + n]
    mixed = [e for p in zip(v, g) for e in p]
    if kind == "step":
        return ctx.arr(mixed)[::2]
    if kind == "column":
        return ctx.arr(mixed).reshape(n, 2)[:, 0]
    raise AssertionError(kind)


def factors(stat, n):
    if stat == "theo1":
        return [4, 2]
    if stat in ("mtotdev", "ttotdev", "htotdev"):
        return [2, 1]
    return [3, 1, 2]


def call(ctx, stat, args, **k):
    return ctx.call(getattr(ctx.at, stat), *args, **k)


def stat(ctx, stat, n, kind, freq, gap=False):
    x = ctx.reals("x", n)
    if gap:
        x = ctx.np.array([float("nan") if i == 2 else v for i, v in enumerate(x)])
    rate = ctx.pos("rate")
    taus = [m / rate for m in factors(stat, n)]
    k = dict(rate=rate, data_type="freq" if freq else "phase", taus=taus)
    compare(ctx, "%s of a %s" % (stat, kind), call(ctx, stat, [form(ctx, kind, x, "x")], **k), call(ctx, stat, [ctx.arr(list(x))], **k))


def keyword(ctx, stat, n, kind, word):
    x = ctx.reals("x", n)
    a = call(ctx, stat, [form(ctx, kind, x, "x")], taus=word)
    compare(ctx, "%s of a %s, taus=%s" % (stat, kind, word), a, call(ctx, stat, [ctx.arr(list(x))], taus=word))


def pair(ctx, what, n, kind, kind2):
    x, y, z = ctx.reals("x", n), ctx.reals("y", n), ctx.reals("z", n)
    rate = ctx.pos("rate")
    t = [1 / rate, 2 / rate]
    fx, fy, fz = form(ctx, kind, x, "x"), form(ctx, kind2, y, "y"), form(ctx, kind, z, "z")
    if what == "gcodev":
        a = ctx.call(ctx.at.gcodev, fx, fy, rate=rate, taus=t[:1])
        b = ctx.call(ctx.at.gcodev, x, y, rate=rate, taus=t[:1])
    else:
        a = ctx.call(ctx.at.three_cornered_hat_phase, fx, fy, fz, rate, t, ctx.at.mdev)
        b = ctx.call(ctx.at.three_cornered_hat_phase, x, y, z, rate, t, ctx.at.mdev)
    compare(ctx, "%s of %s and %s" % (what, kind, kind2), a, b)


def other(ctx, what, n, kind):
    x = ctx.reals("x", n)
    at = ctx.at
    rate = ctx.pos("rate")
    ci = at.ci
    fn = {"b1": lambda v: ci.b1(v, 2, rate), "rn": lambda v: ci.rn(v, 2, rate), "acf": lambda v: ci.lag1_acf(v),
          "p2f": lambda v: at.phase2frequency(v, rate), "f2p": lambda v: at.frequency2phase(v, rate), "p2r": lambda v: at.phase2radians(v, rate),
          "f2f": lambda v: at.frequency2fractional(v), "f2fm": lambda v: at.frequency2fractional(v, rate), "psd": lambda v: at.noise.numpy_psd(v, rate),
          "fast": lambda v: at.mtie_phase_fast(v), "taus": lambda v: at.tau_generator(v, rate, "octave")}[what]
    compare(ctx, "%s of a %s" % (what, kind), ctx.call(fn, form(ctx, kind, x, "x")), ctx.call(fn, ctx.arr(list(x))))


def noiseid(ctx, kind, dt, af, n=30):
    from .c18 import shape
    p = ctx.pos("p")
    N = n * af
    x = [p * (v / 256.) for v in shape(1, N, 3)]
    fn = ctx.at.autocorr_noise_id
    compare(ctx, "noise identification of a %s" % kind, ctx.call(fn, form(ctx, kind, x, "x"), af, data_type=dt), ctx.call(fn, ctx.arr(x), af, data_type=dt))


def dataset(ctx, kind, n, stat):
    x = ctx.reals("x", n)
    rate = ctx.pos("rate")
    res = []
    for d in (form(ctx, kind, x, "x"), ctx.arr(list(x))):
        ds = ctx.at.Dataset(data=d, rate=rate, taus=[1 / rate, 2 / rate])
        r = ctx.call(ds.compute, stat)
        if not ctx.ok("compute", r):
            return
        res.append([ds.out[k] for k in ("taus", "stat", "stat_err", "stat_n")])
    compare(ctx, "Dataset %s of a %s" % (stat, kind), res[0], res[1])


def taus(ctx, stat, n, kind):
    x = ctx.reals("x", n)
    ms = factors(stat, n)
    rate = 4.0
    t = [m / rate for m in ms]
    if kind in ("int", "npint"):
        rate = 0.5
        t = [m / rate for m in ms]
    f = {"tuple": lambda: tuple(t), "array": lambda: ctx.np.array(t), "reversed": lambda: t[::-1], "view": lambda: ctx.np.array([v for e in t for v in (e, 999.0)])[::2],
         "int": lambda: [int(v) for v in t], "npint": lambda: ctx.np.array([int(v) for v in t]), "repeated": lambda: t + t[::-1]}[kind]()
    compare(ctx, "%s taus=%s" % (stat, kind), call(ctx, stat, [x], rate=rate, taus=f), call(ctx, stat, [x], rate=rate, taus=t))


def rates(ctx, stat, n, kind, value, freq):
    x = ctx.reals("x", n)
    r = {"int": int, "npint": ctx.np.int64, "npfloat": ctx.np.float64, "npfloat32": ctx.np.float32}[kind](value)
    t = [m / float(value) for m in factors(stat, n)]
    k = dict(data_type="freq" if freq else "phase", taus=t)
    compare(ctx, "%s rate=%s(%d)" % (stat, kind, value), call(ctx, stat, [x], rate=r, **k), call(ctx, stat, [x], rate=float(value), **k))


def ratekey(ctx, stat, n, kind, value, word):
    x = ctx.reals("x", n)
    r = {"int": int, "npint": ctx.np.int64, "npfloat32": ctx.np.float32}[kind](value)
    compare(ctx, "%s rate=%s(%d) taus=%s" % (stat, kind, value, word), call(ctx, stat, [x], rate=r, taus=word), call(ctx, stat, [x], rate=float(value), taus=word))


def stream(ctx, kind, cls, n, afs):
    x = ctx.reals("x", n)
    tau0 = ctx.pos("tau0")
    f = {"tuple": tuple, "array": ctx.np.array, "list": list}[kind]
    c = getattr(ctx.at.realtime, cls)
    a, b = ctx.call(c, afs=f(afs), tau0=tau0), ctx.call(c, afs=list(afs), tau0=tau0)
    if not (ctx.ok(cls, a) and ctx.ok(cls, b)):
        return
    for v in x:
        for o in (a, b):
            if not ctx.ok("add_phase", ctx.call(o.add_phase, v)):
                return
    compare(ctx, "%s afs=%s" % (cls, kind), [a.taus(), a.devs()], [b.taus(), b.devs()])


def lists(ctx, what, kind):
    """functions of short parameter vectors"""
    f = {"list": list, "tuple": tuple}[kind]
    ctx.integrals()
    at = ctx.at
    if what == "psd_piecewise_to_adev":
        h = [ctx.pos("h0"), ctx.pos("h1")]
        t = [ctx.pos("t0"), ctx.pos("t1")]
        u = [ctx.pos("u")]
        a = ctx.call(at.psd_piecewise_to_adev, f(h), f([-1., .5]), f(u), f(t))
        b = ctx.call(at.psd_piecewise_to_adev, ctx.arr(h), ctx.np.array([-1., .5]), ctx.arr(u), ctx.arr(t))
    elif what == "adev2psd":
        # a deviation growing by known factors, of any size
        s = ctx.pos("s")
        d = [s, 2 * s, 3 * s]
        t = [1., 10., 100.]
        a = ctx.call(at.adev2psd_piecewise_approx, f(d), f(t))
        b = ctx.call(at.adev2psd_piecewise_approx, ctx.arr(d), ctx.np.array(t))
    else:
        ctx.draws()
        h = [ctx.pos("h0"), ctx.pos("h1")]
        a = ctx.call(at.noise.timmer_koenig_from_psd, f([.3]), f(h), f([-2., 0.]), 6.5, 1.0, seed=5)
        b = ctx.call(at.noise.timmer_koenig_from_psd, ctx.np.array([.3]), ctx.arr(h), ctx.np.array([-2., 0.]), 6.5, 1.0, seed=5)
    compare(ctx, "%s %s" % (what, kind), a, b)


def jobs(tier):
    q = tier == "quick"
    out = []
    for st in ALL + ["gradev"]:
        slow = st in ("mtotdev", "ttotdev", "htotdev", "theo1", "mtie", "pdev")
        n = 7 if st == "mtie" else (11 if st == "theo1" else 9) if q else (9 if st == "mtie" else 16)
        for kind in FORMS:
            for freq in (False, True):
                out.append(dict(h="stat", params=dict(stat=st, n=n, kind=kind, freq=freq), cost=n))
            if not slow:
                out.append(dict(h="stat", params=dict(stat=st, n=20 if q else 40, kind=kind, freq=False), cost=n))
        for kind in ("tuple", "array", "reversed", "view", "int", "npint", "repeated"):
            out.append(dict(h="taus", params=dict(stat=st, n=n, kind=kind), cost=n))
        for kind, value in (("int", 1), ("int", 10), ("npint", 4), ("npfloat", 3), ("npfloat32", 4)):
            for freq in (False, True):
                out.append(dict(h="rates", params=dict(stat=st, n=n, kind=kind, value=value, freq=freq), cost=n))
        for kind, value in (("int", 4), ("npint", 10)) if slow else (("int", 4), ("npint", 10), ("npfloat32", 2)):
            for word in ("all", "octave", "decade", None):
                out.append(dict(h="ratekey", params=dict(stat=st, n=n, kind=kind, value=value, word=word), cost=n))
        if not slow:
            for kind in ("list", "step"):
                for word in ("all", "octave", "decade", None):
                    out.append(dict(h="keyword", params=dict(stat=st, n=11, kind=kind, word=word), cost=n))
    for kind in FORMS:
        out.append(dict(h="stat", params=dict(stat="gradev", n=9, kind=kind, freq=False, gap=True), cost=9))
        for k2 in ("list", "step"):
            out.append(dict(h="pair", params=dict(what="gcodev", n=6, kind=kind, kind2=k2), cost=9))
        out.append(dict(h="pair", params=dict(what="hat", n=8, kind=kind, kind2=kind), cost=12))
        for w in ("b1", "rn", "acf", "p2f", "f2p", "p2r", "f2f", "f2fm", "psd", "fast", "taus"):
            out.append(dict(h="other", params=dict(what=w, n=4 if w == "fast" else 9, kind=kind), cost=9))
        for dt in ("phase", "freq"):
            for af in (1, 2):
                out.append(dict(h="noiseid", params=dict(kind=kind, dt=dt, af=af), cost=9))
        for st in ("adev", "mdev", "hdev", "tierms"):
            out.append(dict(h="dataset", params=dict(kind=kind, n=9, stat=st), cost=9))
    for cls in ("oadev_realtime", "ohdev_realtime", "tdev_realtime"):
        for kind in ("tuple", "array"):
            for afs in ([1, 2, 4], [3, 1]):
                out.append(dict(h="stream", params=dict(kind=kind, cls=cls, n=16, afs=afs), cost=16))
    for w in ("psd_piecewise_to_adev", "adev2psd", "timmer_koenig"):
        for kind in ("list", "tuple"):
            out.append(dict(h="lists", params=dict(what=w, kind=kind), cost=4))
    return out
