"""C33 invalid requests are refused."""
from .c10 import ALL

BOUNDS = {"quick": "14 statistics, gradev, gcodev, three-cornered hat: 8 samples of any value, every positive rate: unknown data types, rate zero, unknown tau keywords, averaging times all outside the record (any real size), "
                   "records of 0, 1 and 2 samples; Dataset: unknown and disallowed functions and failing statistics, with and without an earlier result; noise identification, degrees of freedom, "
                   "confidence intervals, noise synthesis, psd2allan: the documented restrictions, with every other argument arbitrary",
          "thorough": "the same with 8, 13 and 20 samples"}
OUTSIDE = "argument errors the documentation does not mention (wrong container types, negative rates, unequal lengths)"

EVERY = ALL + ["gradev", "gcodev"]


def go(ctx, stat, n, **k):
    x = ctx.reals("x", n)
    args = [x, ctx.reals("y", n)] if stat == "gcodev" else [x]
    return ctx.call(getattr(ctx.at, stat), *args, **k)


def dtype(ctx, stat, n, bad):
    ctx.raises("%s with data_type=%r" % (stat, bad), go(ctx, stat, n, rate=ctx.pos("rate"), data_type=bad))


def zero(ctx, stat, n, freq, integer, word=[1.0]):
    ctx.raises("%s with rate 0" % stat, go(ctx, stat, n, rate=0 if integer else 0.0, data_type="freq" if freq else "phase", taus=word))


def word(ctx, stat, n, bad):
    ctx.raises("%s with taus=%r" % (stat, bad), go(ctx, stat, n, rate=ctx.pos("rate"), taus=bad))


def outside(ctx, stat, n, side, freq=False):
    """every requested averaging time rounds to 0 or below, or to the record length or more"""
    rate = ctx.pos("rate")
    f = ctx.pos("f", (.05, .4) if side == "low" else (0, 5))
    N = n + 1 if freq else n
    if side == "low":
        ctx.assume(f <= 0.49)
        taus = [f / rate, 0.0, -2.0 / rate]
    else:
        taus = [(N + f) / rate, (2 * N + 3) / rate]
    ctx.raises("%s with all taus outside (%s)" % (stat, side), go(ctx, stat, n, rate=rate, data_type="freq" if freq else "phase", taus=taus))


def short(ctx, stat, n, taus):
    ctx.raises("%s of %d samples" % (stat, n), go(ctx, stat, n, taus=taus))


def hat(ctx, n, what):
    s = [ctx.reals(k, n) for k in "abc"]
    rate, taus = (0.0, [1.0]) if what == "rate" else (1.0, "foo") if what == "word" else (1.0, [float(n + 1)])
    ctx.raises("three-cornered hat, bad %s" % what, ctx.call(ctx.at.three_cornered_hat_phase, *s, rate, taus, ctx.at.oadev))


def dataset(ctx, n, name, before):
    x = ctx.reals("x", n)
    ds = ctx.at.Dataset(data=x, rate=2.0, taus=[0.5, 1.0])
    keep = None
    if before:
        if not ctx.ok("compute", ctx.call(ds.compute, "oadev")):
            return
        keep = {k: (list(v) if hasattr(v, "__len__") and not isinstance(v, str) else v) for k, v in ds.out.items()}
    if name == "taus":
        ds.inp["taus"] = [1000.0]
        r = ctx.call(ds.compute, "mdev")
    elif name == "type":
        ds.inp["data_type"] = "volts"
        r = ctx.call(ds.compute, "mdev")
    else:
        r = ctx.call(ds.compute, name)
    ctx.raises("Dataset.compute(%r)" % name, r)
    if keep is None:
        for k, v in ds.out.items():
            ctx.checked()
            if v is not None:
                ctx.fail("Dataset.compute(%r) left %s=%r" % (name, k, v))
        return
    if sorted(ds.out) != sorted(keep):
        return ctx.fail("keys of the result after a refused request")
    for k, v in keep.items():
        w = ds.out[k]
        if isinstance(v, list):
            ctx.eqlist("earlier result %s" % k, w, v)
        else:
            ctx.checked()
            if w != v:
                ctx.fail("earlier result %s: %r became %r" % (k, v, w))


def interval(ctx, kind, n=30):
    from .c18 import shape
    p, dev = ctx.pos("p"), ctx.pos("dev")
    x = ctx.arr([p * (v / 256.) for v in shape(1, n, 3)])
    ctx.raises("confidence_interval_noiseID of %s" % kind, ctx.call(ctx.at.ci.confidence_interval_noiseID, x, dev, af=1, dev_type=kind))


def few(ctx, n, dt, dev_type):
    x = ctx.reals("x", n)
    ctx.raises("confidence_interval_noiseID of %d points" % n, ctx.call(ctx.at.ci.confidence_interval_noiseID, x, ctx.pos("dev"), af=1, dev_type=dev_type, data_type=dt))


def edf(ctx, fn, alpha, d=None):
    N = ctx.intv("N", 50, 200)
    m = 3
    f = getattr(ctx.at.ci, fn)
    if fn == "edf_greenhall":
        r = [ctx.call(f, alpha=alpha, d=d, m=m, N=N, overlapping=o, modified=mo) for o, mo in ((False, False), (True, False), (True, True))]
    else:
        r = [ctx.call(f, N, m, alpha)]
    for v in r:
        ctx.raises("%s with alpha=%d%s" % (fn, alpha, "" if d is None else ", d=%d" % d), v)


def synth(ctx, what):
    ctx.draws()
    h = [ctx.pos("h0"), ctx.pos("h1")]
    z = ctx.pos("z")
    fn, al, dur, dt, k = [0.3 / z], [-2., 0.], 8 * z, z, {}
    if what == "duration":
        dur = -ctx.pos("d")
    elif what == "zero":
        dur = 0.0
    elif what == "step":
        dt = -ctx.pos("d")
    elif what == "zerostep":
        dt = 0.0
    elif what == "short":
        fr = ctx.pos("f", (.1, 3.9))
        ctx.assume(fr <= 3.99)
        dur = fr * z
    elif what == "alpha":
        al = [-2.]
    elif what == "nodes":
        fn = [.1 / z, .3 / z]
    elif what == "nonodes":
        h, al, fn = h + [ctx.pos("h2")], [-2., 0., 1.], [.3 / z]
    elif what == "output":
        k = dict(output="frequency")
    r = ctx.call(ctx.at.noise.timmer_koenig_from_psd, ctx.arr(fn), ctx.arr(h), ctx.arr(al), dur, dt, **k)
    ctx.raises("timmer_koenig_from_psd: bad %s" % what, r)


def psd(ctx, what):
    S = ctx.reals("S", 6)
    f = ctx.pos("f")
    if what == "list":
        r = ctx.call(ctx.at.psd2allan, list(S), f)
    elif what == "flist":
        r = ctx.call(ctx.at.psd2allan, S, [k * f for k in range(6)])
    else:
        r = ctx.call(ctx.at.psd2allan, tuple(S), f)
    ctx.raises("psd2allan: %s" % what, r)


def nodata(ctx, n, fn):
    x = ctx.np.array([float("nan")] * n)
    r = ctx.call(ctx.at.frequency2phase, x, ctx.pos("rate")) if fn == "frequency2phase" else ctx.call(getattr(ctx.at, fn), x, rate=ctx.pos("rate"), data_type="freq")
    ctx.raises("%s of nothing but NaN" % fn, r)


def jobs(tier):
    q = tier == "quick"
    out = []

    def add(h, cost=1, **p):
        out.append(dict(h=h, params=p, cost=cost))
    for st in EVERY:
        for n in (8,) if q else (8, 13, 20):
            for bad in ("Phase", "frequency", "volts", "", None):
                add("dtype", stat=st, n=n, bad=bad)
            for freq in (False, True):
                for integer in (False, True):
                    add("zero", stat=st, n=n, freq=freq, integer=integer)
                for word in ("all", "octave", "decade", None):
                    add("zero", stat=st, n=n, freq=freq, integer=freq, word=word)
            for bad in ("foo", "ALL", "octaves", "a", "oct", "1", "dec ade"):
                add("word", stat=st, n=n, bad=bad)
            for side in ("low", "high"):
                for freq in (False, True):
                    add("outside", stat=st, n=n, side=side, freq=freq)
        for n in (0, 1, 2):
            for t in (None, [1.0], "all"):
                add("short", stat=st, n=n, taus=t)
    for w in ("rate", "word", "taus"):
        add("hat", n=8, what=w)
    for name in ("foo", "", "Dataset", "tau_generator", "frequency2phase", "phase2frequency", "remove_small_ns", "psd2allan", "three_cornered_hat_phase", "taus", "type"):
        for before in (False, True):
            add("dataset", n=12, name=name, before=before)
    for k in ("totdev", "mtotdev", "htotdev", "theo1", "mtie", "ADEV", "", "pdev"):
        add("interval", kind=k)
    for n in (5, 29):
        for dt in ("phase", "freq"):
            for dv in ("adev", "ohdev", "mdev"):
                add("few", n=n, dt=dt, dev_type=dv)
    for al in (3, -3, 5):
        add("edf", fn="edf_mtotdev", alpha=al)
    for al, d in ((-1, 1), (-2, 1), (-3, 2), (-4, 2), (-5, 3)):
        add("edf", fn="edf_greenhall", alpha=al, d=d)
    for w in ("duration", "zero", "step", "zerostep", "short", "alpha", "nodes", "nonodes", "output"):
        add("synth", what=w)
    for w in ("list", "flist", "tuple"):
        add("psd", what=w)
    for fn in ("frequency2phase", "adev", "mdev", "htotdev", "mtie"):
        add("nodata", n=4, fn=fn)
    return out
