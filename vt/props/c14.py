"""C14 purity: arguments untouched, results independent of earlier calls."""
from ..ctx import Raised
from .c10 import ALL, SLOW

BOUNDS = {"quick": "every statistic (phase and frequency input, array and list data), gcodev, gradev with gaps, mtie_phase_fast, three-cornered hat, converters, tau helpers, "
                   "degrees-of-freedom and confidence functions, lag-1 noise identification (30 points, a two-parameter family), masks, psd2allan: one call of interest after one earlier call that differs in data, length, rate and taus, "
                   "in rate and taus only, or in data only; after calls of seven other statistics on data of the same length, rate and taus; after the caller changed the contents of the same array; 7-12 symbolic samples; compared with the same call in a newly loaded package",
          "thorough": "the same with 15-21 samples and two earlier calls"}
OUTSIDE = "longer call histories, data lengths above the bound"


def flat(v, out=None):
    out = [] if out is None else out
    if isinstance(v, (list, tuple)) or (hasattr(v, "shape") and hasattr(v, "__len__") and getattr(v, "ndim", 1) > 0):
        out.append(len(v))
        for e in v:
            flat(e, out)
    elif isinstance(v, dict):
        for k in v:
            flat(v[k], out)
    else:
        out.append(v)
    return out


def compare(ctx, lab, a, b):
    if isinstance(a, Raised) or isinstance(b, Raised):
        ctx.checked()
        if not (isinstance(a, Raised) and isinstance(b, Raised) and a.name == b.name):
            ctx.fail("%s: %r versus %r" % (lab, a if isinstance(a, Raised) else "value", b if isinstance(b, Raised) else "value"))
        return
    ctx.checked()
    ctx.eqlist(lab, flat(a), b)


def stat(name, freq=False, aslist=False, nan=False, tarr=False):
    def mk(ctx, var, big):
        n = {0: 8, 1: 15}[big] if name not in ("mtie",) else 6 + big * 3
        if name == "htotdev" and not big:
            n = 9
        data, cfg = var
        n += 2 if data == "a" and cfg == "a" else 0
        x = ctx.reals("x" + data, n)
        if nan:
            n = 6
            x = ctx.reals("x" + data, n)
            if data == "b":
                x = ctx.maybe_nan("g" + data, x)
            else:
                x = ctx.np.array([float("nan") if i == 2 else v for i, v in enumerate(x)])
        if aslist:
            x = list(x)
        rate = ctx.pos("rate" + cfg)
        ms = {"a": [3, 1, 2, 5], "b": [2, 4, 1]}[cfg] if not nan else {"a": [2], "b": [1]}[cfg]
        taus = [m / rate for m in ms]
        args = [x]
        if name == "gcodev":
            w = ctx.reals("w" + data, n)
            args.append(list(w) if aslist else w)
            taus = taus[:1]
        if tarr:
            taus = ctx.np.array(taus)
        return (lambda at: getattr(at, name)), args, dict(rate=rate, data_type="freq" if freq else "phase", taus=taus)
    return mk


def hat(ctx, var, big):
    data, cfg = var
    rate = ctx.pos("rate" + cfg)
    n = 7 + (data == "a" and cfg == "a")
    xs = [ctx.reals(k + data, n) for k in ("p", "q", "r")]
    return (lambda at: lambda *a: at.three_cornered_hat_phase(*a, at.oadev)), xs + [rate, [{"a": 1, "b": 2}[cfg] / rate]], {}


def simple(name, build, mod=None):
    def mk(ctx, var, big):
        args, kw = build(ctx, var, big)
        return (lambda at: getattr(getattr(at, mod) if mod else at, name)), args, kw
    return mk


def ser(ctx, var, big):
    data, cfg = var
    return ctx.reals("x" + data, 6 + (data == "a" and cfg == "a") + 6 * big)


def tg(key):
    def b(ctx, var, big):
        rate = ctx.pos("rate" + var[1])
        taus = [2 / rate, 1 / rate, 4 / rate] if key == "list" else key
        return [ser(ctx, var, big), rate], dict(taus=taus)
    return b


def edf(nargs):
    def b(ctx, var, big):
        return ([64, {"a": 2, "b": 4}[var[1]], {"a": 0, "b": -1}[var[0]]], {})
    return b


def nid(ctx, var, big):
    data, cfg = var
    n = {"a": 31, "b": 30}[cfg]
    p, q = ctx.real("p" + data), ctx.real("q" + data)     # a two-parameter family of series keeps the rational function of the lag-1 estimate tractable
    x = ctx.arr([p * ((i * 7) % 11 - 4) + q * ((i * i * 5) % 13 - 6) for i in range(n)])
    return [x, 1], dict(data_type="phase", dmin=0, dmax={"a": 1, "b": 1}[cfg])


CASES = {}
for _s in ALL:
    CASES[_s] = stat(_s)
    CASES[_s + " freq"] = stat(_s, freq=True)
    if _s not in SLOW:
        CASES[_s + " list"] = stat(_s, aslist=True)
    CASES[_s + " tau array"] = stat(_s, tarr=True, freq=_s in ("oadev", "totdev", "hdev"))
CASES.update({
    "gcodev": stat("gcodev"), "gcodev list": stat("gcodev", aslist=True), "gradev": stat("gradev"), "gradev gaps": stat("gradev", nan=True),
    "mtie_phase_fast": simple("mtie_phase_fast", lambda ctx, var, big: ([ser(ctx, var, big)], {})),
    "hat": hat,
    "frequency2phase": simple("frequency2phase", lambda c, v, b: ([ser(c, v, b), c.pos("rate" + v[1])], {})),
    "frequency2phase list": simple("frequency2phase", lambda c, v, b: ([list(ser(c, v, b)), c.pos("rate" + v[1])], {})),
    "phase2frequency": simple("phase2frequency", lambda c, v, b: ([ser(c, v, b), c.pos("rate" + v[1])], {})),
    "phase2radians": simple("phase2radians", lambda c, v, b: ([ser(c, v, b), c.pos("rate" + v[1])], {})),
    "frequency2fractional": simple("frequency2fractional", lambda c, v, b: ([ser(c, v, b)], dict(mean_frequency=c.pos("rate" + v[1])))),
    "frequency2fractional default": simple("frequency2fractional", lambda c, v, b: ([ser(c, v, b)], {})),
    "trim_data": simple("trim_data", lambda c, v, b: ([ser(c, v, b)], {})),
    "tau_generator": simple("tau_generator", tg("list")), "tau_generator all": simple("tau_generator", tg("all")),
    "tau_generator decade": simple("tau_generator", tg("decade")),
    "tau_reduction": simple("tau_reduction", lambda c, v, b: ([c.np.array([float(i) for i in range(1, {"a": 30, "b": 40}[v[0]])]), c.pos("rate" + v[1]), 5], {})),
    "edf_simple": simple("edf_simple", edf(3)), "edf_totdev": simple("edf_totdev", edf(3)), "edf_mtotdev": simple("edf_mtotdev", edf(3)),
    "edf_greenhall": simple("edf_greenhall", lambda c, v, b: ([{"a": 0, "b": -2}[v[0]], 2, {"a": 2, "b": 4}[v[1]], 64], dict(overlapping=True))),
    "confidence_interval": simple("confidence_interval", lambda c, v, b: ([c.pos("dev" + v[0]), {"a": 5.0, "b": 9.0}[v[1]]], dict(ci={"a": 0.9, "b": 0.7}[v[1]]))),
    "autocorr_noise_id": simple("autocorr_noise_id", nid),
    "numpy_psd": simple("numpy_psd", lambda c, v, b: ([ser(c, v, b), c.pos("rate" + v[1])], {}), "noise"),
    "psd2allan": simple("psd2allan", lambda c, v, b: ([c.arr([c.pos("s%s%d" % (v[0], i)) for i in range(5)])], dict(f={"a": 0.5, "b": 0.25}[v[1]], kind="adev"))),
    "prc_tdev": simple("prc_tdev", lambda c, v, b: ([c.pos("tau" + v[0])], {}), "mask"),
})
CROSS = ("oadev", "mdev", "ohdev", "totdev", "pdev", "tierms", "adev freq")


def cross(ctx, name):
    """earlier calls of other functions with data of the same length, rate and taus"""
    at = ctx.at
    fb, ab, kb = CASES[name](ctx, ("b", "b"), 0)
    for other in CROSS:
        if other != name:
            fa, aa, ka = CASES[other](ctx, ("a", "b"), 0)
            ctx.call(fa(at), *aa, **ka)
    r = ctx.call(fb(at), *ab, **kb)
    fresh = ctx.fresh()
    mk2 = CASES[name](ctx, ("b", "b"), 0)
    compare(ctx, name + " after other functions", ctx.call(mk2[0](fresh), *mk2[1], **mk2[2]), flat(r) if not isinstance(r, Raised) else r)


def mutate(ctx, name):
    """the caller changes the contents of the array (and of the tau list) between two calls: the second call sees the new contents"""
    at = ctx.at
    fb, ab, kb = CASES[name](ctx, ("b", "b"), 0)
    ctx.call(fb(at), *ab, **kb)
    new = ctx.reals("z", len(ab[0]))
    for i in range(len(ab[0])):
        ab[0][i] = new[i]
    if isinstance(kb.get("taus"), list):
        kb["taus"].reverse()
    r = ctx.call(fb(at), *ab, **kb)
    fresh = ctx.fresh()
    f2, a2, k2 = CASES[name](ctx, ("b", "b"), 0)
    a2[0] = list(new) if isinstance(ab[0], list) else ctx.arr(list(new))
    compare(ctx, name + " after its input changed", ctx.call(f2(fresh), *a2, **k2), flat(r) if not isinstance(r, Raised) else r)


VARIANTS = {"other": ("a", "a"), "config": ("b", "a"), "data": ("a", "b")}


def run(ctx, name, variant, big=0):
    mk = CASES[name]
    at = ctx.at
    fb, ab, kb = mk(ctx, ("b", "b"), big)
    snap = [flat(v) for v in list(ab) + list(kb.values())]
    for v in ([variant] if not big else [variant] + [w for w in VARIANTS if w != variant][:1]):
        fa, aa, ka = mk(ctx, VARIANTS[v], big)
        ctx.call(fa(at), *aa, **ka)
    r = ctx.call(fb(at), *ab, **kb)
    first = flat(r) if not isinstance(r, Raised) else r
    now = [flat(v) for v in list(ab) + list(kb.values())]
    for i, (p, q) in enumerate(zip(now, snap)):
        if len(p) != len(q):
            ctx.fail("%s: argument %d changed its size" % (name, i))
        else:
            for j, (a, b) in enumerate(zip(p, q)):
                if a is not b:
                    ctx.eq("%s: argument %d[%d] unchanged" % (name, i, j), a, b)
    r2 = ctx.call(fb(at), *ab, **kb)
    compare(ctx, name + " repeated", r2, first)
    fresh = ctx.fresh()
    mk2 = mk(ctx, ("b", "b"), big)
    r3 = ctx.call(mk2[0](fresh), *mk2[1], **mk2[2])
    compare(ctx, name + " after history", r3, first)


def jobs(tier):
    out = []
    for name in CASES:
        if name in ALL or name.endswith((" freq", " list")) or name in ("gcodev", "gradev", "tau_generator", "mtie_phase_fast", "frequency2phase", "phase2frequency", "numpy_psd"):
            out.append(dict(h="mutate", params=dict(name=name), cost=2))
            if not name.endswith(" list"):
                out.append(dict(h="cross", params=dict(name=name), cost=2))
    for name in CASES:
        for v in VARIANTS:
            if tier == "quick":
                out.append(dict(params=dict(name=name, variant=v), cost=5 if name in ("autocorr_noise_id", "gradev gaps", "mtie") else 1))
            else:
                out.append(dict(params=dict(name=name, variant=v, big=0)))
                if name not in ("autocorr_noise_id", "gradev gaps", "gradev", "gcodev", "gcodev list"):
                    out.append(dict(params=dict(name=name, variant=v, big=1), cost=5))
    return out
