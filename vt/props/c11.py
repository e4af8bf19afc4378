"""C11 invariances, scaling, units: relations between two runs of the real code."""
from ..ctx import Raised
from .c10 import ALL, SLOW

FREQ_BLIND = [s for s in ALL if s not in ("mtie", "tierms")]
PHASE_UNITS = ("tdev", "ttotdev", "mtie", "tierms")
BOUNDS = {"quick": "14 statistics and gcodev: N = 5, 8, 11 with every m, N = 41 selected m; gradev N = 6; every real phase vector, offset, slope, drift, "
                   "scale factor and rate",
          "thorough": "as quick with N = 3..16 every m, N = 41, 131 selected m"}
OUTSIDE = "longer series; rounding errors"


def relate(ctx, lab, r, q, dev2=1, tau=1):
    """r must be q with taus multiplied by tau and squared deviations by dev2"""
    if isinstance(q, Raised):
        return ctx.raises(lab + ": nothing to report", r)
    if not (ctx.ok(lab, r) and ctx.ok(lab, q)):
        return
    for nm, a, b in zip(("taus", "devs", "errs", "ns"), r, q):
        if nm == "errs" and isinstance(a, list) and len(a) == 2:
            continue
        if len(a) != len(b):
            return ctx.fail("%s: %d %s instead of %d" % (lab, len(a), nm, len(b)))
        for i in range(len(a)):
            if nm in ("devs", "errs"):
                ctx.eq("%s %s[%d] squared" % (lab, nm, i), a[i] * a[i], b[i] * b[i] * dev2)
                ctx.le("%s %s[%d] sign" % (lab, nm, i), 0, a[i])
            else:
                ctx.eq("%s %s[%d]" % (lab, nm, i), a[i], b[i] * tau if nm == "taus" else b[i])


def run(ctx, stat, kind, N, ms):
    x = ctx.reals("x", N)
    rate = ctx.pos("rate")
    if stat == "gcodev":
        w = ctx.reals("w", N)
    at = ctx.at

    def call(f, x, rate):
        taus = [m / rate for m in ms]
        a = (x, f(w)) if stat == "gcodev" else (x,)
        return ctx.call(getattr(at, stat), *a, rate=rate, data_type="phase", taus=taus)
    ident = lambda v: v
    q = call(ident, x, rate)
    idx = ctx.np.arange(N)
    if kind == "offset":
        c = ctx.real("c")
        g = lambda v: v + c
        relate(ctx, stat + " x+c", call(g, g(x), rate), q)
    elif kind == "slope":
        b, c = ctx.real("b"), ctx.real("c")
        g = lambda v: v + b * idx + c
        relate(ctx, stat + " x+b*i", call(g, g(x), rate), q)
    elif kind == "drift":
        d, b = ctx.real("d"), ctx.real("b")
        g = lambda v: v + d * (idx * idx) + b * idx
        relate(ctx, stat + " x+d*i^2", call(g, g(x), rate), q)
    elif kind == "scale":
        k = ctx.pos("k")
        g = lambda v: v * k
        relate(ctx, stat + " k*x", call(g, g(x), rate), q, dev2=k * k)
    elif kind == "minus":
        g = lambda v: v * -1
        relate(ctx, stat + " -x", call(g, g(x), rate), q)
    elif kind == "zero":
        g = lambda v: v * 0
        r = call(g, g(x), rate)
        if isinstance(q, Raised):
            return ctx.raises(stat + " 0*x", r)
        if ctx.ok(stat + " 0*x", r):
            ctx.eqlist(stat + " 0*x devs", r[1], [0] * len(q[1]))
    elif kind == "rate":
        k = ctx.pos("k")
        r = call(ident, x, rate * k)
        relate(ctx, stat + " k*rate", r, q, dev2=1 if stat in PHASE_UNITS else k * k, tau=1 / k)


def jobs(tier):
    q = tier == "quick"
    out = []
    for st in ALL + ["gcodev", "gradev"]:
        kinds = ["offset", "slope", "scale", "minus", "zero", "rate"]
        if st in ("mtie", "tierms"):
            kinds.remove("slope")
        if st in ("hdev", "ohdev"):
            kinds.append("drift")
        for k in kinds:
            if st == "gcodev":
                for N in (5, 8) if q else range(3, 12):
                    for m in (1, 2, 3):
                        out.append(dict(params=dict(stat=st, kind=k, N=N, ms=[m]), cost=N))
                continue
            if st == "gradev":
                for N in (6,) if q else (4, 6, 8):
                    out.append(dict(params=dict(stat=st, kind=k, N=N, ms=[1, 2, 3]), cost=N))
                continue
            for N in (5, 8, 11) if q else range(3, 17):
                if st == "mtie" and N > 12:
                    continue
                out.append(dict(params=dict(stat=st, kind=k, N=N, ms=list(range(1, N + 2))), cost=N * (5 if st in SLOW else 1)))
            if st != "mtie":
                for N in (41,) if q else (41, 131):
                    if N > 41 and st in ("mtotdev", "ttotdev", "htotdev"):
                        continue
                    out.append(dict(params=dict(stat=st, kind=k, N=N, ms=[1, 4, N // 3] if st in SLOW and N < 100 else [2, 7, N // 3] if st not in SLOW else [2]), cost=100))
    return out
