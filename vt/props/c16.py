"""C16 automatic averaging factors."""
from .. import spec
from .c15 import KIND, compare

BOUNDS = {"quick": "three real-time classes, 1, 3, 4, 6, 10 points per decade, given or default initial list: streams of 9 samples checked after every sample, "
                   "42 samples checked every 6th sample (12 averaging factors), 90 samples checked every 45th; phase, frequency and alternating input; for every real stream and tau0",
          "thorough": "the same with 1..12 points per decade, 24 samples checked after every sample, 90 checked every 9th"}
OUTSIDE = "longer streams; changing afs, auto_afs or x of the object from outside"


def factors(ctx, n, ppd):
    import math
    out = []
    k = 0
    while True:
        m = int(round(10.0 ** (k / float(ppd))))
        k += 1
        if m > 1 and 2 * m + 1 > n:
            return out or [1]
        if not out or m > out[-1]:
            out.append(m)


def stream(ctx, kind, N, ppd, every=1, afs=None, mode="phase"):
    tau0 = ctx.pos("tau0")
    x = ctx.reals("x", N)
    kw = dict(tau0=tau0, auto_afs=True, pts_per_decade=ppd)
    if afs:
        kw["afs"] = afs
    st = ctx.call(getattr(ctx.at.realtime, KIND[kind][0]), **kw)
    if not ctx.ok(kind, st):
        return
    xs = []
    for k in range(N + 1):
        want = factors(ctx, len(xs), ppd)
        lab = "%s after %d samples" % (kind, k)
        ts = ctx.call(st.taus)
        if not ctx.ok(lab + " taus", ts):
            return
        ctx.eqlist(lab + " averaging factors", [ctx.num(m) for m in st.afs], want)
        ctx.eqlist(lab + " taus", ts, [m * tau0 for m in want])
        if len(st.devs()) != len(want):
            return ctx.fail("%s: %d deviations, %d averaging factors" % (lab, len(st.devs()), len(want)))
        if k % every == 0 or k == N:
            compare(ctx, kind, st, xs, want, tau0, lab)
        if k == N:
            return
        if mode == "phase" or mode == "mixed" and k % 4 < 2:
            r = ctx.call(st.add_phase, x[k])
            xs.append(x[k])
        else:
            r = ctx.call(st.add_frequency, x[k])
            if not xs:
                xs.append(0)
            xs.append(xs[-1] + x[k] * tau0)
        if not ctx.ok(lab, r):
            return


def jobs(tier):
    q = tier == "quick"
    out = []
    for kind in KIND:
        for ppd in ((1, 3, 4, 6, 10) if q else range(1, 13)):
            out.append(dict(h="stream", params=dict(kind=kind, N=9 if q else 24, ppd=ppd), cost=20))
            out.append(dict(h="stream", params=dict(kind=kind, N=42 if q else 90, ppd=ppd, every=6 if q else 9), cost=80))
        out.append(dict(h="stream", params=dict(kind=kind, N=9, ppd=4, afs=[1, 2, 3]), cost=20))
        for ppd in (3, 4) if q else (2, 3, 4, 5):
            out.append(dict(h="stream", params=dict(kind=kind, N=90 if q else 130, ppd=ppd, every=45), cost=300))
            out.append(dict(h="stream", params=dict(kind=kind, N=13, ppd=ppd, mode="freq"), cost=30))
            out.append(dict(h="stream", params=dict(kind=kind, N=11, ppd=ppd, mode="mixed"), cost=30))
    return out
