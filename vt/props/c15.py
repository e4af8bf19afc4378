"""C15 real-time statistics against the definitions, after every added sample."""
from .. import spec

BOUNDS = {"quick": "oadev_realtime, ohdev_realtime, tdev_realtime (tdev and mdev): streams of up to 10 symbolic samples with averaging-factor lists [1], [2], [1,2,3], [3,1], [2,2], [1,2,3,1,2], "
                   "up to 26 samples with [1,4] and [8], checked after every sample, 45 and 70 samples with [1,4,12], [20,3] checked every ninth; phase and frequency input and four ways of alternating them; every real stream and every positive tau0",
          "thorough": "the same up to 16 samples with seven lists, up to 60 samples with [1,4,8], [20]"}
OUTSIDE = "longer streams; non-integer averaging factors"

KIND = {"oadev": ("oadev_realtime", "oadev"), "ohdev": ("ohdev_realtime", "ohdev"), "tdev": ("tdev_realtime", "tdev"), "mdev": ("tdev_realtime", "mdev")}


def compare(ctx, kind, st, xs, afs, tau0, lab):
    got = st.mdev() if kind == "mdev" else st.devs()
    if len(got) != len(afs):
        return ctx.fail("%s: %d deviations for %d averaging factors" % (lab, len(got), len(afs)))
    for i, m in enumerate(afs):
        s, n = spec.SPEC[KIND[kind][1]](xs, 1, m) if len(xs) > m else (None, 0)
        if n < 1:
            ctx.eq("%s af=%d no data yet" % (lab, m), got[i], 0)
        elif kind == "tdev":
            ctx.eq2("%s af=%d" % (lab, m), got[i], s)
        else:
            # deviation * tau0, so that no reciprocal of tau0 is left
            ctx.eq2("%s af=%d" % (lab, m), got[i] * tau0, s)


def stream(ctx, kind, N, afs, mode="phase", every=1):
    tau0 = ctx.pos("tau0")
    x = ctx.reals("x", N)
    st = ctx.call(getattr(ctx.at.realtime, KIND[kind][0]), afs=list(afs), tau0=tau0)
    if not ctx.ok(kind, st):
        return
    xs = []
    ts = ctx.call(st.taus)
    if ctx.ok("taus", ts):
        ctx.eqlist(kind + " taus", ts, [m * tau0 for m in afs])
    for k in range(N):
        if mode == "phase" or (mode == "mixed" and k < N // 2) or (mode == "one" and k < 1) or (mode == "last" and k % 3 == 2):
            r = ctx.call(st.add_phase, x[k])
            xs.append(x[k])
        else:
            r = ctx.call(st.add_frequency, x[k])
            if not xs:
                xs.append(0)
            xs.append(xs[-1] + x[k] * tau0)
        if not ctx.ok("%s sample %d" % (kind, k), r):
            return
        if k % every == 0 or k >= N - 2:
            compare(ctx, kind, st, xs, afs, tau0, "%s after %d samples" % (kind, len(xs)))


def twice(ctx, kind, N):
    """two objects built with default arguments do not share state"""
    x, y = ctx.reals("x", N), ctx.reals("y", N)
    tau0 = ctx.pos("tau0")
    cls = getattr(ctx.at.realtime, KIND[kind][0])
    a, b = cls(), cls(tau0=tau0)
    for k in range(N):
        for st, z in ((a, x), (b, y)):
            if not ctx.ok("add", ctx.call(st.add_phase, z[k])):
                return
    compare(ctx, kind, a, list(x), [1], 1, "first")
    compare(ctx, kind, b, list(y), [1], tau0, "second")


def jobs(tier):
    q = tier == "quick"
    out = []
    lists = [[1], [2], [1, 2, 3], [3, 1], [2, 2], [1, 2, 3, 1, 2]] + ([] if q else [[1, 5], [4, 2, 1]])
    n = 10 if q else 16
    for kind in KIND:
        for afs in lists:
            out.append(dict(h="stream", params=dict(kind=kind, N=n, afs=afs), cost=n * len(afs)))
        for N, afs in [(26, [1, 4]), (26, [8])] + ([] if q else [(60, [1, 4, 8]), (64, [20])]):
            out.append(dict(h="stream", params=dict(kind=kind, N=N, afs=afs), cost=N * 3))
        for N, afs in [(45, [1, 4, 12]), (70, [20, 3])]:
            out.append(dict(h="stream", params=dict(kind=kind, N=N, afs=afs, every=9), cost=N * 3))
        out.append(dict(h="stream", params=dict(kind=kind, N=20, afs=[5, 1, 3], mode="freq", every=3), cost=40))
        for mode in ("one", "last", "freq", "mixed"):
            out.append(dict(h="stream", params=dict(kind=kind, N=5, afs=[1], mode=mode), cost=n))
        for mode in ("freq", "mixed"):
            out.append(dict(h="stream", params=dict(kind=kind, N=n - 2, afs=[1, 2], mode=mode), cost=n * 3))
        out.append(dict(h="twice", params=dict(kind=kind, N=5)))
    return out
