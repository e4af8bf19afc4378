"""C23 ITU masks."""

BOUNDS = {"quick": "all eight masks, every tau > 0 (unbounded), every pair tau1 < tau2, every segment end", "thorough": "the same"}
OUTSIDE = "which side of a segment end carries the end point itself; coefficients finer than 1e-5 of their value (the recommendations print three to six digits); array arguments"
# ITU-T G.811 (04/2016 amd 1), G.8272 (11/2018), G.8272.1 (2016, amd 1 08/2017): (upper end of segment in s, slope in ns/s, offset in ns)
INF = float("inf")
MASKS = {
    "prc_tdev": [(100, 0, 3), (1000, .03, 0), (INF, 0, 30)],
    "prc_mtie": [(1000, .275, 25), (INF, .01, 290)],
    "eprtc_tdev": [(30000, 0, 1), (300000, 1 / 30000., 0), (INF, 0, 10)],
    "eprtc_mtie": [(1, 0, 4), (100, .11114, 3.89), (400000, .0375e-3, 15), (INF, 0, 30)],
    "prtcA_tdev": [(100, 0, 3), (1000, .03, 0), (INF, 0, 30)],
    "prtcB_tdev": [(100, 0, 1), (500, .01, 0), (INF, 0, 5)],
    "prtcA_mtie": [(273, .275, 25), (INF, 0, 100)],
    "prtcB_mtie": [(54.5, .275, 25), (INF, 0, 40)],
}
TOL = 1e-5


def segment(ctx, name, i, as_int=False):
    """tau inside segment i"""
    segs = MASKS[name]
    lo = segs[i - 1][0] if i else 0
    hi, slope, off = segs[i]
    if as_int:
        top = min(hi, 10 ** 7)
        tau = ctx.intv("tau", int(lo) + 1, int(top) - 1)
    else:
        tau = ctx.pos("tau", (lo * 1.01 + .01, hi * .99 if hi < INF else lo * 9))
        ctx.assume(tau > lo * (1 + 1e-9))
        if hi < INF:
            ctx.assume(tau < hi * (1 - 1e-9))
    r = ctx.call(getattr(ctx.at.mask, name), tau)
    if not ctx.ok(name, r):
        return
    v, w = r * 1e9, slope * tau + off
    ctx.true("%s positive" % name, v > 0)
    ctx.true("%s on segment %d" % (name, i), ctx.and_(v <= w * (1 + TOL), v >= w * (1 - TOL)))


def ends(ctx, name, i):
    """the value at a segment end is one of the two neighbouring expressions; the jump is at most 1 %"""
    (e, s0, o0), (_, s1, o1) = MASKS[name][i:i + 2]
    t = ctx.real("t", (-1e-6, 1e-6))
    ctx.assume(ctx.and_(t >= -1e-6, t <= 1e-6))
    r = ctx.call(getattr(ctx.at.mask, name), e + e * t)
    if not ctx.ok(name, r):
        return
    v, a, b = r * 1e9, s0 * e + o0, s1 * e + o1
    ctx.true("%s jump at %g s" % (name, e), abs(a - b) <= 0.01 * max(a, b))
    ctx.true("%s at %g s" % (name, e), ctx.and_(v >= min(a, b) * (1 - TOL), v <= max(a, b) * (1 + TOL)))


def monotone(ctx, name):
    a, b = ctx.pos("a", (.1, 600)), ctx.pos("b", (600, 1e6))
    ctx.assume(a < b)
    r, s = ctx.call(getattr(ctx.at.mask, name), a), ctx.call(getattr(ctx.at.mask, name), b)
    if ctx.ok(name, r) and ctx.ok(name, s):
        ctx.true("%s does not decrease" % name, s * 1e9 >= r * (1e9 * 0.99))


def jobs(tier):
    out = []
    for n, segs in MASKS.items():
        for i in range(len(segs)):
            out.append(dict(h="segment", params=dict(name=n, i=i)))
            if segs[i][0] > 2:
                out.append(dict(h="segment", params=dict(name=n, i=i, as_int=True)))
            if i < len(segs) - 1:
                out.append(dict(h="ends", params=dict(name=n, i=i)))
        out.append(dict(h="monotone", params=dict(name=n)))
    return out
