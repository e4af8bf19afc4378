"""C12 result tables."""
from ..ctx import Raised
from .c10 import ALL, SLOW

BOUNDS = {"quick": "14 statistics, gcodev, gradev: N = 5 and 7 with two symbolic tau requests of any real value (any size and sign), N = 12 with fixed disordered/duplicated/out-of-range lists and the keywords, N = 33 (slow statistics), 70 and 200 (the others) with further lists and keywords; every real phase vector and rate; remove_small_ns: 1..4 rows with symbolic n and deviations",
          "thorough": "N = 4..9 with two symbolic tau requests, N = 5 with three, N = 12, 25 fixed lists"}
OUTSIDE = "longer series and more simultaneous symbolic requests; floating-point rounding of tau*rate (see C13)"


def call(ctx, stat, x, rate, taus):
    a = (x, x * 2 + 1) if stat == "gcodev" else (x,)
    return ctx.call(getattr(ctx.at, stat), *a, rate=rate, data_type="phase", taus=taus)


def check(ctx, stat, r, x, rate, ms):
    """r must consist of the rows that the single requests m give, m in ms, in increasing order"""
    rows = []
    for m in sorted(set(ms)):
        s = call(ctx, stat, x, rate, [m / rate])
        if isinstance(s, Raised):
            continue
        if any(len(s[j]) != 1 for j in (0, 1, 3)):
            return ctx.fail("%s: one request (m=%d) gives %d rows" % (stat, m, len(s[0])))
        rows.append((m, s))
    if not rows:
        return ctx.raises(stat + ": nothing to report", r)
    if not ctx.ok(stat, r):
        return
    errs = r[2] if isinstance(r[2], list) and len(r[2]) == 2 and stat == "gradev" else [r[2]]
    for nm, a in [("taus", r[0]), ("devs", r[1]), ("ns", r[3])] + [("errs", e) for e in errs]:
        if len(a) != len(rows):
            return ctx.fail("%s: %d %s, %d rows expected (m=%s)" % (stat, len(a), nm, len(rows), [m for m, _ in rows]))
    for k, (m, s) in enumerate(rows):
        lab = "%s m=%d" % (stat, m)
        ctx.eq(lab + " tau", r[0][k] * rate, m)
        ctx.eq(lab + " n", r[3][k], s[3][0])
        ctx.le(lab + " n >= 2", 2, r[3][k])
        ctx.eq(lab + " dev^2", r[1][k] * r[1][k], s[1][0] * s[1][0])
        if len(errs) == 1:
            ctx.eq(lab + " err^2", errs[0][k] * errs[0][k], s[2][0] * s[2][0])


def sym(ctx, stat, N, T):
    x = ctx.reals("x", N)
    rate = ctx.pos("rate")
    us = [ctx.real("u%d" % i) for i in range(T)]
    ms = []
    for u in us:
        k = ctx.rint(u)
        ctx.assume(ctx.and_(u - k < 0.5, k - u < 0.5))        # ties may go either way
        if bool(k >= 1) and bool(k <= N):
            ms.append(ctx.concrete(k))
    r = call(ctx, stat, x, rate, [u / rate for u in us])
    check(ctx, stat, r, x, rate, [m for m in ms if m < N])


def fixed(ctx, stat, N, ms):
    x = ctx.reals("x", N)
    rate = ctx.pos("rate")
    if isinstance(ms, str):
        r = call(ctx, stat, x, rate, ms)
        allm = {"all": range(1, N), "octave": [1 << k for k in range(12)], "decade": [1, 2, 4, 10, 20, 40, 100, 200]}[ms]
        return check(ctx, stat, r, x, rate, [m for m in allm if m < N])
    r = call(ctx, stat, x, rate, [m / rate for m in ms])
    check(ctx, stat, r, x, rate, [int(m) for m in ms if 1 <= m < N])


def small(ctx, T, lists):
    """remove_small_ns itself"""
    dev, tau = ctx.reals("d", T), ctx.reals("t", T)
    err = [ctx.reals("e", T), ctx.reals("f", T)] if lists else ctx.reals("e", T)
    ns = ctx.arr([ctx.intv("n%d" % i, 0, 50) for i in range(T)])
    keep = [i for i in range(T) if bool(ns[i] >= 2)]
    f = getattr(ctx.at.allantools, "remove_small_ns", None)
    if f is None:          # an internal helper: nothing to check when it is gone
        return ctx.checked()
    r = ctx.call(f, tau, dev, err, ns)
    if not keep:
        return ctx.raises("remove_small_ns: nothing remains", r)
    if not ctx.ok("remove_small_ns", r):
        return
    want = [tau, dev] + (err if lists else [err]) + [ns]
    got = [r[0], r[1]] + (list(r[2]) if lists else [r[2]]) + [r[3]]
    if len(got) != len(want):
        return ctx.fail("remove_small_ns: shape of the errors")
    for j, (a, b) in enumerate(zip(got, want)):
        ctx.eqlist("remove_small_ns column %d" % j, a, [b[i] for i in keep])


def jobs(tier):
    q = tier == "quick"
    out = []
    for st in ALL + ["gradev", "gcodev"]:
        slow = st in SLOW or st in ("gradev", "gcodev")
        for N in ((5, 7) if q else range(4, 10)):
            if st in ("gradev", "gcodev") and N > 7:
                continue
            if st == "htotdev" and N == 5:
                N = 8
            out.append(dict(h="sym", params=dict(stat=st, N=N, T=2 if st not in ("gradev", "gcodev") else 1), cost=N * 5 if slow else N))
        if not q and not slow:
            out.append(dict(h="sym", params=dict(stat=st, N=5, T=3), cost=60))
        if st in ("gradev", "gcodev"):
            out.append(dict(h="fixed", params=dict(stat=st, N=6, ms=[2, 1, 1, 9]), cost=10))
            continue
        for N in (12,) if q else (12, 25):
            for ms in ([7, 2, 2, N + 1, 0, 1, N - 1, 3, 1], [4, 3, 2, 1], [1, 2, 3, 4], [-3, 2, N, 2], "all", "octave", "decade"):
                out.append(dict(h="fixed", params=dict(stat=st, N=N, ms=ms), cost=N))
    for st in ALL:
        if st in SLOW:
            if st != "mtie":
                out.append(dict(h="fixed", params=dict(stat=st, N=33, ms=[11, 2, 40, 5, 5, 1]), cost=80))
            continue
        for N, ms in [(70, "all"), (70, "octave"), (70, [32, 70, 8, 8, 69, 16, 1]), (200, "decade")]:
            out.append(dict(h="fixed", params=dict(stat=st, N=N, ms=ms), cost=N))
    for T in (1, 2, 3, 4):
        for lists in (False, True):
            out.append(dict(h="small", params=dict(T=T, lists=lists), cost=T))
    return out
