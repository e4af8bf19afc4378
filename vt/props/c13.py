"""C13 tau requests -> averaging factors."""
from ..ctx import Raised

BOUNDS = {"quick": "explicit lists: one and two symbolic taus (any real, ties included for one), N = 1..8, symbolic or given limit, even or not; fixed lists of up to 12 taus at N = 60; "
                   "keywords: N = 1..70 and 127..129, 199..202, 999..1001, 1025; the same keyword requests (N up to 300) and m/rate, m*(1/rate) lists up to m = 40000 with every multiplication and division "
                   "perturbed by any relative error up to 2^-53 (floating-point model), all positive rates; tau_reduction: lists up to 40 long for every n per decade 1..25, 300 long for 10 and 50",
          "thorough": "as quick with N = 1..12 for symbolic taus, three symbolic taus at N = 5, keywords N = 1..300, FP model N up to 2000, tau_reduction lists up to 1000"}
OUTSIDE = "overflow, underflow and single-precision rates; negative rates; non-list non-array tau containers"
ASSUME = ["floating-point model jobs: every product, quotient, sum of the lifted code is exact times (1+d), |d| <= 2^-53 (normal range)"]


def expect(ctx, lab, r, rate, ms, n, x):
    if not ctx.ok(lab, r):
        return
    if len(r) != 3:
        return ctx.fail(lab + ": result shape")
    data, m, taus = r
    if len(m) != len(ms) or len(taus) != len(ms):
        return ctx.fail("%s: %d factors and %d taus, %d expected %s" % (lab, len(m), len(taus), len(ms), ms[:20]))
    for i, k in enumerate(ms):
        ctx.eq("%s m[%d]" % (lab, i), m[i], k)
        if not ctx_fp(ctx):
            ctx.eq("%s tau[%d]" % (lab, i), taus[i] * rate, k)
    if len(data) != n:
        return ctx.fail(lab + ": data length changed")
    ctx.checked()
    if x:
        ctx.eqlist(lab + " data", data, x)


def ctx_fp(ctx):
    return getattr(ctx, "fp_on", False)


def sym(ctx, N, T, even=False, limit=False, arr=False):
    x = ctx.reals("x", N)
    rate = ctx.pos("rate")
    us = [ctx.real("u%d" % i) for i in range(T)]
    kw = {}
    if even:
        kw["even"] = True
    top = N - 1
    if limit == "sym":
        lim = ctx.pos("limit")
        kw["maximum_m"] = lim
    elif limit:
        kw["maximum_m"] = limit
    ms = set()
    for u in us:
        k = ctx.rint(u)
        ctx.assume(ctx.and_(u - k < 0.5, k - u < 0.5))       # ties: see tie()
        if bool(k >= 1) and bool(k <= top):
            m = ctx.concrete(k)
            if even and m % 2:
                continue
            if limit == "sym":
                if not bool(lim >= m):
                    continue
            elif limit and m > limit:
                continue
            ms.add(m)
    taus = [u / rate for u in us]
    r = ctx.call(ctx.at.tau_generator, x, rate, taus=ctx.arr(taus) if arr else taus, **kw)
    expect(ctx, "tau_generator", r, rate, sorted(ms), N, list(x))


def tie(ctx, N):
    """one request of any real value: the result is nearest (either neighbour at a tie), or dropped when neither is in range"""
    x = ctx.reals("x", N)
    rate = ctx.pos("rate")
    u = ctx.real("u")
    r = ctx.call(ctx.at.tau_generator, x, rate, taus=[u / rate])
    if not ctx.ok("tau_generator", r):
        return
    m = r[1]
    if len(m) > 1:
        return ctx.fail("more factors than requests")
    if len(m) == 1:
        ctx.true("nearest from below", m[0] - u <= 0.5)
        ctx.true("nearest from above", u - m[0] <= 0.5)
        ctx.true("at least one sample", m[0] >= 1)
        ctx.true("below the data length", m[0] <= N - 1)
        ctx.eq("tau", r[2][0] * rate, m[0])
    else:
        ctx.true("dropped only when out of range", ctx.or_(u <= 0.5, u >= N - 0.5))


def fixed(ctx, N, us, arr=False, even=False, fp=False, recip=False):
    x = ctx.np.zeros(N)
    rate = ctx.pos("rate")
    ctx.fp(fp)
    ctx.fp_on = fp
    taus = [u * (1.0 / rate) for u in us] if recip else [u / rate for u in us]
    r = ctx.call(ctx.at.tau_generator, x, rate, taus=ctx.arr(taus) if arr else taus, **(dict(even=True) if even else {}))
    ctx.fp(False)
    ms = sorted({int(u) for u in us if 1 <= u < N and (not even or u % 2 == 0)})
    expect(ctx, "tau_generator", r, rate, ms, N, [])


def kw(ctx, N, key, even=False, v=False, fp=False, limit=None):
    x = ctx.np.zeros(N)
    rate = ctx.pos("rate")
    k = {}
    if even:
        k["even"] = True
    if v:
        k["v"] = True
    if limit:
        k["maximum_m"] = limit
    if key == "":
        k["taus"] = []
    elif key != "default":
        k["taus"] = key
    ctx.fp(fp)
    ctx.fp_on = fp
    r = ctx.call(ctx.at.tau_generator, x, rate, **k)
    ctx.fp(False)
    if key == "log10":
        import math
        if not ctx.ok("log10", r):
            return
        m = [int(ctx.concrete(q)) for q in r[1]]
        K = int(10 * math.log10(N)) if N > 1 else 0
        want = sorted({int(round(N ** (i / (K - 1)))) for i in range(K)} if K > 1 else ({1} if K else set()))
        want = [q for q in want if q < N and (not even or q % 2 == 0) and (not limit or q <= limit)]
        return expect(ctx, "log10", r, rate, want, N, [])
    ms = {"all": list(range(1, N)), "octave": [1 << i for i in range(14)],
          "decade": [c * 10 ** e for e in range(5) for c in (1, 2, 4)]}[key if key not in ("", "default") else "octave"]
    ms = sorted(m for m in ms if m < N and (not even or m % 2 == 0) and (not limit or m <= limit))
    expect(ctx, key or "[]", r, rate, ms, N, [])


def zero(ctx, key):
    x = ctx.reals("x", 6)
    for z in (0, 0.0):
        r = ctx.call(ctx.at.tau_generator, x, z, taus=[1.0, 2.0] if key == "list" else key)
        ctx.raises("zero rate accepted", r)


def reduce_(ctx, M, n, start=1):
    import math
    rate = ctx.pos("rate")
    r = ctx.call(ctx.at.tau_reduction, ctx.np.array([float(i) for i in range(start, M + 1)]), rate, n)
    if not ctx.ok("tau_reduction", r):
        return
    ms, taus = r
    if len(ms) != len(taus):
        return ctx.fail("tau_reduction: lengths")
    k = [int(ctx.concrete(q)) for q in ms]
    if any(b <= a for a, b in zip(k, k[1:])):
        return ctx.fail("tau_reduction: not strictly increasing %s" % k[:20])
    if any(q < start or q > M for q in k):
        return ctx.fail("tau_reduction: not a subset")
    cls = [round(n * math.log10(q)) for q in k]
    if len(set(cls)) != len(cls):
        return ctx.fail("tau_reduction: two points in one class %s" % k[:20])
    # nothing is lost: every class below the last one has its representative
    allc = {round(n * math.log10(q)) for q in range(start, M + 1)}
    if M > start and not (allc - {max(allc)} <= set(cls)):
        return ctx.fail("tau_reduction: a class is missing %s" % k[:20])
    for i, q in enumerate(k):
        ctx.eq("tau[%d]" % i, taus[i] * rate, q)
    ctx.checked()


def jobs(tier):
    q = tier == "quick"
    out = []
    for N in range(1, 9 if q else 13):
        out.append(dict(h="tie", params=dict(N=N), cost=N))
        out.append(dict(h="sym", params=dict(N=N, T=1, even=True), cost=N))
        out.append(dict(h="sym", params=dict(N=N, T=1, limit="sym"), cost=N * 2))
        out.append(dict(h="sym", params=dict(N=N, T=1, limit=N / 3.0), cost=N))
        out.append(dict(h="sym", params=dict(N=N, T=2, arr=bool(N % 2)), cost=N * 5))
    out.append(dict(h="sym", params=dict(N=6, T=2, even=True, limit=3), cost=20))
    out.append(dict(h="sym", params=dict(N=4 if q else 5, T=3), cost=50))
    for us in ([3, 1, 2, 59, 60, 61, 0, 7, 7, 3], [59.4, 0.6, 12.2, 0.4, 59.6, 3.3, 2.8], [60], [1], [1000, 0.1]):
        ints = all(float(u).is_integer() for u in us)
        for arr in (False, True):
            if ints:
                for recip in (False, True):
                    out.append(dict(h="fixed", params=dict(N=60, us=us, arr=arr, recip=recip)))
            else:
                out.append(dict(h="rounded", params=dict(N=60, us=us, arr=arr)))
        if ints:
            out.append(dict(h="fixed", params=dict(N=60, us=us, even=True)))
    for us in ([1, 2, 3, 5], [7, 10, 33, 100, 255], [1000, 4096, 39999], [40001, 40000, 39998]):
        for recip in (False, True):
            out.append(dict(h="fixed", params=dict(N=40001, us=us, fp=True, recip=recip), cost=10))
    sizes = list(range(1, 71)) + [127, 128, 129, 199, 200, 201, 202, 999, 1000, 1001, 1025] if q else list(range(1, 301)) + [999, 1000, 1001, 1023, 1024, 1025, 4096]
    for N in sizes:
        for key in ("all", "octave", "decade", "log10", "default", ""):
            out.append(dict(h="kw", params=dict(N=N, key=key)))
    for N in (5, 30, 101):
        for key in ("all", "octave", "decade", "log10", "default"):
            out.append(dict(h="kw", params=dict(N=N, key=key, v=True)))
            out.append(dict(h="kw", params=dict(N=N, key=key, even=True)))
            out.append(dict(h="kw", params=dict(N=N, key=key, limit=N / 3.0)))
    for N in (2, 5, 11, 20, 41, 130, 300) if q else (2, 5, 11, 20, 41, 64, 101, 130, 300, 1025, 2000):
        for key in ("all", "octave", "decade"):
            out.append(dict(h="kw", params=dict(N=N, key=key, fp=True), cost=N))
    for key in ("all", "octave", "decade", "log10", "list", None):
        out.append(dict(h="zero", params=dict(key=key)))
    for n in range(1, 26):
        for M in (2, 3, 12, 40):
            out.append(dict(h="reduce_", params=dict(M=M, n=n)))
    for n in (10, 50):
        out.append(dict(h="reduce_", params=dict(M=300 if q else 1000, n=n), cost=5))
    return out


def rounded(ctx, N, us, arr):
    x = ctx.np.zeros(N)
    rate = ctx.pos("rate")
    taus = [u / rate for u in us]
    r = ctx.call(ctx.at.tau_generator, x, rate, taus=ctx.arr(taus) if arr else taus)
    expect(ctx, "tau_generator", r, rate, sorted({int(round(u)) for u in us if 1 <= round(u) < N}), N, [])
