"""C07 MTIE / TIE-rms / MTIE fast."""
from .c01 import run as table, sizes  # noqa
from .. import spec

BOUNDS = {"quick": "tierms: N = 2..24 every m, 40, 65, 131, 300, 1025 selected m; mtie: N = 2..12 every m, N = 16, 24, 33 selected m; "
                   "mtie_phase_fast: every length 2..17, 32, 33 and 64",
          "thorough": "tierms: N = 2..64 every m, up to 2100 selected m; mtie: N = 2..24 every m, N = 33, 48, 64 selected m; "
                      "mtie_phase_fast: every length 2..40, 64, 65, 128"}
OUTSIDE = "longer series; the tau and n columns of mtie_phase_fast (unit sample interval, documented as unfinished)"


def mtie(ctx, N, ms):
    x = ctx.reals("x", N)
    rate = ctx.pos("rate")
    r = ctx.call(ctx.at.mtie, x, rate=rate, data_type="phase", taus=[m / rate for m in ms])
    rows = [m for m in sorted(set(ms)) if m < N and N - m >= 2]
    if not rows:
        return ctx.raises("mtie: nothing to report", r)
    if not ctx.ok("mtie", r):
        return
    taus, devs, errs, ns = r
    for nm, a in (("taus", taus), ("devs", devs), ("errs", errs), ("ns", ns)):
        if len(a) != len(rows):
            return ctx.fail("mtie: %d %s, expected %d rows" % (len(a), nm, len(rows)))
    xs = list(x)
    for k, m in enumerate(rows):
        v, n = spec.mtie(ctx, xs, m)
        ctx.eq("mtie m=%d tau" % m, taus[k] * rate, m)
        ctx.eq("mtie m=%d n" % m, ns[k], n)
        ctx.eq("mtie m=%d dev" % m, devs[k], v)
        ctx.eq2("mtie m=%d err" % m, errs[k], v * v / n)


def fast(ctx, N):
    x = ctx.reals("x", N)
    K = N.bit_length() - 1
    r = ctx.call(ctx.at.mtie_phase_fast, x, rate=1.0, data_type="phase", taus=None)
    L = 1 << K
    # windows of 2**k samples: L-2**k+1 of them; the last k has a single window and is filtered out
    ks = [k for k in range(1, K + 1) if L - (1 << k) + 1 >= 2]
    if not ks:
        return ctx.raises("mtie_phase_fast: nothing to report", r)
    if not ctx.ok("mtie_phase_fast", r):
        return
    devs = r[1]
    if len(devs) not in (len(ks), K):
        return ctx.fail("mtie_phase_fast: %d deviations for %d samples" % (len(devs), N))
    xs = list(x)[:L]
    for i, k in enumerate(ks):
        w = 1 << k
        v = ctx.max([ctx.max(xs[j:j + w]) - ctx.min(xs[j:j + w]) for j in range(L - w + 1)])
        ctx.eq("mtie_phase_fast k=%d" % k, devs[i], v)


def jobs(tier):
    q = tier == "quick"
    out = []
    for N, ms, c in sizes(tier, big=(131, 300, 1025), tbig=(131, 300, 1025, 2100)):
        out.append(dict(h="table", params=dict(stat="tierms", N=N, ms=ms), cost=c))
    for N in range(2, 13 if q else 25):
        out.append(dict(h="mtie", params=dict(N=N, ms=list(range(1, N + 3))), cost=N))
    for N, ms in [(16, [1, 2, 3, 8, 14, 15]), (24, [1, 2, 5, 22]), (33, [1, 2, 31])] + ([] if q else [(48, [1, 3, 7, 46]), (64, [1, 2, 62])]):
        out.append(dict(h="mtie", params=dict(N=N, ms=ms), cost=N))
    for N in list(range(2, 18 if q else 41)) + ([32, 33, 64] if q else [64, 65, 128]):
        out.append(dict(h="fast", params=dict(N=N), cost=N))
    return out
