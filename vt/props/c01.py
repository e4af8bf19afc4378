"""C01 ADEV / OADEV."""
from .. import spec

STATS = ("adev", "oadev")
BOUNDS = {"quick": "N = 2..24 with every m from 1 to N+2 in one call; N = 40, 65 with every third m; N = 131, 300, 1025 with 5-8 "
                   "selected m; every real phase vector and every positive rate",
          "thorough": "N = 2..64 with every m; N = 131, 300, 1025, 2050 with selected m; every real phase vector and every positive rate"}
OUTSIDE = "longer series; rounding errors of floating-point arithmetic"


def run(ctx, stat, N, ms):
    x = ctx.reals("x", N)
    rate = ctx.pos("rate")
    f = getattr(ctx.at, stat)
    r = ctx.call(f, x, rate=rate, data_type="phase", taus=[m / rate for m in ms])
    spec.check_rows(ctx, stat, r, list(x), rate, ms)


def sizes(tier, small=24, tsmall=64, mid=(40, 65), big=(131, 300, 1025, 2100), tbig=(131, 300, 1025, 2100, 5000)):
    out = []
    if tier == "quick":
        for N in range(2, small + 1):
            out.append((N, list(range(1, N + 3)), 1))
        for N in mid:
            out.append((N, list(range(1, N + 3, 3)), 3))
        for N in big:
            out.append((N, [1, 2, 7, N // 5, (N - 1) // 3, (N - 1) // 2, N // 2, N], 12 if N > 500 else 5))
    else:
        for N in range(2, tsmall + 1):
            out.append((N, list(range(1, N + 3)), 1))
        for N in tbig:
            out.append((N, [1, 2, 3, 7, N // 7, N // 5, N // 4, (N - 1) // 3, (N - 1) // 2, N // 2, N], 30))
    return out


def jobs(tier):
    return [dict(params=dict(stat=stat, N=N, ms=ms), cost=c) for stat in STATS for N, ms, c in sizes(tier)]
