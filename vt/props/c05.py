"""C05 MTOTDEV / TTOTDEV / HTOTDEV."""
from .c01 import run  # noqa
from .. import spec

BOUNDS = {"quick": "N = 4..16 with every m from 1 to N+2 in one call; N = 21, 26, 31, 40, 52, 101 with selected m; every real series, every positive rate; phase input (frequency input: see C10)",
          "thorough": "N = 4..30 with every m; N = 64, 160 with selected m"}
OUTSIDE = "longer series; rounding errors of floating-point arithmetic"


def freq(ctx, N, ms):
    """htotdev on fractional frequency given directly"""
    y = ctx.reals("y", N)
    rate = ctx.pos("rate")
    r = ctx.call(ctx.at.htotdev, y, rate=rate, data_type="freq", taus=[m / rate for m in ms])
    x = [0]
    for v in y:
        x.append(x[-1] + v / rate)
    spec.check_rows(ctx, "htotdev", r, x, rate, ms, "htotdev(freq)")


def jobs(tier):
    out = []
    quick = tier == "quick"
    for stat in ("mtotdev", "ttotdev", "htotdev"):
        for N in range(4, 17 if quick else 31):
            out.append(dict(params=dict(stat=stat, N=N, ms=list(range(1, N + 3))), cost=N))
        for N, ms in [(21, [1, 2, 3, 6, 7, 8]), (26, [1, 4, 5, 8, 9]), (31, [1, 2, 9, 10, 11]), (40, [1, 2, 5, 12, 13, 14]), (52, [3, 8, 16, 17, 18]),
                      (101, [33])] + ([] if quick else [(64, [1, 2, 10, 20, 21, 22]), (160, [50, 51])]):
            out.append(dict(params=dict(stat=stat, N=N, ms=ms), cost=N * 3))
    for N in ((5, 8, 13, 18) if quick else range(4, 22)):
        out.append(dict(h="freq", params=dict(N=N, ms=list(range(1, N + 3))), cost=N))
    return out
