"""C02 MDEV / TDEV."""
from .c01 import run, sizes  # noqa

BOUNDS = {"quick": "N = 2..24 with every m from 1 to N+2 in one call; N = 40, 65 with every third m; N = 131, 300, 700 with selected m; "
                   "every real phase vector and every positive rate",
          "thorough": "N = 2..64 with every m; N = 131, 300, 700, 1100 with selected m"}
OUTSIDE = "longer series; rounding errors of floating-point arithmetic"


def jobs(tier):
    out = []
    for stat in ("mdev", "tdev"):
        out.append(dict(params=dict(stat=stat, N=45, ms=list(range(1, 16))), cost=6))
        for N, ms, c in sizes(tier, big=(131, 300, 700), tbig=(131, 300, 700, 1100)):
            if N >= 300:
                ms = [1, 2, 7, 17, N // 2] + ([99, 100] if N == 300 and stat == "mdev" else [])
            out.append(dict(params=dict(stat=stat, N=N, ms=ms), cost=c))
    return out
