"""C06 PDEV / THEO1."""
from .c01 import run, sizes  # noqa

BOUNDS = {"quick": "N = 3..24 with every m from 1 to N+2 in one call; N = 40, 65 with every third m; N = 101 (theo1), 131 (pdev) with selected m; every real phase vector, every positive rate",
          "thorough": "N = 3..48 with every m; N = 101, 131, 200 with selected m"}
OUTSIDE = "longer series; rounding errors of floating-point arithmetic"


def jobs(tier):
    out = []
    for stat in ("pdev", "theo1"):
        for N, ms, c in sizes(tier, tsmall=48, big=((131,) if stat == "pdev" else (101,)), tbig=(101, 131, 200)):
            if N < 3:
                continue
            if N > 100:
                ms = [1, 2, 4, 10, 20, N // 2, (N - 1) // 2, N // 2 - 1, N - 1, N - 2, N // 3]
            out.append(dict(params=dict(stat=stat, N=N, ms=ms), cost=c))
    return out
