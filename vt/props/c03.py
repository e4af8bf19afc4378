"""C03 HDEV / OHDEV."""
from .c01 import run, sizes  # noqa

BOUNDS = {"quick": "N = 2..24 with every m from 1 to N+2 in one call; N = 40, 65 with every third m; N = 131, 300, 1025, 2100 with selected m; "
                   "every real phase vector and every positive rate",
          "thorough": "N = 2..64 with every m; N = 131, 300, 1025, 2100, 5000 with selected m"}
OUTSIDE = "longer series; rounding errors of floating-point arithmetic"


def jobs(tier):
    return [dict(params=dict(stat=stat, N=N, ms=ms), cost=c) for stat in ("hdev", "ohdev") for N, ms, c in sizes(tier)]
