"""C04 TOTDEV."""
from .c01 import run, sizes  # noqa

BOUNDS = {"quick": "N = 3..24 with every m from 1 to N+2 in one call; N = 40, 65 with every third m; N = 131, 300, 1025 with selected m; "
                   "every real phase vector and every positive rate",
          "thorough": "N = 3..64 with every m; N = 131, 300, 1025, 2100 with selected m"}
OUTSIDE = "longer series; rounding errors of floating-point arithmetic; N < 3"


def jobs(tier):
    return [dict(params=dict(stat="totdev", N=N, ms=ms + ([N - 1, N - 2] if N > 100 else [])), cost=c)
            for N, ms, c in sizes(tier, big=(131, 300, 1025), tbig=(131, 300, 1025, 2100)) if N > 2]
