"""C19 simple and total-variance degrees of freedom (NIST SP1065 Tables 5, 7, 8)."""
from ..ctx import Raised

BOUNDS = {"quick": "every real (in particular every whole) number of phase points N and averaging factor m with 1 <= m, 2m+1 < N: all five noise types and unknown types; m=1 separately; m = 2..5 with every N; Tables 7 and 8 for every N, m",
          "thorough": "the same, m = 2..60 with every N"}
OUTSIDE = "averaging factors with 2m+1 >= N, where the expressions of the tables leave their range; flicker FM with 1 < m < 2"


def t5(ctx, N, m, a, one):
    if a == 2:
        return (N + 1) * (N - 2 * m) / (2 * (N - m))
    if a == 1:
        return ctx.exp(ctx.sqrt(ctx.log((N - 1) / (2 * m)) * ctx.log((2 * m + 1) * (N - 1) / 4)))
    if a == 0:
        return (3 * (N - 1) / (2 * m) - 2 * (N - 2) / N) * (4 * m * m) / (4 * m * m + 5)
    if a == -1:
        return 2 * (N - 2) * (N - 2) / (2.3 * N - 4.9) if one else 5 * N * N / (4 * m * (N + 3 * m))
    if a == -2:
        return (N - 2) / (m * (N - 3) * (N - 3)) * ((N - 1) * (N - 1) - 3 * m * (N - 1) + 4 * m * m)
    return N - 1


T7 = {0: (1.5, 0.0), -1: (1.17, 0.22), -2: (0.93, 0.36)}
T8 = {2: (1.9, 2.1), 1: (1.2, 1.4), 0: (1.1, 1.2), -1: (0.85, 0.5), -2: (0.75, 0.31)}


def edf(ctx, fn, alpha, m=None, concrete=False):
    N = ctx.pos("N", (20, 400))
    if m is None:
        m = ctx.pos("m", (2, 9))
        ctx.assume(ctx.and_(m >= 2, N > 2 * m + 1.5))
    else:
        ctx.assume(N > 2 * m + 1.5)
    if concrete:
        ctx.assume(N < 400)
    r = ctx.call(getattr(ctx.at, fn), N, m, alpha)
    if fn == "edf_mtotdev" and alpha not in T8:
        return ctx.raises("edf_mtotdev(%s)" % alpha, r)
    if not ctx.ok(fn, r):
        return
    if fn == "edf_totdev" and alpha in T7:
        b, c = T7[alpha]
        want = b * N / m - c
    elif fn == "edf_mtotdev":
        b, c = T8[alpha]
        want = b * N / m - c
    else:
        want = t5(ctx, N, m, alpha, isinstance(m, int) and m == 1)
    ctx.eq("%s(alpha=%s)" % (fn, alpha), r, want)


def jobs(tier):
    out = []
    for fn in ("edf_simple", "edf_totdev", "edf_mtotdev"):
        for a in (2, 1, 0, -1, -2) + ((3, -3, -4) if fn != "edf_mtotdev" else (3, -3)):
            for m in [None, 1] + list(range(2, 6 if tier == "quick" else 61)):
                out.append(dict(h="edf", params=dict(fn=fn, alpha=a, m=m)))
    return out
