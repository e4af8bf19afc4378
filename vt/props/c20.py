"""C20 Greenhall-Riley combined degrees of freedom."""
from ..ctx import Raised
from math import comb

BOUNDS = {"quick": "every noise type +2..-4, d = 1..3, modified/unmodified, overlapping or not, averaging factors 1..8, 10, 12, 16, 20, 25, 32..34, 40, 50, 51, 60, 99..101, 150, 1000: every N (unbounded, symbolic) with at least d+2 times the averaging time, and every N from the shortest up to 12 samples beyond it or (for the truncated sums) a window of three values",
          "thorough": "averaging factors 1..20, 24..26, 32..35, 40, 50, 51, 60, 99..102, 150, 1000; all short N up to the symbolic range for averaging factors up to 12"}
OUTSIDE = "other averaging factors; the boundary r = d+1 between the table and the truncated sum where the paper's and the code's case selection may differ; N too short for a single estimate"
REL = 1e-7
JMAX = 100
T1 = {2: [(2 / 3., 1 / 3.), (7 / 9., 1 / 2.), (22 / 25., 2 / 3.)], 1: [(.84, .345), (.997, .616), (1.141, .843)], 0: [(1.079, .368), (1.033, .607), (1.184, .848)],
      -1: [None, (1.048, .534), (1.18, .816)], -2: [None, (1.302, .535), (1.175, .777)], -3: [None, None, (1.194, .703)], -4: [None, None, (1.489, .702)]}
T2 = {2: [(1.5, .5), (35 / 18., 1.), (2.31, 1.5)], 1: [(78.6, 25.2), (790., 410.), (9950., 6520.)], 0: [(2 / 3., 1 / 6.), (2 / 3., 1 / 3.), (7 / 9., .5)],
      -1: [None, (.852, .375), (.997, .617)], -2: [None, (1.079, .368), (1.033, .607)], -3: [None, None, (1.053, .553)], -4: [None, None, (1.302, .535)]}
T3 = [(6., 4.), (15.23, 12.), (47.8, 40.)]


def sw(t, a):
    import math
    t = abs(t)
    if a == 2:
        return -t
    p = t ** (3 - a)
    return p if a % 2 == 0 else (0.0 if t == 0 else p * math.log(t))


def sx(t, F, a):
    if F is None:
        return sw(t, a + 2)
    return F * F * (2 * sw(t, a) - sw(t - 1. / F, a) - sw(t + 1. / F, a))


def sz(t, F, a, d):
    return sum((-1) ** abs(k) * comb(2 * d, d + k) * sx(t + k, F, a) for k in range(-d, d + 1))


def basic(J, M, S, F, a, d):
    r = sz(0., F, a, d) ** 2 + (1 - J / M) * sz(float(J) / S, F, a, d) ** 2
    for j in range(1, J):
        r = r + 2 * (1 - j / M) * sz(float(j) / S, F, a, d) ** 2
    return r


def greenhall(M, m, S, a, d, mod):
    """the published value; M: number of estimates, a number or a solver term known to exceed (d+1)S"""
    import math
    big = not isinstance(M, int)
    J = (d + 1) * S if big else min(M, (d + 1) * S)
    r = M / float(S)
    if a == 2 and not mod:
        if not big and math.ceil(r - 1e-12) <= d:
            return None
        return M / (float(comb(4 * d, 2 * d)) / comb(2 * d, d) ** 2 - (d / 2.) / r)
    F = 1 if mod else m
    if J <= JMAX:
        if not mod and a <= 0 and m * (d + 1) > JMAX:
            F = None
        return sz(0., F, a, d) ** 2 * M / basic(J, M, S, F, a, d)
    if big or r > d + 1:
        a0, a1 = (T1 if mod else T2)[a][d - 1]
        v = r / (a0 - a1 / r)
    else:
        mp = JMAX / r
        f0, f1 = (1, 1) if mod else ((None, None) if a <= 0 else (m, mp))
        v = JMAX / basic(JMAX, float(JMAX), mp, f1, a, d)
        if not (a == 1 and not mod):
            v = v * sz(0., f0, a, d) ** 2
    if a == 1 and not mod:
        b0, b1 = T3[d - 1]
        v = v * (b0 + b1 * math.log(m)) ** 2
    return v


def near(ctx, label, a, b):
    ctx.true(label + " > 0", a > 0)
    ctx.true(label, ctx.and_(a <= b * (1 + REL), b <= a * (1 + REL)))


def call(ctx, alpha, d, m, N, ov, mod):
    return ctx.call(ctx.at.edf_greenhall, alpha=alpha, d=d, m=m, N=N, overlapping=ov, modified=mod)


def geometry(m, d, ov, mod):
    return (m if ov else 1), (m if mod else 1) + m * d       # stride S, span L of one estimate


def long(ctx, alpha, d, m, ov, mod):
    """any N with more than (d+1)S estimates"""
    S, L = geometry(m, d, ov, mod)
    q = ctx.intv("q", (d + 1) * S + 1, 10 ** 9)
    for rem in sorted(set([0, m // S - 1])):
        N = L + (m // S) * (q - 1) + rem                    # q estimates
        r = call(ctx, alpha, d, m, N, ov, mod)
        if not ctx.ok("edf_greenhall", r):
            return
        near(ctx, "edf(alpha=%d,d=%d,m=%d)" % (alpha, d, m), r, greenhall(q * 1.0, m, S, alpha, d, mod))
        r2 = call(ctx, alpha, d, m, N + m // S, ov, mod)
        if ctx.ok("edf_greenhall", r2) and (d + 1) * S <= JMAX:
            ctx.true("edf grows with N", r2 >= r)


def short(ctx, alpha, d, m, ov, mod, lo, hi):
    """every N with lo..hi estimates"""
    S, L = geometry(m, d, ov, mod)
    k = ctx.concrete(ctx.intv("M", lo, hi))
    prev = None
    for rem in sorted(set([0, m // S - 1])):
        N = L + (m // S) * (k - 1) + rem
        if k == (d + 1) * S and k > JMAX:
            ctx.checked()
            continue
        r = call(ctx, alpha, d, m, N, ov, mod)
        want = greenhall(k, m, S, alpha, d, mod)
        if want is None:
            ctx.raises("white PM, too few samples", r)
            continue
        if not ctx.ok("edf_greenhall", r):
            return
        near(ctx, "edf(alpha=%d,d=%d,m=%d,N=%d)" % (alpha, d, m, N), r, want)
        prev = r
    if prev is not None and (d + 1) * S <= JMAX:
        r = call(ctx, alpha, d, m, L + (m // S) * k, ov, mod)
        if ctx.ok("edf_greenhall", r):
            ctx.true("edf grows with N", r >= prev * (1 - 1e-12))


def simple(ctx, alpha, d, m, S, F):
    """the uncombined formula, when present"""
    f = getattr(ctx.at, "edf_greenhall_simple", None) or getattr(ctx.at.ci, "edf_greenhall_simple", None)
    if f is None:
        return ctx.checked()
    L = m // F + m * d
    q = ctx.intv("q", (d + 1) * S + 1, 10 ** 9)
    r = ctx.call(f, alpha, d, m, S, F, L + (m // S) * (q - 1))
    if ctx.ok("edf_greenhall_simple", r):
        near(ctx, "edf_greenhall_simple", r, sz(0., F, alpha, d) ** 2 * q / basic((d + 1) * S, q * 1.0, S, F, alpha, d))


def refused(ctx, alpha, d):
    N = ctx.intv("N", 20, 10 ** 6)
    for mod in (False, True):
        ctx.raises("alpha+2d <= 1", call(ctx, alpha, d, 2, N, True, mod))


def jobs(tier):
    q = tier == "quick"
    out = []
    ms = [1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 25, 32, 33, 34, 40, 50, 51, 60, 99, 100, 101, 150, 1000] if q else list(range(1, 21)) + [24, 25, 26, 32, 33, 34, 35, 40, 50, 51, 60, 99, 100, 101, 102, 150, 1000]
    for a in range(2, -5, -1):
        for d in (1, 2, 3):
            if a + 2 * d <= 1:
                out.append(dict(h="refused", params=dict(alpha=a, d=d)))
                continue
            for mod in (False, True):
                for ov in (False, True):
                    for m in ms:
                        S, L = geometry(m, d, ov, mod)
                        p = dict(alpha=a, d=d, m=m, ov=ov, mod=mod)
                        out.append(dict(h="long", params=p, cost=1))
                        top = (d + 1) * S
                        wins = [(1, top)] if (top <= 12 or (not q and m <= 12)) else [(1, 3), (top - 1, top + 1)]
                        if top > JMAX:
                            wins = [(2, 2), (JMAX - 1, min(JMAX + 2, top)), (top - 1, top - 1), (top + 1, top + 1)]
                        for lo, hi in wins:
                            out.append(dict(h="short", params=dict(p, lo=lo, hi=hi), cost=1))
            for m, S, F in [(4, 4, 4), (4, 1, 4), (6, 6, 1), (6, 2, 3)]:
                out.append(dict(h="simple", params=dict(alpha=a, d=d, m=m, S=S, F=F)))
    return out
