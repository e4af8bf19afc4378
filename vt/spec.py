"""Specifications of the statistics, written from the published formulas with plain Python arithmetic
(usable on solver terms and on floats).  Every function returns (variance, n) or the deviation itself; x is a Python list."""


def d2(x, i, m):
    return x[i + 2 * m] - 2 * x[i + m] + x[i]


def d3(x, i, m):
    return x[i + 3 * m] - 3 * x[i + 2 * m] + 3 * x[i + m] - x[i]


def total(xs):
    from . import ctx as _c
    return _c.total(xs)


def sq(v):
    return v * v


def starts(N, span, step):
    return list(range(0, N - span, step))


def adev(x, rate, m):
    N = len(x)
    I = starts(N, 2 * m, m)
    n = len(I)
    return (total([sq(d2(x, i, m)) for i in I]) * rate * rate / (2 * n * m * m) if n else None), n


def oadev(x, rate, m):
    N = len(x)
    I = starts(N, 2 * m, 1)
    n = len(I)
    return (total([sq(d2(x, i, m)) for i in I]) * rate * rate / (2 * n * m * m) if n else None), n


def hdev(x, rate, m):
    I = starts(len(x), 3 * m, m)
    n = len(I)
    return (total([sq(d3(x, i, m)) for i in I]) * rate * rate / (6 * n * m * m) if n else None), n


def ohdev(x, rate, m):
    I = starts(len(x), 3 * m, 1)
    n = len(I)
    return (total([sq(d3(x, i, m)) for i in I]) * rate * rate / (6 * n * m * m) if n else None), n


def mdev(x, rate, m):
    N = len(x)
    n = N - 3 * m + 1
    if n < 1:
        return None, n
    v = total([sq(total([d2(x, i, m) for i in range(j, j + m)])) for j in range(n)])
    return v * rate * rate / (2 * m ** 4 * n), n


def tdev(x, rate, m):
    v, n = mdev(x, rate, m)
    return (v * m * m / (rate * rate * 3) if v is not None else None), n


def totdev(x, rate, m):
    N = len(x)

    def xs(i):                     # 0-based index into the reflected series
        if i < 0:
            return 2 * x[0] - x[-i]
        if i >= N:
            return 2 * x[N - 1] - x[2 * (N - 1) - i]
        return x[i]
    v = total([sq(xs(i - m) - 2 * xs(i) + xs(i + m)) for i in range(1, N - 1)])
    return (v * rate * rate / (2 * m * m * (N - 2)) if N > 2 else None), N - 2


def detrended_ext(xs, m):
    """half-average detrended subsequence of 3m points extended to 9m points by even reflection"""
    L = 3 * m
    h = L // 2
    m1 = total(xs[:h]) / h
    m2 = total(xs[L - h:]) / h
    slope = (m2 - m1) / (L - h)        # the centres of the two halves are L-h samples apart
    x0 = [xs[i] - slope * i for i in range(L)]
    r = x0[::-1]
    return r + x0 + r


def ext_mean_square(xs, m):
    e = detrended_ext(xs, m)
    ps = [0]
    for v in e:
        ps.append(ps[-1] + v)
    t = []
    for j in range(6 * m):
        a, b, c = ps[j + m] - ps[j], ps[j + 2 * m] - ps[j + m], ps[j + 3 * m] - ps[j + 2 * m]
        t.append(sq(a - 2 * b + c))
    return total(t) / (6 * m * m * m)


def mtotdev(x, rate, m):
    N = len(x)
    n = N - 3 * m + 1
    if n < 1:
        return None, n
    v = total([ext_mean_square(x[i:i + 3 * m], m) for i in range(n)])
    return v * rate * rate / (2 * m * m * n), n


def ttotdev(x, rate, m):
    v, n = mtotdev(x, rate, m)
    return (v * m * m / (3 * rate * rate) if v is not None else None), n


def htotdev(x, rate, m):
    """phase input; statistic on the fractional frequency"""
    if m == 1:
        return ohdev(x, rate, 1)
    y = [(x[i + 1] - x[i]) * rate for i in range(len(x) - 1)]
    n = len(y) - 3 * m + 1
    if n < 1:
        return None, n
    v = total([ext_mean_square(y[i:i + 3 * m], m) for i in range(n)])
    return v / (6 * n), n


def pdev(x, rate, m):
    if m == 1:
        return oadev(x, rate, 1)
    N = len(x)
    M = N - 2 * m
    if M < 1:
        return None, M
    t = []
    for i in range(M):
        # weights ((m-1)/2-k), doubled to stay integral
        t.append(sq(total([(m - 1 - 2 * k) * (x[i + k] - x[i + k + m]) for k in range(m)])))
    return total(t) * 18 * rate * rate / (M * m ** 6), M


def theo1(x, rate, m):
    """-> variance, n, starting points"""
    N = len(x)
    h = m // 2
    t = []
    for i in range(N - m):
        for d in range(h):
            t.append(sq((x[i] - x[i - d + h]) + (x[i + m] - x[i + d + h])) / (h - d))
    n = (N - m) * h
    return (total(t) * 4 * rate * rate / (3 * (N - m) * m * m) if n > 0 else None), n


def tierms(x, rate, m):
    n = len(x) - m
    return (total([sq(x[i + m] - x[i]) for i in range(n)]) / n if n > 0 else None), n


def mtie(ctx, x, m):
    n = len(x) - m
    return ctx.max([ctx.max(x[i:i + m + 1]) - ctx.min(x[i:i + m + 1]) for i in range(n)]), n


SPEC = dict(adev=adev, oadev=oadev, hdev=hdev, ohdev=ohdev, mdev=mdev, tdev=tdev, totdev=totdev, mtotdev=mtotdev,
            ttotdev=ttotdev, htotdev=htotdev, pdev=pdev, theo1=theo1, tierms=tierms)
# largest admissible m (in addition to m < N); theo1 wants even m
LIMIT3 = ("mtotdev", "ttotdev", "htotdev")


def candidates(stat, N):
    """averaging factors the statistic itself admits for N phase points, before the n>=2 filter"""
    L = N - 1 if stat == "htotdev" else N
    ms = [m for m in range(1, L)]
    if stat in LIMIT3:
        ms = [m for m in ms if 3 * m <= L]
    if stat == "theo1":
        ms = [m for m in ms if m % 2 == 0]
    return ms


def err_n(stat, x_len, m, n):
    """the count whose square root divides the deviation in the error"""
    if stat == "theo1":
        return x_len - m
    return n


def check_rows(ctx, stat, res, x, rate, ms, label="", err=True, freq=False):
    """res = (taus, devs, errs, ns) must be exactly the rows of those m in ms with n >= 2, sorted"""
    N = len(x)
    cand = set(candidates(stat, N))
    rows = []
    for m in sorted(set(ms)):
        if m not in cand:
            continue
        v, n = SPEC[stat](x, rate, m)
        if n >= 2:
            rows.append((m, v, n))
    from .ctx import Raised
    label = label or stat
    if not rows:
        ctx.raises(label + ": nothing to report", res)
        return rows
    if not ctx.ok(label, res):
        return rows
    taus, devs, errs, ns = res
    for nm, a in (("taus", taus), ("devs", devs), ("errs", errs), ("ns", ns)):
        if len(a) != len(rows):
            ctx.fail("%s: %d %s, expected %d rows (m=%s)" % (label, len(a), nm, len(rows), [r[0] for r in rows][:12]))
            return rows
    for k, (m, v, n) in enumerate(rows):
        lab = "%s m=%d" % (label, m)
        ctx.eq(lab + " tau", taus[k] * rate, m)
        ctx.eq(lab + " n", ns[k], n)
        ctx.eq2(lab + " dev", devs[k], v)
        if err:
            if stat == "tierms":
                ctx.eq(lab + " err", errs[k], 0)
            else:
                ctx.eq2(lab + " err", errs[k], v / err_n(stat, N, m, n))
    return rows
