"""C26 timmer_koenig_from_psd."""
import math
from ..ctx import Raised

BOUNDS = {"quick": "4..10 points and, with selected break positions, 16, 17, 32, 33, every duration with that floor, every time step, every positive coefficient, one to three segments with exponents -2..2, every position of the break frequencies relative to the grid (equality included), every outcome of the draws, both outputs; seeds None, 0, 5",
          "thorough": "4..16 points, up to four segments"}
OUTSIDE = "longer series; non-integer exponents; durations whose quotient by the time step is within rounding error of a whole number"


def tk(ctx, n, alphas, output="phase", exact=False, nodes="sym", default=False):
    D = ctx.draws()
    dt = ctx.pos("dt")
    K = len(alphas)
    if exact:
        dur = n * dt
    else:
        fr = ctx.real("fr", (.05, .95))
        ctx.assume(fr >= 0.01)
        ctx.assume(fr <= 0.99)
        dur = (n + fr) * dt
    h = [ctx.pos("h%d" % i) for i in range(K)]
    half = n // 2
    c = [1.0 / (n - 1) + j * (0.5 - 1.0 / (n - 1)) / half for j in range(half + 1)]       # grid frequency times dt
    us = []
    for i in range(K - 1):
        u = ctx.pos("u%d" % i, (.08, .55)) if nodes == "sym" else c[min(half, nodes[i])]
        if nodes == "sym":
            if us:
                ctx.assume(u >= us[-1])
            for v in c:                       # a node on or clearly off a grid frequency (rounding of the grid itself is not at stake)
                ctx.assume(ctx.or_(u <= v - 1e-6, u >= v + 1e-6))
        us.append(u)
    fn = [u / dt for u in us] if nodes == "sym" else [u / 1.0 for u in us]
    if nodes != "sym":
        dt, dur = 1.0, float(n) + .5
        fr = [float(v) for v in ctx.np.linspace(1.0 / (n - 1), 0.5, half + 1)]
        fn = [fr[min(half, k)] for k in nodes]
    kw = {} if default else {"output": output}
    a = [float(v) for v in alphas]
    x = ctx.call(ctx.at.noise.timmer_koenig_from_psd, ctx.arr(fn), ctx.arr(h), ctx.arr(a), dur, dt, **kw)
    if not ctx.ok("timmer_koenig_from_psd", x):
        return
    if len(x) != n:
        return ctx.fail("%d points instead of %d" % (len(x), n))
    w = D.take()
    if len(w) < 2 * half:
        return ctx.fail("%d draws for %d frequencies" % (len(w), half))
    amp = []
    for j in range(1, half + 1):
        f = c[j] / dt
        cand = []
        if nodes == "sym":
            s = 0
            for u in us:
                if c[j] < u:
                    break
                s += 1
            cand = [s]
        else:
            lo = sum(1 for k in nodes if k < j)
            hi = sum(1 for k in nodes if k <= j)
            cand = list(range(hi, lo - 1, -1)) if hi == lo + 1 or hi == lo else [hi, lo]
        amp.append([ctx.sqrt(h[s] * powr(f, int(alphas[s]))) / (4 * math.pi * f) for s in cand])
    norm = ctx.sqrt((n - 1) / dt) / n
    base = [w[:2 * half][i::2] for i in (0, 1)], (w[:half], w[half:2 * half])
    choice = [q[0] for q in amp]
    orders = list(base)

    def series(ab, A):
        re, im = ab
        out = []
        for t in range(n):
            v = []
            for j in range(1, half + 1):
                ph = 2 * math.pi * (j * t % n) / n
                if 2 * j == n:
                    v.append(A[j - 1] * re[j - 1] * math.cos(ph))
                else:
                    v.append(2 * A[j - 1] * (re[j - 1] * math.cos(ph) - im[j - 1] * math.sin(ph)))
            out.append(ctx.sum(v) * norm)
        return out
    best = None
    import itertools
    alts = [list(q) for q in itertools.product(*amp)][:64] if any(len(q) > 1 for q in amp) else [choice]
    for o in orders:
        for A in alts:
            s = series(o, A)
            if output == "freq":
                s = [0.0] + [(s[t + 1] - s[t]) / dt for t in range(n - 1)]
            if best is None:
                best = s
            if all(ctx.same(p, q) for p, q in zip(s, x)):
                best = s
                break
        else:
            continue
        break
    ctx.eqlist("series", x, best)


def powr(x, e):
    return x ** e if e >= 0 else 1 / x ** (-e)


def seeds(ctx, seed, n=6):
    ctx.draws()
    h = [ctx.pos("h0"), ctx.pos("h1")]
    dt = ctx.pos("dt")
    fn = [0.3 / dt]

    def go(seed):
        return ctx.call(ctx.at.noise.timmer_koenig_from_psd, ctx.arr(fn), ctx.arr(h), ctx.arr([-2., 0.]), (n + .5) * dt, dt, seed=seed)
    a = go(seed)
    free = go(None)
    b = go(seed)
    other = go(seed + 1)
    for r in (a, free, b, other):
        if not ctx.ok("timmer_koenig_from_psd", r):
            return
    ctx.eqlist("equal seeds", b, a)
    ctx.checked()
    for nm, o in (("no seed", free), ("another seed", other)):
        if ctx.sym and all(ctx.same(p, q) for p, q in zip(a, o)):
            ctx.fail("%s gives the same series as seed %d" % (nm, seed))


def invalid(ctx, what):
    ctx.draws()
    d, t = ctx.pos("d", (10, 20)), ctx.pos("t", (.5, 1))
    ctx.assume(d >= 6 * t)
    ctx.assume(d <= 9 * t)
    z = ctx.real("z", (-3, 0))
    ctx.assume(z <= 0)
    h, al, fn, kw = [1., 2.], [0., -1.], [.2], {}
    if what == "duration":
        d = z
    elif what == "timestep":
        t = z
    elif what == "both":
        d = t = z - 1
    elif what == "alpha":
        al = [0.]
    elif what == "alpha3":
        al = [0., 1., 2.]
    elif what == "nodes2":
        fn = [.2, .3]
    elif what == "nodes3":
        fn = [.2, .3, .4]
    elif what == "output":
        kw = {"output": "time"}
    elif what == "short":
        t2 = ctx.pos("q", (.1, 3.9))
        ctx.assume(t2 <= 3.99)
        d = t2 * t
    r = ctx.call(ctx.at.noise.timmer_koenig_from_psd, ctx.arr(fn), ctx.arr(h), ctx.arr(al), d, t, **kw)
    ctx.raises("invalid %s" % what, r)


def jobs(tier):
    q = tier == "quick"
    out = []
    for n in (4, 5, 6, 7, 8, 9, 10) + (() if q else (11, 12, 13, 16)):
        for al in ([0], [-2], [-1, 1]) + (([2, 0, -2], [-2, -1, 0]) if n <= 8 or not q else ()) + (() if q or n > 9 else ([1, 0, -1, -2],)):
            out.append(dict(h="tk", params=dict(n=n, alphas=al), cost=n ** len(al)))
        out.append(dict(h="tk", params=dict(n=n, alphas=[-2, 2], output="freq"), cost=n * n))
        for k in range(n // 2 + 1):
            out.append(dict(h="tk", params=dict(n=n, alphas=[-1, 1], nodes=[k]), cost=n))
            if k < n // 2:
                out.append(dict(h="tk", params=dict(n=n, alphas=[0, -2, 1], nodes=[k, k + 1]), cost=n))
    for n in (16, 17, 32, 33):
        for k in (0, 3, n // 4, n // 2):
            out.append(dict(h="tk", params=dict(n=n, alphas=[-1, 1], nodes=[k]), cost=n))
        out.append(dict(h="tk", params=dict(n=n, alphas=[0, -2, 1, 2], nodes=[2, 5, n // 2 - 1]), cost=n))
    for n in (6, 7):
        out.append(dict(h="tk", params=dict(n=n, alphas=[1, 0], default=True)))
    for s in (0, 5):
        out.append(dict(h="seeds", params=dict(seed=s)))
    for w in ("duration", "timestep", "both", "alpha", "alpha3", "nodes2", "nodes3", "output", "short"):
        out.append(dict(h="invalid", params=dict(what=w)))
    return out
