"""C29 Plot shows the computed results."""
from ..ctx import Raised

BOUNDS = {"quick": "8 to 12 symbolic phase points, symbolic rate, adev, mdev, tdev, totdev, mtie, gradev and every other statistic, one to three tau values; every combination of errorbars, grid and keyword options; sequences of two and three plot calls on one Plot with different datasets and options (including every grid on/off order)",
          "thorough": "the same with up to 20 points and all 14 statistics with errorbars and grid; all sequences of three option combinations"}
OUTSIDE = "matplotlib itself (replaced by a model of curves, scales, labels and grid state); longer series"

STATS = ["adev", "oadev", "mdev", "hdev", "ohdev", "tdev", "totdev", "mtotdev", "ttotdev", "htotdev", "theo1", "mtie", "tierms", "pdev", "gradev"]
OPTS = [(False, False), (True, False), (False, True), (True, True)]
KW = {"color": "red", "label": "a curve", "marker": "o", "linewidth": 3}


def dataset(ctx, stat, N, k, tag=""):
    x = ctx.reals("x" + tag, N)
    rate = ctx.pos("rate" + tag)
    ms = {"theo1": [2, 4, 6]}.get(stat, [1, 2, 3])[:k]
    d = ctx.at.Dataset(x, rate, "phase", [m / rate for m in ms])
    r = ctx.call(d.compute, stat)
    return d if ctx.ok("compute(%s)" % stat, r) else None


def pairs(e):
    """error argument -> (lower, upper) lists"""
    e = list(e)
    if len(e) == 2 and hasattr(e[0], "__len__"):
        return list(e[0]), list(e[1])
    return e, e


def look(ctx, ax, c, d, eb, grid, kw):
    o = d.out
    if c["x"] is None:
        return ctx.fail("curve has no x values")
    ctx.eqlist("x = taus", c["x"], o["taus"])
    ctx.eqlist("y = deviations", c["y"], o["stat"])
    ctx.checked()
    if eb:
        if c["yerr"] is None:
            return ctx.fail("no error bars drawn")
        for w, g in zip(pairs(o["stat_err"]), pairs(c["yerr"])):
            ctx.eqlist("error bars", g, w)
    elif c["yerr"] is not None:
        ctx.fail("error bars drawn without request")
    if c["xerr"] is not None:
        ctx.fail("horizontal error bars")
    for k, v in kw.items():
        if c["kw"].get(k) != v:
            ctx.fail("keyword %s not passed through" % k)
    if ax.xscale != "log" or ax.yscale != "log":
        ctx.fail("axes are not logarithmic")
    if "tau" not in str(ax.xlabel).lower():
        ctx.fail("x axis not labelled with tau")
    if o["stat_id"] not in str(ax.ylabel):
        ctx.fail("y axis not labelled with the statistic")
    if ax.gridstate["major"] != grid or (ax.gridstate["minor"] and not grid):
        ctx.fail("grid is %s, requested %s" % (ax.gridstate, grid))


def plots(ctx, stats, opts, N=8, k=2, kw=False, same=False):
    plt = ctx.pyplot()
    p = ctx.call(ctx.at.Plot, no_display=True)
    if not ctx.ok("Plot", p):
        return
    kw = dict(KW) if kw else {}
    seen = 0
    ds = []
    for i, (st, (eb, grid)) in enumerate(zip(stats, opts)):
        d = ds[0] if same and ds else dataset(ctx, st, N, k, "abc"[i])
        if d is None:
            return
        ds.append(d)
        before = {n: (v if isinstance(v, str) else [list(q) if hasattr(q, "__len__") else q for q in v]) for n, v in d.out.items() if v is not None}
        r = ctx.call(p.plot, d, errorbars=eb, grid=grid, **kw)
        if not ctx.ok("plot", r):
            return
        ax = p.ax
        if len(ax.curves) != seen + 1:
            return ctx.fail("%d curves drawn" % (len(ax.curves) - seen))
        seen += 1
        look(ctx, ax, ax.curves[-1], d, eb, grid, kw)
        for n, v in before.items():
            if isinstance(v, str):
                ctx.eq("dataset %s unchanged" % n, d.out[n], v)
            elif v and isinstance(v[0], list):
                for a, b in zip(v, d.out[n]):
                    ctx.eqlist("dataset %s unchanged" % n, b, a)
            else:
                ctx.eqlist("dataset %s unchanged" % n, d.out[n], v)


def defaults(ctx):
    """no options given: no error bars, no grid"""
    ctx.pyplot()
    p = ctx.call(ctx.at.Plot, no_display=True)
    d = dataset(ctx, "oadev", 8, 2)
    if d is None or not ctx.ok("Plot", p):
        return
    if ctx.ok("plot", ctx.call(p.plot, d)):
        look(ctx, p.ax, p.ax.curves[-1], d, False, False, {})


def jobs(tier):
    q = tier == "quick"
    out = [dict(h="defaults", params={})]
    N = 12 if q else 20
    for st in STATS:
        for o in OPTS if (not q or st in ("adev", "mtie", "gradev")) else [(True, True), (False, False)]:
            out.append(dict(h="plots", params=dict(stats=[st], opts=[list(o)], N=8 if st == "gradev" else N, k=1 if st in ("gradev",) else 3, kw=o[0] == o[1]), cost=N * (4 if st in ("mtotdev", "htotdev", "ttotdev", "mtie", "gradev") else 1)))
    for a in OPTS:
        for b in OPTS:
            out.append(dict(h="plots", params=dict(stats=["oadev", "mdev"], opts=[list(a), list(b)], kw=a == b), cost=4))
            out.append(dict(h="plots", params=dict(stats=["hdev", "hdev"], opts=[list(a), list(b)], same=True), cost=4))
            for c in OPTS if not q else [(False, False)]:
                out.append(dict(h="plots", params=dict(stats=["tdev", "adev", "totdev"], opts=[list(a), list(b), list(c)]), cost=6))
    return out
