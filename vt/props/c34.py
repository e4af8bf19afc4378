"""C34 objects keep to themselves: every interleaving of operations on two objects of a kind."""
from .. import spec
from ..ctx import Raised, total
from .c15 import KIND, compare as stream_is
from .c16 import factors
from .c17 import rowsof
from .c24 import voss
from .c29 import look
from itertools import permutations

BOUNDS = {"quick": "two objects, every schedule (symbolic choice of the object, and of the operation, at each step): real-time estimators (all four results, every pair of classes) 6 samples with one shared list of averaging factors, default arguments or automatic factors, "
                   "results read in between; Datasets 4 operations out of {compute of two statistics, set_input, write_results, plot}; Plots 4 operations; Noise objects 4 operations out of {generate, set_input, read levels}; iterpink 7 samples, depth 2 and 3; every sample, rate and level",
          "thorough": "8 samples, 5 operations"}
OUTSIDE = "more than two objects (three for estimators) or longer schedules; threads"


def estimators(ctx, a, b, N, share="list", three=False):
    kinds = [a, b] + ([a] if three else [])
    tau = [ctx.pos("tau_%d" % i) for i in range(len(kinds))]
    shared = [1, 2]
    st = []
    for k, t in zip(kinds, tau):
        cls = getattr(ctx.at.realtime, KIND[k][0])
        if share == "list":
            o = ctx.call(cls, afs=shared, tau0=t)
        elif share == "default":
            o = ctx.call(cls, tau0=t)
        elif share == "auto":
            o = ctx.call(cls, tau0=t, auto_afs=True)
        else:                # one automatic, one with the default list
            o = ctx.call(cls, tau0=t, auto_afs=not st)
        if not ctx.ok(k, o):
            return
        st.append(o)
    xs = [[] for _ in kinds]
    seen = []
    for s in range(N):
        i = 1 if ctx.flag("turn%d" % s) else 0
        if three and i and ctx.flag("third%d" % s):
            i = 2
        v = ctx.real("x%d" % s)
        if s % 3 == 1:
            r = ctx.call(st[i].add_frequency, v)
            xs[i] = (xs[i] or [0])
            xs[i].append(xs[i][-1] + v * tau[i])
        else:
            r = ctx.call(st[i].add_phase, v)
            xs[i].append(v)
        if not ctx.ok("sample %d" % s, r):
            return
        for j, o in enumerate(st):          # reading in between
            ctx.call(o.taus)
            ctx.call(o.devs)
            if kinds[j] in ("tdev", "mdev"):
                ctx.call(o.mdev)
    for j, o in enumerate(st):
        want = shared if share == "list" else [1] if share == "default" or (share == "mixed" and j) else factors(ctx, len(xs[j]), 4)
        lab = "object %d" % j
        ctx.eqlist(lab + " averaging factors", [ctx.num(m) for m in o.afs], want)
        ts = ctx.call(o.taus)
        if ctx.ok(lab + " taus", ts):
            ctx.eqlist(lab + " taus", ts, [m * tau[j] for m in want])
        stream_is(ctx, kinds[j], o, xs[j], want, tau[j], lab)
    if share == "list":
        ctx.eqlist("the caller's list", shared, [1, 2])


def datasets(ctx, N, stats=("adev", "hdev"), few=False):
    pt = ctx.pyplot()
    inp = []
    for i in range(2):
        rate = ctx.pos("rate%d" % i)
        inp.append((ctx.reals("x%d_" % i, 7), rate, "phase", [2 / rate, 1 / rate]))
    new = [(ctx.reals("y%d_" % i, 6), inp[1 - i][1], "freq", [1 / inp[1 - i][1]]) for i in range(2)]
    ds = [ctx.call(ctx.at.Dataset, *inp[i]) for i in range(2)]
    for i in range(2):
        if not ctx.ok("Dataset", ds[i]):
            return
    fresh = ctx.fresh()
    cur = list(inp)
    res = [None, None]
    for s in range(N):
        i = 1 if ctx.flag("turn%d" % s) else 0
        d = ds[i]
        if ctx.flag("compute%d" % s):
            nm = stats[1] if (s % 2 if few else ctx.flag("which%d" % s)) else stats[0]
            r = ctx.call(d.compute, nm)
            if not ctx.ok("compute", r):
                return
            res[i] = (nm, cur[i])
        elif ctx.flag("set%d" % s):
            if not ctx.ok("set_input", ctx.call(d.set_input, *new[i])):
                return
            cur[i] = new[i]
        elif res[i] is not None and res[i][1] is cur[i]:
            f = ctx.outfile()
            if s % 2 == 0 if few else ctx.flag("own%d" % s):
                w = ctx.call(d.write_results, f, header_params={"tag%d" % i: "of%d" % i})
            else:
                w = ctx.call(d.write_results, f)
            if not ctx.ok("write_results", w):
                return
            t = ctx.text_of(f)
            ctx.checked()
            if "tag%d" % (1 - i) in t:
                ctx.fail("the file of one Dataset has the header of the other")
            p = ctx.call(ctx.at.Plot, no_display=True)
            if ctx.ok("Plot", p):
                ctx.ok("plot", ctx.call(p.plot, d, errorbars=True))
    for i in range(2):
        lab = "Dataset %d" % i
        for k, v in zip(("data", "rate", "data_type", "taus"), cur[i]):
            if ds[i].inp[k] is not v:
                ctx.eqlist("%s %s" % (lab, k), ds[i].inp[k], v) if k in ("data", "taus") else ctx.eq("%s %s" % (lab, k), ds[i].inp[k], v)
        if res[i] is None:
            ctx.checked()
            if any(v is not None for v in ds[i].out.values()):
                ctx.fail(lab + " has results before any computation")
            continue
        nm, (x, rate, dt, taus) = res[i]
        direct = ctx.call(getattr(fresh, nm), x, rate=rate, data_type=dt, taus=list(taus))
        if ctx.ok("direct", direct):
            rowsof(ctx, lab, ds[i].out, direct)
            ctx.eq(lab + " stat_id", ds[i].out.get("stat_id"), nm)


def plots(ctx, N):
    pt = ctx.pyplot()
    ds, ps = [], []
    for i, nm in enumerate(("adev", "mdev")):
        rate = ctx.pos("rate%d" % i)
        d = ctx.at.Dataset(ctx.reals("x%d_" % i, 8), rate, "phase", [1 / rate, 2 / rate])
        if not ctx.ok("compute", ctx.call(d.compute, nm)):
            return
        ds.append(d)
        p = ctx.call(ctx.at.Plot, no_display=True)
        if not ctx.ok("Plot", p):
            return
        ps.append(p)
    want = [[], []]
    saved = [[], []]
    for s in range(N):
        i = 1 if ctx.flag("turn%d" % s) else 0
        if ctx.flag("plot%d" % s):
            j = 1 if ctx.flag("data%d" % s) else 0
            grid, eb = s % 2 == 0, j == 1
            if not ctx.ok("plot", ctx.call(ps[i].plot, ds[j], errorbars=eb, grid=grid)):
                return
            want[i].append((ds[j], eb, grid))
        else:
            f = "/virtual/figure-%d" % s
            if not ctx.ok("save", ctx.call(ps[i].save, f)):
                return
            saved[i].append((f, len(want[i])))
    if ps[0].ax is ps[1].ax:
        return ctx.fail("two Plots share one set of axes")
    for i in range(2):
        ax = ps[i].ax
        ctx.checked()
        if len(ax.curves) != len(want[i]):
            ctx.fail("Plot %d shows %d curves instead of %d" % (i, len(ax.curves), len(want[i])))
            continue
        for c, (d, eb, grid) in zip(ax.curves, want[i]):
            last = want[i][-1]
            look_curve = dict(c)
            ctx.eqlist("Plot %d x" % i, look_curve["x"], d.out["taus"])
            ctx.eqlist("Plot %d y" % i, look_curve["y"], d.out["stat"])
        if want[i]:
            look(ctx, ax, ax.curves[-1], want[i][-1][0], want[i][-1][1], want[i][-1][2], {})
        fig = [g for g in pt.figs if ax in g.axes]
        got = [(f, n) for g in fig for f, n in zip(g.saved, g.saved_curves)]
        if got != saved[i]:
            ctx.fail("Plot %d was saved to %s, requested %s" % (i, got, saved[i]))


def noises(ctx, N):
    D = ctx.draws()
    par = [(3, ctx.pos("qd0"), -2), (4, ctx.pos("qd1"), -1)]
    alt = [(4, ctx.pos("qd2"), -3), (2, ctx.pos("qd3"), 0)]
    os = [ctx.call(ctx.at.Noise, *p) for p in par]
    for o in os:
        if not ctx.ok("Noise", o):
            return
    cur = list(par)
    want = [[], []]
    for s in range(N):
        i = 1 if ctx.flag("turn%d" % s) else 0
        o = os[i]
        if ctx.flag("generate%d" % s):
            if not ctx.ok("generateNoise", ctx.call(o.generateNoise)):
                return
            w = D.take()
            n, qd, b = cur[i]
            if len(w) != n:
                return ctx.fail("%d draws for %d points" % (len(w), n))
            h = [1]
            for k in range(1, n):
                h.append(h[-1] * (k - 1 - b / 2.0) / k)
            want[i] = [ctx.sqrt(qd) * total([h[j] * w[k - j] for j in range(k + 1)]) for k in range(n)]
        elif ctx.flag("set%d" % s):
            if not ctx.ok("set_input", ctx.call(o.set_input, *alt[i])):
                return
            cur[i] = alt[i]
        else:
            for nm in ("phase_psd_from_qd", "frequency_psd_from_qd", "c_avar", "c_mvar"):
                ctx.call(getattr(o, nm))
            ctx.call(o.adev, 1.0, 4.0)
            ctx.call(o.mdev, 1.0, 4.0)
    for i in range(2):
        ctx.eqlist("Noise %d series" % i, os[i].time_series, want[i])
        ctx.eq("Noise %d nr" % i, os[i].nr, cur[i][0])
        ctx.eq("Noise %d qd" % i, os[i].qd, cur[i][1])
        ctx.eq("Noise %d b" % i, os[i].b, cur[i][2])


def pinks(ctx, N, depths):
    D = ctx.draws()
    it = [ctx.at.noise.iterpink(d) for d in depths]
    out, w = [[], []], [[], []]
    for s in range(N):
        i = 1 if ctx.flag("turn%d" % s) else 0
        v = ctx.call(next, it[i])
        if not ctx.ok("iterpink", v):
            return
        out[i].append(v)
        w[i] += D.take()
    for i, d in enumerate(depths):
        ctx.checked()
        if not out[i]:
            continue
        if len(w[i]) % d or len(w[i]) < 3 * d:
            return ctx.fail("iterpink: %d draws for depth %d" % (len(w[i]), d))
        blocks = [w[i][k:k + d] for k in range(0, len(w[i]), d)]
        cands = [voss([blocks[k] for k in perm], blocks[3:], len(out[i]), d, sw) for perm in permutations(range(3)) for sw in (False, True)]
        cands = [o for o in cands if o is not None]
        if not cands:
            return ctx.fail("iterpink: too few random numbers drawn")
        good = [o for o in cands if all(ctx.same(a, b) for a, b in zip(out[i], o))]
        ctx.eqlist("iterpink %d" % i, out[i], (good or cands)[0])


def jobs(tier):
    q = tier == "quick"
    out = []
    ks = list(KIND)
    n = 6 if q else 8
    for a in ks:
        for b in ks if not q else [a, ks[(ks.index(a) + 1) % 4]]:
            for share in ("list", "default", "auto", "mixed"):
                out.append(dict(h="estimators", params=dict(a=a, b=b, N=n, share=share), cost=2 ** n))
        out.append(dict(h="estimators", params=dict(a=a, b=a, N=4 if q else 5, share="list", three=True), cost=2 ** n))
    for st in (("adev", "hdev"), ("mtie", "oadev"), ("totdev", "tdev"), ("pdev", "mdev")) if q else (("adev", "hdev"), ("mtie", "oadev"), ("totdev", "tdev"), ("pdev", "mdev"), ("gradev", "ohdev"), ("tierms", "adev"), ("mtotdev", "hdev")):
        out.append(dict(h="datasets", params=dict(N=3 if q else 4, stats=list(st)), cost=10 ** 3))
    out.append(dict(h="datasets", params=dict(N=4 if q else 5, stats=["oadev", "hdev"], few=True), cost=10 ** 4))
    out.append(dict(h="plots", params=dict(N=4 if q else 5), cost=300))
    out.append(dict(h="noises", params=dict(N=4 if q else 5), cost=300))
    for dp in ([2, 3], [3, 3], [1, 4]):
        out.append(dict(h="pinks", params=dict(N=7 if q else 9, depths=dp), cost=200))
    return out
