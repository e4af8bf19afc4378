"""C17 Dataset: compute, store, save."""
from ..ctx import Raised
from .c10 import ALL, SLOW

BOUNDS = {"quick": "all 14 statistics (and gradev) over 8 symbolic points, symbolic rate, phase and frequency, list/keyword/default taus, recompute, set_input, failing computations; "
                   "write_results with 1..4 rows, 2..9 digits, tau lists that start at 1, 2, 3 and are not multiples of each other; the averaging factor column also under the floating-point rounding error model",
          "thorough": "the same over 8, 12 and 18 points and 2..15 digits"}
OUTSIDE = "longer series; the decimal rounding done by Python's own number formatting; writing to an unwritable file"
KEYS = ("taus", "stat", "stat_err", "stat_n")


def rowsof(ctx, lab, out, direct):
    for j, k in enumerate(KEYS):
        if k not in out:
            ctx.fail("%s: no %r in the result" % (lab, k))
            continue
        a, b = out[k], direct[j]
        if isinstance(b, list) and len(b) and hasattr(b[0], "__len__"):
            if len(a) != len(b):
                ctx.fail("%s: %s" % (lab, k))
                continue
            for i, (p, q) in enumerate(zip(a, b)):
                ctx.eqlist("%s %s/%d" % (lab, k, i), p, q)
        else:
            ctx.eqlist("%s %s" % (lab, k), a, b)


def taus_of(kind, rate):
    return {"list": [3 / rate, 1 / rate], "none": None, "all": "all", "octave": "octave"}[kind]


def compute(ctx, stat, dt, kind, N=8, via="init"):
    x, y = ctx.reals("x", N), ctx.reals("y", N + 1)
    rate, rate2 = ctx.pos("rate"), ctx.pos("rate2")
    t = taus_of(kind, rate)
    if via == "init":
        d = ctx.call(ctx.at.Dataset, x, rate, dt, t)
    else:
        d = ctx.call(ctx.at.Dataset, y, rate2, "phase", [1 / rate2])
        if not ctx.ok("Dataset", d):
            return
        ctx.call(d.compute, "oadev")
        d.out["stat_unc"] = "left over"
        ctx.ok("set_input", ctx.call(d.set_input, x, rate, dt, t))
    if not ctx.ok("Dataset", d):
        return
    r = ctx.call(d.compute, stat)
    direct = ctx.call(getattr(ctx.at, stat), x, rate=rate, data_type=dt, taus=taus_of(kind, rate))
    if isinstance(direct, Raised):
        return ctx.raises("compute(%s)" % stat, r)
    if not ctx.ok("compute(%s)" % stat, r):
        return
    rowsof(ctx, "returned " + stat, r, direct)
    rowsof(ctx, "stored " + stat, d.out, direct)
    ctx.eq(stat + " stat_id", d.out.get("stat_id"), stat)
    kept = {k: d.out[k] for k in KEYS}
    r["taus"] = r["stat"] = r["stat_err"] = r["stat_n"] = None      # the caller's copy is the caller's
    if any(d.out[k] is not kept[k] for k in KEYS):
        ctx.fail("the stored result changes with the returned dictionary")
    if d.out.get("stat_unc") is not None:
        ctx.fail("a result of an earlier computation is left")
    if d.inp["data"] is not x or d.inp["data_type"] != dt or d.inp["rate"] is not rate:
        ctx.eqlist("stored data", d.inp["data"], x)
        ctx.eq("stored rate", d.inp["rate"], rate)
        ctx.eq("stored type", d.inp["data_type"], dt)
    # a second statistic replaces everything
    other = "hdev" if stat != "hdev" else "mdev"
    r = ctx.call(d.compute, other)
    direct = ctx.call(getattr(ctx.at, other), x, rate=rate, data_type=dt, taus=taus_of(kind, rate))
    if isinstance(direct, Raised):
        return ctx.raises("compute(%s)" % other, r)
    if ctx.ok("compute(%s)" % other, r):
        rowsof(ctx, "replaced " + other, d.out, direct)
        ctx.eq(other + " stat_id", d.out.get("stat_id"), other)


BAD = ["nosuch", "tau_generator", "edf_simple", "frequency2phase", "np", "Dataset", "edf_totdev", "gcodev", "trim_data", "mask", "", "theo", "psd2allan", "mtie_phase_fast", "__name__"]


def refuse(ctx, name=None, how="name"):
    x = ctx.reals("x", 8)
    rate = ctx.pos("rate")
    d = ctx.at.Dataset(x, rate, "phase", [1 / rate])
    if not ctx.ok("compute", ctx.call(d.compute, "adev")):
        return
    if how == "type":
        d.set_input(x, rate, "nonsense", [1 / rate])
        name = "oadev"
    elif how == "taus":
        d.set_input(x, rate, "phase", [99 / rate])
        name = "oadev"
    elif how == "rate":
        d.set_input(x, 0.0, "phase", [1.0])
        name = "oadev"
    before, inp = dict(d.out), dict(d.inp)
    r = ctx.call(d.compute, name)
    ctx.raises("compute(%r) [%s]" % (name, how), r)
    for old, new, w in ((before, d.out, "result"), (inp, d.inp, "input")):
        ctx.checked()
        if set(old) != set(new):
            ctx.fail("stored %s: keys changed by a failed computation" % w)
            continue
        for k in old:
            if new[k] is not old[k] and not (isinstance(old[k], str) and old[k] == new[k]):
                try:
                    ctx.eqlist("stored %s %s unchanged" % (w, k), new[k], old[k])
                except TypeError:
                    ctx.eq("stored %s %s unchanged" % (w, k), new[k], old[k])


def write(ctx, stat, ms, digits, fp=False, N=12, default=False):
    x = ctx.reals("x", N)
    rate = ctx.pos("rate")
    if fp:
        ctx.fp(True)
    d = ctx.call(ctx.at.Dataset, x, rate, "phase", [m / rate for m in ms])
    r = ctx.call(d.compute, stat)
    ctx.fp(False) if not fp else None
    if isinstance(r, Raised):
        ctx.fp(False)
        return ctx.ok("compute", r)
    out = {k: r[k] for k in KEYS}
    f = ctx.outfile()
    w = ctx.call(d.write_results, f) if default else ctx.call(d.write_results, f, digits=digits, header_params={"clock": "maser-7", "v0": "1e7"})
    ctx.fp(False)
    if not ctx.ok("write_results", w):
        return
    lines = ctx.text_of(f).split("\n")
    rows = []
    for l in lines:
        if l.startswith("#") or not l.split():
            continue
        p = l.split()
        if ctx.field(p[0]) is not None:
            rows.append(p)
    n = len(out["taus"])
    if len(rows) != n:
        return ctx.fail("write_results: %d rows, %d taus" % (len(rows), n))
    lo, hi = (out["stat_err"] if stat == "gradev" else ([e / 2 for e in out["stat_err"]],) * 2)
    for i, p in enumerate(rows):
        fl = [ctx.field(p[j]) for j in (0, 1, 2, -3, -2, -1)]
        if any(v is None for v in fl):
            return ctx.fail("write_results row %d: %r" % (i, p))
        if fp:
            ctx.eq("row %d averaging factor" % i, fl[0][0], ctx.rint(sorted(set(ms))[i]))
            continue
        ctx.eq("row %d averaging factor" % i, fl[0][0], out["taus"][i] * rate)
        ctx.eq("row %d n" % i, fl[2][0], out["stat_n"][i])
        dev = out["stat"][i]
        for lab, f_, want in (("tau", fl[1], out["taus"][i]), ("min", fl[3], dev - lo[i]), ("dev", fl[4], dev), ("max", fl[5], dev + hi[i])):
            ctx.printed("row %d %s" % (i, lab), f_, want, digits)


def header(ctx, dt, rate, params):
    x = ctx.reals("x", 8)
    d = ctx.at.Dataset(x, rate, dt, [1 / rate, 2 / rate])
    if not ctx.ok("compute", ctx.call(d.compute, "oadev")):
        return
    f = ctx.outfile()
    if not ctx.ok("write_results", ctx.call(d.write_results, f, header_params=params)):
        return
    lines = ctx.text_of(f).split("\n")
    ctx.checked()
    head = []
    for l in lines:
        if l.split() and ctx.field(l.split()[0]) is not None:
            break
        head.append(l)
    head = [l for l in head if l.startswith("#")]
    if not any(dt in l for l in head):
        ctx.fail("header does not name the data type")
    if not any(str(rate) in l for l in head):
        ctx.fail("header does not name the rate")
    for k, v in params.items():
        if not any(str(k) in l and str(v) in l for l in head):
            ctx.fail("header does not name parameter %s" % k)
    # a second file without parameters must not carry the first one's
    f = ctx.outfile()
    if ctx.ok("write_results", ctx.call(d.write_results, f)):
        t = ctx.text_of(f)
        if any(str(k) in t for k in params):
            ctx.fail("header parameters of an earlier call are left")


def jobs(tier):
    q = tier == "quick"
    out = []
    for st in ALL + ["gradev"]:
        for dt in ("phase", "freq"):
            for kind, via in (("list", "init"), ("none", "set"), ("all", "set")):
                if st == "gradev" and kind != "list":
                    continue
                for N in (8,) if q else (8, 12, 18):
                    if st == "gradev" and N > 8:
                        continue
                    N = 9 if st == "htotdev" and N == 8 else N
                    out.append(dict(h="compute", params=dict(stat=st, dt=dt, kind=kind, N=N, via=via), cost=N * (5 if st in SLOW or st == "gradev" else 1)))
    for b in BAD:
        out.append(dict(h="refuse", params=dict(name=b)))
    for how in ("type", "taus", "rate"):
        out.append(dict(h="refuse", params=dict(how=how)))
    for st in ALL + ["gradev"]:
        for ms, dg in [([1], 5), ([2, 3], 3), ([1, 2, 3], 9)]:
            if st == "theo1":
                ms = [2 * m for m in ms]
            out.append(dict(h="write", params=dict(stat=st, ms=ms, digits=dg), cost=3))
    for ms in ([3, 4, 5], [2, 3], [1, 2, 3, 4]):
        for dg in ((2, 7) if q else (2, 7, 11, 15)):
            out.append(dict(h="write", params=dict(stat="oadev", ms=ms, digits=dg)))
    out.append(dict(h="write", params=dict(stat="oadev", ms=[1, 3], digits=5, default=True)))
    for ms in ([1, 3], [3, 5], [2, 5]):
        out.append(dict(h="write", params=dict(stat="oadev", ms=ms, digits=5, fp=True)))
    for dt in ("phase", "freq"):
        out.append(dict(h="header", params=dict(dt=dt, rate=0.3125, params={"operator": "abc", "site": 17})))
        out.append(dict(h="header", params=dict(dt=dt, rate=1e-3, params={"zz%d" % (17 * i % 13): "v%d" % i for i in range(13)})))
    for ms in (list(range(1, 14)), [1, 99, 100]):
        out.append(dict(h="write", params=dict(stat="oadev", ms=ms, digits=4, N=3 * max(ms)), cost=20))
    return out
