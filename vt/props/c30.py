"""C30 integer-typed data."""
from .c10 import ALL, compare

MACHINE_INTS = True
TYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
BOUNDS = {"quick": "all eight machine-integer types x 14 statistics, gradev, gcodev, the three-cornered hat, B1 and R(n) at 7 to 12 points with several averaging factors, the 14 statistics also at 25 points; every value of the type (as a real relaxation of the integers); arrays; integer frequency data for the 14 statistics; phase to frequency and frequency to phase conversion",
          "thorough": "as quick with every m at 7..16 points and 40 points at selected m"}
OUTSIDE = "longer series; loss of precision when 64-bit values are rounded to floating point; the printed debugging output of mtie_phase_fast"
ASSUME = "numpy's integer types wrap modulo 2**bits and promote as documented (NEP 50); sums of small integers are accumulated in 64 bits"


def stat(ctx, stat, n, ms, dtype, data_type="phase"):
    a, b = ctx.int_arrays("x", n, dtype)
    f = getattr(ctx.at, stat)
    taus = [float(m) for m in ms]
    r = ctx.call(f, a, rate=1.0, data_type=data_type, taus=taus)
    q = ctx.call(f, b, rate=1.0, data_type=data_type, taus=taus)
    compare(ctx, stat, r, q)


def pair(ctx, n, ms, dtype, what):
    a, b = ctx.int_arrays("x", n, dtype)
    c, d = ctx.int_arrays("y", n, dtype)
    taus = [float(m) for m in ms]
    if what == "gcodev":
        r = ctx.call(ctx.at.gcodev, a, c, rate=1.0, data_type="phase", taus=taus)
        q = ctx.call(ctx.at.gcodev, b, d, rate=1.0, data_type="phase", taus=taus)
        return compare(ctx, what, r, q)
    e, g = ctx.int_arrays("z", n, dtype)
    f = ctx.at.oadev
    r = ctx.call(ctx.at.three_cornered_hat_phase, a, c, e, 1.0, taus, f)
    q = ctx.call(ctx.at.three_cornered_hat_phase, b, d, g, 1.0, taus, f)
    compare(ctx, what, r, q)


def ratio(ctx, n, m, dtype, what):
    a, b = ctx.int_arrays("x", n, dtype)
    f = getattr(ctx.at.ci, what)
    r, q = ctx.call(f, a, m, 1.0), ctx.call(f, b, m, 1.0)
    if ctx.ok(what, r) and ctx.ok(what, q):
        ctx.eq(what, r, q)


def fast(ctx, n, dtype):
    if not hasattr(ctx.at, "mtie_phase_fast"):
        return ctx.checked()
    a, b = ctx.int_arrays("x", n, dtype)
    compare(ctx, "mtie_phase_fast", ctx.call(ctx.at.mtie_phase_fast, a), ctx.call(ctx.at.mtie_phase_fast, b))


def conv(ctx, n, dtype, what):
    a, b = ctx.int_arrays("x", n, dtype)
    f = getattr(ctx.at, what)
    args = (1.0,) if what != "frequency2fractional" else ()
    r, q = ctx.call(f, a, *args), ctx.call(f, b, *args)
    if not ctx.ok(what, r) or not ctx.ok(what, q):
        return
    r, q = list(r), list(q)
    if len(r) != len(q):
        return ctx.fail("%s: %d values" % (what, len(r)))
    for i in range(len(r) - (what == "frequency2phase")):       # (the last phase value is 0 up to rounding)
        ctx.eq("%s[%d]" % (what, i), r[i], q[i])


def jobs(tier):
    q = tier == "quick"
    out = []
    for dt in TYPES:
        for s in ALL + ["gradev"]:
            sets = [(9, [1, 2]), (25, [1, 3, 4, 6])] if q else [(7, [1, 2]), (12, [1, 2, 3, 4]), (16, list(range(1, 8)))]
            if s == "theo1":
                sets = [(9, [2, 4]), (25, [2, 6, 8])]
            elif s in ("mtotdev", "ttotdev", "htotdev"):
                sets = [(10, [1, 2])] if q else [(7, [1, 2]), (11, [1, 2, 3])]
            elif not q:
                sets.append((40, [1, 4, 9]))
            for n, ms in sets:
                out.append(dict(h="stat", params=dict(stat=s, n=n, ms=ms, dtype=dt), cost=n))
            if s != "gradev":
                out.append(dict(h="stat", params=dict(stat=s, n=9, ms=[1, 2], dtype=dt, data_type="freq"), cost=9))
        for w in ("gcodev", "hat"):
            out.append(dict(h="pair", params=dict(n=7, ms=[1, 2], dtype=dt, what=w), cost=9))
        for w in ("rn", "b1"):
            out.append(dict(h="ratio", params=dict(n=12, m=2, dtype=dt, what=w), cost=9))
        out.append(dict(h="fast", params=dict(n=4, dtype=dt), cost=9))
        for w in ("phase2frequency", "frequency2phase", "phase2radians", "frequency2fractional"):
            out.append(dict(h="conv", params=dict(n=6, dtype=dt, what=w)))
    return out
