"""C25 predicted noise levels."""
import math

BOUNDS = {"quick": "b = 0, -1, -2, -3, -4; every positive qd, tau0 and tau >= tau0; before and after generating noise of 3 points", "thorough": "the same, 8 points generated"}
OUTSIDE = "non-integer b; tau below tau0 (flicker PM coefficient may become negative)"
L2, L3 = math.log(2), math.log(3)
PI2 = math.pi ** 2
AVAR = {0: (None, -2), -1: (None, -2), -2: (0.5, -1), -3: (2 * L2, 0), -4: (2 * PI2 / 3, 1)}
MVAR = {0: (3 / (8 * PI2), -3), -1: ((24 * L2 - 9 * L3) / (8 * PI2), -2), -2: (0.25, -1), -3: (27 * L2 / 20, 0), -4: (11 * PI2 / 20, 1)}
PVAR = {0: 3 / (2 * PI2), -1: 3 * (4 * L2 - 1) / (2 * PI2), -2: 3. / 5, -3: 2 * (7 - 4 * L2) / 5, -4: 26 * PI2 / 35}
GAMMA = 0.57721566490153286


def powr(x, e):
    return x ** e if e >= 0 else 1 / x ** (-e)


def levels(ctx, b, gen=0):
    qd, tau0, k = ctx.pos("qd"), ctx.pos("tau0", (.1, 1)), ctx.pos("k", (1, 9))
    ctx.assume(k >= 1)
    tau = k * tau0
    ctx.draws()
    if b == -1:
        ctx.assume(ctx.log(math.pi * k) >= math.log(math.pi))      # log is monotone, k >= 1
    o = ctx.call(ctx.at.Noise, gen or 4, qd, b)
    if not ctx.ok("Noise", o):
        return
    if gen:
        ctx.call(o.generateNoise)
    g = ctx.call(o.phase_psd_from_qd, tau0)
    h = ctx.call(o.frequency_psd_from_qd, tau0)
    if not (ctx.ok("phase_psd_from_qd", g) and ctx.ok("frequency_psd_from_qd", h)):
        return
    ctx.eq("phase psd", g, 2 * qd * (2 * math.pi) ** b * powr(tau0, b + 1))
    ctx.eq("frequency psd", h, 2 * qd * (2 * math.pi) ** (b + 2) * powr(tau0, b + 1))
    ctx.eq("frequency = (2 pi)^2 phase", h, (2 * math.pi) ** 2 * g)
    ca, pa = AVAR[b]
    if b == 0:
        ca = 3 / (8 * PI2) / tau0
    elif b == -1:
        ca = (3 * GAMMA - L2 + 3 * ctx.log(math.pi * k)) / (4 * PI2)
    cm, pm = MVAR[b]
    for nm, c, p, fn in (("adev", ca, pa, o.adev), ("mdev", cm, pm, o.mdev)):
        r = ctx.call(fn, tau0, tau)
        if not ctx.ok(nm, r):
            continue
        ctx.eq2(nm, r, c * h * powr(tau, p))
        ctx.true(nm + " > 0", r > 0)
        s = ctx.call(ctx.at.Noise, 4, 4 * qd, b)
        if ctx.ok("Noise", s):
            q = ctx.call(getattr(s, nm), tau0, tau)
            if ctx.ok(nm, q):
                ctx.eq2(nm + " scales as sqrt(qd)", q, 4 * r * r)
    for nm, c, fn in (("adev_from_qd", ca, o.adev_from_qd), ("mdev_from_qd", cm, o.mdev_from_qd), ("pdev_from_qd", PVAR[b], o.pdev_from_qd)):
        r = ctx.call(fn, tau0, tau)
        if ctx.ok(nm, r):
            ctx.eq2(nm, r, c * h)
            ctx.true(nm + " > 0", r > 0)
    for nm, want, fn in (("c_avar", pa, o.c_avar), ("c_mvar", pm, o.c_mvar)):
        r = ctx.call(fn)
        if ctx.ok(nm, r):
            ctx.eq(nm, r, want)


def jobs(tier):
    return [dict(h="levels", params=dict(b=b, gen=g)) for b in (0, -1, -2, -3, -4) for g in (0, 3 if tier == "quick" else 8)]
