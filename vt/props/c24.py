"""C24 noise generators."""
import math
from itertools import permutations
from ..ctx import total

BOUNDS = {"quick": "white, brown, violet: 1..12 points, every draw, every level, every sampling rate; and 31, 64, 100 points; Kasdin: 2..10 points, every draw, qd and exponent b, 16, 33, 64 points for b = 0, -1, -2, -2.5, -3, -4; pink: depth 1..8 up to 20 points, depth 16, 20, 33, 80 up to 170 points (several refills), every draw; each generator called twice",
          "thorough": "white, brown, violet: up to 40 points; Kasdin up to 20; pink: depth up to 12, 60 points"}
OUTSIDE = "longer series; the distribution of numpy's random source; rounding of the FFT convolution"


def white(ctx, n):
    D = ctx.draws()
    b0, fs = ctx.pos("b0"), ctx.pos("fs")
    for k in range(2):
        r = ctx.call(ctx.at.noise.white, n, b0, fs)
        if not ctx.ok("white", r):
            return
        w = D.take()
        if len(w) != n:
            return ctx.fail("white: %d draws for %d points" % (len(w), n))
        if len(r) != n:
            return ctx.fail("white: %d points instead of %d" % (len(r), n))
        for i in range(n):
            ctx.eq2("white[%d]^2" % i, ctx.abs(r[i]), b0 * fs / 2 * w[i] * w[i])
            ctx.eq("white[%d]" % i, r[i], ctx.sqrt(b0 * fs / 2) * w[i])


def brown(ctx, n):
    D = ctx.draws()
    b, fs = ctx.pos("b"), ctx.pos("fs")
    for k in range(2):
        r = ctx.call(ctx.at.noise.brown, n, b, fs)
        if not ctx.ok("brown", r):
            return
        w = D.take()
        if len(w) != n or len(r) != n:
            return ctx.fail("brown: %d draws, %d points instead of %d" % (len(w), len(r), n))
        for i in range(n):
            ctx.eq("brown[%d]" % i, r[i] * fs, ctx.sqrt(b * (4 * math.pi * math.pi) * fs / 2) * total(w[:i + 1]))


def violet(ctx, n):
    D = ctx.draws()
    b, fs = ctx.pos("b"), ctx.pos("fs")
    for k in range(2):
        r = ctx.call(ctx.at.noise.violet, n, b, fs)
        if not ctx.ok("violet", r):
            return
        w = D.take()
        if len(w) != n + 1 or len(r) != n:
            return ctx.fail("violet: %d draws, %d points instead of %d" % (len(w), len(r), n))
        for i in range(n):
            ctx.eq("violet[%d]" % i, r[i], fs * ctx.sqrt(b / (2 * math.pi) ** 2 * fs / 2) * (w[i + 1] - w[i]))


def kasdin(ctx, n, via="init", b=None):
    D = ctx.draws()
    qd = ctx.pos("qd")
    if b is None:
        b = ctx.real("b", (-4, 1))
    cls = ctx.at.Noise
    if via == "init":
        o = ctx.call(cls, n, qd, b)
    else:
        o = ctx.call(cls, 4, 1, 0)
        if ctx.ok("Noise", o):
            ctx.ok("set_input", ctx.call(o.set_input, n, qd, b))
    if not ctx.ok("Noise", o):
        return
    h = [1]
    for k in range(1, n):
        h.append(h[-1] * (k - 1 - b / 2) / k)
    for k in range(2):
        if not ctx.ok("generateNoise", ctx.call(o.generateNoise)):
            return
        w = D.take()
        ts = o.time_series
        if len(w) != n or len(ts) != n:
            return ctx.fail("Kasdin: %d draws, %d points instead of %d" % (len(w), len(ts), n))
        for i in range(n):
            ctx.eq("Kasdin[%d]" % i, ts[i], ctx.sqrt(qd) * total([h[j] * w[i - j] for j in range(i + 1)]))
    ctx.eq("qd kept", o.qd, qd)
    ctx.eq("b kept", o.b, b)


def pink(ctx, n, depth):
    D = ctx.draws()
    for k in range(2):
        r = ctx.call(ctx.at.noise.pink, n, depth)
        if not ctx.ok("pink", r):
            return
        w = D.take()
        if len(r) != n:
            return ctx.fail("pink: %d points instead of %d" % (len(r), n))
        ctx.checked()
        if len(w) % depth or len(w) < 3 * depth:
            return ctx.fail("pink: %d draws for depth %d" % (len(w), depth))
        blocks = [w[i:i + depth] for i in range(0, len(w), depth)]
        best = None
        for perm in permutations(range(3)):           # the order of the three initial draws, and of the two refilled ones, is a convention
            for swap in (False, True):
                o = voss([blocks[i] for i in perm], blocks[3:], n, depth, swap)
                if o is not None and all(ctx.same(a, b) for a, b in zip(r, o)):
                    best = o
                    break
            if best:
                break
        if best is None:
            best = voss(blocks[:3], blocks[3:], n, depth, False)
        if best is None:
            return ctx.fail("pink: too few random numbers drawn")
        ctx.eqlist("pink", r, best)


def voss(init, more, n, depth, swap):
    values, smooth, source = [list(b) for b in init]
    s = total(values)
    out = []
    i = 0
    more = list(more)
    for k in range(n):
        out.append(s + smooth[i])
        if k == n - 1:
            break
        i += 1
        if i == depth:
            i = 0
            if len(more) < 2:
                return None
            smooth, source = more[:2][::-1 if swap else 1]
            more = more[2:]
            continue
        c = (i & -i).bit_length() - 1
        s = s + source[i] - values[c]
        values[c] = source[i]
    return out


def lengths(ctx):
    """default depth, every small length"""
    for n in (1, 2, 79, 80, 81, 161):
        for nm in ("white", "pink", "brown", "violet"):
            ctx.draws()
            r = ctx.call(getattr(ctx.at.noise, nm), n)
            if ctx.ok(nm, r) and len(r) != n:
                ctx.fail("%s(%d) has %d points" % (nm, n, len(r)))
            ctx.checked()


def jobs(tier):
    q = tier == "quick"
    out = []
    for n in list(range(1, 13)) + ([] if q else [17, 24, 40]):
        for h in ("white", "brown", "violet"):
            out.append(dict(h=h, params=dict(n=n), cost=n))
    for n in range(2, 11 if q else 21):
        out.append(dict(h="kasdin", params=dict(n=n), cost=n * n))
    out.append(dict(h="kasdin", params=dict(n=5, via="set"), cost=20))
    for n in (16, 33, 64) + (() if q else (100, 128)):
        for b in (0, -1, -2, -3, -4, -2.5):
            out.append(dict(h="kasdin", params=dict(n=n, b=b, via="init" if n != 33 else "set"), cost=n * n))
    for n in (31, 64, 100):
        for h in ("white", "brown", "violet"):
            out.append(dict(h=h, params=dict(n=n), cost=n))
    for depth, n in ((16, 60), (20, 45), (33, 150), (80, 170)):
        out.append(dict(h="pink", params=dict(n=n, depth=depth), cost=n * 3))
    for depth in ((1, 2, 3, 4, 5, 8) if q else range(1, 13)):
        for n in (1, 2, 5, 20) if q else (1, 2, 5, 20, 60):
            out.append(dict(h="pink", params=dict(n=n, depth=depth), cost=n))
    out.append(dict(h="lengths", params={}))
    return out
