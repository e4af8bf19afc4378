"""C31 numpy_psd: one-sided periodogram with the right scale and frequencies."""
import math

BOUNDS = {"quick": "every real series of 1..13, 16, 17, 31..33, 50, 64 and 65 points and every sampling rate; scipy_psd: 8..40 points in 1 to 4 segments (default options too)", "thorough": "every real series of 1..40 points, every sampling rate; scipy_psd: 4..47 points"}
OUTSIDE = "longer series; rounding of the FFT; scipy.signal.welch itself (replaced by its definition)"


def psd(ctx, N, default=False, aslist=False):
    x = ctx.reals("x", N)
    fs = ctx.pos("fs") if not default else 1.0
    xs = list(x)
    a = xs if aslist else x
    r = ctx.call(ctx.at.noise.numpy_psd, a) if default else ctx.call(ctx.at.noise.numpy_psd, a, fs)
    if not ctx.ok("numpy_psd", r):
        return
    f, S = list(r[0]), list(r[1])
    if len(f) != N // 2 + 1 or len(S) != N // 2 + 1:
        return ctx.fail("numpy_psd: %d frequencies, %d values, expected %d" % (len(f), len(S), N // 2 + 1))
    for k in range(N // 2 + 1):
        ctx.eq("f[%d]" % k, f[k], k * fs / N)
        c = ctx.sum([xs[t] * math.cos(2 * math.pi * (k * t % N) / N) for t in range(N)])
        s = ctx.sum([xs[t] * math.sin(2 * math.pi * (k * t % N) / N) for t in range(N)])
        ctx.eq("S[%d]" % k, S[k] * fs, (c * c + s * s) * 2 / N)


def welch(ctx, N, seg, default=False):
    """scipy_psd: half-overlapping segments of N/seg points, mean removed, Hann window"""
    x = ctx.reals("x", N)
    xs = list(x)
    fs = 1.0 if default else ctx.pos("fs")
    r = ctx.call(ctx.at.noise.scipy_psd, x) if default else ctx.call(ctx.at.noise.scipy_psd, x, fs, seg)
    if not ctx.ok("scipy_psd", r):
        return
    f, S = list(r[0]), list(r[1])
    L = N // seg
    K = L // 2 + 1
    if len(f) != K or len(S) != K:
        return ctx.fail("scipy_psd: %d frequencies, %d values, expected %d" % (len(f), len(S), K))
    w = [0.5 - 0.5 * math.cos(2 * math.pi * t / L) for t in range(L)] if L > 1 else [1.0]
    norm = sum(v * v for v in w)
    parts = []
    i = 0
    while i + L <= N:
        s = xs[i:i + L]
        mean = ctx.sum(s) / L
        parts.append([w[t] * (s[t] - mean) for t in range(L)])
        i += L - L // 2
    for k in range(K):
        ctx.eq("f[%d]" % k, f[k], k * fs / L)
        p = []
        for s in parts:
            c = ctx.sum([s[t] * math.cos(2 * math.pi * (k * t % L) / L) for t in range(L)])
            d = ctx.sum([s[t] * math.sin(2 * math.pi * (k * t % L) / L) for t in range(L)])
            p.append(c * c + d * d)
        two = 2 if 0 < k and 2 * k != L else 1
        ctx.eq("S[%d]" % k, S[k] * fs, ctx.sum(p) * (two / len(parts) / norm))


def jobs(tier):
    Ns = list(range(1, 14)) + [16, 17, 31, 32, 33, 50, 64, 65] if tier == "quick" else range(1, 41)
    out = [dict(h="psd", params=dict(N=N), cost=N * N) for N in Ns]
    out += [dict(h="psd", params=dict(N=N, default=True)) for N in (7, 8)]
    out += [dict(h="psd", params=dict(N=N, aslist=True)) for N in (5, 6)]
    for N in (8, 11, 16, 17, 23, 32, 40) if tier == "quick" else list(range(4, 48)):
        for seg in (4, 1, 2, 3):
            if N // seg > 0 and (seg > 1 or N <= 17):
                out.append(dict(h="welch", params=dict(N=N, seg=seg), cost=N * N))
    out += [dict(h="welch", params=dict(N=N, seg=4, default=True)) for N in (9, 16)]
    return out
