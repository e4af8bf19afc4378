"""Stand-ins for builtins, math, scipy, matplotlib etc., and the loader that lifts /repo/allantools into them."""
import ast
import re
import builtins
import importlib
import io
import math
import os
import sys
import types
from fractions import Fraction
import numpy as np
from . import poly as P
from . import sarr as A
from . import miniplot
from .poly import Sym, SymBool, CSym, Unsupported, F64
from .sarr import SA, SelSA, anysym, is_sym, obj, sa, wrap, emap

REPO = os.environ.get("VERIF_REPO", "/repo")


# ------------------------------------------------------------------------------------------------ builtins

def _seq(args, key=None, default=None):
    if len(args) == 1:
        return list(args[0])
    return list(args)


def b_max(*args, **kw):
    xs = _seq(args)
    if kw.get("key") is None and any(is_sym(x) for x in xs):
        if not xs:
            raise ValueError("max() arg is an empty sequence")
        return P.s_max(xs)
    if kw.get("key") is not None:
        ks = [kw["key"](x) for x in xs]
        b = 0
        for i in range(1, len(xs)):
            if bool(ks[i] > ks[b]):
                b = i
        return xs[b]
    return builtins.max(*args, **kw) if len(args) > 1 else builtins.max(xs, **kw)


def b_min(*args, **kw):
    xs = _seq(args)
    if kw.get("key") is None and any(is_sym(x) for x in xs):
        if not xs:
            raise ValueError("min() arg is an empty sequence")
        return P.s_min(xs)
    if kw.get("key") is not None:
        ks = [kw["key"](x) for x in xs]
        b = 0
        for i in range(1, len(xs)):
            if bool(ks[i] < ks[b]):
                b = i
        return xs[b]
    return builtins.min(*args, **kw) if len(args) > 1 else builtins.min(xs, **kw)


def b_sum(xs, start=0):
    if isinstance(xs, SelSA):
        return xs.sum() + start
    xs = list(xs)
    if any(isinstance(x, (Sym, SymBool, CSym)) for x in xs) and all(P.is_scalar(x) for x in xs):
        r = A.count(xs)
        if is_sym(start) or not P.is_scalar(start) or start != 0:
            return start + r
        return r
    return builtins.sum(xs, start)


def b_abs(x):
    if isinstance(x, SA):
        return A.apply_ufunc("absolute", x)
    return builtins.abs(x)


def b_pow(a, b, m=None):
    if m is not None:
        return builtins.pow(a, b, m)
    if is_sym(a) or is_sym(b):
        return P.g_pow(a, b)
    return builtins.pow(a, b)


def b_round(x, n=None):
    if is_sym(x):
        if n is None:
            r = P.s_rint(x)
            return P.concretize_int(r) if isinstance(r, Sym) else int(r)
        return P.s_round(x, n)
    return builtins.round(x) if n is None else builtins.round(x, n)


def b_divmod(a, b):
    if is_sym(a) or is_sym(b):
        return P.s_floordiv(a, b), P.s_mod(a, b)
    return builtins.divmod(a, b)


def b_any(xs):
    r = False
    for x in xs:
        if isinstance(x, SymBool):
            r = P.b_or(r, x)
        elif x:
            return True
    return r if isinstance(r, bool) else bool(r)


def b_all(xs):
    r = True
    for x in xs:
        if isinstance(x, SymBool):
            r = P.b_and(r, x)
        elif not x:
            return False
    return r if isinstance(r, bool) else bool(r)


def b_sorted(xs, key=None, reverse=False):
    xs = list(xs)
    if key is None and any(is_sym(x) for x in xs):
        r = A.sorted_sym(xs)
        return r[::-1] if reverse else r
    return builtins.sorted(xs, key=key, reverse=reverse)


def b_isinstance(x, t):
    return builtins.isinstance(x, t)


_PCT = re.compile(r"%(\((\w+)\))?([-#0 +]*)(\d+|\*)?(\.(\d+|\*))?[hlL]?([diouxXeEfFgGcrsa%])")


def b_strmod(l, r):
    if isinstance(l, str):
        seq = list(r) if isinstance(r, tuple) else ([r[k] for k in r] if isinstance(r, dict) else [r])
        if not any(is_sym(e) or isinstance(e, (SA, SelSA)) for e in seq):
            return l % r
        if isinstance(r, (np.ndarray, SA, SelSA)) and '%' not in l.replace('%%', ''):
            return l.replace('%%', '%')
        it = iter(seq)

        def one(m):
            if m.group(7) == "%":
                return "%"
            v = r[m.group(2)] if m.group(2) else next(it)
            if isinstance(v, (SA, SelSA)) and getattr(v, "size", 0) == 1:
                v = v.reshape(-1)[0]
            if isinstance(v, SymBool):
                v = v.num()
            if isinstance(v, (SA, SelSA)):
                return "<symarray>"
            if is_sym(v):
                return P.fmt_token(v, (m.group(4) or "") + (m.group(5) or "") + m.group(7)) if isinstance(v, Sym) else "<sym>"
            return ("%" + (m.group(3) or "") + (m.group(4) or "") + (m.group(5) or "") + m.group(7)) % v
        return _PCT.sub(one, l)
    return l % r


FILES = {}          # virtual file system for open(..., 'w')


class VFile(io.StringIO):
    def __init__(self, name, mode):
        io.StringIO.__init__(self)
        self.fname = name
        FILES[name] = self
        self.chunks = []

    def write(self, s):
        self.chunks.append(s)
        return len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def text(self):
        return "".join(self.chunks)


def b_open(name, mode="r", *a, **k):
    if "w" in mode or "a" in mode or "x" in mode:
        return VFile(str(name), mode)
    return builtins.open(name, mode, *a, **k)


def b_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Sym):
            return A.FloatShim
        if isinstance(x, SA):
            return np.ndarray
    return builtins.type(*a)


class TypeMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, type)


class BType(metaclass=TypeMeta):
    def __new__(cls, *a):
        return b_type(*a)


# ---------------------------------------------------------------------------------------------------- math

def _m1(name, scname=None):
    real = getattr(math, name)
    sc = A.SC.get(scname or name)

    def f(x, *a):
        if isinstance(x, SA):
            if x.size == 1:
                x = x.view(np.ndarray).reshape(-1)[0]
            else:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
        if is_sym(x):
            return sc(x)
        return real(x, *a)
    return f


def _mint(name):
    real = getattr(math, name)
    sc = {"floor": P.s_floor, "ceil": P.s_ceil, "trunc": P.s_trunc}[name]

    def f(x):
        if is_sym(x):
            return P.concretize_int(sc(x))
        return real(x)
    return f


def _mlog(x, *base):
    if is_sym(x):
        return P.s_log(x) if not base else P.s_div(P.s_log(x), P.s_log(base[0]))
    return math.log(x, *base)


def build_math():
    m = types.ModuleType("math")
    for n in dir(math):
        if not n.startswith("__"):
            setattr(m, n, getattr(math, n))
    for n in ("sqrt", "exp", "sin", "cos", "tan", "sinh", "cosh", "tanh", "log2", "log10", "log1p", "expm1", "fabs"):
        setattr(m, n, _m1(n, {"fabs": "absolute"}.get(n)))
    for n in ("floor", "ceil", "trunc"):
        setattr(m, n, _mint(n))
    m.log = _mlog
    m.atan = _m1("atan", "arctan")
    m.erf = lambda x: P.s_erf(x) if is_sym(x) else math.erf(x)
    m.pow = lambda a, b: P.g_pow(a, b) if is_sym(a) or is_sym(b) else math.pow(a, b)
    m.fsum = lambda xs: b_sum(xs)
    m.isnan = lambda x: P.s_isnan(x) if is_sym(x) else math.isnan(x)
    m.isfinite = lambda x: P.s_isfinite(x) if is_sym(x) else math.isfinite(x)
    m.isinf = lambda x: P.s_isinf(x) if is_sym(x) else math.isinf(x)
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
        P.s_le(P.s_abs(P.s_sub(a, b)), P.s_max([P.s_mul(rel_tol, P.s_max([P.s_abs(a), P.s_abs(b)])), abs_tol]))
        if is_sym(a) or is_sym(b) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol))
    m.hypot = lambda *xs: P.s_sqrt(P.ssum([P.s_mul(x, x) for x in xs])) if any(is_sym(x) for x in xs) else math.hypot(*xs)
    m.copysign = lambda a, b: _uns("copysign") if is_sym(a) or is_sym(b) else math.copysign(a, b)
    m.prod = lambda xs, start=1: A._prod([start] + list(xs))
    return m


def _uns(n):
    raise Unsupported(n)


# --------------------------------------------------------------------------------------------------- scipy

class Hooks(object):
    """per-harness stubs for the parts of scipy that are not code under test"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.chi2ppf = None
        self.quad = None
        self.simpson = None
        self.random = None
        self.log = []


HOOKS = Hooks()


def chi2_ppf(p, df, *a, **k):
    if anysym(p) or anysym(df):
        if isinstance(p, (list, tuple)) or isinstance(df, (list, tuple)):
            p, df = (A.sa(list(v)) if isinstance(v, (list, tuple)) else v for v in (p, df))
        if isinstance(p, SA) or isinstance(df, SA):
            return wrap(emap(lambda x, y: chi2_ppf(x, y), p, df))
        if not is_sym(df) and not (df > 0 and df < math.inf):
            return P.NAN
        if not is_sym(p) and not (0 < p < 1):
            return P.NAN if not (p == p and 0 <= p <= 1) else F64(0.0 if p == 0 else math.inf)
        n0 = len(P.REG.vars)
        v = P.uf("chi2ppf", p, df)
        v.pos = v.nonneg = True
        if len(P.REG.vars) > n0:       # a new quantile: strictly increasing in p for the same degrees of freedom
            v.meta = []
            kd = P.rkey(P.topoly(df))
            me = Sym(P.vpoly(v))
            for w in P.REG.vars[:-1]:
                if w.kind == "uf" and w.arg[0] == "chi2ppf" and P.rkey(w.arg[1][1].p) == kd:
                    q, he = w.arg[1][0], Sym(P.vpoly(w))
                    v.meta.append(P.tobool(P.b_or(P.b_not(P.s_lt(q, p)), P.s_lt(he, me))))
                    v.meta.append(P.tobool(P.b_or(P.b_not(P.s_lt(p, q)), P.s_lt(me, he))))
        return Sym(P.vpoly(v), True)
    import scipy.stats
    return scipy.stats.chi2.ppf(p, df)


def _chi2ppf_eval(p, df):
    import scipy.stats
    return float(scipy.stats.chi2.ppf(p, df))


P.UF_EVAL["chi2ppf"] = _chi2ppf_eval


class Chi2(object):
    @staticmethod
    def ppf(q, df, loc=0, scale=1):
        r = chi2_ppf(q, df)
        return r

    @staticmethod
    def isf(q, df):
        return chi2_ppf(P.s_sub(1, q) if is_sym(q) else 1 - q, df)

    @staticmethod
    def interval(confidence, df):
        lo = P.s_div(P.s_sub(1, confidence), 2) if is_sym(confidence) else (1 - confidence) / 2
        hi = P.s_div(P.s_add(1, confidence), 2) if is_sym(confidence) else (1 + confidence) / 2
        return chi2_ppf(lo, df), chi2_ppf(hi, df)

    def __call__(self, df):
        return FrozenChi2(df)

    def __getattr__(self, n):
        raise Unsupported("chi2.%s" % n)


class FrozenChi2(object):
    def __init__(self, df):
        self.df = df

    def ppf(self, q):
        return chi2_ppf(q, self.df)

    def interval(self, c):
        return Chi2.interval(c, self.df)


def sp_simpson(y, *, x=None, dx=1.0, axis=-1):
    from scipy.integrate import simpson as real
    yo = obj(y)
    if not anysym(y) and not anysym(x):
        return real(np.asarray(y), x=x, dx=dx, axis=axis)
    n = yo.shape[axis]
    if x is not None:
        xo = list(obj(x))
        xs = None
        scale = None
        if any(is_sym(e) for e in xo):
            # x = scale * (concrete grid): factor the common symbolic factor
            ref = next(e for e in xo if is_sym(e))
            xs = []
            for e in xo:
                q = P.s_div(e, ref) if not (not is_sym(e) and e == 0) else 0.0
                c = q.const() if isinstance(q, Sym) else P.coef(q)
                if c is None:
                    raise Unsupported("simpson with non-proportional symbolic grid")
                xs.append(float(c))
            scale = ref
        else:
            xs = [float(e) for e in xo]
        W = A.linear_map(lambda e: np.array([real(e, x=np.array(xs))]), n)[0]
    else:
        scale = dx if is_sym(dx) else None
        W = A.linear_map(lambda e: np.array([real(e, dx=1.0 if scale is not None else dx)]), n)[0]
    m = np.moveaxis(yo, axis, -1)

    def one(row):
        r = P.ssum([A.SC["multiply"](F64(w), e) for w, e in zip(W, row)])
        return P.s_mul(r, scale) if scale is not None else r
    if m.ndim == 1:
        return one(m)
    out = np.empty(m.shape[:-1], dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = one(m[idx])
    return out.view(SA)


class Interp1d(object):
    """scipy interp1d lifted: linear in y for a fixed (scaled) grid"""

    def __init__(self, x, y, kind="linear", **k):
        self.x, self.y, self.kind, self.k = list(obj(x)), list(obj(y)), kind, k
        if len(self.x) != len(self.y):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")

    def __call__(self, xn):
        from scipy.interpolate import interp1d as real
        xn_l = list(obj(xn))
        allx = self.x + xn_l
        if any(is_sym(e) for e in allx):
            ref = next(e for e in allx if is_sym(e))

            def sc(e):
                if not is_sym(e) and e == 0:
                    return 0.0
                q = P.s_div(e, ref)
                c = q.const() if isinstance(q, Sym) else P.coef(q)
                if c is None:
                    raise Unsupported("interp1d on non-proportional symbolic grid")
                return float(c)
            gx, gn = [sc(e) for e in self.x], [sc(e) for e in xn_l]
        else:
            gx, gn = [float(e) for e in self.x], [float(e) for e in xn_l]
        lo, hi = min(gx), max(gx)
        if self.k.get("bounds_error", None) is not False and self.k.get("fill_value") != "extrapolate":
            if any(g < lo for g in gn):
                raise ValueError("A value in x_new is below the interpolation range.")
            if any(g > hi for g in gn):
                raise ValueError("A value in x_new is above the interpolation range.")
        n = len(gx)
        M = A.linear_map(lambda e: real(np.array(gx), e, kind=self.kind, **self.k)(np.array(gn)), n)
        return A.apply_linear_full(M, self.y)


def sp_quad(fn, a, b, args=(), **k):
    if HOOKS.quad is not None:
        return HOOKS.quad(fn, a, b, args)
    from scipy.integrate import quad as real
    if anysym(a) or anysym(b) or anysym(args):
        raise Unsupported("quad with symbolic arguments")
    return real(fn, a, b, args=args, **k)


def sp_binom(n, k):
    import scipy.special
    return scipy.special.binom(n, k)


def build_scipy():
    import scipy
    import scipy.stats
    import scipy.special
    import scipy.signal
    import scipy.integrate
    import scipy.interpolate
    import scipy.fft
    stats = A.SubMod("scipy.stats", scipy.stats, {"chi2": Chi2()})
    special = A.SubMod("scipy.special", scipy.special, {})
    special._over["erf"] = lambda x: P.s_erf(x) if is_sym(x) else scipy.special.erf(x)
    special._over["chdtri"] = lambda v, p: chi2_ppf(P.s_sub(1, p) if is_sym(p) else 1 - p, v)
    integrate = A.SubMod("scipy.integrate", scipy.integrate, {"simpson": sp_simpson, "quad": sp_quad, "trapezoid": A.f_trapezoid})
    interpolate = A.SubMod("scipy.interpolate", scipy.interpolate, {"interp1d": Interp1d})
    signal = A.SubMod("scipy.signal", scipy.signal, {"lfilter": sp_lfilter, "convolve": lambda a, b, mode="full", method="auto": A.f_convolve(a, b, mode),
                                                     "fftconvolve": lambda a, b, mode="full", axes=None: A.f_convolve(a, b, mode),
                                                     "detrend": sp_detrend, "welch": sp_welch, "periodogram": sp_periodogram})
    signal._over["oaconvolve"] = signal._over["fftconvolve"]
    import scipy.ndimage
    import scipy.linalg
    nd = A.SubMod("scipy.ndimage", scipy.ndimage, {"uniform_filter1d": A.nd_filter("uniform"), "maximum_filter1d": A.nd_filter("max"), "minimum_filter1d": A.nd_filter("min"),
                                                   "convolve1d": lambda x, weights, *a, **k: A.nd_filter("convolve")(x, None, *a, weights=weights, **k),
                                                   "correlate1d": lambda x, weights, *a, **k: A.nd_filter("correlate")(x, None, *a, weights=weights, **k)})
    for nm in ("uniform", "maximum", "minimum"):
        nd._over[nm + "_filter"] = (lambda f: lambda x, size=None, **k: f(x, size[0] if isinstance(size, (tuple, list)) else size, **k))(nd._over[nm + "_filter1d"])
    linalg = A.SubMod("scipy.linalg", scipy.linalg, {"norm": A.f_norm})
    integrate._over["cumulative_trapezoid"] = sp_cumtrapz
    stats._over["linregress"] = sp_linregress
    fft = A.SubMod("scipy.fft", scipy.fft, {k: (lambda kk: lambda x, n=None, axis=-1, norm=None, **q: A._fftcall(kk, x, n, axis, norm))(k)
                                            for k in ("fft", "ifft", "rfft", "irfft")})
    m = A.SubMod("scipy", scipy, {"stats": stats, "special": special, "integrate": integrate, "interpolate": interpolate,
                                  "signal": signal, "fft": fft, "ndimage": nd, "linalg": linalg})
    return {"scipy": m, "scipy.stats": stats, "scipy.special": special, "scipy.integrate": integrate,
            "scipy.interpolate": interpolate, "scipy.signal": signal, "scipy.fft": fft, "scipy.ndimage": nd, "scipy.linalg": linalg}


def sp_welch(x, fs=1.0, window="hann", nperseg=None, noverlap=None, nfft=None, detrend="constant", return_onesided=True, scaling="density", axis=-1, average="mean"):
    """Welch's estimate of a real symbolic series, exactly"""
    if isinstance(x, (list, tuple)):
        raise Unsupported("welch of a list")
    xs = obj(x)
    if xs.ndim != 1 or any(isinstance(e, CSym) for e in xs) or average != "mean" or not return_onesided or nfft is not None:
        raise Unsupported("welch options")
    xs = list(xs)
    n = len(xs)
    if nperseg is None:
        nperseg = 256
        if not isinstance(window, str):
            raise Unsupported("welch window")
    L = int(nperseg)
    if L < 1:
        raise ValueError("nperseg must be a positive integer")
    L = min(L, n)
    if not isinstance(window, (str, tuple)):
        raise Unsupported("welch window")
    import scipy.signal
    name = {"hann_periodic": "hann"}.get(window, window) if isinstance(window, str) else window
    w = [F64(e) for e in scipy.signal.get_window(name, L)]
    no = L // 2 if noverlap is None else int(noverlap)
    if no >= L:
        raise ValueError("noverlap must be less than nperseg.")
    mul = A.SC["multiply"]
    acc = [[] for _ in range(L // 2 + 1)]
    cnt = 0
    for i in range(0, n - L + 1, L - no):
        s = xs[i:i + L]
        if detrend:
            s = list(sp_detrend(s, type=detrend))
        X = A._dft("rfft", [mul(a, b) for a, b in zip(w, s)])
        for k, c in enumerate(obj(X)):
            acc[k].append(P.s_add(mul(c.re, c.re), mul(c.im, c.im)))
        cnt += 1
    if scaling == "density":
        sc = P.s_mul(fs, F64(sum(float(e) ** 2 for e in w)))
    elif scaling == "spectrum":
        sc = F64(sum(float(e) for e in w) ** 2)
    else:
        raise ValueError("Unknown scaling")
    out = []
    for k, t in enumerate(acc):
        two = 2 if k and not (L % 2 == 0 and k == L // 2) else 1
        out.append(P.s_div(mul(A.ssum(t), F64(two / float(cnt))), sc))
    return sa([P.s_div(P.s_mul(k, fs), F64(L)) for k in range(L // 2 + 1)]), sa(out)


def sp_periodogram(x, fs=1.0, window="boxcar", nfft=None, detrend="constant", return_onesided=True, scaling="density", axis=-1):
    return sp_welch(x, fs, window=window or "boxcar", nperseg=len(x), noverlap=0, nfft=nfft, detrend=detrend, return_onesided=return_onesided, scaling=scaling)


def sp_cumtrapz(y, x=None, dx=1.0, axis=-1, initial=None):
    ys = list(obj(y))
    xs = None if x is None else list(obj(x))
    out = [] if initial is None else [F64(initial)]
    acc = F64(0.0)
    for i in range(len(ys) - 1):
        h = dx if xs is None else P.s_sub(xs[i + 1], xs[i])
        acc = P.s_add(acc, P.s_mul(P.s_mul(P.s_add(ys[i], ys[i + 1]), h), F64(0.5)))
        out.append(acc)
    return sa(out)


class LinReg(tuple):
    slope = property(lambda s: s[0])
    intercept = property(lambda s: s[1])

    def __getattr__(self, n):
        raise Unsupported("linregress " + n)


def sp_linregress(x, y=None, **k):
    xs, ys = list(obj(x)), list(obj(y))
    n = len(xs)
    c = obj(A.f_cov(xs, ys))
    b = P.s_div(c[0, 1], c[0, 0])
    return LinReg((b, P.s_sub(P.s_div(A.ssum(ys), n), P.s_mul(b, P.s_div(A.ssum(xs), n)))))


def build_statistics():
    import statistics
    m = types.ModuleType("statistics")

    def wrapc(name, f):
        return lambda data, *a, **k: f(list(data), *a, **k)

    def some(d):
        if not d:
            raise statistics.StatisticsError("at least one data point required")
        return d

    def var(d, xbar=None, ddof=1):
        if len(d) < ddof + 1:
            raise statistics.StatisticsError("not enough data points")
        mu = P.s_div(A.ssum(d), len(d)) if xbar is None else xbar
        return P.s_div(A.ssum([A._sq(P.s_sub(e, mu)) for e in d]), len(d) - ddof)
    fs = {"mean": lambda d: P.s_div(A.ssum(some(d)), len(d)), "fmean": lambda d, weights=None: P.s_div(A.ssum(some(d)), len(d)) if weights is None else P.s_div(A.ssum([A.SC["multiply"](a, b) for a, b in zip(d, weights)]), A.ssum(list(weights))),
          "variance": var, "pvariance": lambda d, mu=None: var(d, mu, 0), "stdev": lambda d, xbar=None: P.s_sqrt(var(d, xbar)), "pstdev": lambda d, mu=None: P.s_sqrt(var(d, mu, 0)),
          "median": lambda d: A.f_median(some(d))}
    for k, f in fs.items():
        m.__dict__[k] = wrapc(k, f)
    m.StatisticsError = statistics.StatisticsError
    return m


def sp_detrend(x, axis=-1, type="linear", **k):
    from scipy.signal import detrend as real
    xs = list(obj(x))
    return A.apply_linear_full(A.linear_map(lambda e: real(e, type=type), len(xs)), xs)


def sp_lfilter(b, a, x, **k):
    b, a, x = list(obj(b)), list(obj(a)), list(obj(x))
    y = []
    mul = A.SC["multiply"]
    for n in range(len(x)):
        t = [mul(b[j], x[n - j]) for j in range(len(b)) if n - j >= 0]
        t += [P.s_neg(mul(a[j], y[n - j])) for j in range(1, len(a)) if n - j >= 0]
        y.append(A.SC["divide"](P.ssum(t), a[0]))
    return sa(y)


# ------------------------------------------------------------------------------------------------ matplotlib

# ------------------------------------------------------------------------------------------------ random

class RandomShim(types.ModuleType):
    """numpy.random with every normal draw a fresh symbolic variable; a reseed restarts a per-seed stream"""

    def __init__(self):
        types.ModuleType.__init__(self, "numpy.random")
        self._reset()

    def _reset(self):
        self._stream = "w"
        self._n = 0
        self._draws = []

    def _fresh(self):
        self._n += 1
        v = P.invar("%s_%d" % (self._stream, self._n))
        self._draws.append(v)
        return v

    def _arr(self, shape):
        o = np.empty(shape, dtype=object)
        f = o.reshape(-1)
        for i in range(f.size):
            f[i] = self._fresh()
        return o.view(SA)

    def seed(self, s=None):
        if s is None:
            s = 0
        self._stream = "seed%s" % s
        self._n = 0

    def randn(self, *shape):
        if not shape:
            return self._fresh()
        return self._arr(tuple(int(s) for s in shape))

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            return P.s_add(loc, A.SC["multiply"](scale, self._fresh()))
        size = (int(size),) if not isinstance(size, tuple) else size
        a = self._arr(size)
        return a * scale + loc

    def default_rng(self, seed=None):
        r = RandomShim()
        r._draws = self._draws
        r._stream = "rng%s" % (seed if seed is not None else "_%d" % self._n)
        if seed is None:
            self._n += 1
        return r

    RandomState = default_rng

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("numpy.random.%s" % n)


# ------------------------------------------------------------------------------------------------ loader

UNB = object()


def x_not(x):
    x = x.view(np.ndarray).reshape(-1)[0] if isinstance(x, A.SA) and x.size == 1 else x
    if isinstance(x, SymBool):
        return P.b_not(x)
    return not x


def x_symtest(c):
    return isinstance(c, SymBool)


def x_ite(c, a, b):
    if a is UNB or b is UNB:
        raise P.NoMerge()
    return P.merge_ite(c, a, b)


def x_ifexp(c, fa, fb):
    if isinstance(c, SymBool):
        try:
            return P.merge_ite(c, fa(), fb())
        except Exception:
            pass
    return fa() if c else fb()


class ModTransform(ast.NodeTransformer):
    """str % formatting tolerant of symbolic values; function-entry records (for the evidence)"""
    modname = ""

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        rec = ast.Expr(ast.Call(func=ast.Name(id="__fnrec__", ctx=ast.Load()),
                                args=[ast.Constant(self.modname + "." + node.name)], keywords=[]))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            i = 1
        ast.copy_location(rec, node.body[0])
        node.body.insert(i, rec)
        return node

    # --- if-conversion of simple conditional assignments (avoids one path per comparison in running-maximum style loops)
    count = 0

    def _loopbody(self, body):
        """if c: continue; rest  ->  if not c: rest"""
        for i, st in enumerate(body):
            if isinstance(st, ast.If) and len(st.body) == 1 and isinstance(st.body[0], ast.Continue) and not st.orelse and i + 1 < len(body):
                rest = self._loopbody(body[i + 1:])
                n = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=st.test), body=rest, orelse=[])
                return body[:i] + [ast.copy_location(n, st)]
        return body

    def visit_For(self, node):
        node.body = self._loopbody(node.body)
        self.generic_visit(node)
        return node

    def visit_While(self, node):
        node.body = self._loopbody(node.body)
        self.generic_visit(node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(ast.Call(func=ast.Name(id="__not__", ctx=ast.Load()), args=[node.operand], keywords=[]), node)
        return node

    @staticmethod
    def _simple(stmts):
        """names assigned by a list of simple side-effect-free assignments, or None"""
        names = []
        for st in stmts:
            if isinstance(st, ast.Pass):
                continue
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                names.append(st.targets[0].id)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                names.append(st.target.id)
            else:
                return None
            for n in ast.walk(st.value):
                if isinstance(n, ast.Call):
                    f = n.func
                    if isinstance(f, ast.Name) and f.id in ("max", "min", "abs", "float"):
                        continue
                    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy", "math"):
                        continue
                    return None
                if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.NamedExpr,
                                  ast.Await, ast.Yield, ast.YieldFrom)):
                    return None
        return names

    def visit_If(self, node):
        a, b = self._simple(node.body), self._simple(node.orelse)
        self.generic_visit(node)
        if a is None or b is None or not (a or b) or len(a) + len(b) > 12:
            return node
        names = sorted(set(a) | set(b))
        ModTransform.count += 1
        k = ModTransform.count

        def src(txt):
            return ast.parse(txt).body

        def cp(stmts):
            import copy
            return [copy.deepcopy(x) for x in stmts] or [ast.Pass()]
        c = "__c%d" % k
        out = [ast.Assign(targets=[ast.Name(id=c, ctx=ast.Store())], value=node.test)]
        plain = ast.If(test=ast.Name(id=c, ctx=ast.Load()), body=node.body, orelse=node.orelse)
        pre, rest, take, take2, res = [], [], [], [], []
        for n in names:
            pre += src("try:\n    __o%d_%s = %s\nexcept NameError:\n    __o%d_%s = __unb__\n" % (k, n, n, k, n))
            rest += src("if __o%d_%s is __unb__:\n    try:\n        del %s\n    except NameError:\n        pass\nelse:\n    %s = __o%d_%s\n" % (
                k, n, n, n, k, n))
            take += src("__b%d_%s = %s\n" % (k, n, n))
            take2 += src("__r%d_%s = __ite__(%s, __b%d_%s, %s)\n" % (k, n, c, k, n, n))
            res += src("%s = __r%d_%s\n" % (n, k, n))
        import copy
        tr = ast.Try(body=cp(node.body) + take + copy.deepcopy(rest) + cp(node.orelse) + take2 + src("__m%d = True" % k),
                     handlers=[ast.ExceptHandler(type=ast.Name(id="Exception", ctx=ast.Load()), name=None, body=src("__m%d = False" % k))],
                     orelse=[], finalbody=[])
        fin = ast.If(test=ast.Name(id="__m%d" % k, ctx=ast.Load()), body=res, orelse=[copy.deepcopy(plain)])
        out.append(ast.If(test=ast.Call(func=ast.Name(id="__symtest__", ctx=ast.Load()), args=[ast.Name(id=c, ctx=ast.Load())], keywords=[]),
                          body=pre + [tr] + copy.deepcopy(rest) + [fin], orelse=[plain]))
        for o in out:
            for n in ast.walk(o):
                if not hasattr(n, "lineno"):
                    ast.copy_location(n, node)
            ast.copy_location(o, node)
        return out

    def visit_IfExp(self, node):
        self.generic_visit(node)

        def lam(e):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
        return ast.copy_location(ast.Call(func=ast.Name(id="__ifexp__", ctx=ast.Load()), args=[node.test, lam(node.body), lam(node.orelse)],
                                          keywords=[]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(func=ast.Name(id="__strmod__", ctx=ast.Load()), args=[node.left, node.right],
                                              keywords=[]), node)
        return node


CODE = {}


class Lifted(object):
    """one lifted copy of the package"""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.random = RandomShim()
        self.np = A.build_numpy(self.random)
        self.ext = {"numpy": self.np, "math": build_math(), "numpy.random": self.random, "numpy.fft": self.np.fft,
                    "numpy.lib": self.np.lib, "numpy.lib.stride_tricks": self.np.lib.stride_tricks,
                    "numpy.linalg": self.np.linalg}
        self.ext.update(build_scipy())
        self.ext["statistics"] = build_statistics()
        mpl = miniplot.build()
        self.pyplot = mpl["matplotlib.pyplot"]
        self.ext.update(mpl)
        self.printed = []
        self.functions = set()
        self.builtins = self.make_builtins()
        self.pkg = self.load("allantools")

    def make_builtins(self):
        b = dict(vars(builtins))

        def quiet(*a, **k):
            f = k.get("file")
            if f is not None and isinstance(f, VFile):
                f.write(k.get("sep", " ").join(str(x) for x in a) + k.get("end", "\n"))
            return None
        b.update({"float": A.FloatShim, "int": A.IntShim, "complex": A.ComplexShim, "max": b_max, "min": b_min, "sum": b_sum, "abs": b_abs,
                  "pow": b_pow, "round": b_round, "divmod": b_divmod, "any": b_any, "all": b_all, "sorted": b_sorted,
                  "print": quiet, "open": b_open, "type": BType, "__strmod__": b_strmod, "__not__": x_not, "__symtest__": x_symtest, "__ite__": x_ite, "__ifexp__": x_ifexp, "__unb__": UNB, "__fnrec__": self.functions.add, "__import__": self.imp})
        return b

    def path(self, name):
        rel = name.split(".")[1:]
        base = os.path.join(self.repo, "allantools", *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.exists(base + ".py"):
            return base + ".py", False
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path, ispkg = self.path(name)
        if path is None:
            raise ImportError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        code = CODE.get(path)
        if code is None:
            with builtins.open(path) as fp:
                src = fp.read()
            t = ModTransform()
            t.modname = name.partition(".")[2] or name
            tree = t.visit(ast.parse(src, path))
            ast.fix_missing_locations(tree)
            code = CODE[path] = compile(tree, path, "exec")
        exec(code, m.__dict__)
        if "." in name:
            par, _, leaf = name.rpartition(".")
            if par in self.modules:
                # a submodule becomes an attribute of its package unless the package already rebound the name
                setattr(self.modules[par], leaf, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals.get("__name__", "")
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = pkg + ("." + name if name else "")
        else:
            full = name
        if full == "allantools" or full.startswith("allantools."):
            parts = full.split(".")
            cur = "allantools"
            self.load(cur)
            for p in parts[1:]:
                cur += "." + p
                self.load(cur)
            mod = self.modules[full]
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(mod, f):
                        sub = full + "." + f
                        if self.path(sub)[0]:
                            self.load(sub)
                return mod
            return mod if level else self.modules["allantools"]
        if full in self.ext:
            if fromlist:
                mod = self.ext[full]
                for f in fromlist:
                    sub = full + "." + f
                    if sub in self.ext and not isinstance(mod, A.SubMod):
                        setattr(mod, f, self.ext[sub])
                return mod
            if "." in full:
                return self.ext[full.split(".")[0]]
            return self.ext[full]
        top = full.split(".")[0]
        if top in ("numpy", "scipy", "matplotlib", "numba", "pandas"):
            if top in self.ext:
                # resolve attribute chain on the stand-in
                cur = self.ext[top]
                for p in full.split(".")[1:]:
                    cur = getattr(cur, p)
                return cur if fromlist else self.ext[top]
            raise ImportError("No module named %r" % full)
        return builtins.__import__(name, None, None, fromlist, 0)
