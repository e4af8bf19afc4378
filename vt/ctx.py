"""Harness context.  A harness is one Python function h(ctx, **params); it runs
  * symbolically (SymCtx): inputs are solver variables, the lifted real code runs on them, every assertion is an SMT query;
  * concretely (ConcCtx): the same harness against the real, unmodified package (replay / concordance).
This file must import neither z3 nor the engine at module level: ConcCtx runs in the project's own interpreter."""
import math

REL = 1e-7          # replay: relative disagreement that counts as reproduced
EPS = 1e-9          # symbolic equality: relative coefficient tolerance


def _pysum(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


SUMMER = [_pysum]


def total(xs):
    return SUMMER[0](xs)


class Raised(object):
    def __init__(self, e):
        self.e = e
        self.name = type(e).__name__

    def __repr__(self):
        return "Raised(%s: %s)" % (self.name, self.e)


def isnan(x):
    return isinstance(x, float) and x != x


class Draws(object):
    """record of the standard-normal numbers handed to the code under test"""

    def __init__(self, log):
        self.log = log
        self.at = len(log)

    def take(self):
        r = self.log[self.at:]
        self.at = len(self.log)
        return r


class FakeRandom(object):
    """stand-in for numpy.random in concrete runs: draws come from the recorded environment"""

    def __init__(self, ctx, stream="w", log=None):
        self._ctx, self._stream, self._k, self._log = ctx, stream, 0, [] if log is None else log

    def _one(self):
        self._k += 1
        v = self._ctx._get("%s_%d" % (self._stream, self._k), 0.0, lambda r: round(r.gauss(0, 1), 3))
        self._log.append(v)
        return v

    def seed(self, s=None):
        self._stream, self._k = "seed%s" % (0 if s is None else s), 0

    def _arr(self, shape):
        np = self._ctx.np
        a = np.empty(shape)
        f = a.reshape(-1)
        for i in range(f.size):
            f[i] = self._one()
        return a

    def randn(self, *shape):
        return self._arr(tuple(int(v) for v in shape)) if shape else self._one()

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            return loc + scale * self._one()
        return self._arr(size if isinstance(size, tuple) else (int(size),)) * scale + loc

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def default_rng(self, seed=None):
        r = FakeRandom(self._ctx, "rng%s" % (seed if seed is not None else "_%d" % self._k), self._log)
        if seed is None:
            self._k += 1
        return r

    RandomState = default_rng


class Base(object):
    def checked(self):
        pass

    def call(self, fn, *a, **k):
        try:
            return fn(*a, **k)
        except (RecursionError, MemoryError):
            raise
        except Exception as e:       # noqa: the engine's own signals are BaseException
            return Raised(e)

    def ok(self, label, r):
        """assert that a call did not raise; returns True when it did not"""
        if isinstance(r, Raised):
            self.fail("%s: raised %s: %s" % (label, r.name, str(r.e)[:120]))
            return False
        return True

    def raises(self, label, r):
        self.checked()
        if not isinstance(r, Raised):
            self.fail("%s: returned instead of raising" % label)

    def eqlist(self, label, xs, ys):
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
            self.fail("%s: %d values, expected %d" % (label, len(xs), len(ys)))
            return
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.eq("%s[%d]" % (label, i), x, y)


class ConcCtx(Base):
    """concrete run against the real package"""
    sym = False

    def __init__(self, at, env, rand=None, style=None):
        import numpy
        import random
        self.style = style      # what concrete data look like when the environment does not give them
        self.rng = random.Random(rand) if rand is not None else None
        self.at = at
        self.np = numpy
        self.env = env
        self.fails = []
        self.values = {}
        self.scale = 1.0
        self._mags = []
        self._series = False
        self.used = {}
        self._patched = []
        self._mods = {}
        self._attrs = []

    def _get(self, name, default, draw=None):
        v = self.env.get(name)
        if v is None:
            v = draw(self.rng) if draw and self.rng else default
        v = float(v)
        self.used[name] = v
        return v

    def _draw(self, r, hint):
        if hint:
            return round(r.uniform(*hint), 3)
        if self.style == "int":
            return float(r.randint(-2, 2))
        v = round(r.uniform(-3, 3), 3)
        return {"positive": abs(v), "negative": -abs(v), "large": v * 1e6, "small": v * 1e-6}.get(self.style, v)

    def real(self, name, hint=None):
        v = self._get(name, 0.0, lambda r: self._draw(r, hint))
        self._mags.append(abs(v))
        self.scale = max(self.scale, abs(v))
        return self.np.float64(v)

    def pos(self, name, hint=None):
        """hint: range for concrete sampling only (concordance, witnesses); the solver variable is any positive number"""
        return self.np.float64(self._get(name, 1.0, lambda r: round(r.uniform(*(hint or (0.3, 3))), 3)))

    def intv(self, name, lo, hi):
        v = self._get(name, lo, lambda r: r.randint(int(lo), int(hi)))
        return int(v)

    def flag(self, name):
        return bool(self._get(name, 0.0, lambda r: float(r.random() < 0.5)) > 0.5)

    def reals(self, name, n, dtype=None):
        """a data series: rounding in a result is judged relative to the magnitude of the data"""
        if not self._series:
            self._series = True
            self.scale = max([0.0] + self._mags)
        return self.np.array([self.real("%s%d" % (name, i)) for i in range(n)], dtype=float)

    def int_arrays(self, name, n, dtype):
        i = self.np.iinfo(dtype)
        lo, hi = int(i.min), int(i.max)
        v = [min(hi, max(lo, int(round(self._get("%s%d" % (name, k), 0.0, lambda r: float(r.randint(lo, hi))))))) for k in range(n)]
        a = self.np.array(v, dtype=dtype)
        return a, a.astype(float)

    def fp(self, on):
        pass

    def maybe_nan(self, name, x):
        """replace elements by NaN where flag name<i> is off"""
        return self.np.array([float(v) if self._get("%s%d" % (name, i), 1.0, lambda r: float(r.random() < 0.7)) > 0.5 else float("nan") for i, v in enumerate(x)])

    def is_missing(self, name, n):
        return [1.0 if self._get("%s%d" % (name, i), 1.0) > 0.5 else 0.0 for i in range(n)]

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed()

    def num(self, x):
        try:
            return float(x)
        except TypeError:
            return x

    def arr(self, xs):
        return self.np.array([float(x) for x in xs])

    def fail(self, label):
        self.fails.append((label, None, None))

    def _rec(self, label, a):
        self.values.setdefault(label, a)

    def close(self, a, b, tol=REL):
        if isinstance(a, complex) or isinstance(b, complex):
            return abs(a - b) <= tol * (abs(a) + abs(b)) + 1e-10 * self.scale
        if a != a or b != b:
            return (a != a) and (b != b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * (abs(a) + abs(b)) + 1e-10 * self.scale

    def eq(self, label, a, b):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if a != b:
                self.fails.append((label, repr(a), repr(b)))
            return
        try:
            a = complex(a) if hasattr(a, "imag") and self.np.iscomplexobj(a) else float(a)
            b = complex(b) if hasattr(b, "imag") and self.np.iscomplexobj(b) else float(b)
        except (TypeError, ValueError):
            self.fails.append((label, repr(a)[:80], repr(b)[:80]))
            return
        self._rec(label, a)
        if not self.close(a, b):
            self.fails.append((label, a, b))

    def eq2(self, label, dev, spec2):
        """dev >= 0 and dev**2 == spec2"""
        try:
            dev = float(dev)
        except (TypeError, ValueError):
            self.fails.append((label, repr(dev)[:80], None))
            return
        spec2 = float(spec2)
        self._rec(label, dev)
        spec = math.sqrt(spec2) if spec2 > 0 else (0.0 if spec2 > -1e-12 * self.scale ** 2 else float("nan"))
        if not (self.close(dev, spec) or (dev >= 0 and abs(dev * dev - spec2) <= 1e-12 * self.scale ** 2)):
            self.fails.append((label, dev, spec))

    def le(self, label, a, b):
        a, b = float(a), float(b)
        self._rec(label, a)
        if not (a <= b + 1e-9 * (abs(a) + abs(b)) + 1e-12):
            self.fails.append((label, a, b))

    def lt(self, label, a, b):
        if not (float(a) < float(b)):
            self.fails.append((label, float(a), float(b)))

    def true(self, label, c):
        if not bool(c):
            self.fails.append((label, False, True))

    # spec helpers
    def sqrt(self, x):
        return math.sqrt(x)

    def log(self, x):
        return math.log(x)

    def exp(self, x):
        return math.exp(x)

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def max(self, xs):
        return max(float(x) for x in xs)

    def min(self, xs):
        return min(float(x) for x in xs)

    def abs(self, x):
        return abs(x)

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not bool(c)

    def sum(self, xs):
        s = 0.0
        for x in xs:
            s = s + x
        return s

    def rint(self, x):
        return float(self.np.rint(x))

    def chi2ppf(self, p, df):
        import scipy.stats
        return float(scipy.stats.chi2.ppf(p, df))

    def isnan(self, x):
        return bool(x != x)

    def snapshot(self, arr):
        if isinstance(arr, (list, tuple)):
            return list(arr)
        return self.np.array(arr, copy=True)

    def fresh(self):
        """a newly imported copy of the package, without any call history"""
        import sys
        import importlib
        old = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "allantools" or k.startswith("allantools.")}
        try:
            return importlib.import_module("allantools")
        finally:
            for k in list(sys.modules):
                if k == "allantools" or k.startswith("allantools."):
                    del sys.modules[k]
            sys.modules.update(old)

    def concrete(self, x):
        return int(round(float(x)))

    def draws(self):
        f = FakeRandom(self)
        for n in ("seed", "randn", "normal", "standard_normal", "default_rng", "RandomState"):
            self._patched.append((n, getattr(self.np.random, n)))
            setattr(self.np.random, n, getattr(f, n))
        return Draws(f._log)

    def integrals(self):
        """replace scipy's quad by an accurate integral for the kernels sin^4 z/z^p and (4/3) sin^6 z/z^p"""
        import sys
        import scipy.integrate
        from . import integral
        real = scipy.integrate.quad

        def quad(fn, a, b, args=(), **k):
            args = args if isinstance(args, tuple) else (args,)
            try:
                kind, p, sc = integral.identify(fn, args, math.log, float)
            except (integral.Unknown, ValueError, ZeroDivisionError):
                return real(fn, a, b, args=args, **k)
            return sc * integral.accurate(kind, p, float(a), float(b)), 0.0
        for m in [scipy.integrate] + [m for n, m in list(sys.modules.items()) if n == "allantools" or n.startswith("allantools.")]:
            if getattr(m, "quad", None) is real:
                self._attrs.append((m, "quad", real))
                m.quad = quad

    def integral(self, kind, p, a, b):
        from . import integral
        return integral.accurate(kind, float(p), float(a), float(b))

    def pyplot(self):
        """stand-in for matplotlib for the rest of this run"""
        import sys
        from . import miniplot
        m = miniplot.build()
        self._mods = {k: sys.modules.get(k) for k in m}
        sys.modules.update(m)
        return m["matplotlib.pyplot"]

    def close_all(self):
        import sys
        while self._attrs:
            m, n, v = self._attrs.pop()
            setattr(m, n, v)
        for k, v in self._mods.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        self._mods = {}
        while self._patched:
            n, v = self._patched.pop()
            setattr(self.np.random, n, v)

    def same(self, a, b):
        return self.close(float(a), float(b))

    def outfile(self):
        """name of a scratch file; text_of reads and removes it"""
        import os
        import tempfile
        fd, name = tempfile.mkstemp(prefix="vt-")
        os.close(fd)
        return name

    def text_of(self, name):
        import os
        with open(name) as fp:
            t = fp.read()
        os.unlink(name)
        return t

    def field(self, s):
        """a printed number -> (value, significant digits) or None"""
        try:
            v = float(s)
        except ValueError:
            return None
        mant = s.lower().split("e")[0].lstrip("+-").replace(".", "").lstrip("0") or "0"
        return v, (len(mant) if "e" in s.lower() else None)

    def printed(self, label, fld, want, digits):
        v, sig = fld
        want = float(want)
        self._rec(label, want)
        if sig is not None and want != 0 and v != 0 and sig != digits:
            self.fails.append((label + " significant digits", sig, digits))
        tol = 0.51 * 10.0 ** (math.floor(math.log10(abs(want))) - digits + 1) if want != 0 and want == want else 0.0
        if not ((v != v and want != want) or abs(v - want) <= tol * 1.01 + 1e-300):
            self.fails.append((label, v, want))


class AssumeFailed(Exception):
    pass
