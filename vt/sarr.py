"""Symbolic arrays (object-dtype ndarray subclass) and a numpy stand-in module for the lifted code."""
import builtins
import math
import types
from fractions import Fraction
import numpy as np
from . import poly as P
from .poly import (Sym, SymBool, CSym, Unsupported, F64, NAN, is_scalar, ssum, s_ite, tobool, b_and, b_or, b_not,
                   b_all, b_any)

ND = np.ndarray


def is_sym(x):
    return isinstance(x, (Sym, SymBool, CSym))


def obj(x):
    """-> plain object ndarray (base class) of scalars"""
    if isinstance(x, SelSA):
        return x.dense()
    if isinstance(x, ND):
        if x.dtype_raw() if isinstance(x, SA) else False:
            pass
        y = x.view(ND)
        if y.dtype != object:
            if y.dtype.kind == "c":
                o = np.empty(y.shape, dtype=object)
                for i in np.ndindex(*y.shape):
                    o[i] = y[i]
                return o
            o = np.empty(y.shape, dtype=object)
            if y.shape == ():
                o[()] = y[()]
                return o
            of, yf = o.reshape(-1), y.reshape(-1)
            for i in range(yf.size):
                of[i] = yf[i]
            return o
        return y
    if is_scalar(x) or x is None:
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    if isinstance(x, (list, tuple, range)) or hasattr(x, "__iter__"):
        if not isinstance(x, (list, tuple)):
            x = list(x)
        if len(x) == 0:
            return np.empty((0,), dtype=object)
        parts = [obj(e) for e in x]
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        o = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            o[i] = p if sh else p[()]
        return o
    raise Unsupported("array of %r" % type(x))


def fixelem(e):
    """store python floats as np.float64 so that scalar arithmetic has numpy semantics"""
    if type(e) is float:
        return F64(e)
    return e


def wrap(o):
    """object ndarray -> SA (0-d -> scalar)"""
    if isinstance(o, ND):
        if o.shape == ():
            return fixelem(o[()])
        if isinstance(o, SA):
            return o
        if o.dtype == object:
            return o.view(SA)
        return o
    return o


def wrap_bool(o):
    """object array of bool/SymBool -> plain bool array if all concrete"""
    if o.shape == ():
        return o[()]
    flat = o.reshape(-1)
    if all(isinstance(e, (bool, np.bool_)) for e in flat):
        return o.astype(bool)
    r = o.view(SA)
    return r


def maybe_plain(o):
    """collapse an all-concrete SA of bool to a plain array"""
    return o


def anysym(x):
    if is_sym(x):
        return True
    if isinstance(x, (SA, SelSA)):
        return True
    if isinstance(x, ND):
        return x.dtype == object and any(is_sym(e) for e in x.reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(anysym(e) for e in x)
    if isinstance(x, dict):
        return any(anysym(e) for e in x.values())
    return False


def emap(fn, *args):
    """elementwise map with broadcasting -> plain object array"""
    arrs = [obj(a) for a in args]
    if len(arrs) == 1:
        a = arrs[0]
        out = np.empty(a.shape, dtype=object)
        if a.shape == ():
            out[()] = fn(a[()])
            return out
        of, af = out.reshape(-1), a.reshape(-1)
        for i in range(af.size):
            of[i] = fn(af[i])
        return out
    if len(arrs) == 2 and arrs[0].shape == arrs[1].shape:
        a, b = arrs
        out = np.empty(a.shape, dtype=object)
        if a.shape == ():
            out[()] = fn(a[()], b[()])
            return out
        of, af, bf = out.reshape(-1), a.reshape(-1), b.reshape(-1)
        for i in range(af.size):
            of[i] = fn(af[i], bf[i])
        return out
    bc = np.broadcast(*arrs)
    out = np.empty(bc.shape, dtype=object)
    if bc.shape == ():
        out[()] = fn(*[a[()] for a in arrs])
        return out
    arrs = np.broadcast_arrays(*arrs)
    its = [a.flat for a in arrs]
    of = out.reshape(-1)
    for i, es in enumerate(zip(*its)):
        of[i] = fn(*es)
    return out


def con(fn, npf):
    """scalar function: concrete operands use numpy itself, symbolic ones fn"""
    def g(*a):
        for x in a:
            if is_sym(x) or isinstance(x, Fraction):
                return fn(*a)
        with np.errstate(all="ignore"):
            r = npf(*[x if not isinstance(x, (bool, int)) or isinstance(x, bool) else x for x in a])
        return r
    return g


def truthy(f):
    return lambda *a: f(*[tobool(x) for x in a])


def _sq(x):
    return P.g_mul(x, x)


def _conj(x):
    return x.conjugate() if hasattr(x, "conjugate") else x


def _hypot(a, b):
    return P.s_sqrt(P.s_add(P.s_mul(a, a), P.s_mul(b, b)))


def _minimum(a, b):
    return P.s_min([a, b])


def _maximum(a, b):
    return P.s_max([a, b])


def _angle(x):
    raise Unsupported("angle")


SC = {
    "add": P.g_add, "subtract": P.g_sub, "multiply": P.g_mul, "divide": P.g_div, "true_divide": P.g_div,
    "power": P.g_pow, "float_power": P.g_pow, "negative": lambda a: -a if isinstance(a, CSym) else P.s_neg(a),
    "positive": lambda a: a, "absolute": P.s_abs, "fabs": P.s_abs, "square": _sq, "sqrt": P.s_sqrt,
    "log": P.s_log, "log2": P.s_log2, "log10": P.s_log10, "log1p": P.s_log1p, "exp": P.s_exp,
    "expm1": lambda a: P.s_sub(P.s_exp(a), 1), "exp2": lambda a: P.s_powsym(2, a),
    "sin": P.s_sin, "cos": P.s_cos, "tan": P.s_tan, "arctan": P.s_atan, "sinh": P.s_sinh, "cosh": P.s_cosh,
    "tanh": P.s_tanh, "floor": P.s_floor, "ceil": P.s_ceil, "rint": P.s_rint, "trunc": P.s_trunc,
    "sign": P.s_sign, "conjugate": _conj, "conj": _conj, "reciprocal": lambda a: P.g_div(1, a),
    "floor_divide": P.s_floordiv, "remainder": P.s_mod, "mod": P.s_mod, "hypot": _hypot,
    "maximum": _maximum, "minimum": _minimum, "fmax": _maximum, "fmin": _minimum,
    "deg2rad": lambda a: P.s_mul(a, math.pi / 180), "rad2deg": lambda a: P.s_mul(a, 180 / math.pi),
    "cbrt": lambda a: s_ite(P.s_lt(a, 0), P.s_neg(P.s_pow(P.s_abs(a), Fraction(1, 3))), P.s_pow(P.s_abs(a), Fraction(1, 3))),
    "degrees": lambda a: P.s_mul(a, 180 / math.pi), "radians": lambda a: P.s_mul(a, math.pi / 180),
    "heaviside": lambda a, h: s_ite(P.s_lt(a, 0), F64(0.0), s_ite(P.s_eq(a, 0), h, F64(1.0))),
    "logaddexp": lambda a, b: P.s_log(P.s_add(P.s_exp(a), P.s_exp(b))),
}
SCB = {
    "less": P.s_lt, "less_equal": P.s_le, "greater": P.s_gt, "greater_equal": P.s_ge, "equal": P.s_eq,
    "not_equal": P.s_ne, "isnan": P.s_isnan, "isfinite": P.s_isfinite, "isinf": P.s_isinf,
    "logical_and": truthy(b_and), "logical_or": truthy(b_or), "logical_not": truthy(b_not),
    "logical_xor": truthy(lambda a, b: b_or(b_and(a, b_not(b)), b_and(b_not(a), b))),
    "signbit": lambda a: P.s_lt(a, 0),
}


def _bitand(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return b_and(a, b)
    return a & b


def _bitor(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return b_or(a, b)
    return a | b


def _inv(a):
    if isinstance(a, (SymBool, bool, np.bool_)):
        return b_not(a)
    return ~a


SCB2 = {"bitwise_and": _bitand, "bitwise_or": _bitor, "invert": _inv,
        "bitwise_xor": lambda a, b: b_or(b_and(a, b_not(b)), b_and(b_not(a), b))}

for _t in (SC, SCB):
    for _k in list(_t):
        _t[_k] = con(_t[_k], getattr(np, _k))


def apply_ufunc(name, *args):
    if name in SC:
        return wrap(emap(SC[name], *args))
    if name in SCB:
        return wrap_bool(emap(SCB[name], *args))
    if name in SCB2:
        return wrap_bool(emap(SCB2[name], *args))
    if name == "divmod":
        return apply_ufunc("floor_divide", *args), apply_ufunc("remainder", *args)
    if name in ("matmul", "vecdot"):
        return f_matmul(*args)
    if name == "modf":
        i = apply_ufunc("trunc", *args)
        return apply_ufunc("subtract", args[0], i), i
    raise Unsupported("ufunc %s" % name)


def reduce_axis(fn, x, axis=None, keepdims=False):
    """fn: list of scalars -> scalar"""
    o = obj(x)
    if axis is None:
        r = fn(list(o.reshape(-1)))
        if keepdims:
            q = np.empty((1,) * o.ndim, dtype=object)
            q[(0,) * o.ndim] = r
            return q.view(SA)
        return fixelem(r) if not isinstance(r, (bool, np.bool_, SymBool)) else r
    if isinstance(axis, (tuple, list)):
        axes = sorted((int(a) % o.ndim for a in axis))
        if len(axes) == o.ndim:
            return reduce_axis(fn, x, None, keepdims)
        keep = [a for a in range(o.ndim) if a not in axes]
        o = o.transpose(keep + axes).reshape([o.shape[a] for a in keep] + [-1])
        axis = len(keep)
        if keepdims:
            raise Unsupported("keepdims with axis tuple")
    axis = int(axis)
    if axis < -o.ndim or axis >= o.ndim:
        raise np.exceptions.AxisError(axis, o.ndim)
    m = np.moveaxis(o, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    if out.shape == ():
        r = fn(list(m))
        return fixelem(r)
    for idx in np.ndindex(*out.shape):
        out[idx] = fn(list(m[idx]))
    if keepdims:
        out = np.expand_dims(out, axis)
    return out


def _fin(r):
    if isinstance(r, ND):
        flat = r.reshape(-1)
        if flat.size and all(isinstance(e, (bool, np.bool_, SymBool)) for e in flat):
            return wrap_bool(r)
        return r.view(SA) if r.dtype == object else r
    return r


def _prod(xs):
    r = F64(1.0)
    for x in xs:
        r = SC["multiply"](r, x)
    return r


def _nz(xs, name):
    if not xs:
        raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
    return xs


def _maxl(xs):
    xs = _nz(xs, "maximum")
    if any(is_sym(x) for x in xs):
        return P.s_max(xs)
    return np.max(np.array(xs))


def _minl(xs):
    xs = _nz(xs, "minimum")
    if any(is_sym(x) for x in xs):
        return P.s_min(xs)
    return np.min(np.array(xs))


def count(xs):
    """sum; a population count of symbolic conditions becomes a number at once (forking over its values), so that the
    arithmetic done with it stays linear"""
    xs = list(xs)
    r = ssum(xs)
    if P.EXPL[0] is not None and isinstance(r, Sym) and all(isinstance(e, (SymBool, bool, np.bool_)) for e in xs):
        return P.concretize_int(r)
    return r


RED = {"add": count, "multiply": _prod, "maximum": _maxl, "minimum": _minl, "fmax": _maxl, "fmin": _minl,
       "logical_and": b_all, "logical_or": b_any, "bitwise_and": b_all, "bitwise_or": b_any}


def accum(name, x, axis=0):
    o = obj(x)
    m = np.moveaxis(o, axis, -1)
    out = np.empty(m.shape, dtype=object)
    f = SC[name]
    rows = [()] if m.ndim == 1 else list(np.ndindex(*m.shape[:-1]))
    for idx in rows:
        acc = None
        for j in range(m.shape[-1]):
            e = m[idx + (j,)]
            if acc is None:
                acc = e.num() if isinstance(e, SymBool) else e
            else:
                acc = f(acc, e)
            out[idx + (j,)] = acc
    return np.moveaxis(out, -1, axis).view(SA)


def samemask(p, q):
    return len(p) == len(q) and all(x is y or (isinstance(x, bool) and isinstance(y, bool) and x == y) or (
        isinstance(x, SymBool) and isinstance(y, SymBool) and x.f == y.f) for x, y in zip(p, q))


class SelSA(object):
    """elements of a 1-d array selected by a symbolic mask, in order (symbolic length)"""
    __array_ufunc__ = None

    def __init__(self, vals, mask):
        self.vals = obj(vals)
        self.mask = [tobool(b) for b in mask]

    def _len(self):
        n = ssum([b.num() if isinstance(b, SymBool) else int(b) for b in self.mask])
        c = n.const() if isinstance(n, Sym) else n
        return n if c is None else int(c)

    def __len__(self):
        return P.concretize_int(self._len())

    @property
    def size(self):
        return len(self)

    @property
    def shape(self):
        return (len(self),)

    ndim = 1
    nbytes = property(lambda self: len(self) * 8)

    @property
    def dtype(self):
        if self.isbool():
            return np.dtype(bool)
        return PRETEND

    @property
    def T(self):
        return self

    def isbool(self):
        return len(self.vals) > 0 and all(isinstance(e, (SymBool, bool, np.bool_)) for e in self.vals)

    def sum(self, axis=None, *a, **k):
        if self.isbool():
            return len(self.narrow(self.vals))
        return ssum([P.s_ite(b, v, F64(0.0)) for v, b in zip(self.vals, self.mask)])

    def mean(self, *a, **k):
        n = self._len()
        if bool(n == 0):
            return NAN
        return P.s_div(self.sum(), n if isinstance(n, Sym) else F64(n))

    def narrow(self, cond):
        """the elements that also satisfy cond"""
        return SelSA(self.vals, [b_and(b, tobool(c)) for b, c in zip(self.mask, cond)])

    def all(self, *a, **k):
        return b_all([b_or(b_not(b), tobool(v)) for v, b in zip(self.vals, self.mask)])

    def any(self, *a, **k):
        return b_any([b_and(b, tobool(v)) for v, b in zip(self.vals, self.mask)])

    def dot(self, o):
        return f_dot(self, o)

    def copy(self, *a, **k):
        return SelSA(self.vals.copy(), self.mask)

    def astype(self, dtype, *a, **k):
        r = f_astype(self.vals.view(SA), dtype)
        return SelSA(r, self.mask)

    def ravel(self, *a, **k):
        return self

    flatten = squeeze = ravel

    def dense(self):
        keep = [bool(b) for b in self.mask]
        return self.vals[np.array(keep, dtype=bool)]

    def _sa(self):
        return self.dense().view(SA)

    def __array__(self, dtype=None, copy=None):
        o = self.dense()
        if len(o) and all(isinstance(e, (bool, np.bool_)) for e in o):
            o = o.astype(bool)
        elif all(isinstance(e, (int, np.integer)) for e in o):
            o = o.astype(int)
        return o if dtype is None else o.astype(dtype)

    def __iter__(self):
        return iter(self._sa())

    def _bin(self, name, o, rev=False):
        if isinstance(o, SelSA):
            if samemask(self.mask, o.mask):
                a, b = (o.vals, self.vals) if rev else (self.vals, o.vals)
                return SelSA(emap(scfun(name), a, b), self.mask)
            a, b = self._sa(), o._sa()
            return apply_ufunc(name, *((b, a) if rev else (a, b)))
        if isinstance(o, (list, tuple)):
            o = sa(o)
        if isinstance(o, ND) and o.shape != ():
            a = self._sa()
            return apply_ufunc(name, *((o, a) if rev else (a, o)))
        a, b = (o, self.vals) if rev else (self.vals, o)
        return SelSA(emap(scfun(name), a, b), self.mask)

    def map(self, fn):
        return SelSA(emap(fn, self.vals), self.mask)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._sa(), name)

    def __getitem__(self, k):
        if isinstance(k, SelSA) and k.isbool() and samemask(k.mask, self.mask):
            return self.narrow(k.vals)
        if isinstance(k, slice) and k == slice(None) or k is Ellipsis:
            return self
        return self._sa()[k]

    def __bool__(self):
        return bool(self._sa())

    __hash__ = None


def scfun(name):
    for t in (SC, SCB, SCB2):
        if name in t:
            return t[name]
    raise Unsupported("ufunc %s" % name)


for _n, _u in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "divide"), ("pow", "power"),
               ("mod", "remainder"), ("floordiv", "floor_divide"), ("and", "bitwise_and"), ("or", "bitwise_or"),
               ("xor", "bitwise_xor")):
    setattr(SelSA, "__%s__" % _n, (lambda u: lambda self, o: self._bin(u, o))(_u))
    setattr(SelSA, "__r%s__" % _n, (lambda u: lambda self, o: self._bin(u, o, True))(_u))
for _n, _u in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"), ("eq", "equal"),
               ("ne", "not_equal")):
    setattr(SelSA, "__%s__" % _n, (lambda u: lambda self, o: self._bin(u, o))(_u))
SelSA.__neg__ = lambda self: self.map(P.s_neg)
SelSA.__abs__ = lambda self: self.map(P.s_abs)
SelSA.__invert__ = lambda self: self.map(_inv)


def conc_mask(m):
    """boolean mask with symbolic entries -> concrete by forking"""
    o = obj(m)
    out = np.empty(o.shape, dtype=bool)
    of, xf = out.reshape(-1), o.reshape(-1)
    for i in range(xf.size):
        of[i] = bool(xf[i])
    return out


def sel_take(a, k):
    """a[k] for a 1-d array and selected concrete positions"""
    if len(k.vals) and all(isinstance(e, (int, np.integer)) and not isinstance(e, (bool, np.bool_)) for e in k.vals):
        n = len(a)
        if all(-n <= int(e) < n for e in k.vals):
            return SelSA(obj(a)[k.vals.astype(int)], k.mask)
    return None


def f_compress(cond, a, axis=None, out=None):
    x, c = sa(a), sa(cond)
    if axis not in (None, 0) or x.ndim != 1 or out is not None or len(c) != len(x):
        return lift_struct("compress")(cond, a, axis=axis)
    return x[c]


def f_take(a, indices, axis=None, out=None, mode="raise"):
    x = obj(a) if not isinstance(a, SelSA) else a.dense()
    if isinstance(indices, SelSA) and x.ndim == 1 and out is None and mode == "raise":
        r = sel_take(x, indices)
        if r is not None:
            return r
    k = indices if isinstance(indices, SelSA) else sa(indices) if anysym(indices) else np.asarray(indices)
    k = fix_index(k) if isinstance(k, (SA, SelSA)) else k
    k = np.asarray(k)
    if k.size == 0:
        k = k.astype(int)
    r = np.take(x, k, axis=axis, mode=mode)
    if isinstance(r, ND):
        if not isinstance(a, (SA, SelSA)) and isinstance(a, ND) and not anysym(a):
            return r.astype(a.dtype)
        return rewrap(r)
    return r


def is_symmask(k):
    return isinstance(k, SA) and k.size > 0 and any(isinstance(e, SymBool) for e in k.view(ND).reshape(-1)) and all(
        isinstance(e, (SymBool, bool, np.bool_)) for e in k.view(ND).reshape(-1))


def fix_index(k):
    if isinstance(k, tuple):
        return tuple(fix_index(e) for e in k)
    if isinstance(k, SelSA):
        k = k._sa()
    if isinstance(k, SA):
        flat = k.view(ND).reshape(-1)
        if flat.size == 0:
            return np.zeros(k.shape, dtype=int)
        if all(isinstance(e, (bool, np.bool_, SymBool)) for e in flat):
            return conc_mask(k)
        if all(isinstance(e, (int, np.integer)) for e in flat):
            return k.view(ND).astype(int)
        if any(isinstance(e, (float, np.floating)) for e in flat):
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        return np.array([P.concretize_int(e) for e in flat], dtype=int).reshape(k.shape)
    if isinstance(k, list) and any(is_sym(e) for e in k):
        return fix_index(obj(k).view(SA))
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, slice):
        return slice(fix_slice(k.start), fix_slice(k.stop), fix_slice(k.step))
    return k


def fix_slice(e):
    if isinstance(e, Sym):
        return P.concretize_int(e)
    return e


def f_share(a, b, max_work=None):
    """whether two arrays overlap, decided on their memory bounds"""
    def bounds(v):
        v = np.asarray(v).view(np.ndarray)
        if v.size == 0:
            return (0, 0)
        lo = hi = v.__array_interface__["data"][0]
        for n, st in zip(v.shape, v.strides):
            if st < 0:
                lo += (n - 1) * st
            else:
                hi += (n - 1) * st
        return (lo, hi + v.itemsize)
    (l1, h1), (l2, h2) = bounds(a), bounds(b)
    return l1 < h2 and l2 < h1


class SA(np.ndarray):
    """object ndarray of symbolic/concrete scalars, presenting itself as float64"""

    def __array_finalize__(self, o):
        pass

    def dtype_raw(self):
        return False

    @property
    def dtype(self):
        return PRETEND

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        out = kw.pop("out", None)
        where = kw.pop("where", True)
        kw.pop("dtype", None)
        kw.pop("casting", None)
        kw.pop("order", None)
        kw.pop("subok", None)
        if method == "__call__":
            if any(isinstance(i, SelSA) for i in inputs):
                return UfuncShim(ufunc)(*inputs)
            r = apply_ufunc(name, *inputs)
            if where is not True and out is not None:
                r = f_where(where, r, out[0])
        elif method == "reduce":
            if name not in RED:
                raise Unsupported("reduce %s" % name)
            x = inputs[0]
            axis = kw.get("axis", 0)
            init = kw.get("initial", None)
            if where is not True:
                if name == "add":
                    x = f_where(where, x, 0.0)
                elif name in ("maximum", "minimum"):
                    x = obj(x)[conc_mask(np.broadcast_to(obj(where), x.shape))]
                else:
                    raise Unsupported("reduce where")
            r = _fin(reduce_axis(RED[name], x, axis, kw.get("keepdims", False)))
            if init is not None and init is not np._NoValue:
                if name == "add":
                    r = r + init
                elif name == "multiply":
                    r = r * init
                else:
                    r = apply_ufunc(name, r, init)
        elif method == "accumulate":
            r = accum(name, inputs[0], kw.get("axis", 0))
        elif method == "outer":
            a, b = obj(inputs[0]), obj(inputs[1])
            r = apply_ufunc(name, a.reshape(a.shape + (1,) * b.ndim), b)
        elif method == "reduceat":
            o = obj(inputs[0])
            idx = [int(i) for i in inputs[1]]
            res = np.empty(len(idx), dtype=object)
            for j, i in enumerate(idx):
                e = idx[j + 1] if j + 1 < len(idx) else len(o)
                res[j] = RED[name](list(o[i:e])) if e > i else o[i]
            r = res.view(SA)
        elif method == "at":
            a, idx = inputs[0], inputs[1]
            if len(inputs) > 2:
                vals = np.broadcast_to(obj(inputs[2]), np.shape(idx))
                for j, i in enumerate(idx):
                    a[i] = SC[name](a[i], vals[j])
            else:
                for i in idx:
                    a[i] = SC[name](a[i])
            return None
        else:
            raise Unsupported("ufunc method %s" % method)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            store(o, r)
            return o
        return r

    def __array_function__(self, func, types_, args, kw):
        return call_np(func, args, kw)

    def _inplace(self, name, o):
        if isinstance(o, (list, tuple)):
            o = sa(o)
        r = apply_ufunc(name, self, o)
        if isinstance(r, ND) and r.shape != self.shape:
            raise ValueError("non-broadcastable output operand with shape %s doesn't match the broadcast shape %s" % (self.shape, r.shape))
        store(self, r)
        return self

    def __iadd__(self, o):
        return self._inplace("add", o)

    def __isub__(self, o):
        return self._inplace("subtract", o)

    def __imul__(self, o):
        return self._inplace("multiply", o)

    def __itruediv__(self, o):
        return self._inplace("divide", o)

    def __ipow__(self, o):
        return self._inplace("power", o)

    def __getitem__(self, k):
        if is_symmask(k):
            if self.ndim == 1 and k.ndim == 1:
                if len(k) != len(self):
                    raise IndexError("boolean index did not match indexed array along axis 0")
                return SelSA(self, k.view(ND))
            k = conc_mask(k)
        if isinstance(k, SelSA) and self.ndim == 1:
            r = sel_take(self, k)
            if r is not None:
                return r
        k = fix_index(k)
        r = self.view(ND)[k]
        if isinstance(r, ND) and r.dtype == object:
            return r.view(SA)
        return r

    def __setitem__(self, k, v):
        if isinstance(k, SelSA):
            k = k._sa()
        if is_symmask(k):
            # masked assignment: element-wise ite when the value is a scalar
            if k.shape == self.shape and (is_scalar(v) or (isinstance(v, ND) and v.shape == ())):
                kk = k.view(ND)
                me = self.view(ND)
                v0 = v[()] if isinstance(v, ND) else v
                fork = FORK_MASK[0]
                for i in np.ndindex(*self.shape):
                    c = kk[i]
                    if isinstance(c, SymBool) and fork:
                        c = bool(c)
                    me[i] = s_ite(c, fixelem(v0), me[i])
                return
            k = conc_mask(k)
        k = fix_index(k)
        if isinstance(v, SelSA):
            v = v._sa()
        if isinstance(v, (list, tuple, ND, range)):
            v = obj(v)
            if v.shape == ():
                v = v[()]
            else:
                if v.size == 1 and self.view(ND)[k].__class__ is not ND:
                    v = v.reshape(-1)[0]
                else:
                    v = emap(fixelem, v)
        elif not (is_scalar(v) or v is None):
            raise Unsupported("store %r" % type(v))
        self.view(ND)[k] = fixelem(v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(ND).reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        if self.size == 1:
            return float(self.view(ND).reshape(-1)[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __int__(self):
        if self.size == 1:
            return int(self.view(ND).reshape(-1)[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __index__(self):
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __contains__(self, x):
        return any(bool(P.s_eq(e, x)) for e in self.view(ND).reshape(-1))

    def __format__(self, spec):
        return "<symarray>"

    def __repr__(self):
        return "SA(%s)" % (self.view(ND),)

    __str__ = __repr__

    def __deepcopy__(self, memo):
        return self.view(ND).copy().view(SA)

    # methods -----------------------------------------------------------------
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=True):
        if where is not True:
            self = f_where(where, self, 0.0)
        r = _fin(reduce_axis(count if axis is None or self.ndim == 1 else ssum, self, axis, keepdims))
        return r if not is_sym(initial) and initial == 0 else r + initial

    def prod(self, axis=None, **k):
        return _fin(reduce_axis(_prod, self, axis, k.get("keepdims", False)))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, where=True):
        return f_mean(self, axis=axis, keepdims=keepdims, where=where)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return f_var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return np.sqrt(sa(f_var(self, axis=axis, ddof=ddof, keepdims=keepdims))) if axis is not None else P.s_sqrt(
            f_var(self, ddof=ddof))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _fin(reduce_axis(_maxl, self, axis, keepdims))

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _fin(reduce_axis(_minl, self, axis, keepdims))

    if hasattr(np.ndarray, "ptp"):
        def ptp(self, axis=None, **k):
            return self.max(axis) - self.min(axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        if axis is None:
            return accum("add", self.reshape(-1), 0)
        return accum("add", self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return accum("multiply", self.reshape(-1) if axis is None else self, 0 if axis is None else axis)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return _fin(reduce_axis(b_all, self, axis, keepdims))

    def any(self, axis=None, out=None, keepdims=False, **k):
        return _fin(reduce_axis(b_any, self, axis, keepdims))

    def dot(self, o, out=None):
        return f_dot(self, o)

    def __matmul__(self, o):
        return f_matmul(self, o)

    def __rmatmul__(self, o):
        return f_matmul(o, self)

    def astype(self, t, *a, **k):
        return f_astype(self, t)

    def round(self, decimals=0, out=None):
        return wrap(emap(lambda e: P.s_round(e, decimals), self))

    def clip(self, a=None, b=None, out=None, **k):
        return f_clip(self, a, b, **k)

    def nonzero(self):
        return f_nonzero(self)

    def argmax(self, axis=None, **k):
        return f_arg(self, axis, P.s_gt)

    def argmin(self, axis=None, **k):
        return f_arg(self, axis, P.s_lt)

    def item(self, *a):
        return self.view(ND).item(*a)

    def tolist(self):
        return self.view(ND).tolist()

    def conj(self):
        return wrap(emap(_conj, self))

    conjugate = conj

    @property
    def real(self):
        return wrap(emap(lambda e: e.re if isinstance(e, CSym) else (F64(e.real) if isinstance(e, (complex, np.complexfloating)) else e), self))

    @real.setter
    def real(self, v):
        raise Unsupported("set real")

    @property
    def imag(self):
        return wrap(emap(lambda e: e.im if isinstance(e, CSym) else (F64(e.imag) if isinstance(e, (complex, np.complexfloating)) else F64(0.0)), self))

    def sort(self, *a, **k):
        r = sorted_sym(list(self.view(ND).reshape(-1)))
        self.view(ND)[...] = obj(r)

    def argsort(self, *a, **k):
        return f_argsort(self)

    def fill(self, v):
        self.view(ND)[...] = fixelem(v)

    def copy(self, *a, **k):
        return self.view(ND).copy().view(SA)

    def tobytes(self, *a):
        raise Unsupported("tobytes")

    def view(self, *a, **k):
        if a and (a[0] is ND or a[0] is SA or (isinstance(a[0], type) and issubclass(a[0], ND))):
            return np.ndarray.view(self, a[0])
        if not a and not k:
            return np.ndarray.view(self, SA)
        raise Unsupported("view as dtype")


PRETEND = np.dtype(float)
FORK_MASK = [True]


def sa(x):
    """anything -> SA"""
    if isinstance(x, SA):
        return x
    o = obj(x)
    return emap(fixelem, o).view(SA)


P.OPS["__array__"] = lambda name, a, b: apply_ufunc(
    {"add": "add", "sub": "subtract", "mul": "multiply", "div": "divide", "pow": "power", "lt": "less",
     "le": "less_equal", "gt": "greater", "ge": "greater_equal", "eq": "equal", "ne": "not_equal",
     "floordiv": "floor_divide", "mod": "remainder"}[name], a, b)
P.OPS["__as_sa__"] = lambda s: sa([s])


def store(o, r):
    if isinstance(o, SA):
        o.view(ND)[...] = obj(r)
    elif isinstance(o, ND):
        rr = obj(r)
        if any(is_sym(e) for e in rr.reshape(-1)):
            raise Unsupported("in-place store of symbolic values into a concrete array")
        o[...] = rr.astype(o.dtype)
    else:
        raise Unsupported("out=")


# ------------------------------------------------------------------------------------------- numpy functions

F32_COUNT = [0]


def f_astype(x, t):
    k = dt_kind(t)
    if k == "f":
        return wrap(emap(lambda e: e.num() if isinstance(e, SymBool) else (
            F64(e) if isinstance(e, (bool, int, np.integer, np.bool_)) else e), x))
    if k == "c":
        return wrap(emap(lambda e: P.tocsym(e), x))
    if k == "i" or k == "u":
        def cv(e):
            if is_sym(e):
                return P.s_trunc(e) if isinstance(e, Sym) else (e.num() if isinstance(e, SymBool) else e)
            return int(e)
        r = emap(cv, x)
        flat = r.reshape(-1)
        if all(not is_sym(e) for e in flat):
            return r.astype(int) if r.shape else int(r[()])
        return wrap(r)
    if k == "b":
        return wrap_bool(emap(tobool, x))
    if k == "s":      # narrower float: relative rounding error
        bits = {"float32": 24, "float16": 11}.get(np.dtype(t).name, 24)

        def cv(e):
            if not isinstance(e, Sym):
                return F64(np.dtype(t).type(e)) if not is_sym(e) else e
            F32_COUNT[0] += 1
            d = P.invar("_round%d" % F32_COUNT[0])
            u = Fraction(1, 2 ** bits)
            v = P.REG.vars[P.REG.monos[next(iter(d.p))][0][0]]
            if v.meta is None:
                v.meta = [P.b_and(P.s_le(d, u), P.s_ge(d, -u))]
            return P.s_mul(e, P.s_add(1, d))
        return wrap(emap(cv, x))
    if k == "O":
        return wrap(obj(x).copy())
    raise Unsupported("astype %r" % (t,))


P.OPS["__astype__"] = f_astype


def dt_kind(t):
    """f(loat64), c, i, u, b, s(mall float), O"""
    if t is None or t is P.PRETEND_FLOAT or t is float:
        return "f"
    if getattr(t, "__symkind__", None):
        return t.__symkind__
    if t is complex:
        return "c"
    if t is int:
        return "i"
    if t is bool:
        return "b"
    if t is object:
        return "O"
    try:
        d = np.dtype(t)
    except TypeError:
        raise
    if d.kind == "f":
        return "f" if d.itemsize >= 8 else "s"
    return d.kind


P.PRETEND_FLOAT = float


def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True, **k):
    if isinstance(a, SelSA):
        return a.mean()
    a = sa(a) if not isinstance(a, SA) else a
    if where is not True:
        w = obj(np.broadcast_to(obj(where), a.shape))
        s = f_where(w.view(SA), a, 0.0).sum(axis=axis)
        n = w.view(SA).sum(axis=axis)
        return s / n
    s = a.sum(axis=axis, keepdims=keepdims)
    n = a.size if axis is None else (a.shape[axis] if not isinstance(axis, tuple) else int(np.prod([a.shape[x] for x in axis])))
    if n == 0:
        return NAN
    return apply_ufunc("divide", s, F64(n))


def f_average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        return f_mean(a, axis=axis, **k)
    a = sa(a)
    w = sa(weights)
    if axis is not None and w.ndim == 1 and a.ndim > 1:
        sh = [1] * a.ndim
        sh[axis] = len(w)
        w = w.reshape(sh)
        tot = ssum(list(w.reshape(-1)))
    else:
        tot = w.sum(axis=axis) if w.ndim == a.ndim else ssum(list(w.reshape(-1)))
    return (a * w).sum(axis=axis) / tot


def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = sa(a)
    m = f_mean(a, axis=axis, keepdims=True)
    d = a - m
    s = (d * d).sum(axis=axis, keepdims=keepdims)
    n = a.size if axis is None else a.shape[axis]
    if n - ddof <= 0:
        return NAN
    return apply_ufunc("divide", s, F64(n - ddof))


def f_std(a, axis=None, dtype=None, out=None, ddof=0, **k):
    return apply_ufunc("sqrt", f_var(a, axis=axis, ddof=ddof))


def f_where(c, a=None, b=None):
    if a is None and b is None:
        return f_nonzero(c)
    return wrap(emap(lambda x, y, z: fixelem(s_ite(x, y, z)), c, a, b))


def f_nonzero(c):
    if isinstance(c, SelSA):
        c = c._sa()
    o = obj(c)
    if all(not is_sym(e) for e in o.reshape(-1)):
        return tuple(np.nonzero(np.array([[bool(e)] for e in o.reshape(-1)]).reshape(o.shape)))
    if o.ndim == 1:
        idx = np.empty(o.shape, dtype=object)
        for i in range(len(o)):
            idx[i] = i
        return (SelSA(idx, [tobool(e) for e in o]),)
    return tuple(np.nonzero(conc_mask(emap(tobool, o).view(SA))))


def f_count_nonzero(a, axis=None, **k):
    if isinstance(a, SelSA):
        return len(a.narrow([tobool(v) for v in a.vals]))
    return _fin(reduce_axis(lambda xs: count([tobool(e) for e in xs]), a, axis))


def f_nansum(a, axis=None, **k):
    if isinstance(a, SelSA):
        return SelSA(emap(nz0, a.vals), a.mask).sum()
    return sa(emap(nz0, a)).sum(axis=axis)


def nz0(e, v=0.0):
    """nan_to_num of one element"""
    if isinstance(e, Sym):
        if e.ok is None:
            return e
        g = okb(e.ok)
        return s_ite(g, Sym(e.p, e.nn), F64(v))
    if is_sym(e):
        return e
    return F64(v) if e != e else e


def okb(ok):
    b = P.okbool(ok)
    return b


def f_nanmean(a, axis=None, **k):
    a = sa(a)
    s = f_nansum(a, axis)
    n = _fin(reduce_axis(lambda xs: ssum([_num(b_not(P.s_isnan(e))) for e in xs]), a, axis))
    return apply_ufunc("divide", s, concretize(n))


def _num(b):
    return b.num() if isinstance(b, SymBool) else F64(float(b))


def concretize(n):
    if isinstance(n, Sym):
        return F64(P.concretize_int(n))
    return n


def f_nanvar(a, ddof=0, axis=None, **k):
    a = sa(a)
    m = f_nanmean(a)
    d = a - m
    n = concretize(ssum([_num(b_not(P.s_isnan(e))) for e in a.reshape(-1)]))
    return P.s_div(f_nansum(d * d), n - ddof)


def f_clip(a, lo=None, hi=None, *r, **k):
    lo = k.pop("a_min", k.pop("min", lo))
    hi = k.pop("a_max", k.pop("max", hi))

    def f(e):
        if lo is not None and not (isinstance(lo, float) and lo == -math.inf):
            e = P.s_max([e, lo]) if is_sym(e) or is_sym(lo) else max(e, lo)
        if hi is not None and not (isinstance(hi, float) and hi == math.inf):
            e = P.s_min([e, hi]) if is_sym(e) or is_sym(hi) else min(e, hi)
        return e
    if isinstance(lo, ND) or isinstance(hi, ND):
        x = a
        if lo is not None:
            x = apply_ufunc("maximum", x, lo)
        if hi is not None:
            x = apply_ufunc("minimum", x, hi)
        return x
    return wrap(emap(f, a))


def f_dot(a, b, out=None):
    if isinstance(a, SelSA) and isinstance(b, SelSA) and samemask(a.mask, b.mask):
        return a._bin("multiply", b).sum()
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return apply_ufunc("multiply", a.view(SA) if a.ndim else a[()], b.view(SA) if b.ndim else b[()])
    if a.ndim == 1 and b.ndim == 1:
        if len(a) != len(b):
            raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
        f = SC["multiply"]
        return ssum([f(x, y) for x, y in zip(a, b)])
    return f_matmul(a, b)


def f_matmul(a, b, **k):
    a, b = obj(a), obj(b)
    f = SC["multiply"]
    if a.ndim == 1 and b.ndim == 1:
        return f_dot(a, b)
    if a.ndim == 2 and b.ndim == 1:
        if a.shape[1] != b.shape[0]:
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
        out = np.empty(a.shape[0], dtype=object)
        for i in range(a.shape[0]):
            out[i] = ssum([f(x, y) for x, y in zip(a[i], b)])
        return out.view(SA)
    if a.ndim == 1 and b.ndim == 2:
        return f_matmul(b.T, a)
    if a.ndim == 2 and b.ndim == 2:
        if a.shape[1] != b.shape[0]:
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                out[i, j] = ssum([f(x, y) for x, y in zip(a[i], b[:, j])])
        return out.view(SA)
    raise Unsupported("matmul ndim")


def f_convolve(a, v, mode="full"):
    a, v = list(obj(a)), list(obj(v))
    if not a or not v:
        raise ValueError("a cannot be empty")
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    f = SC["multiply"]
    full = []
    for k in range(n + m - 1):
        full.append(ssum([f(a[k - j], v[j]) for j in range(max(0, k - n + 1), min(m, k + 1)) if not _iszero(v[j]) and not _iszero(a[k - j])]))
    if mode == "full" or mode == 2:
        r = full
    elif mode == "valid" or mode == 0:
        r = full[m - 1:n]
    else:
        s = (m - 1) // 2
        r = full[s:s + n]
    return sa(r)


def _iszero(x):
    return not is_sym(x) and x == 0


def f_correlate(a, v, mode="valid"):
    a, v = list(obj(a)), list(obj(v))
    r = f_convolve(a, [_conj(e) for e in v[::-1]], mode if len(a) >= len(v) else mode)
    return r


def f_diff(a, n=1, axis=-1, prepend=None, append=None):
    a = sa(a)
    parts = []
    if prepend is not None and prepend is not np._NoValue:
        parts.append(sa(prepend if np.ndim(obj(prepend)) else [prepend]))
    parts.append(a)
    if append is not None and append is not np._NoValue:
        parts.append(sa(append if np.ndim(obj(append)) else [append]))
    if len(parts) > 1:
        a = f_concatenate(parts)
    for _ in range(n):
        ix = [slice(None)] * a.ndim
        iy = list(ix)
        ix[axis] = slice(1, None)
        iy[axis] = slice(None, -1)
        a = a[tuple(ix)] - a[tuple(iy)]
    return a


def f_concatenate(xs, axis=0, **k):
    xs = [obj(x) for x in xs]
    return np.concatenate(xs, axis=axis).view(SA)


def lift_struct(name):
    """functions that only move elements: run on plain object arrays"""
    def g(*args, **kw):
        fn = name if callable(name) else getattr(np, name)
        args = [objdeep(a) for a in args]
        kw = {k: objdeep(v) for k, v in kw.items()}
        r = fn(*args, **kw)
        return rewrap(r)
    return g


def objdeep(a):
    if isinstance(a, SelSA):
        return a.dense()
    if isinstance(a, SA):
        flat = a.view(ND).reshape(-1)
        if flat.size and all(isinstance(e, (int, np.integer)) and not isinstance(e, bool) for e in flat):
            return a.view(ND).astype(int)
        return a.view(ND)
    if is_sym(a):
        return obj(a)
    if isinstance(a, (list, tuple)) and any(anysym(e) for e in a):
        if any(isinstance(e, (ND, SelSA, list, tuple)) for e in a):
            return type(a)(objdeep(e) for e in a) if isinstance(a, list) else tuple(objdeep(e) for e in a)
        return obj(a)
    return a


def rewrap(r):
    if isinstance(r, tuple):
        return tuple(rewrap(e) for e in r)
    if isinstance(r, list):
        return [rewrap(e) for e in r]
    if isinstance(r, ND) and r.dtype == object:
        return wrap(r)
    return r


def f_unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    o = obj(a).reshape(-1)
    if all(not is_sym(e) for e in o):
        arr = np.array([float(e) if not isinstance(e, (int, np.integer)) or isinstance(e, bool) else e for e in o])
        if isinstance(a, SA):
            arr = arr.astype(float)
        r = np.unique(arr, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts)
        if isinstance(r, tuple):
            return (sa(r[0]),) + r[1:]
        return sa(r)
    if return_index or return_inverse or return_counts:
        raise Unsupported("unique with extras")
    s = sorted_sym(list(o))
    out = []
    for e in s:
        if not out or not bool(P.s_eq(out[-1], e)):
            out.append(e)
    return sa(out)


def sorted_sym(xs):
    out = []
    for x in xs:
        i = len(out)
        while i > 0 and bool(P.s_lt(x, out[i - 1])):
            i -= 1
        out.insert(i, x)
    return out


def f_argsort(a, *r, **k):
    xs = list(obj(a))
    out = []
    for j, x in enumerate(xs):
        i = len(out)
        while i > 0 and bool(P.s_lt(x, xs[out[i - 1]])):
            i -= 1
        out.insert(i, j)
    return np.array(out, dtype=int)


def f_sort(a, *r, **k):
    return sa(sorted_sym(list(obj(a).reshape(-1))))


def f_arg(a, axis, better):
    o = obj(a)
    if axis is not None and o.ndim > 1:
        m = np.moveaxis(o, axis, -1)
        out = np.empty(m.shape[:-1], dtype=int)
        for idx in np.ndindex(*out.shape):
            out[idx] = f_arg(m[idx].view(SA), None, better)
        return out
    xs = list(o.reshape(-1))
    if not xs:
        raise ValueError("attempt to get argmax of an empty sequence")
    if any(isinstance(x, (SymBool, bool, np.bool_)) for x in xs):
        for i, x in enumerate(xs):
            if bool(x):
                return i
        return 0
    b = 0
    for i in range(1, len(xs)):
        if bool(better(xs[i], xs[b])):
            b = i
    return b


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        return P.s_le(P.s_abs(P.s_sub(x, y)), P.s_add(atol, P.s_mul(rtol, P.s_abs(y))))
    return wrap_bool(emap(f, a, b))


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return b_all(list(np.atleast_1d(obj(f_isclose(a, b, rtol, atol))).reshape(-1)))


def f_array_equal(a, b, **k):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    return b_all([P.s_eq(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))])


def f_interp(x, xp, fp, left=None, right=None, **k):
    xp, fp = list(obj(xp)), list(obj(fp))

    def one(e):
        if bool(P.s_lt(e, xp[0])):
            return fp[0] if left is None else left
        if bool(P.s_gt(e, xp[-1])):
            return fp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if bool(P.s_le(e, xp[i + 1])):
                t = P.s_div(P.s_sub(e, xp[i]), P.s_sub(xp[i + 1], xp[i]))
                return P.s_add(fp[i], P.s_mul(t, P.s_sub(fp[i + 1], fp[i])))
        return fp[-1]
    return wrap(emap(one, x))


def f_norm(x, ord=None, axis=None, **k):
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    x = sa(x)
    return apply_ufunc("sqrt", sa(emap(_sq, emap(P.s_abs, x) if any(isinstance(e, CSym) for e in obj(x).reshape(-1)) else x)).sum(axis=axis))


def f_einsum(sub, *ops, **k):
    ops = [obj(o) for o in ops]
    if "->" not in sub:
        ins = sub.replace(" ", "")
        letters = ins.replace(",", "")
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    else:
        ins, out = sub.replace(" ", "").split("->")
    terms = ins.split(",")
    if "." in ins:
        raise Unsupported("einsum ellipsis")
    dims = {}
    for t, o in zip(terms, ops):
        if len(t) != o.ndim:
            raise ValueError("einsum")
        for c, n in zip(t, o.shape):
            if dims.setdefault(c, n) != n:
                raise ValueError("einsum dims")
    summed = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    f = SC["multiply"]
    for oi in np.ndindex(*res.shape):
        env = dict(zip(out, oi))
        acc = []
        for si in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, si))
            v = None
            for t, o in zip(terms, ops):
                e = o[tuple(env[c] for c in t)]
                v = e if v is None else f(v, e)
            acc.append(v)
        res[oi] = ssum(acc)
    return wrap(res)


def linear_map(fn, n):
    """matrix of a linear map R^n -> R^m given by the real function, evaluated on basis vectors"""
    cols = []
    for j in range(n):
        e = np.zeros(n)
        e[j] = 1.0
        cols.append(np.asarray(fn(e)))
    return np.array(cols).T if n else np.zeros((0, 0))


def apply_linear(M, xs):
    """M (m x n real/complex float matrix) @ symbolic vector; tiny entries (1e-15 relative) dropped as rounding"""
    m, n = M.shape
    out = np.empty(m, dtype=object)
    cplx = np.iscomplexobj(M)
    for i in range(m):
        row = M[i]
        mx = np.max(np.abs(row)) if n else 0
        terms = []
        for j in range(n):
            c = row[j]
            if abs(c) <= 4e-15 * mx:
                continue
            if cplx:
                re = c.real if abs(c.real) > 4e-15 * mx else 0.0
                im = c.imag if abs(c.imag) > 4e-15 * mx else 0.0
                terms.append(P.g_mul(CSym(F64(re), F64(im)), xs[j]))
            else:
                terms.append(SC["multiply"](F64(c), xs[j]))
        out[i] = ssum(terms) if terms else F64(0.0)
        if cplx:
            out[i] = P.tocsym(out[i])
    return out.view(SA)


def _dft(kind, x, n=None, axis=-1, norm=None):
    x = list(obj(x))
    if norm not in (None, "backward"):
        raise Unsupported("fft norm")
    if kind == "irfft":
        N = n if n is not None else 2 * (len(x) - 1)
        N = int(N)
        need = N // 2 + 1
        x = (x + [F64(0.0)] * need)[:need]
        P.REG.notes.add("fft")
        # x[t] = 1/N sum_k X_k e^{+2 pi i k t/N}, hermitian extension
        out = []
        # convolution theorem: a product of two rffts of real sequences is inverted exactly
        if all(isinstance(e, FProd) for e in x):
            return irfft_prod(x, N)
        for t in range(N):
            terms = []
            for k in range(N):
                e = P.tocsym(x[k] if k < need else P.tocsym(x[N - k]).conjugate())
                if k == 0 or (N % 2 == 0 and k == N // 2):
                    e = CSym(e.re, F64(0.0))
                c, s = csx(k * t, N)
                terms.append(P.s_sub(P.s_mul(e.re, c), P.s_mul(e.im, s)))
            out.append(P.s_div(ssum(terms), F64(N)))
        return sa(out)
    N = len(x) if n is None else int(n)
    x = (x + [F64(0.0)] * N)[:N]
    P.REG.notes.add("fft")
    sign = -1 if kind in ("fft", "rfft") else 1
    ks = range(N // 2 + 1) if kind == "rfft" else range(N)
    out = np.empty(len(ks), dtype=object)
    for i, k in enumerate(ks):
        re, im = [], []
        for t in range(N):
            e = P.tocsym(x[t])
            if _iszero(e.re) and _iszero(e.im):
                continue
            c, s = csx(k * t, N)
            s = s * sign
            re.append(P.s_sub(SC["multiply"](e.re, c), SC["multiply"](e.im, s)))
            im.append(P.s_add(SC["multiply"](e.re, s), SC["multiply"](e.im, c)))
        r, q = ssum(re), ssum(im)
        if kind == "ifft":
            r, q = P.s_div(r, F64(N)), P.s_div(q, F64(N))
        out[i] = CSym(r, q)
    res = out.view(SA)
    return res


def csx(k, N):
    """cos, sin of 2 pi k/N, exact at multiples of pi/2"""
    k %= N
    if 4 * k % N == 0:
        q = 4 * k // N
        return [(1, 0), (0, 1), (-1, 0), (0, -1)][q]
    if 8 * k % N == 0:
        r = math.sqrt(0.5)
        q = 8 * k // N
        return {1: (r, r), 3: (-r, r), 5: (-r, -r), 7: (r, -r)}[q]
    a = 2 * math.pi * k / N
    return F64(math.cos(a)), F64(math.sin(a))


class FProd(object):
    pass


def f_polyfit(x, y, deg, *a, **k):
    xs = [float(e) for e in obj(x)]
    ys = list(obj(y))
    n = len(xs)
    if a or k or deg > 4 or n <= deg or len(set(xs)) <= deg:
        M = linear_map(lambda e: np.polyfit(xs, e, deg, *a, **k), n)
        return apply_linear_full(M, ys)
    from fractions import Fraction as Fr
    X = [Fr(v) for v in xs]
    return exact_ls([[v ** (deg - j) for j in range(deg + 1)] for v in X], ys)


def exact_ls(V, ys):
    """least squares (V^T V)^-1 V^T y in rationals"""
    from fractions import Fraction as Fr
    n, q = len(V), len(V[0])
    G = [[sum(V[i][r] * V[i][c] for i in range(n)) for c in range(q)] + [Fr(int(r == c)) for c in range(q)] for r in range(q)]
    for c in range(q):
        pv = next(r for r in range(c, q) if G[r][c] != 0)
        G[c], G[pv] = G[pv], G[c]
        d = G[c][c]
        G[c] = [v / d for v in G[c]]
        for r in range(q):
            if r != c and G[r][c] != 0:
                f = G[r][c]
                G[r] = [u - f * w for u, w in zip(G[r], G[c])]
    out = np.empty(q, dtype=object)
    for r in range(q):
        out[r] = ssum([SC["multiply"](ysi, Sym({0: P.norm(co)})) if co else F64(0.0)
                       for ysi, co in ((ys[i], sum(G[r][q + j] * V[i][j] for j in range(q))) for i in range(n))])
    return out.view(SA)


def apply_linear_full(M, xs):
    m, n = M.shape
    out = np.empty(m, dtype=object)
    for i in range(m):
        out[i] = ssum([SC["multiply"](F64(M[i, j]), xs[j]) for j in range(n)])
    return out.view(SA)


def f_polyval(p, x):
    p = list(obj(p))

    def one(e):
        r = F64(0.0)
        for c in p:
            r = SC["add"](SC["multiply"](r, e), c)
        return r
    return wrap(emap(one, x))


def f_trapezoid(y, x=None, dx=1.0, axis=-1):
    y = sa(y)
    if y.ndim != 1:
        raise Unsupported("trapezoid nd")
    d = f_diff(sa(x)) if x is not None else dx
    return (d * (y[1:] + y[:-1])).sum() / 2.0


def f_insert(a, idx, vals, axis=None):
    return rewrap(np.insert(obj(a), objdeep(idx), obj(vals) if not is_scalar(vals) else obj(vals), axis=axis))


def f_append(a, vals, axis=None):
    a, v = obj(a), obj(vals)
    if axis is None:
        return f_concatenate([a.reshape(-1), v.reshape(-1)])
    return f_concatenate([a, v], axis)


def f_isscalar(x):
    return is_scalar(x) or np.isscalar(x)


def f_zeros_like(fillv):
    def g(a, dtype=None, order="K", subok=True, shape=None, *r, **k):
        sh = shape if shape is not None or isinstance(a, SelSA) else np.shape(a)
        if isinstance(a, SelSA):
            sh = (len(a),) if shape is None else shape
        if dtype is None:
            kind = "f"
            if isinstance(a, ND) and not isinstance(a, SA):
                kind = a.dtype.kind
            elif isinstance(a, (list, tuple)) and not anysym(a):
                kind = np.asarray(a).dtype.kind
            elif isinstance(a, SA) and a.size and all(isinstance(e, (SymBool, bool, np.bool_)) for e in a.view(ND).reshape(-1)):
                kind = "b"
        else:
            kind = dt_kind(dtype)
        return mkfull(sh, fillv, kind, dtype)
    return g


def mkfull(shape, v, kind, dtype=None):
    if isinstance(shape, (int, np.integer, float, Sym)):
        if isinstance(shape, float) and not isinstance(shape, np.integer):
            raise TypeError("'float' object cannot be interpreted as an integer")
        shape = (int(shape),)
    shape = tuple(int(s) if not isinstance(s, (float, np.floating)) else _noint() for s in shape)
    if kind in "iub":
        return np.full(shape, v, dtype=bool if kind == "b" else int)
    o = np.empty(shape, dtype=object)
    o[...] = (F64(v) if not is_sym(v) else v) if kind != "c" else P.tocsym(v)
    if kind == "c":
        of = o.reshape(-1)
        for i in range(of.size):
            of[i] = P.tocsym(v)
    return o.view(SA)


def _noint():
    raise TypeError("'float' object cannot be interpreted as an integer")


def f_full(shape, v, dtype=None, **k):
    if dtype is None:
        if isinstance(v, (bool, np.bool_)):
            return np.full(shape, v)
        if isinstance(v, (int, np.integer)):
            return np.full(shape, v)
        kind = "f"
    else:
        kind = dt_kind(dtype)
    return mkfull(shape, v, kind)


def f_array(x=None, dtype=None, copy=True, **k):
    nd = k.get("ndmin", 0)
    if isinstance(x, SelSA):
        x = x._sa()
    if anysym(x):
        r = emap(fixelem, obj(x)).view(SA)
        flat = r.view(ND).reshape(-1)
        if dtype is not None:
            r = f_astype(r, dtype)
        elif flat.size and all(isinstance(e, (bool, np.bool_, SymBool)) for e in flat):
            r = wrap_bool(obj(r).copy())
        if isinstance(r, ND):
            while r.ndim < nd:
                r = r[None]
        elif is_scalar(r):
            if nd:
                r = sa([r])
            else:
                o = np.empty((), dtype=object)
                o[()] = r
                r = o.view(SA)
        return r
    kk = dict(k)
    if dtype is not None:
        kind = dt_kind(dtype)
        if kind == "s":
            r = np.array(x, dtype=dtype, **kk)
            return sa(r)
        r = np.array(x, dtype={"f": float, "c": complex, "i": int, "u": int, "b": bool, "O": object}[kind] if not isinstance(dtype, np.dtype) or kind == "f" else dtype, **kk)
    else:
        r = np.array(x, **kk)
    if r.dtype.kind in "fc" and r.ndim:
        return sa(r)
    if r.dtype.kind == "O" and r.ndim:
        return r.view(SA)
    return r


def f_asarray(x=None, dtype=None, *a, **k):
    if isinstance(x, SA) and (dtype is None or dt_kind(dtype) == "f"):
        return x
    if isinstance(x, ND) and not isinstance(x, SA) and dtype is None:
        return sa(x) if x.dtype.kind in "fc" and x.ndim else x
    k.pop("copy", None)
    k.pop("order", None)
    return f_array(x, dtype=dtype, **k)


def f_arange(*a, **k):
    dtype = k.pop("dtype", None)
    args = list(a)
    if "start" in k or "stop" in k or "step" in k:
        st = k.pop("start", args[0] if args else 0)
        if "stop" in k:
            en = k.pop("stop")
        elif len(args) == 1:
            st, en = 0, args[0]
        else:
            en = args[1]
        step = k.pop("step", args[2] if len(args) > 2 else 1)
        args = [st, en, step]
    if any(is_sym(x) and (not isinstance(x, Sym) or x.const() is None) for x in args):
        return sym_arange(args)
    args = [float(x) if isinstance(x, Sym) else x for x in args]
    r = np.arange(*args) if dtype is None or dt_kind(dtype) in "iu" else np.arange(*args).astype(float)
    if dtype is not None and dt_kind(dtype) in "iu":
        r = r.astype(int)
    return sa(r) if r.dtype.kind == "f" else r


ARANGE_FP = [True]


def sym_arange(args):
    """np.arange with symbolic float arguments: length = ceil((stop-start)/step) computed in floating point;
    the quotient carries a relative rounding error of a few ulp, so a quotient that is exactly an integer q may
    give length q or q+1; both are explored."""
    if len(args) == 1:
        st, en, step = F64(0.0), args[0], F64(1.0)
    elif len(args) == 2:
        st, en, step = args[0], args[1], F64(1.0)
    else:
        st, en, step = args
    q = P.s_div(P.s_sub(en, st), step)
    c = q.const() if isinstance(q, Sym) else P.coef(q)
    if c is None:
        n = P.concretize_int(P.s_ceil(q))
    else:
        n = int(math.ceil(c))
        if ARANGE_FP[0] and n == c and n > 0:
            P.EXPL[0].fpcount = getattr(P.EXPL[0], "fpcount", 0)
            b = P.symbool_var("_arange_extra_%d_%s" % (n, abs(hash((P.pkey(P.topoly(en)), P.pkey(P.topoly(step)), P.pkey(P.topoly(st))))) % 10**9))
            P.REG.notes.add("arange-fp")
            if bool(b):
                n += 1
    return sa([P.s_add(st, P.s_mul(F64(i), step)) for i in range(n)])


def f_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, **k):
    if not (is_sym(a) or is_sym(b)):
        r = np.linspace(a, b, int(num), endpoint=endpoint)
        r2 = sa(r)
        return (r2, (b - a) / max(1, (int(num) - (1 if endpoint else 0)))) if retstep else r2
    num = int(num)
    div = num - 1 if endpoint else num
    step = P.s_div(P.s_sub(b, a), F64(div)) if div else NAN
    out = [P.s_add(a, P.s_mul(F64(i), step)) for i in range(num)]
    if endpoint and num > 1:
        out[-1] = b
    return (sa(out), step) if retstep else sa(out)


def f_logspace(a, b, num=50, endpoint=True, base=10.0, **k):
    if is_sym(a) or is_sym(b):
        raise Unsupported("symbolic logspace")
    return sa(np.logspace(a, b, int(num), endpoint=endpoint, base=base))


def f_as_strided(x, shape=None, strides=None, **k):
    if isinstance(x, SA):
        return np.lib.stride_tricks.as_strided(x.view(ND), shape=shape, strides=strides, **{q: w for q, w in k.items() if q != "subok"}).view(SA)
    return np.lib.stride_tricks.as_strided(x, shape=shape, strides=strides, **k)


def f_swv(x, window_shape, axis=None, **k):
    if isinstance(x, SelSA):
        x = x._sa()
    if isinstance(x, SA) or anysym(x):
        return np.lib.stride_tricks.sliding_window_view(obj(x), window_shape, axis=axis).view(SA)
    return np.lib.stride_tricks.sliding_window_view(x, window_shape, axis=axis, **k)


def f_cumsum(a, axis=None, dtype=None, out=None):
    r = sa(a).cumsum(axis=axis)
    if out is not None:
        store(out, r)
        return out
    return r


def f_fromiter(it, dtype=float, count=-1, **k):
    return f_array(list(it), dtype=dtype)


def f_vectorize(fn, *a, **k):
    return lambda *args: wrap(emap(fn, *args))


def f_apply_along(fn, axis, arr, *a, **k):
    o = sa(arr)
    m = np.moveaxis(o.view(ND), axis, -1)
    out = [fn(m[idx].view(SA), *a, **k) for idx in np.ndindex(*m.shape[:-1])]
    return sa(out)


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=True):
    if isinstance(a, SelSA):
        return a.sum()
    if isinstance(a, types.GeneratorType):
        a = list(a)
    return sa(a).sum(axis=axis, keepdims=keepdims, initial=initial, where=where)


def meth(name):
    def g(a, *r, **k):
        if isinstance(a, SelSA):
            a = a._sa()
        return getattr(sa(a), name)(*r, **k)
    return g


def f_nan_to_num(x, copy=True, nan=0.0, **k):
    return wrap(emap(lambda e: nz0(e, nan), x))


def f_pad(a, w, mode="constant", **k):
    if mode in ("reflect", "symmetric") and k.get("reflect_type") == "odd":
        o = obj(a)
        if isinstance(w, (int, np.integer)):
            lw = rw = int(w)
        else:
            w = np.array(w).reshape(-1)
            lw, rw = int(w[0]), int(w[-1])
        off = 0 if mode == "symmetric" else 1
        n = len(o)
        if lw + off > n or rw + off > n:
            raise Unsupported("pad beyond one period")
        left = [P.s_sub(P.s_mul(2, o[0]), o[off + i]) for i in range(lw)][::-1]
        right = [P.s_sub(P.s_mul(2, o[-1]), o[n - 1 - off - i]) for i in range(rw)]
        return sa(left + list(o) + right)
    if mode == "constant":
        cv = k.get("constant_values", 0.0)
        r = np.pad(obj(a), w, mode="constant", constant_values=0)
        if not is_sym(cv) and np.ndim(cv) == 0:
            msk = np.pad(np.ones(np.shape(a), dtype=bool), w, mode="constant", constant_values=False)
            r = r.copy()
            r[~msk] = F64(cv)
            return wrap(r)
        raise Unsupported("pad constant values")
    return rewrap(np.pad(obj(a), w, mode=mode, **k))


def f_ix_lin(*a, **k):
    raise Unsupported("linear algebra on symbolic values")


def f_gradient(y, *a, **k):
    y = sa(y)
    if y.ndim != 1 or len(a) > 1 or (a and not is_scalar(a[0])) or k or len(y) < 2:
        raise Unsupported("gradient")
    h = a[0] if a else 1.0
    mid = [P.s_div(P.s_sub(y[i + 1], y[i - 1]), P.s_mul(2, h)) for i in range(1, len(y) - 1)]
    return sa([P.s_div(P.s_sub(y[1], y[0]), h)] + mid + [P.s_div(P.s_sub(y[-1], y[-2]), h)])


def f_trim_zeros(filt, trim="fb", **k):
    e = list(obj(filt))
    if any(is_sym(v) and (v.const() if hasattr(v, "const") else None) is None for v in e):
        return sa(e) if P.EXPL[0] is None else _trim(e, trim)
    return _trim(e, trim)


def _trim(e, trim):
    if "f" in trim.lower():
        while e and bool(P.s_eq(e[0], 0)):
            e = e[1:]
    if "b" in trim.lower():
        while e and bool(P.s_eq(e[-1], 0)):
            e = e[:-1]
    return sa(e)


def f_nanext(name):
    def g(a, *r, **k):
        if not r and not k:
            e = [v for v in obj(a).reshape(-1) if not (P.s_isnan(v) is True or (not is_sym(v) and v != v))]
            if e:
                a = sa(e)
        return meth(name)(a, *r, **k)
    return g


def f_piecewise(x, conds, funcs, *a, **k):
    xs = obj(x)
    conds = [emap(lambda e: e, c) for c in (conds if isinstance(conds, (list, tuple)) else [conds])]
    funcs = list(funcs)
    default = funcs.pop() if len(funcs) == len(conds) + 1 else 0.0

    def value(f, e):
        if callable(f):
            r = f(sa([e]), *a, **k)
            return obj(r).reshape(-1)[0] if not is_scalar(r) else r
        return f
    out = np.empty(xs.shape, dtype=object)
    for i in np.ndindex(*xs.shape):
        hit = default
        for c, f in zip(conds, funcs):
            if bool(c[i]):
                hit = f
        out[i] = value(hit, xs[i])
    return wrap(out)


def f_copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[where] = src[where] if isinstance(src, ND) and src.shape == dst.shape else src


def f_put(a, ind, v, mode="raise"):
    ind, v = np.atleast_1d(undt(ind) if not isinstance(ind, (list, tuple)) else ind), obj(v).reshape(-1)
    for j, i in enumerate(np.asarray(ind, dtype=int).reshape(-1)):
        a[int(i)] = v[j % len(v)]


def f_lstsq(A, y, rcond=None):
    """least squares with a known, full-rank design matrix, exactly (rational normal equations)"""
    from fractions import Fraction as Fr
    if anysym(A) and any(is_sym(e) and P.lift(e).const() is None for e in obj(A).reshape(-1)):
        raise Unsupported("lstsq with a symbolic design matrix")
    D = np.array([[float(e) for e in row] for row in obj(A)])
    ys = list(obj(y))
    if obj(y).ndim != 1 or np.linalg.matrix_rank(D) < D.shape[1]:
        raise Unsupported("lstsq")
    n, q = D.shape
    V = [[Fr(float(D[i, j])) for j in range(q)] for i in range(n)]
    out = exact_ls(V, ys)
    res = [P.s_sub(ys[i], ssum([SC["multiply"](F64(D[i, j]), out[j]) for j in range(q)])) for i in range(n)]
    return out, sa([ssum([SC["multiply"](e, e) for e in res])]) if n > q else sa([]), q, np.linalg.svd(D, compute_uv=False)


class Poly1(object):
    """numpy.poly1d with symbolic coefficients (highest power first)"""

    def __init__(self, c, r=False, variable=None):
        if r:
            raise Unsupported("poly1d from roots")
        self.coeffs = self.c = self.coef = self.coefficients = sa(list(obj(c)))
        self.order = self.o = len(self.c) - 1

    def __call__(self, x):
        return f_polyval(self.c, x)

    def __getitem__(self, k):
        return self.c[self.order - k] if 0 <= k <= self.order else F64(0.0)

    def __iter__(self):
        return iter(self.c)

    def __len__(self):
        return self.order


def f_poly1d(c, *a, **k):
    return Poly1(c, *a, **k) if anysym(c) else np.poly1d(c, *a, **k)


class PolyFit(object):
    """numpy.polynomial.Polynomial with symbolic coefficients in increasing order (unscaled domain)"""

    def __init__(self, c):
        self.coef = sa(list(obj(c)))

    def convert(self, *a, **k):
        return self

    def __call__(self, x):
        return f_polyval(self.coef[::-1], x)

    @staticmethod
    def fit(x, y, deg, *a, **k):
        if not anysym(y) and not anysym(x):
            return np.polynomial.Polynomial.fit(x, y, deg, *a, **k)
        if a or k or not isinstance(deg, (int, np.integer)):
            raise Unsupported("Polynomial.fit")
        return PolyFit(f_polyfit(x, y, deg)[::-1])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("Polynomial.%s" % n)


def pp_fit(x, y, deg, *a, **k):
    if not anysym(y) and not anysym(x):
        return sa(np.polynomial.polynomial.polyfit(x, y, deg, *a, **k))
    return f_polyfit(x, y, deg, *a, **k)[::-1]


def pp_val(x, c, **k):
    if not anysym(x) and not anysym(c):
        return fx(np.polynomial.polynomial.polyval(x, c, **k))
    return f_polyval(sa(list(obj(c)))[::-1], x)


class CClass(object):
    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        return FUN["column_stack"](list(k)) if any(anysym(e) for e in k) else fx(np.c_[k])


def f_roll(a, shift, axis=None):
    return rewrap(np.roll(obj(a), int(shift), axis=axis))


def f_outer(a, b, **k):
    a, b = obj(a).reshape(-1), obj(b).reshape(-1)
    return apply_ufunc("multiply", a[:, None], b)


def f_broadcast_to(a, shape, **k):
    return wrap(np.broadcast_to(obj(a), shape))


def f_median(a, axis=None, **k):
    if axis is not None and obj(a).ndim > 1:
        o = np.moveaxis(obj(a), axis, -1)
        r = np.empty(o.shape[:-1], dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = f_median(o[i])
        return wrap(r)
    s = sorted_sym(list(obj(a).reshape(-1)))
    n = len(s)
    return s[n // 2] if n % 2 else P.s_div(P.s_add(s[n // 2 - 1], s[n // 2]), 2)


def f_quantile(a, q, axis=None, method="linear", keepdims=False, **k):
    if axis is not None and obj(a).ndim > 1 or method != "linear":
        raise Unsupported("quantile")
    s = sorted_sym(list(obj(a).reshape(-1)))

    def one(p):
        h = (len(s) - 1) * float(p)
        i = int(math.floor(h))
        if i >= len(s) - 1:
            return s[-1]
        f = h - i
        return P.s_add(s[i], P.s_mul(F64(f), P.s_sub(s[i + 1], s[i]))) if f else s[i]
    qq = np.asarray(q)
    return one(qq) if qq.ndim == 0 else sa([one(p) for p in qq])


def f_bincount(x, weights=None, minlength=0):
    ix = [int(e) for e in obj(x)]
    n = max([minlength] + [i + 1 for i in ix])
    w = [1] * len(ix) if weights is None else list(obj(weights))
    out = [[] for _ in range(n)]
    for i, v in zip(ix, w):
        out[i].append(v)
    return sa([ssum(o) if o else F64(0.0) for o in out])


def f_cross(a, b, **k):
    a, b = list(obj(a)), list(obj(b))
    if len(a) != 3 or len(b) != 3:
        raise Unsupported("cross")
    m, s = SC["multiply"], P.s_sub
    return sa([s(m(a[1], b[2]), m(a[2], b[1])), s(m(a[2], b[0]), m(a[0], b[2])), s(m(a[0], b[1]), m(a[1], b[0]))])


def f_kron(a, b):
    a, b = obj(a), obj(b)
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported("kron")
    return sa([SC["multiply"](u, v) for u in a for v in b])


def f_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    if fweights is not None or aweights is not None:
        raise Unsupported("cov weights")
    o = obj(m)
    rows = [list(o)] if o.ndim == 1 else [list(r) for r in (o if rowvar else o.T)]
    if y is not None:
        p = obj(y)
        rows += [list(p)] if p.ndim == 1 else [list(r) for r in (p if rowvar else p.T)]
    n = len(rows[0])
    if ddof is None:
        ddof = 0 if bias else 1
    cen = []
    for r in rows:
        mu = P.s_div(ssum(r), n)
        cen.append([P.s_sub(e, mu) for e in r])
    out = np.empty((len(rows), len(rows)), dtype=object)
    for i in range(len(rows)):
        for j in range(len(rows)):
            out[i, j] = P.s_div(ssum([SC["multiply"](u, v) for u, v in zip(cen[i], cen[j])]), n - ddof)
    return out[0, 0] if len(rows) == 1 else out.view(SA)


def f_corrcoef(x, y=None, rowvar=True, **k):
    c = f_cov(x, y, rowvar)
    if not isinstance(c, SA):
        return F64(1.0)
    o = obj(c)
    r = np.empty(o.shape, dtype=object)
    for i in range(len(o)):
        for j in range(len(o)):
            r[i, j] = F64(1.0) if i == j else P.s_div(o[i, j], P.s_sqrt(P.s_mul(o[i, i], o[j, j])))
    return r.view(SA)


def _angle(e):
    if isinstance(e, CSym):
        raise Unsupported("angle")
    return s_ite(P.s_lt(e, 0), F64(math.pi), F64(0.0)) if is_sym(e) else np.angle(e)


def nd_filter(kind):
    """scipy.ndimage one-dimensional filters"""
    def g(x, size=None, axis=-1, output=None, mode="reflect", cval=0.0, origin=0, weights=None, **k):
        if kind in ("convolve", "correlate"):
            w = [F64(float(e)) for e in (weights if weights is not None else size)]
            if kind == "convolve":
                w = w[::-1]
                origin = -origin
                if not len(w) % 2:
                    origin -= 1
            size = len(w)
        size = int(size)
        xs = obj(x)
        if xs.ndim != 1 or output is not None:
            raise Unsupported("ndimage filter")
        xs = list(xs)
        n = len(xs)
        left = size // 2 + int(origin)
        md = {"reflect": "symmetric", "grid-mirror": "symmetric", "nearest": "edge", "mirror": "reflect", "wrap": "wrap", "grid-wrap": "wrap", "constant": "constant", "grid-constant": "constant"}[mode]
        if md == "constant":
            src = [xs[i] if 0 <= i < n else F64(cval) for i in range(-size, n + size)]
        else:
            src = [xs[i] for i in np.pad(np.arange(n), size, mode=md)]
        out = []
        for i in range(n):
            wnd = src[size + i - left:size + i - left + size]
            if kind == "max":
                out.append(P.s_max(wnd))
            elif kind == "min":
                out.append(P.s_min(wnd))
            elif kind == "uniform":
                out.append(P.s_div(ssum(wnd), size))
            else:
                out.append(ssum([SC["multiply"](a, b) for a, b in zip(w, wnd)]))
        return sa(out)
    return g


def f_select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = f_where(c, v, r)
    return r


def f_searchsorted(a, v, side="left", **k):
    xs = list(obj(a))

    def one(e):
        n = 0
        for x in xs:
            if bool(P.s_lt(x, e) if side == "left" else P.s_le(x, e)):
                n += 1
            else:
                break
        return n
    r = emap(one, v)
    return r.astype(int) if r.shape else int(r[()])


def f_digitize(x, bins, right=False):
    return f_searchsorted(bins, x, side="left" if right else "right")


def f_isreal(x):
    return wrap_bool(emap(lambda e: True, x))


def f_iscomplexobj(x):
    o = obj(x)
    return any(isinstance(e, (CSym, complex, np.complexfloating)) for e in o.reshape(-1))


def f_ndim(x):
    if isinstance(x, ND):
        return x.ndim
    return 0 if is_scalar(x) else (1 if isinstance(x, SelSA) else obj(x).ndim)


def f_size(x, axis=None):
    if is_scalar(x):
        return 1
    if axis is not None:
        return f_shape(x)[axis]
    if isinstance(x, ND):
        return x.size
    return obj(x).size if not isinstance(x, SelSA) else len(x)


def f_shape(x):
    if is_scalar(x):
        return ()
    if isinstance(x, SelSA):
        return x.shape
    if isinstance(x, ND):
        return x.view(ND).shape
    return np.shape(x) if not isinstance(x, (list, tuple)) or not anysym(x) else obj(x).shape


FUN = {
    "sum": f_sum, "nansum": f_nansum, "mean": f_mean, "average": f_average, "var": f_var, "std": f_std,
    "nanmean": f_nanmean, "nanvar": f_nanvar, "where": f_where, "nonzero": f_nonzero,
    "flatnonzero": lambda a: f_nonzero(sa(a).reshape(-1))[0], "argwhere": lambda a: sa(f_nonzero(a)[0]).reshape(-1, 1),
    "count_nonzero": f_count_nonzero, "take": f_take, "compress": f_compress, "clip": f_clip, "dot": f_dot, "vdot": f_dot, "inner": f_dot, "matmul": f_matmul,
    "convolve": f_convolve, "correlate": f_correlate, "diff": f_diff, "ediff1d": lambda a: f_diff(a),
    "concatenate": f_concatenate, "concat": f_concatenate, "unique": f_unique, "sort": f_sort, "argsort": f_argsort,
    "argmax": meth("argmax"), "argmin": meth("argmin"), "max": meth("max"), "amax": meth("max"), "min": meth("min"),
    "amin": meth("min"), "ptp": lambda a, axis=None, out=None, keepdims=False: sa(a).max(axis) - sa(a).min(axis) if not keepdims else _uns("ptp"), "nanmax": f_nanext("max"), "nanmin": f_nanext("min"),
    "prod": meth("prod"), "cumsum": f_cumsum, "cumprod": meth("cumprod"), "all": meth("all"), "any": meth("any"),
    "round": meth("round"), "around": meth("round"), "round_": meth("round"), "isclose": f_isclose,
    "allclose": f_allclose, "array_equal": f_array_equal, "array_equiv": f_array_equal, "interp": f_interp,
    "einsum": f_einsum, "polyfit": f_polyfit, "polyval": f_polyval, "trapezoid": f_trapezoid, "insert": f_insert,
    "append": f_append, "isscalar": f_isscalar, "zeros_like": f_zeros_like(0.0), "ones_like": f_zeros_like(1.0),
    "empty_like": f_zeros_like(0.0), "full_like": lambda a, v, dtype=None, **k: f_zeros_like(v)(a, dtype),
    "array": f_array, "asarray": f_asarray, "asanyarray": f_asarray, "ascontiguousarray": f_asarray,
    "asfarray": f_asarray, "arange": f_arange, "linspace": f_linspace, "logspace": f_logspace,
    "geomspace": lambda *a, **k: sa(np.geomspace(*a, **k)),
    "fromiter": f_fromiter, "vectorize": f_vectorize, "apply_along_axis": f_apply_along,
    "nan_to_num": f_nan_to_num, "pad": f_pad, "roll": f_roll, "outer": f_outer, "broadcast_to": f_broadcast_to,
    "median": f_median, "select": f_select, "searchsorted": f_searchsorted, "digitize": f_digitize,
    "isreal": f_isreal, "iscomplexobj": f_iscomplexobj, "isrealobj": lambda x: not f_iscomplexobj(x), "ndim": f_ndim, "size": f_size, "shape": f_shape,
    "copy": lambda a, **k: sa(a).copy(), "real": lambda a: a.real, "imag": lambda a: a.imag,
    "fix": lambda a: apply_ufunc("trunc", a), "gradient": f_gradient,
    "array_str": lambda a, *r, **k: str(a), "array_repr": lambda a, *r, **k: repr(a), "array2string": lambda a, *r, **k: str(a),
    "piecewise": f_piecewise, "copyto": f_copyto, "put": f_put, "poly1d": f_poly1d, "require": lambda a, *r, **k: f_asarray(a),
    "nanstd": lambda a, ddof=0, **k: apply_ufunc("sqrt", f_nanvar(a, ddof=ddof)), "tensordot": lambda a, b, axes=2: f_dot(a, b) if obj(a).ndim == 1 and obj(b).ndim == 1 and axes in (1, ([0], [0]), [0, 0], (0, 0)) else _uns("tensordot"),
    "nanmedian": lambda a, axis=None, **k: f_median([e for e in obj(a).reshape(-1) if P.s_isnan(e) is not True], None), "may_share_memory": f_share, "shares_memory": f_share,
    "sinc": lambda x: wrap(emap(lambda e: np.sinc(e) if not is_sym(e) else P.s_div(P.s_sin(P.s_mul(math.pi, e)), P.s_mul(math.pi, e)), x)),
    "nancumsum": lambda a, **k: f_cumsum(f_nan_to_num(a)),
    "result_type": lambda *a: np.dtype(float), "common_type": lambda *a: float, "can_cast": lambda *a, **k: True,
    "isin": lambda a, b, **k: wrap_bool(emap(lambda e: b_any([P.s_eq(e, y) for y in obj(b).reshape(-1)]), a)),
    "float_power": lambda a, b: apply_ufunc("power", a, b),
    "trim_zeros": f_trim_zeros, "cross": f_cross, "kron": f_kron, "cov": f_cov, "corrcoef": f_corrcoef, "frompyfunc": lambda fn, nin, nout: f_vectorize(fn), "trace": lambda a, offset=0, **k: ssum(list(np.diagonal(obj(a), offset))),
    "partition": lambda a, kth, axis=-1, **k: sa(sorted_sym(list(obj(a).reshape(-1)))), "percentile": lambda a, q, axis=None, **k: f_quantile(a, np.asarray(q) / 100., axis, **k),
    "quantile": lambda a, q, axis=None, **k: f_quantile(a, q, axis, **k), "bincount": f_bincount, "iterable": lambda a: not is_scalar(a),
    "angle": lambda a, deg=False: wrap(emap(_angle, a)),
    "fftshift": lambda a, axes=None: sa(list(np.roll(obj(a), len(obj(a)) // 2))), "ifftshift": lambda a, axes=None: sa(list(np.roll(obj(a), -(len(obj(a)) // 2)))),
}


def _uns(n):
    raise Unsupported(n)


STRUCT = ["reshape", "ravel", "transpose", "moveaxis", "swapaxes", "flip", "flipud", "fliplr", "hstack", "vstack", "stack",
          "column_stack", "dstack", "split", "array_split", "hsplit", "vsplit", "tile", "repeat", "expand_dims", "squeeze",
          "delete", "take", "compress", "extract", "atleast_1d", "atleast_2d", "atleast_3d", "diag", "diagonal", "tril", "triu",
          "broadcast_arrays", "meshgrid", "rot90", "choose", "take_along_axis", "block", "resize", "row_stack"]
for _n in STRUCT:
    if hasattr(np, _n):
        FUN.setdefault(_n, lift_struct(_n))

BYFUNC = {}
for _n, _f in FUN.items():
    _r = getattr(np, _n, None)
    if _r is not None:
        try:
            BYFUNC[_r] = _f
        except TypeError:
            pass
BYFUNC[np.linalg.norm] = f_norm
BYFUNC[np.lib.stride_tricks.as_strided] = f_as_strided
BYFUNC[np.lib.stride_tricks.sliding_window_view] = f_swv


def concrete(v):
    """the same arguments for the real function when none of them holds a symbol"""
    if is_sym(v) or isinstance(v, SelSA):
        raise Unsupported("symbolic")
    if isinstance(v, SA):
        o = v.view(ND)
        if any(is_sym(e) for e in o.reshape(-1)):
            raise Unsupported("symbolic")
        return np.array(o.tolist(), dtype=complex if any(isinstance(e, (complex, np.complexfloating)) for e in o.reshape(-1)) else float)
    if isinstance(v, list):
        return [concrete(e) for e in v]
    if isinstance(v, tuple):
        return tuple(concrete(e) for e in v)
    if isinstance(v, dict):
        return {k: concrete(e) for k, e in v.items()}
    return undt(v)


def call_np(func, args, kw):
    f = BYFUNC.get(func)
    if f is not None:
        return f(*args, **kw)
    name = getattr(func, "__name__", str(func))
    if name in ("shape", "ndim", "size"):
        return func(*[a.view(ND) if isinstance(a, SA) else a for a in args], **kw)
    try:
        cargs, ckw = concrete(list(args)), concrete(kw)
    except Unsupported:
        raise Unsupported("numpy.%s on symbolic data" % name)
    with np.errstate(all="ignore"):
        return fx(func(*cargs, **ckw))
    raise Unsupported("numpy.%s on symbolic data" % name)


# ------------------------------------------------------------------------------------------- the numpy stand-in

class NumT(type):
    def __instancecheck__(cls, x):
        if isinstance(x, cls.__real__):
            return True
        return cls.__symkind__ == "f" and isinstance(x, Sym)

    def __subclasscheck__(cls, c):
        r = cls.__real__
        if c is cls:
            return True
        try:
            return issubclass(c, r)
        except TypeError:
            return False

    def __eq__(cls, o):
        return cls is o or o is cls.__real__

    def __hash__(cls):
        return hash(cls.__real__)


def mknum(name, real, kind, conv):
    class N(metaclass=NumT):
        __real__ = real
        __symkind__ = kind

        def __new__(cls, *a, **k):
            return conv(*a, **k)
    N.__name__ = N.__qualname__ = name
    for attr in ("fromhex", "maximum_value"):
        if hasattr(real, attr):
            setattr(N, attr, getattr(real, attr))
    return N


def c_float(x=0.0, *a):
    if is_sym(x):
        return x.num() if isinstance(x, SymBool) else x.flt() if isinstance(x, Sym) else x
    if isinstance(x, SA):
        if x.size == 1:
            return c_float(x.view(ND).reshape(-1)[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    return float(x)


def c_npfloat(x=0.0, *a):
    if is_sym(x):
        return c_float(x)
    if isinstance(x, SA) or (isinstance(x, (list, tuple)) and anysym(x)):
        return f_astype(sa(x), float)
    if isinstance(x, ND) and x.ndim:
        return sa(x.astype(float))
    return F64(x)


def c_int(x=0, *a):
    if isinstance(x, Sym):
        # a value confined to a small range forks now; any other stays symbolic and __index__ (range, slicing, ...) forks over the feasible values
        if x.ok is not None:
            return int(x)
        t = P.s_trunc(x)
        if not isinstance(t, Sym):
            return int(t)
        return P.EXPL[0].concretize(t) if P.EXPL[0] is not None and P.EXPL[0].bounded(t) else t
    if isinstance(x, SymBool):
        return int(x)
    if isinstance(x, SA):
        return int(x)
    return int(x, *a)


def c_npint(real):
    def f(x=0, *a):
        if isinstance(x, SA) or (isinstance(x, (list, tuple)) and anysym(x)):
            return f_astype(x if isinstance(x, SA) else sa(x), int)
        if is_sym(x):
            return int(x)
        return real(x, *a)
    return f


def c_bool(x=False, *a):
    if isinstance(x, SA) or (isinstance(x, (list, tuple)) and anysym(x)):
        return f_astype(sa(x), bool)
    if is_sym(x):
        return tobool(x)
    return np.bool_(x)


def c_complex(*a):
    if any(is_sym(x) for x in a):
        a = [x.num() if isinstance(x, SymBool) else x for x in a]
        return P.tocsym(a[0]) if len(a) == 1 else CSym(a[0], a[1])
    return complex(*a)


def c_small(real):
    def f(x=0.0):
        if isinstance(x, SA) or is_sym(x):
            return f_astype(x, real)
        r = real(x)
        return r if np.ndim(r) == 0 else sa(r)
    return f


class PyIntT(NumT):
    pass


FloatShim = mknum("float", float, "f", c_float)
IntShim = mknum("int", int, "i", c_int)
ComplexShim = mknum("complex", complex, "c", c_complex)
P.PRETEND_FLOAT = FloatShim

NPTYPES = {}
for _n in ("float64", "double", "longdouble", "float128"):
    if hasattr(np, _n):
        NPTYPES[_n] = mknum(_n, np.float64, "f", c_npfloat)
for _n in ("float32", "float16", "single", "half"):
    if hasattr(np, _n):
        NPTYPES[_n] = getattr(np, _n) if False else mknum(_n, getattr(np, _n), "f", c_small(getattr(np, _n)))
        NPTYPES[_n].__symkind__ = "s"
for _n in ("int64", "int32", "int16", "int8", "intp", "int_", "uint8", "uint16", "uint32", "uint64", "longlong"):
    NPTYPES[_n] = mknum(_n, getattr(np, _n), "i", c_npint(getattr(np, _n)))
NPTYPES["bool_"] = NPTYPES["bool"] = mknum("bool_", np.bool_, "b", c_bool)
NPTYPES["complex128"] = mknum("complex128", np.complex128, "c", c_complex)


def undt(a):
    """map stand-in types back to real ones for concrete numpy calls"""
    r = getattr(a, "__real__", None)
    if r is not None and isinstance(a, NumT):
        return r
    if isinstance(a, SA):
        return a
    return a


def creation(fillv):
    def g(shape, dtype=None, order="C", **k):
        return mkfull(shape, fillv, dt_kind(dtype))
    return g


CREATE = {"zeros": creation(0.0), "ones": creation(1.0), "empty": creation(0.0), "full": f_full, "array": f_array,
          "asarray": f_asarray, "asanyarray": f_asarray, "ascontiguousarray": f_asarray, "arange": f_arange,
          "linspace": f_linspace, "logspace": f_logspace, "zeros_like": f_zeros_like(0.0),
          "ones_like": f_zeros_like(1.0), "empty_like": f_zeros_like(0.0), "full_like": FUN["full_like"],
          "vectorize": f_vectorize, "isscalar": f_isscalar, "fromiter": f_fromiter, "geomspace": FUN["geomspace"],
          "eye": lambda *a, **k: sa(np.eye(*a, **k)), "identity": lambda n, **k: sa(np.identity(n)),
          "tri": lambda *a, **k: sa(np.tri(*a, **k)), "vander": lambda x, *a, **k: sa(np.vander(np.asarray([float(e) for e in obj(x)]), *a, **k)),
          "hanning": lambda n: sa(np.hanning(n))}


class RClass(object):
    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        parts = []
        for e in k:
            if isinstance(e, slice):
                parts.append(f_arange(e.start or 0, e.stop, e.step or 1))
            elif is_scalar(e):
                parts.append(sa([e]))
            else:
                parts.append(e)
        if any(anysym(p) for p in parts):
            return f_concatenate(parts)
        return sa(np.concatenate([np.asarray(p) for p in parts]))


class UfuncShim(object):
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__
        self.nin = u.nin

    def __call__(self, *a, **k):
        a = list(a)
        if any(isinstance(x, SelSA) for x in a):
            sel = [x for x in a if isinstance(x, SelSA)]
            if len(a) == 1 and not k:
                n = self.u.__name__
                t = SC.get(n) or SCB.get(n) or SCB2.get(n)
                if t:
                    return a[0].map(t)
            if len(a) == 2 and not k and (self.u.__name__ in SC or self.u.__name__ in SCB or self.u.__name__ in SCB2):
                if isinstance(a[0], SelSA):
                    return a[0]._bin(self.u.__name__, a[1])
                return a[1]._bin(self.u.__name__, a[0], True)
            a = [x._sa() if isinstance(x, SelSA) else x for x in a]
        k.pop("dtype", None)
        if any(anysym(x) for x in a) or any(isinstance(x, SA) for x in k.get("out", ()) or ()) or isinstance(k.get("out"), SA):
            a = [sa(x) if isinstance(x, (list, tuple)) else x for x in a]
            nin = self.u.nin
            out = k.pop("out", None)
            if len(a) > nin:
                out = a[nin]
                a = a[:nin]
            where = k.pop("where", True)
            if isinstance(out, tuple):
                out = out[0]
            r = apply_ufunc(self.u.__name__, *a)
            if where is not True:
                if out is None:
                    raise Unsupported("ufunc where without out")
                r = f_where(where, r, out)
            if out is not None:
                store(out, r)
                return out
            return r
        with np.errstate(all="ignore"):
            r = self.u(*a, **k)
        if isinstance(r, ND) and r.dtype.kind in "fc" and r.ndim:
            return sa(r)
        return r

    def _m(name):
        def g(self, x, *a, **k):
            if isinstance(x, SelSA):
                if name == "reduce" and self.u.__name__ == "add" and not a and not k:
                    return x.sum()
                x = x._sa()
            if anysym(x):
                x = sa(x)
                kk = dict(k)
                if name in ("reduce", "accumulate"):
                    if a:
                        kk["axis"] = a[0]
                    if name == "reduce":
                        kk.setdefault("axis", 0)
                    return x.__array_ufunc__(self.u, name, x, **kk)
                return x.__array_ufunc__(self.u, name, x, *a, **k)
            if name == "at" or any(anysym(y) for y in a):
                return sa(x).__array_ufunc__(self.u, name, x, *a, **k)
            return fx(getattr(self.u, name)(x, *a, **k))
        return g
    reduce = _m("reduce")
    accumulate = _m("accumulate")
    outer = _m("outer")
    reduceat = _m("reduceat")
    at = _m("at")


def fx(r):
    if isinstance(r, ND) and r.dtype.kind in "fc" and r.ndim and not isinstance(r, SA):
        return sa(r)
    if isinstance(r, tuple):
        return tuple(fx(e) for e in r)
    return r


def deplain(a):
    """SA with only concrete entries stays SA; lists are left"""
    return a


def wrapfn(name, real):
    override = FUN.get(name) or BYFUNC.get(real)

    def g(*a, **k):
        sym = any(anysym(x) for x in a) or any(anysym(x) for x in k.values())
        if sym:
            if override is not None:
                return override(*a, **k)
            return call_np(real, a, k)
        a = [undt(x) for x in a]
        k = {q: undt(w) for q, w in k.items()}
        with np.errstate(all="ignore"):
            return fx(real(*a, **k))
    g.__name__ = name
    return g


class SubMod(types.ModuleType):
    def __init__(self, name, real, over):
        types.ModuleType.__init__(self, name)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over

    def __getattr__(self, name):
        if name in self._over:
            return self._over[name]
        r = getattr(self._real, name)
        if isinstance(r, np.ufunc):
            v = UfuncShim(r)
        elif isinstance(r, type) or isinstance(r, (int, float, str, tuple, dict, list)) or r is None:
            v = r
        elif isinstance(r, types.ModuleType):
            v = SubMod(self.__name__ + "." + name, r, {})
        elif callable(r):
            v = wrapfn(name, r)
        else:
            v = r
        self._over[name] = v
        return v


class RandomStub(object):
    """symbolic random source: every draw is a fresh real variable"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.n = 0
        self.log = []
        self.counts = {}

    def _fresh(self, kind, seedkey=None):
        self.n += 1
        return P.invar("w%d" % self.n)


def build_numpy(random_mod=None):
    over = {}
    over.update(CREATE)
    over.update(NPTYPES)
    over["ndarray"] = np.ndarray
    over["r_"] = RClass()
    over["sqrt"] = UfuncShim(np.sqrt)
    st = SubMod("numpy.lib.stride_tricks", np.lib.stride_tricks, {"as_strided": f_as_strided, "sliding_window_view": f_swv})
    over["lib"] = SubMod("numpy.lib", np.lib, {"stride_tricks": st})
    over["ma"] = SubMod("numpy.ma", np.ma, {k: (lambda kk: lambda *a, **q: _uns("numpy.ma." + kk) if anysym(a) or anysym(q) else getattr(np.ma, kk)(*a, **q))(k)
                                            for k in ("array", "masked_array", "masked_where", "masked_invalid", "MaskedArray", "masked_equal", "asarray", "fix_invalid", "compressed")})
    over["linalg"] = SubMod("numpy.linalg", np.linalg, {"lstsq": lambda A, y, rcond=None: f_lstsq(A, y) if anysym(A) or anysym(y) else np.linalg.lstsq(undt(A), undt(y), rcond=rcond),
                                                                  "solve": lambda A, y: f_matmul(sa(np.linalg.inv(concrete(sa(A)))), sa(y)) if anysym(y) else np.linalg.solve(undt(A), undt(y)),
                                                                  "multi_dot": lambda arrs: __import__("functools").reduce(f_dot, arrs)})
    fft_over = {k: (lambda kk: lambda x, n=None, axis=-1, norm=None: _fftcall(kk, x, n, axis, norm))(k)
                for k in ("fft", "ifft", "rfft", "irfft")}
    over["fft"] = SubMod("numpy.fft", np.fft, fft_over)
    if random_mod is not None:
        over["random"] = random_mod
    pm = SubMod("numpy.polynomial.polynomial", np.polynomial.polynomial, {"polyfit": pp_fit, "polyval": pp_val, "Polynomial": PolyFit})
    over["polynomial"] = SubMod("numpy.polynomial", np.polynomial, {"Polynomial": PolyFit, "polynomial": pm})
    over["poly1d"] = f_poly1d
    over["c_"] = CClass()
    over["testing"] = np.testing
    over["set_printoptions"] = lambda *a, **k: None
    over["trapz"] = f_trapezoid
    m = SubMod("numpy", np, over)
    return m


def _fftcall(kind, x, n, axis, norm):
    if isinstance(x, SelSA):
        x = x._sa()
    if anysym(x) and any(is_sym(e) for e in obj(x).reshape(-1)):
        return _dft(kind, x, n, axis, norm)
    x = np.array([complex(e) if isinstance(e, (complex, np.complexfloating)) else float(e) for e in obj(x)])
    return sa(getattr(np.fft, kind)(x, n=n, axis=axis, norm=norm))
P.OPS["__asarray__"] = lambda x: sa(list(x))
