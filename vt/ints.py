"""Machine-integer arrays: elements carry a numpy integer dtype and the exact value of the expression that
produced them.  Addition, subtraction, multiplication and integer powers stay exact (two's complement
arithmetic is exact modulo 2**bits); wherever the value is used otherwise (comparison, division, float
arithmetic, conversion, widening) it is first reduced into the range of its type, forking on whether the
exact value fits."""
import math
import numpy as np
from . import poly as P
from . import sarr as A
from .poly import Sym, SymBool, F64

ACTIVE = [False]


def bounds(dt):
    i = np.iinfo(dt)
    return int(i.min), int(i.max)


class ISym(Sym):
    __slots__ = ("e", "it", "_w")

    def __init__(self, e, it, fits=False):
        self.e = e
        self.it = np.dtype(it)
        self._w = e if fits else None
        self.nn = fits and self.it.kind == "u"
        self.ok = None

    @property
    def p(self):
        if self._w is None:
            lo, hi = bounds(self.it)
            v = P.mk(self.e)
            if not isinstance(v, Sym):
                self._w = P.topoly((int(v) - lo) % (hi - lo + 1) + lo)
            elif bool(P.s_ge(v, lo)) and bool(P.s_le(v, hi)):
                self._w = self.e
            else:
                size = hi - lo + 1
                k = P.s_floor(P.s_div(P.s_sub(v, lo), size))
                self._w = P.topoly(P.s_sub(v, P.s_mul(k, size)))
        return self._w

    def flt(self):
        return P.mk(self.p, self.it.kind == "u")

    def const(self):
        p = self.p
        return 0 if not p else p[0] if len(p) == 1 and 0 in p else None

    def __neg__(self):
        return binop("sub", 0, self)

    def __abs__(self):
        return self if self.it.kind == "u" else ISym(P.topoly(P.s_abs(self.flt())), self.it)

    def __repr__(self):
        return "ISym(%s,%s)" % (P.pstr(self.e), self.it)


def exact_in(x, dt):
    """exact (possibly unreduced) polynomial of operand x when used in type dt"""
    if isinstance(x, ISym):
        return x.e if x.it == dt else x.p
    return P.topoly(int(x))


def itype(x):
    """dtype of an integer operand, 'weak' for a Python integer, None otherwise"""
    if isinstance(x, ISym):
        return x.it
    if type(x) is int or type(x) is bool:
        return "weak"
    if isinstance(x, (np.integer, np.bool_)):
        return x.dtype
    return None


def common(a, b):
    s, t = itype(a), itype(b)
    if s is None or t is None:
        return None
    if isinstance(s, str) or isinstance(t, str):
        w, d = (a, t) if isinstance(s, str) else (b, s)
        lo, hi = bounds(d)
        if not lo <= int(w) <= hi:
            raise OverflowError("Python integer %d out of bounds for %s" % (w, d))
        return d
    d = np.result_type(s, t)
    return d if d.kind in "iu" else None


def binop(name, a, b):
    d = common(a, b)
    if d is None:
        return None
    if name in ("add", "sub", "mul"):
        x, y = exact_in(a, d), exact_in(b, d)
        return ISym(P.padd(x, y) if name == "add" else P.psub(x, y) if name == "sub" else P.pmul(x, y), d)
    if name == "pow":
        if not isinstance(b, ISym):
            if int(b) < 0:
                raise ValueError("Integers to negative integer powers are not allowed.")
            return ISym(P.ppow(exact_in(a, d), int(b)), d) if int(b) else ISym({0: 1}, d)
        raise P.Unsupported("integer power with a symbolic exponent")
    if name in ("floordiv", "mod"):
        f = P.s_floordiv if name == "floordiv" else P.s_mod
        return ISym(P.topoly(f(unint(a), unint(b))), d)
    return None


def unint(x):
    return x.flt() if isinstance(x, ISym) else x


def isint(x):
    return isinstance(x, ISym)


def hook2(name, old):
    def f(a, b):
        if isinstance(a, ISym) or isinstance(b, ISym):
            r = binop(name, a, b)
            if r is not None:
                return r
            a, b = unint(a), unint(b)
        return old(a, b)
    return f


def widened(d):
    return np.dtype(np.int64 if d.kind == "i" else np.uint64)


def all_ints(xs):
    return any(isinstance(x, ISym) for x in xs) and all(itype(x) is not None for x in xs)


def type_of(xs):
    return np.result_type(*[x.it for x in xs if isinstance(x, ISym)])


def as_float(a):
    """int array -> float array (elements reduced into their range)"""
    if isinstance(a, A.SA) and any(isinstance(e, ISym) for e in a.view(A.ND).reshape(-1)):
        return A.emap(unint, a).view(A.SA)
    return a


def cast(a, d):
    lo, hi = bounds(d)

    def cv(e):
        if isinstance(e, ISym):
            s = bounds(e.it)
            return ISym(e.p, d, lo <= s[0] and s[1] <= hi)
        return ISym(P.topoly(P.s_trunc(e)), d)
    return A.wrap(A.emap(cv, a))


def array(values, dt):
    o = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        o[i] = ISym(P.topoly(v), dt, True)
    return o.view(A.SA)


def install():
    if ACTIVE[0]:
        return
    ACTIVE[0] = True
    before = {n: getattr(A, n) for n in ("f_mean", "f_var", "f_std", "f_average", "f_nanmean", "f_nanvar", "f_astype", "f_asarray", "f_array")}
    for k in ("add", "sub", "mul", "pow", "floordiv", "mod"):
        P.OPS[k] = hook2(k, P.OPS[k])
    for k, n in (("add", "add"), ("subtract", "sub"), ("multiply", "mul"), ("power", "pow"), ("floor_divide", "floordiv"),
                 ("remainder", "mod"), ("mod", "mod")):
        A.SC[k] = hook2(n, A.SC[k])

    def hook1(k, fn):
        old = A.SC[k]
        A.SC[k] = lambda a: fn(a) if isinstance(a, ISym) else old(a)
    hook1("negative", lambda a: -a)
    hook1("absolute", abs)
    hook1("square", lambda a: binop("mul", a, a))
    hook1("sign", lambda a: ISym(P.topoly(P.s_sign(a.flt())), a.it, True))
    for k in ("floor", "ceil", "rint", "trunc", "positive", "conj", "conjugate"):
        hook1(k, lambda a: a)
    for k in ("maximum", "minimum", "fmax", "fmin"):
        def mm(a, b, old=A.SC[k]):
            if isinstance(a, ISym) or isinstance(b, ISym):
                d = common(a, b)
                r = old(unint(a), unint(b))
                return r if d is None else ISym(P.topoly(r), d, True)
            return old(a, b)
        A.SC[k] = mm

    old_sum = P.ssum

    def ssum(xs):
        xs = list(xs)
        if all_ints(xs):
            d = widened(type_of(xs))
            acc = {}
            for x in xs:
                acc = P.padd(acc, exact_in(x, d))
            return ISym(acc, d)
        return old_sum([unint(x) for x in xs])
    P.ssum = A.ssum = ssum
    A.RED["add"] = ssum

    old_prod = A._prod

    def prod(xs):
        if all_ints(xs):
            d = widened(type_of(xs))
            acc = {0: 1}
            for x in xs:
                acc = P.pmul(acc, exact_in(x, d))
            return ISym(acc, d)
        return old_prod([unint(x) for x in xs])
    A._prod = prod
    A.RED["multiply"] = prod

    for n in ("s_max", "s_min"):
        def ext(xs, old=getattr(P, n)):
            xs = list(xs)
            if all_ints(xs):
                return ISym(P.topoly(old([unint(x) for x in xs])), type_of(xs), True)
            return old([unint(x) for x in xs])
        setattr(P, n, ext)

    old_acc = A.accum

    def accum(name, x, axis=0):
        if name in ("add", "multiply") and isinstance(x, A.SA) and all_ints(list(x.view(A.ND).reshape(-1))):
            x = cast(x, widened(type_of(list(x.view(A.ND).reshape(-1)))))
        return old_acc(name, x, axis)
    A.accum = accum

    for n in ("f_mean", "f_var", "f_std", "f_average", "f_nanmean", "f_nanvar"):
        def g(a, *r, _old=getattr(A, n), **k):
            return _old(as_float(A.sa(a)) if not isinstance(a, A.SelSA) else a, *r, **k)
        setattr(A, n, g)

    old_astype = A.f_astype

    def f_astype(x, t):
        k = A.dt_kind(t)
        o = A.obj(x)
        if any(isinstance(e, ISym) for e in o.reshape(-1)):
            if k in "iu":
                try:
                    d = np.dtype(t)
                except TypeError:
                    d = np.dtype(np.int64)
                return cast(x, d if d.kind in "iu" else np.dtype(np.int64))
            x = A.emap(unint, x)
        return old_astype(x, t)
    A.f_astype = f_astype
    P.OPS["__astype__"] = f_astype

    old_asarray = A.f_asarray

    def f_asarray(x=None, dtype=None, *a, **k):
        if isinstance(x, A.SA) and dtype is not None:
            return f_astype(x, dtype)
        return old_asarray(x, dtype, *a, **k)
    A.f_asarray = f_asarray

    old_array = A.f_array

    def f_array(x=None, dtype=None, *a, **k):
        return uniform(old_array(x, dtype, *a, **k))
    A.f_array = f_array

    old_wrap = A.wrap
    A.wrap = lambda o: uniform(old_wrap(o))

    old_like = A.f_zeros_like

    def zeros_like(fillv):
        g = old_like(fillv)

        def h(a, dtype=None, *r, **k):
            q = g(a, dtype, *r, **k)
            if dtype is None and isinstance(a, A.SA) and a.size and all(isinstance(e, ISym) for e in a.view(A.ND).reshape(-1)):
                d = a.view(A.ND).reshape(-1)[0].it
                return A.emap(lambda e: ISym(P.topoly(e), d, True), q).view(A.SA)
            return q
        return h
    A.f_zeros_like = zeros_like

    A.SA.dtype = property(sa_dtype)
    old_set = A.SA.__setitem__

    def setitem(self, k, v):
        me = self.view(A.ND).reshape(-1)
        it = me[0].it if me.size and isinstance(me[0], ISym) else None

        def cv(e):
            if it is None:
                return unint(e)
            return ISym(P.topoly(e if isinstance(e, ISym) else P.s_trunc(e)), it, isinstance(e, ISym) and e.it == it)
        if isinstance(v, Sym) or (it is not None and P.is_scalar(v)):
            v = cv(v)
        elif isinstance(v, A.SA) or (it is not None and isinstance(v, (list, tuple, A.ND))):
            v = A.emap(cv, v).view(A.SA)
        old_set(self, k, v)
    A.SA.__setitem__ = setitem

    new = {id(f): getattr(A, n) for n, f in before.items()}
    for t in (A.FUN, A.CREATE):
        for k, f in list(t.items()):
            if id(f) in new:
                t[k] = new[id(f)]
            elif k in ("zeros_like", "ones_like", "empty_like"):
                t[k] = A.f_zeros_like(1.0 if k == "ones_like" else 0.0)


def uniform(o):
    """an array mixing machine integers with floats is a float array"""
    if isinstance(o, A.SA):
        fl = o.view(A.ND).reshape(-1)
        n = sum(isinstance(e, ISym) for e in fl)
        if 0 < n < fl.size:
            if all(itype(e) is not None for e in fl):
                d = type_of(list(fl))
                return cast(o, d) if d.kind in "iu" else as_float(o)
            return as_float(o)
    return o


def sa_dtype(self):
    fl = self.view(A.ND).reshape(-1)
    if fl.size and isinstance(fl[0], ISym):
        return fl[0].it
    return A.PRETEND
