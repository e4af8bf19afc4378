"""Symbolic scalars: exact sparse polynomials (Laurent / rational exponents for positive variables) over
input variables and defined atoms (sqrt, abs, max, reciprocal, integer parts, 0/1 indicators, uninterpreted functions)."""
import math
from fractions import Fraction
from numbers import Rational
import numpy as _np

Frac = Fraction
F64 = _np.float64


class Unsupported(BaseException):
    """The engine cannot encode an operation.  BaseException so that the code under test cannot swallow it."""


class Infeasible(BaseException):
    """Current path is infeasible (assumption failed)."""


class Var(object):
    __slots__ = ("id", "name", "kind", "arg", "pos", "nonneg", "reducible", "key", "meta")

    def __init__(self, id, name, kind, arg=None, pos=False, nonneg=False, reducible=False, key=None):
        self.id = id
        self.name = name
        self.kind = kind
        self.arg = arg
        self.pos = pos
        self.nonneg = nonneg or pos
        self.reducible = reducible
        self.key = key
        self.meta = None

    def __repr__(self):
        return self.name


class Registry(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.vars = []
        self.byname = {}
        self.atoms = {}
        self.monos = [()]
        self.monoid = {(): 0}
        self.prod = {}
        self.funcs = set()
        self.notes = set()
        self.assumes = []      # z3-independent global assumptions (SymBool) on input variables

    def newvar(self, name, kind="in", **kw):
        v = Var(len(self.vars), name, kind, **kw)
        self.vars.append(v)
        return v


REG = Registry()
EXPL = [None]     # current path explorer (see paths.py)


def mono(t):
    i = REG.monoid.get(t)
    if i is None:
        i = len(REG.monos)
        REG.monos.append(t)
        REG.monoid[t] = i
    return i


def coef(x):
    """python/numpy number -> exact int/Fraction; returns None for nan/inf."""
    if type(x) is int or type(x) is Fraction:
        return x
    if isinstance(x, (bool, _np.bool_)):
        return int(x)
    if isinstance(x, (int, _np.integer)):
        return int(x)
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            return None
        if x == int(x):
            return int(x)
        return Fraction(x)
    if isinstance(x, Rational):
        return Fraction(x)
    raise TypeError(type(x))


NUM = (int, float, Fraction, _np.integer, _np.floating, _np.bool_)


def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def mono_mul(i, j):
    """product of monomials: int id, or dict poly when a reduction happens"""
    if i == 0:
        return j
    if j == 0:
        return i
    key = (i, j) if i <= j else (j, i)
    r = REG.prod.get(key)
    if r is not None:
        return r
    a = dict(REG.monos[i])
    special = False
    for v, e in REG.monos[j]:
        ne = a.get(v, 0) + e
        if ne == 0:
            del a[v]
        else:
            a[v] = ne
            if REG.vars[v].reducible:
                special = True
    if not special:
        r = mono(tuple(sorted(a.items())))
    else:
        rest = {}
        factors = []
        for v, e in a.items():
            var = REG.vars[v]
            if not var.reducible or e == 1:
                rest[v] = e
                continue
            k = var.kind
            if k == "bool":
                rest[v] = 1
            elif k == "sqrt":
                h, b = divmod(e, 2)
                if b == 1:
                    rest[v] = 1
                elif b:
                    rest[v] = b
                factors.append(ppow(var.arg.p, h))
            elif k == "abs":
                h, b = divmod(e, 2)
                if b:
                    rest[v] = b
                factors.append(ppow(var.arg.p, 2 * h))
            elif k == "inv":
                if e < 0:
                    factors.append(ppow(var.arg.p, -e))
                else:
                    rest[v] = e
            else:
                rest[v] = e
        base = {mono(tuple(sorted(rest.items()))): 1}
        for f in factors:
            base = pmul(base, f)
        if len(base) == 1:
            (k, c), = base.items()
            r = k if c == 1 else base
        else:
            r = base
    REG.prod[key] = r
    return r


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for k, c in q.items():
        s = r.get(k)
        if s is None:
            r[k] = c
        else:
            s = s + c
            if s:
                r[k] = s
            else:
                del r[k]
    return r


def psub(p, q):
    r = dict(p)
    for k, c in q.items():
        s = r.get(k)
        if s is None:
            r[k] = -c
        else:
            s = s - c
            if s:
                r[k] = s
            else:
                del r[k]
    return r


def pscale(p, c):
    if c == 0:
        return {}
    if c == 1:
        return p
    return {k: norm(a * c) for k, a in p.items()}


def _acc(r, k, c):
    s = r.get(k)
    if s is None:
        r[k] = c
    else:
        s = s + c
        if s:
            r[k] = s
        else:
            del r[k]


def pmul(p, q):
    if p is q or (len(p) == len(q) and len(p) > 1 and p == q):
        return psquare(p)
    if len(p) > len(q):
        p, q = q, p
    if len(p) == 1 and 0 in p:
        return pscale(q, p[0])
    r = {}
    prod = REG.prod
    for i, a in p.items():
        for j, b in q.items():
            if i == 0:
                k = j
            elif j == 0:
                k = i
            else:
                k = prod.get((i, j) if i <= j else (j, i))
                if k is None:
                    k = mono_mul(i, j)
            c = a * b
            if type(k) is int:
                s = r.get(k)
                if s is None:
                    r[k] = c
                else:
                    s = s + c
                    if s:
                        r[k] = s
                    else:
                        del r[k]
            else:
                for kk, cc in k.items():
                    _acc(r, kk, cc * c)
    return r


def psquare(p):
    items = list(p.items())
    r = {}
    n = len(items)
    prod = REG.prod
    for x in range(n):
        i, a = items[x]
        for y in range(x, n):
            j, b = items[y]
            k = prod.get((i, j) if i <= j else (j, i))
            if k is None:
                k = mono_mul(i, j)
            c = a * b if x == y else 2 * a * b
            if type(k) is int:
                s = r.get(k)
                if s is None:
                    r[k] = c
                else:
                    s = s + c
                    if s:
                        r[k] = s
                    else:
                        del r[k]
            else:
                for kk, cc in k.items():
                    _acc(r, kk, cc * c)
    return r


ONE = {0: 1}


def ppow(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return ppow(precip(p), -n)
    r = None
    b = p
    while n:
        if n & 1:
            r = b if r is None else pmul(r, b)
        n >>= 1
        if n:
            b = psquare(b)
    return r


def mono_pow(i, e):
    """monomial to a (possibly negative/fractional) power, as poly; needs positive variables for non-integers"""
    out = ONE
    rest = {}
    for v, x in REG.monos[i]:
        var = REG.vars[v]
        ne = norm(Fraction(x) * e) if not isinstance(x * e, int) else x * e
        if var.reducible:
            if var.kind == "bool":
                raise Unsupported("power of indicator")
            if isinstance(ne, int) and var.kind == "inv":
                if ne < 0:
                    out = pmul(out, ppow(var.arg.p, -ne))
                else:
                    rest[v] = ne
                continue
            if isinstance(ne, int):
                h, b = divmod(ne, 2)
                if b:
                    rest[v] = 1
                out = pmul(out, ppow(var.arg.p, h if var.kind == "sqrt" else 2 * h))
                continue
        rest[v] = ne
    return pmul(out, {mono(tuple(sorted(rest.items()))): 1})


def precip(p):
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        (k, c), = p.items()
        q = mono_pow(k, -1)
        return pscale(q, norm(Fraction(1) / c))
    lead, prim = primitive(p)
    a = atom("inv", prim)
    return {mono(((a.id, 1),)): norm(Fraction(1) / lead)}


def primitive(p):
    """(content, primitive part): canonical scaling by the coefficient of the smallest monomial id, sign included"""
    k = min(p)
    c = p[k]
    if c == 1:
        return 1, p
    return c, {kk: norm(Fraction(a) / c) if c != 1 else a for kk, a in p.items()}


def pkey(p):
    return frozenset(p.items())


def atom(kind, p, nonneg=False, reducible=None):
    key = (kind, pkey(p))
    v = REG.atoms.get(key)
    if v is None:
        if reducible is None:
            reducible = kind in ("sqrt", "abs", "inv")
        v = REG.newvar("%s#%d" % (kind, len(REG.vars)), kind, arg=Sym(p), nonneg=nonneg or kind in ("sqrt", "abs"),
                       reducible=reducible, key=key)
        REG.atoms[key] = v
    return v


def vpoly(v):
    return {mono(((v.id, 1),)): 1}


def mk(p, nn=False, ok=None):
    """wrap a poly; constants exactly representable become np.float64"""
    if ok is None:
        if not p:
            return F64(0.0)
        if len(p) == 1 and 0 in p:
            c = p[0]
            if type(c) is int:
                if abs(c) <= 2 ** 53:
                    return F64(c)
            else:
                try:
                    f = float(c)
                    if Fraction(f) == c:
                        return F64(f)
                except OverflowError:
                    pass
    return Sym(p, nn, ok)


def topoly(x):
    if isinstance(x, Sym):
        return x.p
    if isinstance(x, SymBool):
        return x.num().p
    c = coef(x)
    if c is None:
        raise Unsupported("nan/inf operand")
    return {0: c} if c else {}


def okmul(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a == b:
        return a
    return pmul(a, b)


NAN = F64(_np.nan)


def isbad(x):
    return isinstance(x, (float, _np.floating)) and not math.isfinite(x)


def lift(x):
    """-> Sym/None if not a scalar we know"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        n = x.num()
        return n if isinstance(n, Sym) else Sym(topoly(n))
    if isinstance(x, (bool, int, float, Fraction, _np.integer, _np.floating, _np.bool_)):
        c = coef(x)
        if c is None:
            return None
        return Sym({0: c} if c else {}, c >= 0)
    return None


def is_scalar(x):
    return isinstance(x, (Sym, SymBool, CSym, bool, int, float, complex, Fraction, _np.generic))


def _binop(name):
    def f(self, other):
        if isinstance(other, Sym):
            return OPS[name](self, other)
        if isinstance(other, (SymBool, CSym) + NUM):
            return OPS[name](self, other)
        if isinstance(other, (complex, _np.complexfloating)):
            return OPS[name](CSym(self, 0), other)
        if isinstance(other, _np.ndarray):
            return OPS["__array__"](name, self, other)
        if isinstance(other, (list, tuple)) and name in ARITH:
            return OPS["__array__"](name, self, OPS["__asarray__"](other))     # as a numpy scalar does
        return NotImplemented

    def r(self, other):
        if isinstance(other, (Sym, SymBool, CSym) + NUM):
            return OPS[name](other, self)
        if isinstance(other, (complex, _np.complexfloating)):
            return OPS[name](other, CSym(self, 0))
        if isinstance(other, _np.ndarray):
            return OPS["__array__"](name, other, self)
        if isinstance(other, (list, tuple)) and name in ARITH:
            return OPS["__array__"](name, OPS["__asarray__"](other), self)
        return NotImplemented
    return f, r


OPS = {}
ARITH = ("add", "sub", "mul", "div", "pow")


class Sym(object):
    __slots__ = ("p", "nn", "ok")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, p, nn=False, ok=None):
        self.p = p
        self.nn = nn
        self.ok = ok

    __add__, __radd__ = _binop("add")
    __sub__, __rsub__ = _binop("sub")
    __mul__, __rmul__ = _binop("mul")
    __truediv__, __rtruediv__ = _binop("div")
    __floordiv__, __rfloordiv__ = _binop("floordiv")
    __mod__, __rmod__ = _binop("mod")
    __pow__, __rpow__ = _binop("pow")

    __lt__, __gt__ = _binop("lt")
    __le__, __ge__ = _binop("le")

    def __gt__(self, o):
        return _binop("gt")[0](self, o)

    def __ge__(self, o):
        return _binop("ge")[0](self, o)

    def __eq__(self, o):
        r = _binop("eq")[0](self, o)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = _binop("ne")[0](self, o)
        return True if r is NotImplemented else r

    def __hash__(self):
        c = self.const()
        if c is not None:
            return hash(c)
        if EXPL[0] is not None and self.ok is None and is_intvalued(self):
            return hash(concretize_int(self))      # sets and dicts: equal values must meet in one bucket
        return 0x5eed                              # equality decides (it forks)

    def flt(self):
        return self

    def __neg__(self):
        return mk(pscale(self.p, -1), False, self.ok)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def const(self):
        if not self.p:
            return 0
        if len(self.p) == 1 and 0 in self.p:
            return self.p[0]
        return None

    def __bool__(self):
        return bool(s_ne(self, 0))

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        raise Unsupported("float() of a symbolic value in compiled code")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value in compiled code")

    def __int__(self):
        return concretize_int(s_trunc(self))

    def __index__(self):
        c = self.const()
        if c is not None and norm(Fraction(c)) == int(c):
            return int(c)
        return concretize_int(self)

    def __trunc__(self):
        return concretize_int(s_trunc(self))

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return s_ceil(self)

    def __round__(self, n=None):
        return s_rint(self) if n is None else s_round(self, n)

    def __format__(self, spec):
        return fmt_token(self, spec)

    def __repr__(self):
        return "Sym(%s)" % pstr(self.p)

    __str__ = __repr__

    # numpy-object-ufunc style methods and scalar API
    def sqrt(self):
        return s_sqrt(self)

    def log(self):
        return s_log(self)

    def exp(self):
        return s_exp(self)

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return F64(0.0)

    def is_integer(self):
        raise Unsupported("is_integer")

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, t, *a, **k):
        return OPS["__astype__"](self, t)

    def tolist(self):
        return self

    def round(self, n=0):
        return s_round(self, n)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return _np.dtype(float)

    def _arr(name):
        def f(self, *a, **k):
            return getattr(OPS["__as_sa__"](self), name)(*a, **k)
        return f
    sum = _arr("sum")
    mean = _arr("mean")
    max = _arr("max")
    min = _arr("min")


import numbers
numbers.Real.register(Sym)


def pstr(p, lim=8):
    out = []
    for k, c in list(p.items())[:lim]:
        m = "*".join("%s^%s" % (REG.vars[v].name, e) if e != 1 else REG.vars[v].name for v, e in REG.monos[k])
        out.append("%s%s" % (c, "*" + m if m else ""))
    if len(p) > lim:
        out.append("...(%d terms)" % len(p))
    return " + ".join(out) or "0"


# ----------------------------------------------------------------------------------------------- booleans

class SymBool(object):
    """formula: ('cmp', op, poly) with op in '<','<=','==' (poly op 0); ('and',..), ('or',..), ('not',f), ('b', vid)"""
    __slots__ = ("f", "_num")
    __array_ufunc__ = None

    def __init__(self, f):
        self.f = f
        self._num = None

    def __bool__(self):
        return EXPL[0].decide(self)

    def num(self):
        if self._num is None:
            f = self.f
            if f[0] == "b":
                self._num = Sym(vpoly(REG.vars[f[1]]), True)
            elif f[0] == "not" and f[1][0] == "b":
                self._num = Sym(psub(ONE, vpoly(REG.vars[f[1][1]])), True)
            elif f[0] == "and":
                r = ONE
                for g in f[1:]:
                    r = pmul(r, topoly(SymBool(g).num()))
                self._num = Sym(r, True)
            else:
                key = ("bool", fkey(f))
                v = REG.atoms.get(key)
                if v is None:
                    v = REG.newvar("b#%d" % len(REG.vars), "bool", arg=f, nonneg=True, reducible=True, key=key)
                    REG.atoms[key] = v
                self._num = Sym(vpoly(v), True)
        return self._num

    def __and__(self, o):
        return b_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else b_not(self)
        if isinstance(o, SymBool):
            return b_not(self ^ o)
        if isinstance(o, _np.ndarray):
            return OPS["__array__"]("eq", self, o)
        return s_eq(self.num(), o)

    def __ne__(self, o):
        if isinstance(o, _np.ndarray):
            return OPS["__array__"]("ne", self, o)
        return b_not(self.__eq__(o))

    def __hash__(self):
        return hash(fkey(self.f))

    def __add__(self, o):
        return self.num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __mul__(self, o):
        return self.num() * o
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.num() / o

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __lt__(self, o):
        return self.num() < o

    def __gt__(self, o):
        return self.num() > o

    def __le__(self, o):
        return self.num() <= o

    def __ge__(self, o):
        return self.num() >= o

    def astype(self, *a, **k):
        return self.num()

    def item(self):
        return self

    def all(self, *a, **k):
        return self

    any = all

    def __repr__(self):
        return "SymBool(%s)" % fstr(self.f)


def fstr(f):
    if f[0] == "cmp":
        return "%s %s 0" % (pstr(f[2], 4), f[1])
    if f[0] == "b":
        return REG.vars[f[1]].name
    if f[0] == "not":
        return "!(%s)" % fstr(f[1])
    if f[0] in ("true", "false"):
        return f[0]
    return "(" + (" %s " % f[0]).join(fstr(g) for g in f[1:]) + ")"


def fkey(f):
    if f[0] == "cmp":
        return ("cmp", f[1], pkey(f[2]))
    if f[0] == "b":
        return f
    return (f[0],) + tuple(fkey(g) for g in f[1:])


def tobool(x):
    if isinstance(x, (bool, _np.bool_)):
        return bool(x)
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (Sym,)):
        return s_ne(x, 0)
    return bool(x)


def b_not(a):
    a = tobool(a)
    if isinstance(a, bool):
        return not a
    f = a.f
    if f[0] == "not":
        return SymBool(f[1])
    return SymBool(("not", f))


def b_and(a, b):
    a, b = tobool(a), tobool(b)
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    if a.f == b.f:
        return a
    return SymBool(("and", a.f, b.f))


def b_or(a, b):
    a, b = tobool(a), tobool(b)
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    if a.f == b.f:
        return a
    return SymBool(("or", a.f, b.f))


def b_all(xs):
    r = True
    fs = []
    for x in xs:
        x = tobool(x)
        if isinstance(x, bool):
            if not x:
                return False
        else:
            fs.append(x.f)
    if not fs:
        return True
    if len(fs) == 1:
        return SymBool(fs[0])
    return SymBool(("and",) + tuple(fs))


def b_any(xs):
    return b_not(b_all([b_not(x) for x in xs]))


def okbool(ok):
    """SymBool for a validity polynomial (product of indicators)"""
    if ok is None:
        return True
    if len(ok) == 1:
        (k, c), = ok.items()
        if c == 1 and all(REG.vars[v].kind == "bool" for v, e in REG.monos[k]):
            fs = []
            for v, e in REG.monos[k]:
                var = REG.vars[v]
                fs.append(("b", v))
            if len(fs) == 1:
                return SymBool(fs[0])
            return SymBool(("and",) + tuple(fs))
    return SymBool(("not", ("cmp", "==", ok)))


# ---------------------------------------------------------------------------------------------- operations

def _nonnegp(p):
    """cheap syntactic test that a poly is nonnegative"""
    for k, c in p.items():
        if c < 0:
            return False
        for v, e in REG.monos[k]:
            if not (REG.vars[v].nonneg or (isinstance(e, int) and e % 2 == 0)):
                return False
    return True


def _posp(p):
    """syntactically strictly positive"""
    if not p or not _nonnegp(p):
        return False
    return any(all(REG.vars[v].pos or (REG.vars[v].kind == "inv" and REG.vars[v].pos) for v, e in REG.monos[k]) for k in p)


FPN = [0]
FP = [False]          # floating-point error model: every non-exact operation gets a factor (1 + d), |d| <= 2**-53
FP_B = Fraction(1, 2 ** 53)


def _fp(r):
    if not FP[0] or not isinstance(r, Sym):
        return r
    FPN[0] += 1
    v = REG.atoms.get(("fp", FPN[0]))
    if v is None:
        v = REG.atoms[("fp", FPN[0])] = REG.newvar("fperr%d" % FPN[0], "fp")
    return Sym(padd(r.p, pmul(r.p, vpoly(v))), r.nn, r.ok)


def _pow2(x):
    c = x.const()
    if c is None:
        return False
    if c == 0:
        return True
    return math.frexp(float(abs(c)))[0] == 0.5 and Fraction(float(c)) == c


def s_add(a, b):
    x, y = lift(a), lift(b)
    if x is None or y is None:
        return _bad2(a, b, "add")
    return _fp(mk(padd(x.p, y.p), x.nn and y.nn, okmul(x.ok, y.ok))) if FP[0] and x.p and y.p else mk(padd(x.p, y.p), x.nn and y.nn, okmul(x.ok, y.ok))


def s_sub(a, b):
    x, y = lift(a), lift(b)
    if x is None or y is None:
        return _bad2(a, b, "sub")
    return _fp(mk(psub(x.p, y.p), False, okmul(x.ok, y.ok))) if FP[0] and x.p and y.p else mk(psub(x.p, y.p), False, okmul(x.ok, y.ok))


def has_max2(p):
    for k in p:
        for v, e in REG.monos[k]:
            if REG.vars[v].kind == "max":
                return True
    return False


def expand_max(p):
    """rewrite max{a,b} = (a+b+|a-b|)/2 so that squares can be reduced"""
    if not has_max2(p):
        return p
    r = {}
    for k, c in p.items():
        cur = {0: c}
        for v, e in REG.monos[k]:
            var = REG.vars[v]
            if var.kind == "max" and len(var.arg) == 2 and isinstance(e, int) and e > 0:
                a, b = var.arg
                d = s_abs(Sym(psub(a, b)))
                f = pscale(padd(padd(a, b), topoly(d)), Fraction(1, 2))
                cur = pmul(cur, ppow(f, e))
            else:
                cur = pmul(cur, {mono(((v, e),)): 1})
        r = padd(r, cur)
    return r


def s_mul(a, b):
    x, y = lift(a), lift(b)
    if x is None or y is None:
        return _bad2(a, b, "mul")
    xp, yp = x.p, y.p
    if has_max2(xp) and has_max2(yp):
        xp, yp = expand_max(xp), expand_max(yp)
    same = xp is yp or xp == yp
    r = mk(psquare(xp) if same and len(xp) > 1 else pmul(xp, yp), same or (x.nn and y.nn), okmul(x.ok, y.ok))
    return _fp(r) if FP[0] and not (_pow2(x) or _pow2(y)) else r


def _proportional(p, q):
    if len(p) != len(q):
        return None
    k = next(iter(q))
    if k not in p:
        return None
    r = Fraction(p[k]) / q[k]
    for kk, c in q.items():
        if p.get(kk) is None or p[kk] != r * c:
            return None
    return norm(r)


def flagcount(x):
    """a number that only counts symbolic flags (a population): fork over its values"""
    if x.ok is None and EXPL[0] is not None and x.const() is None and len(x.p) <= 64:
        for k, c in x.p.items():
            if c != int(c) or any(e != 1 or REG.vars[v].kind != "bool" for v, e in REG.monos[k]):
                return x
        return lift(EXPL[0].concretize(x))
    return x


def s_div(a, b):
    x, y = lift(a), lift(b)
    if x is None or y is None:
        return _bad2(a, b, "div")
    y = flagcount(y)
    ok = okmul(x.ok, y.ok)
    if not y.p:
        return NAN
    c = y.const()
    if c is not None:
        r = mk(pscale(x.p, norm(Fraction(1) / c)), x.nn and c > 0, ok)
        return _fp(r) if FP[0] and not _pow2(y) else r
    if FP[0] and x.p:
        return _fp(mk(pmul(x.p, precip(y.p)), (x.nn or _nonnegp(x.p)) and (y.nn or _nonnegp(y.p)), ok))
    if len(x.p) > 1:
        r = _proportional(x.p, y.p)
        if r is not None:
            return mk({0: r}, False, ok)
    elif not x.p:
        return mk({}, True, ok)
    return mk(pmul(x.p, precip(y.p)), (x.nn or _nonnegp(x.p)) and (y.nn or _nonnegp(y.p)), ok)


def _infsign(z):
    """+1/-1 for an infinite operand, None for a nan or finite one"""
    if isinstance(z, (float, _np.floating)) and math.isinf(z):
        return 1 if z > 0 else -1
    return None


def _finsign(z):
    """sign of a finite operand as far as it is known syntactically"""
    x = lift(z)
    if x is None or x.ok is not None:
        return None
    c = x.const()
    if c is not None:
        return (c > 0) - (c < 0)
    if _posp(x.p):
        return 1
    if _posp(pscale(x.p, -1)):
        return -1
    return None


def _bad2(a, b, op=None):
    """one operand is a non-finite float (or unknown type)"""
    for z in (a, b):
        if isinstance(z, Sym) or is_scalar(z):
            continue
        raise Unsupported("operand %r" % type(z))
    if isinstance(a, CSym) or isinstance(b, CSym):
        raise Unsupported("complex")
    ia, ib = _infsign(a), _infsign(b)
    if op == "div" and ib is not None and ia is None and lift(a) is not None:
        return F64(0.0)
    if op in ("mul", "div") and (ia is None) != (ib is None):
        s = _finsign(b if ib is None else a)
        x = lift(b if ib is None else a)
        if s is None and x is not None and x.ok is None:
            s = 1 if bool(x > 0) else -1 if bool(x < 0) else 0          # a branch of the path
        if s:
            return F64(math.inf * s * (ia or ib)) if op == "mul" or ib is None else F64(0.0)
    if op in ("add", "sub"):
        if ib is not None and op == "sub":
            ib = -ib
        if ia is not None and (ib is None and lift(b) is not None or ib == ia):
            return F64(math.inf * ia)
        if ib is not None and ia is None and lift(a) is not None:
            return F64(math.inf * ib)
    return NAN


def s_neg(a):
    return s_sub(0, a)


def s_pow(a, b):
    if isinstance(b, Sym):
        c = b.const()
        if c is None:
            return s_powsym(a, b)
        b = c
    if isbad(b):
        return NAN
    e = coef(b)
    x = lift(a)
    if x is None:
        return NAN
    if isinstance(e, int):
        if e == 0:
            return F64(1.0)
        if e < 0:
            return s_div(1, s_pow(a, -e))
        xp = expand_max(x.p) if e > 1 else x.p
        return mk(ppow(xp, e), x.nn or e % 2 == 0, x.ok)
    if e == Fraction(1, 2):
        return s_sqrt(x)
    if e.denominator == 2:
        return s_mul(s_sqrt(x), s_pow(a, e - Fraction(1, 2)))
    c = x.const()
    if c is not None:
        return F64(float(c) ** float(e))
    if len(x.p) == 1:
        (k, cc), = x.p.items()
        if cc > 0 and all(REG.vars[v].nonneg for v, _ in REG.monos[k]):
            if e.denominator <= 12:
                return mk(pscale(mono_pow(k, e), coef(float(cc) ** float(e))), True, x.ok)
    return s_powsym(a, F64(float(e)))


def s_powsym(a, b):
    """a**b through exp(b*log(a)), a > 0"""
    return s_exp(s_mul(b, s_log(a)))


def perfect_sqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return norm(Fraction(n, d))
    return None


def s_sqrt(a):
    if isinstance(a, CSym):
        raise Unsupported("complex sqrt")
    x = lift(a)
    if x is None:
        return F64(math.sqrt(a)) if a > 0 else NAN
    c = x.const()
    if c is not None:
        if c < 0:
            return NAN
        r = perfect_sqrt(c)
        if r is not None:
            return mk({0: r} if r else {}, True, x.ok)
        return mk({0: Fraction(math.sqrt(c))}, True, x.ok)
    if not (x.nn or _nonnegp(x.p)):
        lt = s_lt(Sym(x.p), 0)
        if lt is True:
            return NAN
        if lt is not False and EXPL[0] is not None and EXPL[0].decide_sign(lt):
            return NAN
    p = x.p
    # pull even powers of positive variables common to all monomials out of the root
    common = None
    for k in p:
        d = {v: e for v, e in REG.monos[k] if REG.vars[v].pos}
        if common is None:
            common = d
        else:
            common = {v: e for v, e in common.items() if d.get(v) == e}
    pull = {v: (e if len(p) > 1 else e) for v, e in (common or {}).items() if len(p) == 1 or True}
    if pull:
        pull = {v: e for v, e in pull.items() if e != 0}
    if pull:
        m = mono(tuple(sorted(pull.items())))
        half = mono_pow(m, Fraction(1, 2))
        rest = pmul(p, mono_pow(m, -1))
        if len(rest) == 1 and 0 in rest:
            r = s_sqrt(Sym(rest, True))
            return mk(pmul(topoly(r), half), True, x.ok)
        return mk(pmul(half, _sqrt_atom(rest)), True, x.ok)
    if len(p) == 1:
        (k, cc), = p.items()
        t = REG.monos[k]
        if len(t) == 1 and t[0][1] == 2:
            r = perfect_sqrt(cc)
            if r is not None:
                return s_mul(r, s_abs(Sym({mono(((t[0][0], 1),)): 1})))
    return mk(_sqrt_atom(p), True, x.ok)


def _sqrt_atom(p):
    v = atom("sqrt", p)
    return vpoly(v)


def s_abs(a):
    if isinstance(a, CSym):
        return s_sqrt(s_add(s_mul(a.re, a.re), s_mul(a.im, a.im)))
    x = lift(a)
    if x is None:
        return F64(abs(a))
    c = x.const()
    if c is not None and x.ok is None:
        return mk({0: abs(c)} if c else {}, True)
    if x.nn or _nonnegp(x.p):
        return x
    neg = pscale(x.p, -1)
    if _nonnegp(neg):
        return mk(neg, True, x.ok)
    c, prim = primitive(x.p)
    # strip positive common variable powers so that |rate*y| = rate*|y|
    common = None
    for k in prim:
        d = {v: e for v, e in REG.monos[k] if REG.vars[v].pos or REG.vars[v].nonneg}
        common = d if common is None else {v: e for v, e in common.items() if d.get(v) == e}
    f = ONE
    if common:
        m = mono(tuple(sorted(common.items())))
        f = {m: 1}
        prim = pmul(prim, mono_pow(m, -1))
        c2, prim = primitive(prim)
        c = c * c2
    if EXPL[0] is not None and EXPL[0].pc:
        up = EXPL[0].implied(SymBool(("cmp", "<=", pscale(prim, -1))))
        if up or EXPL[0].implied(SymBool(("cmp", "<=", prim))):
            return mk(x.p if up == (c > 0) else neg, True, x.ok)
    v = atom("abs", prim)
    return mk(pscale(pmul(f, vpoly(v)), norm(Fraction(abs(c)))), True, x.ok)


def s_max(xs):
    """maximum of scalars"""
    xs = list(xs)
    cs = []
    polys = {}
    if EXPL[0] is not None and len(xs) == 2:
        xs = [flagcount(x) if isinstance(x, Sym) else x for x in xs]
    for x in xs:
        s = lift(x)
        if s is None:
            return NAN if x != x else _bad2(x, 0)
        if s.ok is not None:
            raise Unsupported("max with missing values")
        c = s.const()
        if c is not None:
            cs.append(c)
        else:
            # flatten: r + max(q...) inside a maximum is the list of r + q
            mx = [(k, REG.monos[k]) for k in s.p if k and any(REG.vars[v].kind == "max" for v, _ in REG.monos[k])]
            if len(mx) == 1 and len(mx[0][1]) == 1 and mx[0][1][0][1] == 1 and s.p[mx[0][0]] == 1:
                rest = {kk: c2 for kk, c2 in s.p.items() if kk != mx[0][0]}
                for q in REG.vars[mx[0][1][0][0]].arg:
                    q = padd(q, rest) if rest else q
                    polys[pkey(q)] = q
                continue
            polys[pkey(s.p)] = s.p
    if cs:
        c = max(cs)
        polys[pkey({0: c} if c else {})] = {0: c} if c else {}
    if len(polys) == 1:
        return mk(next(iter(polys.values())))
    if len(polys) <= 4 and EXPL[0] is not None and EXPL[0].pc:
        for kk in list(polys):
            if any(k2 != kk and EXPL[0].implied(SymBool(("cmp", "<=", psub(polys[kk], polys[k2])))) for k2 in polys):
                del polys[kk]
        if len(polys) == 1:
            return mk(next(iter(polys.values())))
    vals = list(polys.values())
    # pull out the terms all arguments share: max(a+c, b+c) = c + max(a, b)
    shared = dict(min(vals, key=len))
    for q in vals:
        shared = {k: c for k, c in shared.items() if q.get(k) == c}
        if not shared:
            break
    if shared:
        vals = [psub(q, shared) for q in vals]
        polys = {pkey(q): q for q in vals}
    # factor a common positive monomial: max(r*a, r*b) = r*max(a,b)
    common = None
    for q in vals:
        for k in q:
            d = {v: e for v, e in REG.monos[k] if REG.vars[v].pos}
            common = d if common is None else {v: e for v, e in common.items() if d.get(v) == e}
    if common:
        m = mono(tuple(sorted(common.items())))
        inv = mono_pow(m, -1)
        vals = [pmul(q, inv) for q in vals]
        cs = [q.get(0, 0) for q in vals if not q or set(q) == {0}]
        if len(cs) > 1:           # max(2 r, 3 r, x) = r max(3, x / r)
            c = max(cs)
            vals = [q for q in vals if q and set(q) != {0}] + [{0: c} if c else {}]
        if len(vals) == 1:
            r = pmul(vals[0], {m: 1})
            return mk(padd(r, shared) if shared else r)
        polys = {pkey(q): q for q in vals}
    key = ("max", frozenset(polys))
    v = REG.atoms.get(key)
    if v is None:
        v = REG.newvar("max#%d" % len(REG.vars), "max", arg=list(polys.values()), key=key)
        v.nonneg = any(_nonnegp(q) for q in polys.values())
        REG.atoms[key] = v
    r = vpoly(v)
    if common:
        r = pmul(r, {m: 1})
    if shared:
        return mk(padd(r, shared))
    return mk(r, v.nonneg)


def s_min(xs):
    return s_neg(s_max([s_neg(x) for x in xs]))


def s_ite(c, a, b):
    c = tobool(c)
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (SymBool, bool, _np.bool_)) and isinstance(b, (SymBool, bool, _np.bool_)):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if isinstance(a, CSym) or isinstance(b, CSym):
        a, b = tocsym(a), tocsym(b)
        return CSym(s_ite(c, a.re, b.re), s_ite(c, a.im, b.im))
    x, y = lift(a), lift(b)
    if x is None and y is None:
        return a
    n = c.num().p
    if x is None:
        if a == a:
            raise Unsupported("ite with inf")
        ok = psub(ONE, n)
        return Sym(y.p, y.nn, okmul(ok, y.ok))
    if y is None:
        if b == b:
            raise Unsupported("ite with inf")
        return Sym(x.p, x.nn, okmul(n, x.ok))
    r = padd(pmul(n, x.p), pmul(psub(ONE, n), y.p))
    ok = None
    if x.ok is not None or y.ok is not None:
        ok = padd(pmul(n, x.ok or ONE), pmul(psub(ONE, n), y.ok or ONE))
        if ok == ONE:
            ok = None
    return mk(r, x.nn and y.nn, ok)


def _ratio(p, q):
    """constant r with p == r*q, or None"""
    if len(p) != len(q) or not p:
        return None
    r = None
    for k, c in p.items():
        e = q.get(k)
        if e is None:
            return None
        t = Fraction(c) / e
        if r is None:
            r = t
        elif t != r:
            return None
    return r


class NoMerge(Exception):
    pass


def _flagonly(f):
    if f[0] == "b":
        return True
    if f[0] in ("not", "and", "or"):
        return all(_flagonly(g) for g in f[1:])
    return f[0] in ("true", "false")


def merge_ite(c, a, b):
    """ite(c, a, b) when it has a simple closed form (max/min/abs/constant difference/flag condition); else NoMerge"""
    if a is b:
        return a
    sc = (Sym, SymBool, int, float, _np.floating, _np.integer, bool, _np.bool_)
    if not (isinstance(a, sc) and isinstance(b, sc)):
        raise NoMerge()
    if isinstance(a, (bool, SymBool, _np.bool_)) and isinstance(b, (bool, SymBool, _np.bool_)):
        return s_ite(c, a, b)
    f = c.f
    neg = False
    while f[0] == "not":
        neg = not neg
        f = f[1]
    x, y = lift(a), lift(b)
    if x is None or y is None:
        raise NoMerge()
    d = psub(x.p, y.p)
    if not d:
        if x.ok is None and y.ok is None:
            return a
    if f[0] == "cmp" and f[1] in ("<", "<=") and x.ok is None and y.ok is None:
        r = _ratio(f[2], d)          # f: r*(a-b) < 0
        if r is not None:
            amin = (r > 0) != neg    # condition holds when a-b < 0
            return s_min([a, b]) if amin else s_max([a, b])
    if _flagonly(f):
        return s_ite(c, a, b)
    if x.ok is None and y.ok is None and len(d) == 1 and 0 in d:
        return s_ite(c, a, b)
    raise NoMerge()


def strip_pos(p):
    """divide by the powers of positive variables common to all terms"""
    common = None
    for k in p:
        if k == 0:
            return p
        d = {v: e for v, e in REG.monos[k] if REG.vars[v].pos}
        common = d if common is None else {v: e for v, e in common.items() if d.get(v) == e}
        if not common:
            return p
    if not common:
        return p
    return pmul(p, mono_pow(mono(tuple(sorted(common.items()))), -1))


def _cmp(op, a, b):
    if isinstance(a, CSym) or isinstance(b, CSym):
        if op == "==":
            a, b = tocsym(a), tocsym(b)
            return b_and(s_eq(a.re, b.re), s_eq(a.im, b.im))
        raise Unsupported("complex comparison")
    x, y = lift(a), lift(b)
    if x is None or y is None:
        # non-finite operand
        for z in (a, b):
            if isinstance(z, (float, _np.floating)) and z != z:
                return False
        if x is None and y is None:
            return {"<": a < b, "<=": a <= b, "==": a == b}[op]
        if op == "==":
            return False
        r = bool(b > 0) if y is None else bool(a < 0)
        s = x if x is not None else y
        return b_and(r, okbool(s.ok))
    d = psub(x.p, y.p)
    ok = okmul(x.ok, y.ok)
    if not d:
        r = op != "<"
    elif len(d) == 1 and 0 in d:
        c = d[0]
        r = {"<": c < 0, "<=": c <= 0, "==": c == 0}[op]
    else:
        r = None
        if op != "==":
            if _posp(d):
                r = False
            elif _posp(pscale(d, -1)):
                r = True
            elif op == "<=" and _nonnegp(pscale(d, -1)):
                r = True
            elif op == "<" and _nonnegp(d):
                r = False
        else:
            if _posp(d) or _posp(pscale(d, -1)):
                r = False
        if r is None:
            c, prim = primitive(strip_pos(d))
            if op == "==":
                r = SymBool(("cmp", "==", prim))
            elif c > 0:
                r = SymBool(("cmp", op, prim))
            else:
                # -prim op 0   <=>  not (prim op' 0)
                r = b_not(SymBool(("cmp", "<=" if op == "<" else "<", prim)))
    if ok is not None:
        return b_and(r, okbool(ok))
    return r


def s_lt(a, b):
    return _cmp("<", a, b)


def s_le(a, b):
    return _cmp("<=", a, b)


def s_gt(a, b):
    return _cmp("<", b, a)


def s_ge(a, b):
    return _cmp("<=", b, a)


def s_eq(a, b):
    return _cmp("==", a, b)


def s_ne(a, b):
    return b_not(_cmp("==", a, b))


def s_isnan(a):
    if isinstance(a, CSym):
        return b_or(s_isnan(a.re), s_isnan(a.im))
    if isinstance(a, Sym):
        return b_not(okbool(a.ok)) if a.ok is not None else False
    if isinstance(a, SymBool):
        return False
    return bool(a != a)


def s_isfinite(a):
    if isinstance(a, Sym):
        return okbool(a.ok)
    if isinstance(a, SymBool):
        return True
    return bool(_np.isfinite(a))


def s_isinf(a):
    if isinstance(a, (Sym, SymBool)):
        return False
    return bool(_np.isinf(a))


def intatom(kind, p):
    v = atom(kind, p, reducible=False)
    return Sym(vpoly(v))


def is_intvalued(x):
    for k, c in x.p.items():
        if not isinstance(c, int):
            return False
        for v, e in REG.monos[k]:
            if REG.vars[v].kind not in ("floor", "rint", "trunc", "bool", "int") or not isinstance(e, int) or e < 0:
                return False
    return True


def s_floor(a):
    x = lift(a)
    if x is None:
        return a
    c = x.const()
    if c is not None:
        return F64(math.floor(c))
    if is_intvalued(x):
        return x
    return intatom("floor", x.p)


def s_ceil(a):
    return s_neg(s_floor(s_neg(a)))


def s_rint(a):
    x = lift(a)
    if x is None:
        return a
    c = x.const()
    if c is not None:
        return F64(round(c))
    if is_intvalued(x):
        return x
    if FPN[0] and x.ok is None and EXPL[0] is not None and len(x.p) > 1 and all(REG.vars[v].kind == "fp" for kk in x.p for v, _ in REG.monos[kk]):
        # constant up to rounding errors: one solver query decides whether they can reach the next integer
        n = round(x.p.get(0, 0))
        if EXPL[0].valid(SymBool(("and", ("cmp", "<", psub(x.p, {0: n + Fraction(1, 2)})), ("cmp", "<", psub({0: n - Fraction(1, 2)}, x.p))))):
            return F64(n)
    return intatom("rint", x.p)


def s_round(a, n=0):
    if n in (0, None):
        return s_rint(a)
    n = int(n)
    c = lift(a).const() if lift(a) is not None else None
    if c is not None:
        return F64(_np.round(float(c), n))
    s = Fraction(10) ** n
    return s_div(s_rint(s_mul(a, s)), s)


def s_trunc(a):
    x = lift(a)
    if x is None:
        raise (OverflowError if a == a else ValueError)("cannot convert float to integer")
    c = x.const()
    if c is not None:
        return F64(math.trunc(c))
    if is_intvalued(x):
        return x
    return intatom("trunc", x.p)


def s_sign(a):
    if EXPL[0] is None:
        raise Unsupported("sign")
    if bool(s_gt(a, 0)):
        return F64(1.0)
    if bool(s_lt(a, 0)):
        return F64(-1.0)
    return F64(0.0)


def s_floordiv(a, b):
    return s_floor(s_div(a, b))


def s_mod(a, b):
    return s_sub(a, s_mul(b, s_floor(s_div(a, b))))


TOKENS = []


def fmt_token(x, spec):
    """a formatted symbolic value: the text carries a reference to the value and its format"""
    c = x.const() if isinstance(x, Sym) else None
    if c is not None:
        if spec.endswith("d"):
            return format(int(c), spec)
        return format(float(c), spec)
    TOKENS.append((x, spec))
    return "\u27e6%d|%s\u27e7" % (len(TOKENS) - 1, spec.replace(" ", ""))


def concretize_int(x):
    if not isinstance(x, Sym):
        return int(x)
    c = x.const()
    if c is not None:
        return int(c)
    return EXPL[0].concretize(x)


def rkey(p):
    """key with coefficients rounded to 12 digits: arguments equal up to floating-point rounding share one atom"""
    return frozenset((k, c if isinstance(c, int) and abs(c) < 10 ** 9 else float("%.11e" % float(c))) for k, c in p.items())


def uf(name, *args):
    """uninterpreted function atom of scalar arguments"""
    ps = []
    for a in args:
        ps.append(rkey(topoly(a)))
    key = ("uf", name) + tuple(ps)
    v = REG.atoms.get(key)
    if v is None:
        v = REG.newvar("%s#%d" % (name, len(REG.vars)), "uf", arg=(name, [Sym(topoly(a)) for a in args]), key=key)
        REG.atoms[key] = v
    return v


UF_EVAL = {"log": math.log, "exp": math.exp, "sin": math.sin, "cos": math.cos, "tan": math.tan, "atan": math.atan,
           "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "erf": math.erf}


def s_log(a):
    x = lift(a)
    if x is None:
        return NAN if not (a > 0) else a
    c = x.const()
    if c is not None:
        return F64(math.log(c)) if c > 0 else (F64(-math.inf) if c == 0 else NAN)
    if len(x.p) == 1:
        (k, cc), = x.p.items()
        if cc > 0 and all(REG.vars[v].pos for v, _ in REG.monos[k]):
            r = {}
            for v, e in REG.monos[k]:
                var = REG.vars[v]
                if var.kind == "uf" and var.arg[0] == "exp":
                    r = padd(r, pscale(var.arg[1][0].p, e))
                else:
                    r = padd(r, pscale(vpoly(log_atom(Sym(vpoly(var)))), e))
            if cc != 1:
                r = padd(r, {0: coef(math.log(cc))})
            return mk(r, False, x.ok)
    return Sym(vpoly(log_atom(x)), False, x.ok)


def log_atom(x):
    v = uf("log", x)
    if v.meta is None:
        v.meta = []
        if all(k == 0 or (len(REG.monos[k]) == 1 and REG.monos[k][0][1] == 1) for k in x.p):
            y = Sym(vpoly(v))
            lo, hi = tobool(s_le(x, 1)), tobool(s_ge(x, 1))
            v.meta = [b_or(b_not(hi), s_ge(y, 0)), b_or(b_not(lo), s_le(y, 0)), b_or(lo, s_gt(y, 0)), b_or(hi, s_lt(y, 0)),
                      b_or(s_le(x, 0), s_le(y, s_sub(x, 1)))]
            v.meta = [m for m in v.meta if isinstance(m, SymBool)]
    return v


def s_log2(a):
    c = lift(a).const() if lift(a) is not None else None
    if c is not None:
        return F64(_np.log2(float(c)))
    return s_div(s_log(a), math.log(2))


def s_log10(a):
    c = lift(a).const() if lift(a) is not None else None
    if c is not None:
        return F64(_np.log10(float(c)))
    return s_div(s_log(a), math.log(10))


def s_log1p(a):
    return s_log(s_add(a, 1))


def s_exp(a):
    x = lift(a)
    if x is None:
        return F64(math.exp(a)) if a == a else NAN
    c = x.const()
    if c is not None:
        return F64(math.exp(c))
    # exp(sum c_k*log(v) + rest) = prod v^c_k * exp(rest)
    r = ONE
    rest = {}
    nz = {}
    for k, c in x.p.items():
        t = REG.monos[k]
        if len(t) == 1 and t[0][1] == 1:
            var = REG.vars[t[0][0]]
            if var.kind == "uf" and var.arg[0] == "log":
                ap = var.arg[1][0].p
                if len(ap) == 1:
                    (kk, cc), = ap.items()
                    e = Fraction(c).limit_denominator(1000)
                    if cc == 1 and abs(e - Fraction(c)) < Fraction(1, 10 ** 13):
                        r = pmul(r, mono_pow(kk, norm(e)))
                        continue
        if k == 0:
            r = pscale(r, coef(math.exp(c)))
            continue
        rest[k] = c
    if not rest:
        return mk(r, True, x.ok)
    v = uf("exp", Sym(rest))
    v.pos = v.nonneg = True
    return mk(pmul(r, vpoly(v)), True, x.ok)


def s_uf1(name):
    def f(a):
        x = lift(a)
        if x is None:
            return NAN
        c = x.const()
        if c is not None:
            return F64(UF_EVAL[name](float(c)))
        if name in ("sin", "tan", "atan", "sinh", "tanh", "erf"):   # odd
            cc, prim = primitive(x.p)
            if cc < 0:
                return s_neg(Sym(vpoly(uf(name, Sym(pscale(x.p, -1))))))
        if name == "cos":
            cc, prim = primitive(x.p)
            if cc < 0:
                return Sym(vpoly(uf(name, Sym(pscale(x.p, -1)))))
        return Sym(vpoly(uf(name, x)), False, x.ok)
    return f


s_sin, s_cos, s_tan, s_atan, s_sinh, s_cosh, s_tanh, s_erf = [s_uf1(n) for n in
                                                            ("sin", "cos", "tan", "atan", "sinh", "cosh", "tanh", "erf")]


def ssum(xs, ):
    """fast sum"""
    acc = {}
    ok = None
    nn = True
    cx = None
    for x in xs:
        if isinstance(x, Sym):
            p = x.p
            nn = nn and x.nn
            if x.ok is not None:
                ok = okmul(ok, x.ok)
        elif isinstance(x, (CSym, complex, _np.complexfloating)):
            x = tocsym(x)
            cx = x if cx is None else c_add(cx, x)
            continue
        elif isinstance(x, SymBool):
            p = topoly(x.num())
        else:
            c = coef(x)
            if c is None:
                return NAN
            if c < 0:
                nn = False
            if c:
                _acc(acc, 0, c)
            continue
        for k, c in p.items():
            s = acc.get(k)
            if s is None:
                acc[k] = c
            else:
                s = s + c
                if s:
                    acc[k] = s
                else:
                    del acc[k]
    r = mk(acc, nn, ok)
    if cx is not None:
        return c_add(cx, tocsym(r))
    return r


# ------------------------------------------------------------------------------------------------- complex

def inv_atoms(p):
    out = set()
    for k in p:
        for v, e in REG.monos[k]:
            if REG.vars[v].kind == "inv":
                out.add(v)
    return out


def clear_inv(ps, limit=20000):
    """multiply all polynomials by the denominators of the reciprocal atoms (non-zero by construction) -> polynomials, or None"""
    ps = list(ps)
    for _ in range(12):
        vs = set()
        for p in ps:
            vs |= inv_atoms(p)
        if not vs:
            return ps
        v = max(vs)
        arg = REG.vars[v].arg.p
        e = 0
        for p in ps:
            for k in p:
                e = max(e, dict(REG.monos[k]).get(v, 0))
        pows = [ONE]
        for _ in range(int(e)):
            pows.append(pmul(pows[-1], arg))
        out = []
        for p in ps:
            groups = {}
            for k, c in p.items():
                t = REG.monos[k]
                j = dict(t).get(v, 0)
                kk = mono(tuple(q for q in t if q[0] != v)) if j else k
                groups.setdefault(j, {})[kk] = c
            r = {}
            for j, g in groups.items():
                if len(g) * len(pows[int(e - j)]) > limit * 20:
                    return None
                r = padd(r, pmul(g, pows[int(e - j)]))
            if len(r) > limit:
                return None
            out.append(r)
        ps = out
    return None


class CSym(object):
    __slots__ = ("re", "im")
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return CSym(self.re, s_neg(self.im))
    conj = conjugate

    def __abs__(self):
        return s_abs(self)

    def __neg__(self):
        return CSym(s_neg(self.re), s_neg(self.im))

    def __pos__(self):
        return self

    def __add__(self, o):
        return _c("add", self, o)

    def __radd__(self, o):
        return _c("add", o, self)

    def __sub__(self, o):
        return _c("sub", self, o)

    def __rsub__(self, o):
        return _c("sub", o, self)

    def __mul__(self, o):
        return _c("mul", self, o)

    def __rmul__(self, o):
        return _c("mul", o, self)

    def __truediv__(self, o):
        return _c("div", self, o)

    def __rtruediv__(self, o):
        return _c("div", o, self)

    def __pow__(self, n):
        n = int(n)
        r = CSym(F64(1.0), F64(0.0))
        for _ in range(abs(n)):
            r = r * self
        return r if n >= 0 else 1 / r

    def __eq__(self, o):
        return s_eq(self, o)

    def __ne__(self, o):
        return b_not(s_eq(self, o))

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "CSym(%r,%r)" % (self.re, self.im)


def tocsym(x):
    if isinstance(x, CSym):
        return x
    if isinstance(x, (complex, _np.complexfloating)):
        return CSym(F64(x.real), F64(x.imag))
    return CSym(x, F64(0.0))


def c_add(a, b):
    return CSym(s_add(a.re, b.re), s_add(a.im, b.im))


def _c(name, a, b):
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        return OPS["__array__"](name, a, b)
    return OPS[name](a, b)


def _wrapc(name, real, cplx):
    def f(a, b):
        if isinstance(a, (CSym, complex, _np.complexfloating)) or isinstance(b, (CSym, complex, _np.complexfloating)):
            return cplx(tocsym(a), tocsym(b))
        return real(a, b)
    OPS[name] = f
    return f


def c_sub(a, b):
    return CSym(s_sub(a.re, b.re), s_sub(a.im, b.im))


def c_mul(a, b):
    return CSym(s_sub(s_mul(a.re, b.re), s_mul(a.im, b.im)), s_add(s_mul(a.re, b.im), s_mul(a.im, b.re)))


def c_div(a, b):
    d = s_add(s_mul(b.re, b.re), s_mul(b.im, b.im))
    n = c_mul(a, b.conjugate())
    return CSym(s_div(n.re, d), s_div(n.im, d))


g_add = _wrapc("add", s_add, c_add)
g_sub = _wrapc("sub", s_sub, c_sub)
g_mul = _wrapc("mul", s_mul, c_mul)
g_div = _wrapc("div", s_div, c_div)


def g_pow(a, b):
    if isinstance(a, CSym):
        return a ** b
    if isinstance(a, NUM) and isinstance(b, Sym) and b.const() is None:
        return s_powsym(a, b)
    return s_pow(a, b)


OPS.update({"floordiv": s_floordiv, "mod": s_mod, "pow": g_pow, "lt": s_lt, "le": s_le, "gt": s_gt, "ge": s_ge,
            "eq": s_eq, "ne": s_ne})


# ------------------------------------------------------------------------------------------ inputs & evaluation

def invar(name, pos=False, nonneg=False, kind="in"):
    v = REG.byname.get(name)
    if v is None:
        v = REG.newvar(name, kind, pos=pos, nonneg=nonneg, reducible=(kind == "bool"))
        REG.byname[name] = v
    return Sym(vpoly(v), pos or nonneg or kind == "bool")


def symbool_var(name):
    v = REG.byname.get(name)
    if v is None:
        v = REG.newvar(name, "bool", arg=None, nonneg=True, reducible=True)
        REG.byname[name] = v
    return SymBool(("b", v.id))


class EvalError(Exception):
    pass


def evalf(p, env, cache=None):
    """numeric value of a poly under env: name -> float"""
    if cache is None:
        cache = {}
    if isinstance(p, Sym):
        p = p.p
    tot = 0.0
    for k, c in p.items():
        t = float(c)
        for v, e in REG.monos[k]:
            x = evalvar(v, env, cache)
            if x == 0 and e < 0:
                raise EvalError("division by zero")
            t *= x ** float(e) if not isinstance(e, int) else x ** e
        tot += t
    return tot


def evalvar(v, env, cache):
    if v in cache:
        return cache[v]
    var = REG.vars[v]
    k = var.kind
    if var.name in env and var.arg is None:
        r = float(env[var.name])
    elif k == "sqrt":
        a = evalf(var.arg.p, env, cache)
        r = math.sqrt(max(a, 0.0)) if a > -1e-9 else float("nan")
    elif k == "abs":
        r = abs(evalf(var.arg.p, env, cache))
    elif k == "inv":
        a = evalf(var.arg.p, env, cache)
        if a == 0:
            raise EvalError("division by zero")
        r = 1.0 / a
    elif k == "max":
        r = max(evalf(q, env, cache) for q in var.arg)
    elif k == "floor":
        r = float(math.floor(evalf(var.arg.p, env, cache)))
    elif k == "rint":
        r = float(round(evalf(var.arg.p, env, cache)))
    elif k == "trunc":
        r = float(math.trunc(evalf(var.arg.p, env, cache)))
    elif k == "bool" and var.arg is not None:
        r = 1.0 if evalb(var.arg, env, cache) else 0.0
    elif k == "uf":
        name, args = var.arg
        fn = UF_EVAL.get(name)
        if fn is None:
            raise EvalError("no evaluator for %s" % name)
        try:
            r = float(fn(*[evalf(a.p, env, cache) for a in args]))
        except (ValueError, OverflowError, ZeroDivisionError) as e:
            raise EvalError(str(e))
    elif var.name in env:
        r = float(env[var.name])
    elif k in ("in", "bool", "int"):
        r = 0.0 if not var.pos else 1.0
    else:
        raise EvalError("no value for %s" % var.name)
    cache[v] = r
    return r


def evalb(f, env, cache=None):
    if cache is None:
        cache = {}
    if f[0] == "cmp":
        x = evalf(f[2], env, cache)
        return {"<": x < 0, "<=": x <= 0, "==": x == 0}[f[1]]
    if f[0] == "b":
        return evalvar(f[1], env, cache) > 0.5
    if f[0] == "not":
        return not evalb(f[1], env, cache)
    if f[0] == "and":
        return all(evalb(g, env, cache) for g in f[1:])
    if f[0] == "or":
        return any(evalb(g, env, cache) for g in f[1:])
    if f[0] == "true":
        return True
    if f[0] == "false":
        return False
    raise ValueError(f[0])
