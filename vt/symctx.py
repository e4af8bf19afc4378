"""Symbolic harness context: assertions become SMT obligations."""
import math
import random
import zlib
import numpy as np
import z3
from . import poly as P
from . import sarr as A
from . import paths
from . import shims
from .poly import Sym, SymBool, CSym, Unsupported, F64, REG
from .paths import STATS, solve
from .ctx import Base, Raised, EPS, ConcCtx, Draws


def Base_field(s):
    return ConcCtx.field(None, s)


from . import ctx as _ctxmod
_ctxmod.SUMMER[0] = lambda xs: P.ssum(list(xs))


def _ufs():
    from . import integral
    for k in ("a", "h"):
        P.UF_EVAL["I" + k] = lambda p, a, b, k=k: integral.accurate(k, p, a, b)
        P.UF_EVAL["I%sinf" % k] = lambda p, a, k=k: integral.accurate(k, p, a, math.inf)


_ufs()


class Cex(object):
    def __init__(self, label, env, how, detail=""):
        self.label = label
        self.env = env
        self.how = how
        self.detail = detail


class SymCtx(Base):
    sym = True

    def __init__(self, lifted, expl, job, seed=1):
        self.L = lifted
        self.at = lifted.pkg
        self.np = lifted.np
        self.expl = expl
        self.job = job
        self.seed = seed
        self.failed = []
        self.undecided = []
        self.values = {}
        self.reached = 0
        self.ranges = job.setdefault("_ranges", {})

    def checked(self):
        STATS.obligations += 1
        STATS.discharged += 1
        self.reached += 1

    # inputs
    def real(self, name, hint=None):
        if hint:
            self.ranges[name] = hint
        return P.invar(name)

    def pos(self, name, hint=None):
        if hint:
            self.ranges[name] = hint
        return P.invar(name, pos=True)

    def intv(self, name, lo, hi):
        v = P.invar(name, kind="int")
        self.ranges[name] = (lo, hi, "int")
        self.assume(P.s_ge(v, lo))
        self.assume(P.s_le(v, hi))
        return v

    def flag(self, name):
        self.ranges[name] = (0, 1, "int")
        return P.symbool_var(name)

    def reals(self, name, n, dtype=None):
        o = np.empty(n, dtype=object)
        for i in range(n):
            o[i] = P.invar("%s%d" % (name, i))
        return o.view(A.SA)

    def fp(self, on):
        """switch the floating-point error model of arithmetic on or off"""
        P.FP[0] = on

    def maybe_nan(self, name, x):
        o = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            b = P.symbool_var("%s%d" % (name, i))
            self.ranges["%s%d" % (name, i)] = (0, 1, "int")
            ok = P.topoly(b.num())
            s = P.lift(v)
            o[i] = Sym(P.pmul(s.p, ok), False, ok)
        return o.view(A.SA)

    def is_missing(self, name, n):
        return [P.symbool_var("%s%d" % (name, i)).num() for i in range(n)]

    def arr(self, xs):
        return A.sa(list(xs))

    def int_arrays(self, name, n, dtype):
        """(array of machine integers of that type, the same values as floats); every value of the type"""
        from . import ints
        lo, hi = ints.bounds(np.dtype(dtype))
        xs = []
        for i in range(n):
            v = P.invar("%s%d" % (name, i))
            self.ranges["%s%d" % (name, i)] = (lo, hi, "int")
            self.assume(P.s_ge(v, lo))
            self.assume(P.s_le(v, hi))
            xs.append(v)
        return ints.array(xs, dtype), A.sa(list(xs))

    def num(self, x):
        if isinstance(x, np.ndarray) and x.size == 1:
            return x.view(np.ndarray).reshape(-1)[0]
        return x

    def assume(self, c):
        self.expl.assume(c)

    def fresh(self):
        return shims.Lifted().pkg

    def concrete(self, x):
        """integer-valued term -> int, forking over its feasible values"""
        x = self._numeric(x)
        if not isinstance(x, Sym):
            return int(round(float(x)))
        return P.concretize_int(x)

    def draws(self):
        self.L.random._reset()
        return Draws(self.L.random._draws)

    def integrals(self):
        from . import integral

        def num(x):
            x = self._numeric(x)
            if isinstance(x, Sym):
                m = max([1.0] + [abs(c) for c in x.p.values()])
                x = P.mk({k: c for k, c in x.p.items() if abs(c) > 1e-11 * m}, False, x.ok)
                if isinstance(x, Sym):
                    return x
            return round(float(x), 10)

        def quad(fn, a, b, args=()):
            args = args if isinstance(args, tuple) else (args,)
            try:
                kind, p, sc = integral.identify(fn, args, P.s_log, num)
            except integral.Unknown:
                raise Unsupported("quad of an unknown integrand")
            return sc * self.integral(kind, p, a, b), 0.0
        shims.HOOKS.quad = quad

    def integral(self, kind, p, a, b):
        """value of the integral, known to the solver only as a positive function of its exponent and limits"""
        b = self._numeric(b)
        if not isinstance(b, Sym) and b == math.inf:
            v = P.uf("I%sinf" % kind, p, a)
        else:
            v = P.uf("I%s" % kind, p, a, b)
        v.pos = v.nonneg = True
        return Sym(P.vpoly(v), True)

    def pyplot(self):
        self.L.pyplot.reset()
        return self.L.pyplot

    def same(self, a, b):
        """structurally equal (used to pick among equivalent conventions, never to decide)"""
        d = P.psub(P.topoly(self._numeric(a)), P.topoly(self._numeric(b)))
        m = max([1.0] + [abs(c) for c in P.topoly(self._numeric(b)).values()])
        return all(abs(c) <= 1e-9 * m for c in d.values())

    def outfile(self):
        return "/virtual/out"

    def text_of(self, name):
        return shims.FILES[name].text()

    def field(self, s):
        import re
        m = re.match("^\u27e6(\\d+)\\|(.*)\u27e7$", s)
        if m:
            v, spec = P.TOKENS[int(m.group(1))]
            k = re.search(r"\.(\d+)([eEgGfF])$", spec)
            return v, (None if not k else int(k.group(1)) + (k.group(2) in "eE") if k.group(2) not in "fF" else -1)
        return Base_field(s)

    def printed(self, label, fld, want, digits):
        v, sig = fld
        if sig is not None and isinstance(v, Sym) and sig != digits:
            self.fail(label + " significant digits")
        elif not isinstance(v, Sym) and not isinstance(self._numeric(want), Sym):
            w = float(self._numeric(want))
            tol = 0.51 * 10.0 ** (math.floor(math.log10(abs(w))) - digits + 1) if w == w and w != 0 else 0
            self.checked()
            if not (abs(v - w) <= tol * 1.01 or (v != v and w != w)):
                self.fail(label)
        else:
            self.eq(label, v, want)

    # spec helpers
    sqrt = staticmethod(P.s_sqrt)
    log = staticmethod(P.s_log)
    exp = staticmethod(P.s_exp)
    sin = staticmethod(P.s_sin)
    cos = staticmethod(P.s_cos)
    max = staticmethod(lambda xs: P.s_max(list(xs)))
    min = staticmethod(lambda xs: P.s_min(list(xs)))
    abs = staticmethod(P.s_abs)
    ite = staticmethod(P.s_ite)
    sum = staticmethod(lambda xs: P.ssum(list(xs)))
    rint = staticmethod(P.s_rint)
    isnan = staticmethod(P.s_isnan)
    chi2ppf = staticmethod(shims.chi2_ppf)

    def and_(self, *cs):
        return P.b_all(cs)

    def or_(self, *cs):
        return P.b_any(cs)

    def not_(self, c):
        return P.b_not(c)

    def snapshot(self, arr):
        if isinstance(arr, (list, tuple)):
            return list(arr)
        return arr.copy()

    # obligations
    def _rec(self, label, v):
        self.values.setdefault(label, v)

    def fail(self, label):
        """this path must not be reached"""
        STATS.obligations += 1
        self.reached += 1
        r = solve(self.expl.constraints(), need_model=True)
        if r.status == "unsat":
            STATS.discharged += 1
            return
        env = r.model
        self._candidate(label, None, env, r.status)

    def _numeric(self, x):
        """-> Sym, or float"""
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.view(np.ndarray).reshape(-1)[0]
        if isinstance(x, SymBool):
            x = x.num()
        if isinstance(x, (Sym, CSym)):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return P.tocsym(x)
        return F64(x)

    def eq(self, label, a, b):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            STATS.obligations += 1
            self.reached += 1
            if a == b:
                STATS.discharged += 1
            else:
                self.fail("%s: %r != %r" % (label, a, b))
            return
        try:
            a, b = self._numeric(a), self._numeric(b)
        except (TypeError, ValueError):
            return self.fail("%s: not comparable" % label)
        if isinstance(a, CSym) or isinstance(b, CSym):
            a, b = P.tocsym(a), P.tocsym(b)
            self.eq(label + ".re", a.re, b.re)
            self.eq(label + ".im", a.im, b.im)
            return
        self._rec(label, a)
        self.reached += 1
        self._nan_guard(label, a, b)
        if P.isbad(a) or P.isbad(b):
            STATS.obligations += 1
            if (a != a) and (b != b):
                STATS.discharged += 1
            elif P.isbad(a) and P.isbad(b) and a == b:
                STATS.discharged += 1
            else:
                self.fail("%s: non-finite value" % label)
            return
        self._eqpoly(label, P.topoly(a), P.topoly(b))

    def _timeout(self):
        """solver time per query; cut down once a job has left several obligations open"""
        t = self.job.get("timeout_ms", 20000)
        return t if self.job.get("_open", 0) < 6 else min(t, 3000)

    def _open(self, text):
        self.job["_open"] = self.job.get("_open", 0) + 1
        self.undecided.append(text)

    def _nan_guard(self, label, *xs):
        for x in xs:
            if isinstance(x, Sym) and x.ok is not None:
                b = P.okbool(x.ok)
                if b is not True:
                    self.true(label + " not NaN", b)

    def eq2(self, label, dev, spec2):
        try:
            dev, spec2 = self._numeric(dev), self._numeric(spec2)
        except (TypeError, ValueError):
            return self.fail("%s: not a number" % label)
        self._rec(label, dev)
        self.reached += 1
        if P.isbad(dev) or P.isbad(spec2):
            return self.fail("%s: non-finite value" % label)
        self._nan_guard(label, dev)
        if not (isinstance(dev, Sym) and (dev.nn or P._nonnegp(dev.p))):
            self.true(label + " >= 0", P.s_ge(dev, 0))
        self._eqpoly(label, P.topoly(P.s_mul(dev, dev)), P.topoly(spec2))

    def _eqpoly(self, label, p, q):
        STATS.obligations += 1
        d = P.psub(p, q)
        pc = self.expl.constraints()

        timeout = self._timeout()
        bmax = max([abs(c) for c in p.values()] + [abs(c) for c in q.values()] + [0])
        eps = P.Fraction(EPS) * bmax

        def ex2(enc):
            cs = []
            rhs = []
            for k in d:
                if k == 0:
                    rhs.append(z3.RealVal(1))
                    continue
                mu = enc.monomial(k)
                ak = z3.Real("a%d" % k)
                cs += [ak >= mu, ak >= -mu]
                rhs.append(ak)
            dd = enc.poly(d)
            bound = paths.z3num(P.norm(eps)) * z3.Sum(rhs)
            return cs + [z3.Or(dd > bound, dd < -bound)]
        ex2.linear = all(k == 0 or (len(REG.monos[k]) == 1 and REG.monos[k][0][1] == 1) for k in d)
        # query 1: can |p-q| exceed eps * sum of |monomials| for any value of the monomials (linear abstraction)?
        if paths.row_query(d, eps, timeout):
            STATS.discharged += 1
            STATS.by_abs += 1
            return
        if P.inv_atoms(d):
            cl = P.clear_inv([p, q])
            if cl is not None:
                cd = P.psub(cl[0], cl[1])
                cb = max([abs(c) for c in cl[0].values()] + [abs(c) for c in cl[1].values()] + [0])
                if paths.row_query(cd, P.Fraction(EPS) * cb, timeout):
                    STATS.discharged += 1
                    STATS.by_abs += 1
                    return
        if pc:
            r = solve(pc, extra=ex2, lin_only=True, timeout_ms=timeout)
            if r.status == "unsat":
                STATS.discharged += 1
                STATS.by_abs += 1
                return
        # candidate violation: look for a concrete witness, first by evaluation of the two sides, then by NRA
        env = self._witness(p, q)
        if env is not None:
            self._candidate(label, (p, q), env, "sat+eval")
            return
        r = solve(pc, extra=ex2, need_model=True, timeout_ms=timeout)
        if r.status == "unsat":
            STATS.discharged += 1
            STATS.by_nra += 1
            return
        if r.status in ("sat", "sat?"):
            self._candidate(label, (p, q), r.model, "nra")
            return
        self._open("%s: %s" % (label, r.status))

    def _rand_env(self, rng):
        env = {}
        for v in REG.vars:
            if v.arg is None and v.kind != "uf":
                rg = self.ranges.get(v.name)
                if rg:
                    lo, hi = rg[0], rg[1]
                    env[v.name] = float(rng.randint(int(lo), int(hi))) if len(rg) > 2 else rng.uniform(lo, hi)
                elif v.pos:
                    env[v.name] = round(rng.uniform(0.3, 3.0), 3)
                elif v.kind == "bool":
                    env[v.name] = float(rng.random() < 0.7)
                elif v.name.startswith("_round") or v.kind == "fp":
                    env[v.name] = 0.0
                else:
                    env[v.name] = round(rng.uniform(-3, 3), 3)
        return env

    def rand_env_on_path(self, tries=60, extra=None):
        pc = self.expl.constraints()
        rng = random.Random(self.seed * 1000003 + zlib.crc32(self.job["name"].encode()))
        for _ in range(tries):
            env = self._rand_env(rng)
            try:
                cache = {}
                if all(P.evalb(c.f, env, cache) for c in pc if isinstance(c, SymBool)):
                    if extra is None or extra(env, cache):
                        return env
            except (P.EvalError, OverflowError, ZeroDivisionError):
                continue
        return None

    def _witness(self, p, q):
        def differs(env, cache):
            a, b = P.evalf(p, env, cache), P.evalf(q, env, cache)
            return abs(a - b) > 1e-6 * (abs(a) + abs(b)) and abs(a - b) > 1e-9
        return self.rand_env_on_path(extra=differs)

    def _candidate(self, label, sides, env, how):
        if env is None:
            env = self.rand_env_on_path()
        full = {}
        for v in REG.vars:
            if v.arg is None and v.kind != "uf" and env is not None:
                full[v.name] = env.get(v.name, 1.0 if v.pos else 0.0)
        detail = ""
        if sides is not None and env is not None:
            try:
                detail = "symbolic sides evaluate to %.12g vs %.12g" % (P.evalf(sides[0], full), P.evalf(sides[1], full))
            except Exception as e:
                detail = str(e)
        self.failed.append(Cex(label, full if env is not None else None, how, detail))

    def true(self, label, c):
        STATS.obligations += 1
        self.reached += 1
        c = P.tobool(c)
        if c is True:
            # still ask the solver (constant query) only for feasibility bookkeeping: trivially discharged
            STATS.discharged += 1
            return
        neg = P.b_not(c)
        r = solve(self.expl.constraints() + [neg], need_model=True, timeout_ms=self._timeout())
        if r.status == "unsat":
            STATS.discharged += 1
            if r.mode == "nra":
                STATS.by_nra += 1
            else:
                STATS.by_abs += 1
            return
        if r.status == "unknown":
            env = None
            if isinstance(neg, SymBool):
                env = self.rand_env_on_path(extra=lambda e, ca: P.evalb(neg.f, e, ca))
            if env is None:
                self._open("%s: unknown" % label)
                return
            self._candidate(label, None, env, "eval")
            return
        env = r.model
        if isinstance(neg, SymBool):
            e2 = self.rand_env_on_path(extra=lambda e, ca: P.evalb(neg.f, e, ca), tries=30)
            if e2 is not None:
                env = e2
        self._candidate(label, None, env, "sat")

    def le(self, label, a, b):
        a, b = self._numeric(a), self._numeric(b)
        self._rec(label, a)
        if P.isbad(a) or P.isbad(b):
            return self.fail("%s: non-finite value" % label)
        tol = P.s_mul(F64(1e-9), P.s_add(P.s_abs(a), P.s_abs(b))) if not isinstance(P.s_le(a, b), bool) else 0
        c = P.s_le(a, b)
        if isinstance(c, bool):
            return self.true(label, c)
        self.true(label, P.b_or(c, P.s_le(a, P.s_add(b, tol))) if self.job.get("le_tol") else c)

    def lt(self, label, a, b):
        a, b = self._numeric(a), self._numeric(b)
        if P.isbad(a) or P.isbad(b):
            return self.fail("%s: non-finite value" % label)
        self.true(label, P.s_lt(a, b))
