"""Path exploration (re-execution with decision prefixes) and the SMT back end (z3)."""
import time
import random
from fractions import Fraction
import z3
from . import poly as P
from .poly import REG, Sym, SymBool, Unsupported, Infeasible


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.obligations = 0
        self.discharged = 0
        self.infeasible = 0
        self.by_abs = 0       # discharged over the linear abstraction
        self.by_nra = 0

    def add(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k) + v)


STATS = Stats()


def z3num(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator))


class Enc(object):
    """Translates polynomials/formulas to z3.  mode 'lin': every nonlinear monomial is an unconstrained real (with sign
    axioms) - an over-approximation, unsat there is conclusive.  mode 'nra': exact products."""

    def __init__(self, mode):
        self.mode = mode
        self.v = {}
        self.m = {}
        self.axioms = []
        self.pending = []

    def var(self, i):
        x = self.v.get(i)
        if x is not None:
            return x
        var = REG.vars[i]
        x = z3.Real("v%d" % i)
        self.v[i] = x
        ax = self.axioms
        k = var.kind
        if var.pos:
            ax.append(x > 0)
        elif var.nonneg:
            ax.append(x >= 0)
        if k == "sqrt":
            if self.mode == "nra":
                ax.append(x * x == self.poly(var.arg.p))
                ax.append(self.poly(var.arg.p) >= 0)
            else:
                ap = self.poly(var.arg.p)
                ax.append(ap >= 0)
                ax.append(z3.Implies(ap <= 0, x <= 0))
                ax.append(z3.Implies(x <= 0, ap <= 0))
        elif k == "abs":
            p = self.poly(var.arg.p)
            ax.append(z3.Or(x == p, x == -p))
        elif k == "max":
            ps = [self.poly(q) for q in var.arg]
            for q in ps:
                ax.append(x >= q)
            ax.append(z3.Or([x == q for q in ps]))
        elif k == "inv":
            p = self.poly(var.arg.p)
            if self.mode == "nra":
                ax.append(x * p == 1)
            else:
                ax.append(z3.Or(z3.And(p > 0, x > 0), z3.And(p < 0, x < 0)))
        elif k in ("floor", "rint", "trunc"):
            n = z3.Int("n%d" % i)
            p = self.poly(var.arg.p)
            ax.append(x == z3.ToReal(n))
            if k == "floor":
                ax.append(z3.And(x <= p, p < x + 1))
            elif k == "rint":
                ax.append(z3.And(x - z3.RealVal("1/2") <= p, p <= x + z3.RealVal("1/2")))
                ax.append(z3.Implies(z3.Or(p == x + z3.RealVal("1/2"), p == x - z3.RealVal("1/2")), n % 2 == 0))
            else:
                ax.append(z3.If(p >= 0, z3.And(x <= p, p < x + 1), z3.And(x >= p, p > x - 1)))
        elif k == "fp":
            ax.append(z3.And(x <= z3num(P.FP_B), x >= z3num(-P.FP_B)))
        elif k == "int":
            n = z3.Int("n%d" % i)
            ax.append(x == z3.ToReal(n))
        elif k == "bool":
            if var.arg is None:
                ax.append(z3.Or(x == 0, x == 1))
            else:
                f = self.formula(var.arg)
                ax.append(x == z3.If(f, z3.RealVal(1), z3.RealVal(0)))
        if var.meta is not None:
            for f in var.meta:       # extra axioms: SymBool formulas
                ax.append(self.formula(f))
        return x

    def monomial(self, k):
        x = self.m.get(k)
        if x is not None:
            return x
        t = REG.monos[k]
        if len(t) == 1 and t[0][1] == 1:
            x = self.var(t[0][0])
        elif self.mode == "nra":
            x = None
            bools = [v for v, e in t if REG.vars[v].kind == "bool"]
            if bools:
                rest = tuple(q for q in t if q[0] not in bools)
                base = self.monomial(P.mono(rest)) if rest else z3.RealVal(1)
                x = z3.If(z3.And([self.var(b) == 1 for b in bools]), base, z3.RealVal(0))
                self.m[k] = x
                return x
            for v, e in t:
                z = self.var(v)
                if isinstance(e, Fraction):
                    # positive variable, rational power r with r^den == v^num
                    r = z3.Real("p%d_%d_%d" % (v, e.numerator, e.denominator))
                    base = z3.Product([z] * abs(e.numerator)) if abs(e.numerator) > 1 else z
                    lhs = z3.Product([r] * e.denominator)
                    self.axioms.append(lhs == base if e > 0 else lhs * base == 1)
                    self.axioms.append(r > 0)
                    f = r
                else:
                    f = z
                    for _ in range(abs(e) - 1):
                        f = f * z
                    if e < 0:
                        f = 1 / f
                x = f if x is None else x * f
        else:
            x = z3.Real("m%d" % k)
            vs = [REG.vars[v] for v, e in t]
            if all(w.pos for w in vs):
                self.axioms.append(x > 0)
            elif all(w.nonneg or (isinstance(e, int) and e % 2 == 0) for w, (v, e) in zip(vs, t)):
                self.axioms.append(x >= 0)
            fps = [q for q in t if REG.vars[q[0]].kind == "fp"]
            if fps:
                rest = tuple(q for q in t if q[0] != fps[0][0])
                B = z3num(P.FP_B ** fps[0][1])
                base = self.monomial(P.mono(rest)) if rest else z3.RealVal(1)
                self.axioms.append(z3.Or(z3.And(base >= 0, x <= B * base, x >= -B * base), z3.And(base <= 0, x <= -B * base, x >= B * base)))
            bools = [v for v, e in t if REG.vars[v].kind == "bool"]
            if bools:
                rest = tuple(q for q in t if q[0] not in bools)
                base = self.monomial(P.mono(rest)) if rest else z3.RealVal(1)
                c = z3.And([self.var(b) == 1 for b in bools])
                self.axioms.append(x == z3.If(c, base, z3.RealVal(0)))
        self.m[k] = x
        return x

    def poly(self, p):
        if isinstance(p, Sym):
            p = p.p
        if not p:
            return z3.RealVal(0)
        terms = []
        for k, c in p.items():
            if k == 0:
                terms.append(z3num(c))
            elif c == 1:
                terms.append(self.monomial(k))
            else:
                terms.append(z3num(c) * self.monomial(k))
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def formula(self, f):
        if isinstance(f, bool):
            return z3.BoolVal(f)
        if isinstance(f, SymBool):
            f = f.f
        t = f[0]
        if t == "cmp":
            x = self.poly(f[2])
            return x < 0 if f[1] == "<" else (x <= 0 if f[1] == "<=" else x == 0)
        if t == "b":
            return self.var(f[1]) == 1
        if t == "not":
            return z3.Not(self.formula(f[1]))
        if t == "and":
            return z3.And([self.formula(g) for g in f[1:]])
        if t == "or":
            return z3.Or([self.formula(g) for g in f[1:]])
        if t == "true":
            return z3.BoolVal(True)
        if t == "false":
            return z3.BoolVal(False)
        raise ValueError(t)


def is_linear(fs):
    seen = set()

    def lp(p):
        for k in p:
            t = REG.monos[k]
            if k == 0:
                continue
            t = [(v, e) for v, e in t if REG.vars[v].kind != "bool" or not lv(v)]
            if not t:
                continue
            if len(t) == 1 and t[0][1] == 1:
                if not lv(t[0][0]):
                    return False
            else:
                return False
        return True

    def lv(v):
        if v in seen:
            return True
        seen.add(v)
        var = REG.vars[v]
        if var.kind in ("sqrt", "inv", "uf"):
            return False
        if var.kind == "max":
            return all(lp(q) for q in var.arg)
        if var.kind == "bool" and var.arg is not None:
            return lf(var.arg)
        if var.arg is not None and var.kind in ("abs", "floor", "rint", "trunc"):
            return lp(var.arg.p)
        return True

    def lf(f):
        if f[0] == "cmp":
            return lp(f[2])
        if f[0] == "b":
            return lv(f[1])
        if f[0] in ("true", "false"):
            return True
        return all(lf(g) for g in f[1:])
    return all(lf(f.f if isinstance(f, SymBool) else f) for f in fs if not isinstance(f, bool))


def fvars(f, out):
    """ids of the variables of a formula, with those of atom arguments"""
    t = f[0]
    if t == "cmp":
        pvars(f[2], out)
    elif t == "b":
        out.add(f[1])
    elif t not in ("true", "false"):
        for g in f[1:]:
            fvars(g, out)


def pvars(p, out):
    for k in p:
        for v, _ in REG.monos[k]:
            if v not in out:
                out.add(v)
                var = REG.vars[v]
                if var.kind == "max":
                    for q in var.arg:
                        pvars(q, out)
                elif var.kind == "bool" and var.arg is not None:
                    fvars(var.arg, out)
                elif isinstance(var.arg, Sym):
                    pvars(var.arg.p, out)
                elif var.kind == "uf":
                    for q in var.arg[1]:
                        pvars(q.p, out)


class Result(object):
    def __init__(self, status, model=None, mode=None):
        self.status = status
        self.model = model
        self.mode = mode


QUERY_TIMEOUT_MS = 20000


def _check(solver):
    t = time.time()
    r = solver.check()
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    return r


def solve(fs, extra=None, timeout_ms=None, need_model=False, lin_only=False):
    """fs: list of SymBool/bool (conjunction). extra: callable(enc) -> list of z3 constraints.
    -> 'unsat' | ('sat', env or None) | 'unknown'"""
    timeout_ms = timeout_ms or QUERY_TIMEOUT_MS
    for f in fs:
        if f is False:
            return Result("unsat", mode="const")
    fs = [f for f in fs if f is not True]
    enc = Enc("lin")
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for f in fs:
        s.add(enc.formula(f))
    if extra:
        s.add(*extra(enc))
    s.add(*enc.axioms)
    r = _check(s)
    if r == z3.unsat:
        return Result("unsat", mode="lin")
    lin = is_linear(fs) and (extra is None or getattr(extra, "linear", False))
    if lin:
        if r == z3.sat:
            return Result("sat", model_env(s.model(), enc) if need_model else None, "lin")
        return Result("unknown")
    if lin_only:
        return Result("sat?", mode="lin")
    enc = Enc("nra")
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for f in fs:
        s.add(enc.formula(f))
    if extra:
        s.add(*extra(enc))
    s.add(*enc.axioms)
    r = _check(s)
    if r == z3.unsat:
        return Result("unsat", mode="nra")
    if r == z3.sat:
        has_uf = any(REG.vars[i].kind == "uf" for i in enc.v)
        return Result("sat?" if has_uf else "sat", model_env(s.model(), enc) if need_model else None, "nra")
    STATS.unknown += 1
    return Result("unknown")


def row_query(d, eps, timeout_ms):
    """unsat of |sum_k d_k mu_k| > eps * sum_k |mu_k| over all reals mu_k (mu_k = u_k - w_k, u_k, w_k >= 0; the relaxation
    with both parts positive only strengthens the claim).  -> True when z3 answers unsat for both signs."""
    def val(c):
        return "%d" % c if isinstance(c, int) else "%d/%d" % (c.numerator, c.denominator)
    for sign in (1, -1):
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", timeout_ms)
        terms = []
        for k, c in d.items():
            t = REG.monos[k] if k else ()
            nonneg = k == 0 or all(REG.vars[v].nonneg or REG.vars[v].pos or (isinstance(e, int) and e % 2 == 0) for v, e in t)
            u = z3.Real("u%d" % k)
            s.add(u >= 0)
            terms.append(z3.RealVal(val(P.norm(sign * c - eps))) * u)
            if not nonneg:
                w = z3.Real("w%d" % k)
                s.add(w >= 0)
                terms.append(z3.RealVal(val(P.norm(-sign * c - eps))) * w)
        s.add((z3.Sum(terms) if terms else z3.RealVal(0)) > 0)
        if _check(s) != z3.unsat:
            return False
    return True


def z3float(val):
    if z3.is_algebraic_value(val):
        val = val.approx(20)
    if z3.is_int_value(val):
        return Fraction(val.as_long())
    if z3.is_rational_value(val):
        return Fraction(val.numerator_as_long(), val.denominator_as_long())
    return None


def model_env(model, enc):
    env = {}
    for i, x in enc.v.items():
        var = REG.vars[i]
        if var.arg is None or var.kind == "uf":
            val = z3float(model.eval(x, model_completion=True))
            if val is not None:
                env[var.name] = float(val)
    return env


class Explorer(object):
    """Depth-first path exploration.  run(fn) calls fn() once per feasible path."""

    def __init__(self, max_paths=20000, time_limit=600):
        self.max_paths = max_paths
        self.deadline = time.time() + time_limit
        self.prefix = []
        self.trace = []
        self.pc = []
        self.cache = {}
        self.assumptions = []
        self.domain_notes = []
        self._pcv = (-1, set())

    # --- during a run
    def assume(self, b):
        b = P.tobool(b)
        if b is True:
            return
        if b is False:
            raise Infeasible()
        self.pc.append(b)
        self.assumptions.append(b)

    def constraints(self):
        return list(self.pc)

    def feasible(self, b):
        if b is True:
            return True
        if b is False:
            return False
        key = (tuple(P.fkey(x.f) for x in self.pc), P.fkey(b.f))
        r = self.cache.get(key)
        if r is None:
            big = set()
            for f in self.pc + [b]:
                fvars(f.f, big)
            res = solve(self.pc + [b], timeout_ms=5000 if len(big) <= 20 else 1500)
            r = res.status != "unsat"
            self.cache[key] = r
        return r

    def implied(self, b):
        """is b implied by the path condition?  (linear abstraction, short limit; False when not shown)"""
        b = P.tobool(b)
        if isinstance(b, bool):
            return b
        if not self.pc:
            return False
        if b.f[0] == "cmp":
            b = SymBool(("cmp", b.f[1], P.strip_pos(b.f[2])))
        if self._pcv[0] != len(self.pc):
            vs = set()
            for f in self.pc:
                fvars(f.f, vs)
            self._pcv = (len(self.pc), vs)
        mine = set()
        fvars(b.f, mine)
        if not (mine & self._pcv[1]):
            return False
        key = ("imp", tuple(P.fkey(x.f) for x in self.pc), P.fkey(b.f))
        r = self.cache.get(key)
        if r is None:
            r = solve(self.pc + [P.b_not(b)], timeout_ms=1500, lin_only=True).status == "unsat"
            self.cache[key] = r
        return r

    def valid(self, b):
        """does b hold for all values, path condition aside?"""
        key = ("valid", P.fkey(b.f))
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = solve([P.b_not(b)], timeout_ms=2000, lin_only=True).status == "unsat"
        return r

    def branch(self, options):
        """options: list of (label, SymBool-or-bool); picks one by prefix/DFS; all options assumed exhaustive"""
        i = len(self.trace)
        if i < len(self.prefix):
            ch, n = self.prefix[i]
            lab, cond = options[ch]
            self.trace.append((ch, n))
            if cond is not True:
                self.pc.append(cond)
            return lab
        STATS.decisions += 1
        feas = [k for k, (lab, cond) in enumerate(options) if self.feasible(cond)]
        if not feas:
            raise Infeasible()
        ch = feas[0]
        self.trace.append((ch, feas[1:]))
        lab, cond = options[ch]
        if len(feas) > 1 or True:
            if cond is not True:
                self.pc.append(cond)
        if time.time() > self.deadline:
            raise Unsupported("path exploration time limit")
        return lab

    def decide(self, b):
        return self.branch([(True, b), (False, P.b_not(b))])

    def decide_sign(self, b):
        """like decide, but an undecidable query counts as False (recorded)"""
        i = len(self.trace)
        if i < len(self.prefix):
            return self.decide(b)
        res = solve(self.pc + [b], timeout_ms=3000)
        if res.status == "unsat":
            self.trace.append((1, []))
            return False
        if res.status == "unknown" or res.status == "sat?":
            self.domain_notes.append("sign of a square-root argument not decided (assumed nonnegative)")
            self.trace.append((1, []))
            self.pc.append(P.b_not(b))
            return False
        return self.decide(b)

    def concretize(self, x, cap=400):
        """fork over all feasible integer values of an integer-valued Sym"""
        key = P.pkey(x.p)
        if key not in self.known:
            self.known[key] = self._concretize(x, cap)
        return self.known[key]

    def bounded(self, x, lim=64):
        """does the path condition confine x to [-lim, lim], by linear reasoning alone?"""
        key = ("bounded", P.pkey(x.p), tuple(P.fkey(f.f) if isinstance(f, SymBool) else f for f in self.pc))
        r = self.cache.get(key)
        if r is None:
            out = P.b_any([P.s_gt(x, lim), P.s_lt(x, -lim)])
            r = self.cache[key] = out is False or (out is not True and solve(self.pc + [out], timeout_ms=1000, lin_only=True).status == "unsat")
        return r

    def _concretize(self, x, cap):
        i = len(self.trace)
        if i < len(self.prefix):
            ch, n = self.prefix[i]
            self.trace.append((ch, n))
            b = P.s_eq(x, ch)
            if b is not True:
                self.pc.append(b)
            return ch
        STATS.decisions += 1
        vals = []
        block = []
        while True:
            v = self._intvalue(x, block)
            if v is None:
                break
            vals.append(v)
            block.append(P.s_ne(x, v))
            if len(vals) > cap:
                raise Unsupported("unbounded integer value")
        if not vals:
            raise Infeasible()
        vals.sort()
        self.trace.append((vals[0], vals[1:]))
        b = P.s_eq(x, vals[0])
        if b is not True:
            self.pc.append(b)
        return vals[0]

    def _intvalue(self, x, block):
        fs = [f for f in self.pc + block if f is not True]
        if any(f is False for f in fs):
            return None
        for mode in ("lin", "nra"):
            enc = Enc(mode)
            s = z3.Solver()
            s.set("timeout", 8000)
            z = enc.poly(x.p)
            for f in fs:
                s.add(enc.formula(f))
            s.add(*enc.axioms)
            r = _check(s)
            if r == z3.unsat:
                return None
            if r == z3.sat:
                if mode == "lin" and not is_linear(fs + [SymBool(("cmp", "==", x.p))]):
                    continue
                v = z3float(s.model().eval(z, model_completion=True))
                if v is None or v.denominator != 1:
                    raise Unsupported("integer value not integral in model")
                return int(v)
        raise Unsupported("integer concretisation undecided")

    # --- driver
    def run(self, fn):
        """yields (outcome, pc) per path; fn() -> outcome"""
        prefix = []
        n = 0
        while True:
            self.prefix = prefix
            self.trace = []
            self.pc = []
            self._pcv = (-1, set())
            self.assumptions = []
            self.known = {}
            P.EXPL[0] = self
            try:
                out = fn()
                n += 1
                STATS.paths += 1
                yield out, list(self.pc)
            except Infeasible:
                STATS.infeasible += 1
            finally:
                P.EXPL[0] = None
            if n > self.max_paths:
                raise Unsupported("too many paths")
            if time.time() > self.deadline:
                raise Unsupported("path exploration time limit")
            # next prefix
            tr = self.trace
            while tr and not tr[-1][1]:
                tr.pop()
            if not tr:
                return
            ch, rest = tr[-1]
            prefix = tr[:-1] + [(rest[0], rest[1:])]
