"""Path explorer: symbolic execution by re-execution, branch and assertion decisions by z3."""
import itertools
import random
import sys
import time
from fractions import Fraction
from math import isqrt
import mpmath
import numpy as np

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from . import num as N  # noqa: E402
from .num import Num, SymBool, Unsupported, lift, land, lor, lnot  # noqa: E402

mpmath.mp.dps = 40
FALLBACKS = {}
ENG = None


class PathEnd(BaseException):
    """the current path is infeasible (or was cut by an assumption)"""


class Budget(BaseException):
    """time budget of the task used up"""


class Found(BaseException):
    """a counterexample candidate was found on this path"""

    def __init__(self, info):
        self.info = info


def note_fallback(name):
    FALLBACKS[name] = FALLBACKS.get(name, 0) + 1


# ------------------------------------------------------------------ numeric evaluation under a model
class Eval:
    def __init__(self, eng):
        self.e = eng
        self.cache = {}

    def var(self, v):
        r = self.cache.get(v)
        if r is not None:
            return r
        var = N.T.vars.get(v)
        if var is None:
            raise Unsupported("stale symbolic value")
        m = self.e.model.get(v)
        if m is None:
            if var.defn is not None:
                m = self.root(self.poly(var.defn))
            elif var.role == "derived":
                m = var.val(self)
            elif var.role == "opaque":
                raise Unsupported("opaque value")
            else:
                m = self.e.default_value(var)
                self.e.model[v] = m
        self.cache[v] = m
        return m

    @staticmethod
    def root(x):
        if isinstance(x, (int, Fraction)):
            if x < 0:
                return Fraction(0) if x > -Fraction(1, 10**20) else (_ for _ in ()).throw(Unsupported("negative root in model"))
            f = Fraction(x)
            a, b = isqrt(f.numerator), isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return Fraction(a, b)
            return mpmath.sqrt(mpmath.mpf(f.numerator) / f.denominator)
        return mpmath.sqrt(x) if x > 0 else mpmath.mpf(0)

    def poly(self, t):
        """real polynomial value (radicals of negative integers not allowed)"""
        ex = Fraction(0)
        fl = None
        for k, c in t.items():
            v = c
            for i in range(1, len(k), 2):
                x = self.var(k[i])
                e = k[i + 1]
                if isinstance(v, (int, Fraction)) and not isinstance(x, (int, Fraction)):
                    v = mpmath.mpf(Fraction(v).numerator) / Fraction(v).denominator
                elif isinstance(x, Fraction) and not isinstance(v, (int, Fraction)):
                    x = mpmath.mpf(x.numerator) / x.denominator
                v = v * (x ** e if e > 1 else x)
            if k[0] != 1:
                if k[0] < 0:
                    raise Unsupported("complex value in an ordering")
                r = mpmath.sqrt(k[0])
                v = (mpmath.mpf(Fraction(v).numerator) / Fraction(v).denominator if isinstance(v, (int, Fraction)) else v) * r
            if isinstance(v, (int, Fraction)):
                ex += v
            else:
                fl = v if fl is None else fl + v
        if fl is None:
            return ex
        return fl + mpmath.mpf(ex.numerator) / ex.denominator

    def scale(self, t):
        s = mpmath.mpf(1)
        for k, c in t.items():
            v = mpmath.mpf(abs(c)) * mpmath.sqrt(abs(k[0]))
            for i in range(1, len(k), 2):
                x = self.var(k[i])
                x = mpmath.mpf(x.numerator) / x.denominator if isinstance(x, (int, Fraction)) else x
                v *= abs(x) ** k[i + 1]
            s += v
        return s

    def sign(self, t):
        v = self.poly(t)
        if isinstance(v, (int, Fraction)):
            return (v > 0) - (v < 0)
        if abs(v) < mpmath.mpf(10) ** -28 * self.scale(t):
            return None
        return 1 if v > 0 else -1

    def value(self, x):
        """Num -> exact Fraction or mpf (real)"""
        v = self.poly(x.t)
        d = Fraction(x.d)
        for p, e in (x.D or {}).items():
            d = d * self.poly(N.T.polys[p]) ** e
        if isinstance(v, (int, Fraction)) and isinstance(d, (int, Fraction)):
            return Fraction(v) / d
        f = lambda q: mpmath.mpf(q.numerator) / q.denominator if isinstance(q, (int, Fraction)) else q
        return f(v) / f(d)

    def truth(self, b):
        """True / False / None (too close to call)"""
        if b is True or b is False:
            return b
        if isinstance(b, np.bool_):
            return bool(b)
        op = b.op
        if op == "not":
            r = self.truth(b.args[0])
            return None if r is None else not r
        if op in ("and", "or"):
            res = [self.truth(x) for x in b.args]
            if op == "and":
                return False if False in res else (None if None in res else True)
            return True if True in res else (None if None in res else False)
        x = b.args[0]
        if op == "eq0" and not x.is_real():
            raise Unsupported("complex equality")
        s = self.sign(x.t)
        if s is None:
            return None
        return s == 0 if op == "eq0" else (s < 0 if op == "lt0" else s <= 0)


# ------------------------------------------------------------------ z3 translation
class ToZ3:
    def __init__(self):
        self.v = {}
        self.r = {}
        self.mono = {}
        self.side = {}

    def var(self, vid):
        x = self.v.get(vid)
        if x is None:
            var = N.T.vars.get(vid)
            if var is None:
                raise Unsupported("stale symbolic value")
            x = z3.Int(f"{var.name}!{vid}") if var.sort == "int" else z3.Real(f"{var.name}!{vid}")
            self.v[vid] = x
        return x

    def rad(self, n):
        x = self.r.get(n)
        if x is None:
            x = z3.Real(f"root!{n}")
            self.r[n] = x
        return x

    def poly(self, t, real=None):
        if real is None:
            real = any(k[0] != 1 or any(N.T.vars[v].sort != "int" for v in k[1::2]) for k in t)
        terms = []
        for k, c in t.items():
            if k == N.ONE:
                terms.append(z3.RealVal(c) if real else z3.IntVal(c))
                continue
            m = self.mono.get((k, real))
            if m is None:
                fs = []
                if k[0] != 1:
                    if k[0] < 0:
                        raise Unsupported("complex polynomial in a formula")
                    for p in _primes(k[0]):
                        fs.append(self.rad(p))
                for i in range(1, len(k), 2):
                    x = self.var(k[i])
                    if real and x.sort() == z3.IntSort():
                        x = z3.ToReal(x)
                    fs.extend([x] * k[i + 1])
                m = fs[0] if len(fs) == 1 else z3.Product(*fs)
                self.mono[(k, real)] = m
            terms.append(m if c == 1 else (z3.RealVal(c) if real else z3.IntVal(c)) * m)
        if not terms:
            return z3.RealVal(0) if real else z3.IntVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def form(self, b):
        if b is True or b is False or isinstance(b, np.bool_):
            return z3.BoolVal(bool(b))
        op = b.op
        if op == "not":
            return z3.Not(self.form(b.args[0]))
        if op == "and":
            return z3.And([self.form(x) for x in b.args])
        if op == "or":
            return z3.Or([self.form(x) for x in b.args])
        p = self.poly(b.args[0].t)
        if op == "eq0":
            return p == 0
        return p < 0 if op == "lt0" else p <= 0


_pf = {}


def _primes(n):
    r = _pf.get(n)
    if r is None:
        r, m, p = [], n, 2
        while p * p <= m:
            while m % p == 0:
                r.append(p)
                m //= p
            p += 1
        if m > 1:
            r.append(m)
        _pf[n] = r
    return r


def fvars(b, acc=None):
    acc = set() if acc is None else acc
    if isinstance(b, SymBool):
        for x in b.args:
            if isinstance(x, Num):
                for k in x.t:
                    acc.update(k[1::2])
            else:
                fvars(x, acc)
    return acc


def frads(b, acc):
    if isinstance(b, SymBool):
        for x in b.args:
            if isinstance(x, Num):
                for k in x.t:
                    if k[0] > 1:
                        acc.update(_primes(k[0]))
            else:
                frads(x, acc)
    return acc


def fkey(b):
    if not isinstance(b, SymBool):
        return bool(b)
    if b.op in ("eq0", "lt0", "le0"):
        return (b.op, frozenset(b.args[0].t.items()))
    if b.op == "not":
        return ("not", fkey(b.args[0]))
    return (b.op, tuple(fkey(x) for x in b.args))


class Stats:
    def __init__(self):
        self.paths = self.branches = self.queries = self.obligations = self.unsat = self.sat = self.unknown = 0
        self.trivial = self.terms = 0
        self.solver_s = 0.0
        self.replays = 0
        self.inconclusive = []
        self.assumed = {}
        self.labels = {}
        self.thresholds = 0

    def asdict(self):
        return dict(self.__dict__)


class Engine:
    def __init__(self, seed=1, branch_ms=4000, oblig_ms=30000, deadline=None, max_paths=100000):
        self.seed = seed
        self.branch_ms, self.oblig_ms, self.deadline = branch_ms, oblig_ms, deadline
        self.max_paths = max_paths
        self.st = Stats()
        self.stack = [[]]
        self.prefix = []

    # ---------------------------------------------------------------- per path
    def start_path(self, prefix):
        N.reset_table()
        N.HOOK = self
        global ENG
        ENG = self
        self.prefix = prefix
        self.trace = []
        self.pcs = []
        self.pcvars = []
        self.model = {}
        self.rng = random.Random(self.seed * 7919 + 17)
        self.inputs = {}
        self.decided = {}
        self.nn = {}
        self.memo = {}
        self.z = ToZ3()
        self.ev = Eval(self)
        self.inconc = []
        self.choices = []
        self.bounded = {}
        self.nrandom = 0
        self.randvals = []
        self.eighints = []
        self.dirty = False

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget()

    def default_value(self, var):
        r = self.rng
        if var.sort == "int":
            lo, hi = self.bounded.get(var.id, (None, None))
            if lo is None:
                lo = -6 if hi is None else hi - 6
            if hi is None:
                hi = lo + 12
            return r.randint(lo, min(hi, lo + 40))
        n = r.choice([1, 2, 3, 5, 7, -1, -2, -3, -5, -7, 4, -4])
        return Fraction(n, r.choice([1, 2, 2, 4, 4, 8]))

    def flush_eval(self):
        self.ev = Eval(self)

    # ---------------------------------------------------------------- solver
    def slice(self, vs, extra_forms=()):
        """constraints connected to the variables vs: (forms, sqrt/derived side constraints)"""
        vs = set(vs)
        done = set()
        out = []
        side = []
        work = True
        seen_v = set()
        while work:
            work = False
            for v in list(vs - seen_v):
                seen_v.add(v)
                var = N.T.vars.get(v)
                if var is None:
                    raise Unsupported("stale symbolic value")
                if var.defn is not None:
                    side.append(("sqrt", v))
                    for k in var.defn:
                        vs.update(k[1::2])
                for c in var.cons:
                    side.append(("c", c))
                    vs |= fvars(c)
                work = True
            for i, pv in enumerate(self.pcvars):
                if i not in done and pv & vs:
                    done.add(i)
                    out.append(self.pcs[i])
                    vs |= pv
                    work = True
        return out, side, vs

    def solver(self, forms, with_pc=True):
        """z3 solver holding the forms and the relevant path constraints; returns (solver, vars)"""
        vs = set()
        for f in forms:
            fvars(f, vs)
        pc, side, allv = self.slice(vs) if with_pc else self.slice_defs(vs)
        rads = set()
        for f in itertools.chain(forms, pc):
            frads(f, rads)
        real = False
        fs = [self.z.form(f) for f in itertools.chain(pc, forms)]
        for kind, c in side:
            if kind == "sqrt":
                s = self.z.var(c)
                d = N.T.vars[c].defn
                for k in d:
                    if k[0] > 1:
                        rads.update(_primes(k[0]))
                fs.append(s >= 0)
                fs.append(s * s == self.z.poly(d, True))
            else:
                frads(c, rads)
                fs.append(self.z.form(c))
        for p in rads:
            x = self.z.rad(p)
            fs.append(x > 0)
            fs.append(x * x == p)
        ints = any(N.T.vars[v].sort == "int" for v in allv)
        reals = bool(rads) or any(N.T.vars[v].sort != "int" for v in allv)
        if reals and not ints:
            s = z3.SolverFor("QF_NRA")
        else:
            s = z3.Solver()
        s.add(fs)
        return s, allv

    def slice_defs(self, vs):
        keep = self.pcs, self.pcvars
        self.pcs, self.pcvars = [], []
        try:
            return self.slice(vs)
        finally:
            self.pcs, self.pcvars = keep

    def check(self, forms, ms, with_pc=True):
        self.tick()
        s, vs = self.solver(forms, with_pc)
        if self.deadline:
            ms = int(max(200, min(ms, (self.deadline - time.time()) * 1000)))
        s.set("timeout", ms)
        t0 = time.time()
        r = s.check()
        self.st.solver_s += time.time() - t0
        self.st.queries += 1
        r = str(r)
        setattr(self.st, r, getattr(self.st, r) + 1)
        return r, (s.model() if r == "sat" else None), vs

    def take_model(self, m, vs):
        """merge a z3 model of the variables vs into the witness"""
        for v in vs:
            var = N.T.vars[v]
            if var.role in ("sqrt", "derived") or var.defn is not None:
                continue
            val = m.eval(self.z.var(v), model_completion=False)
            if z3.is_int_value(val):
                self.model[v] = val.as_long()
            elif z3.is_rational_value(val):
                self.model[v] = Fraction(val.numerator_as_long(), val.denominator_as_long())
            elif z3.is_algebraic_value(val):
                a = val.approx(40)
                self.model[v] = mpmath.mpf(a.numerator_as_long()) / a.denominator_as_long()
            elif v not in self.model:
                self.model[v] = self.default_value(var)
        self.flush_eval()

    def nice_model(self, forms, tries=60):
        """look for a generic rational witness of forms and the connected path constraints (no solver)"""
        vs = set()
        for f in forms:
            fvars(f, vs)
        pc, side, allv = self.slice(vs)
        inp = [v for v in allv if N.T.vars[v].defn is None and N.T.vars[v].role not in ("derived",)]
        if any(N.T.vars[v].role == "opaque" for v in inp):
            return False
        old = dict(self.model)
        cons = [c for k, c in side if k == "c"]
        for _ in range(tries):
            for v in inp:
                self.model[v] = self.default_value(N.T.vars[v])
            self.flush_eval()
            try:
                if all(self.ev.truth(f) is True for f in itertools.chain(forms, pc, cons)):
                    return True
            except Unsupported:
                pass
        self.model = old
        self.flush_eval()
        return False

    # ---------------------------------------------------------------- decisions
    def subst(self, b):
        return b

    def decide(self, b):
        if not isinstance(b, SymBool):
            return bool(b)
        self.tick()
        key = fkey(b)
        if key in self.decided:
            return self.decided[key]
        pos = len(self.trace)
        if pos < len(self.prefix):
            ent = self.prefix[pos]
            if ent[0] != "b":
                raise Unsupported("nondeterministic replay of a path")
            self.trace.append(ent)
            self.commit(b, key, ent[1], ent[2], replay=True)
            return ent[1]
        self.st.branches += 1
        if any(N.T.vars[v].role == "opaque" for v in fvars(b) if v in N.T.vars) and not all(
                N.T.vars[v].role == "opaque" and N.T.vars[v].cons for v in fvars(b) if N.T.vars[v].role == "opaque"):
            raise Unsupported("branch on an opaque value")
        nb = lnot(b)
        t = self.ev_truth(b)
        if t is None:
            rt, mt, vs = self.check([b], self.branch_ms)
            rf, mf, vs2 = self.check([nb], self.branch_ms)
        elif t:
            rt, mt = "sat", None
            rf, mf, vs2 = self.check([nb], self.branch_ms)
        else:
            rt, mt, vs = self.check([b], self.branch_ms)
            rf, mf = "sat", None
        if rt == "unsat" and rf == "unsat":
            raise PathEnd()
        if rt == "unsat":
            val, other = False, False
        elif rf == "unsat":
            val, other = True, False
        else:
            # prefer the branch the witness takes
            val = t if t is not None else (rt == "sat")
            other = True
            if val is False and rf != "sat" and rt == "sat":
                val = True
        self.trace.append(("b", val, other))
        if other:
            self.stack.append(self.trace[:-1] + [("b", not val, True)])
        self.commit(b, key, val, other)
        return val

    def settle(self):
        """after replaying a prefix: make the witness satisfy every path constraint"""
        self.dirty = False
        bad = []
        for f in self.pcs:
            try:
                if self.ev.truth(f) is not True:
                    bad.append(f)
            except Unsupported:
                pass
        if bad:
            self.repair(bad)

    def ev_truth(self, b):
        if self.dirty:
            self.settle()
        try:
            return self.ev.truth(b)
        except Unsupported:
            return None

    def commit(self, b, key, val, other, replay=False):
        self.decided[key] = val
        if key[0] == "not":
            self.decided[key[1]] = not val
        else:
            self.decided[("not", key)] = not val
        if not other:
            return
        f = b if val else lnot(b)
        self.add_pc(f, replay)

    def add_pc(self, f, replay=False):
        """assert f on this path and keep the witness consistent"""
        self.pcs.append(f)
        self.pcvars.append(fvars(f))
        if replay or self.dirty:
            self.dirty = True
            return
        if self.ev_truth(f) is True:
            return
        self.repair([f])

    def solve_linear(self, f):
        """f: p = 0 with an input variable occurring only as c*v, c constant: set v so that f holds"""
        if not isinstance(f, SymBool) or f.op != "eq0":
            return False
        t = f.args[0].t
        occ = {}
        for k in t:
            for v in k[1::2]:
                occ[v] = occ.get(v, 0) + 1
        for v in sorted(occ, reverse=True):
            var = N.T.vars[v]
            k = (1, v, 1)
            if occ[v] == 1 and k in t and var.defn is None and var.role not in ("derived", "opaque") and not var.cons:
                try:
                    rest = self.ev.poly({kk: c for kk, c in t.items() if kk != k})
                except Unsupported:
                    continue
                val = -rest / t[k] if not isinstance(rest, int) else Fraction(-rest, t[k])
                if var.sort == "int":
                    if not isinstance(val, (int, Fraction)) or Fraction(val).denominator != 1:
                        continue
                    val = int(val)
                old = self.model.get(v)
                self.model[v] = val
                self.flush_eval()
                if self.all_true():
                    return True
                if old is not None:
                    self.model[v] = old
                self.flush_eval()
        return False

    def all_true(self):
        try:
            for f in self.pcs:
                if self.ev.truth(f) is not True:
                    return False
            for v in N.T.vars.values():
                if v.role == "input" and v.cons:
                    for c in v.cons:
                        if self.ev.truth(c) is not True:
                            return False
            return True
        except Unsupported:
            return False

    def repair(self, forms):
        if len(forms) == 1 and self.solve_linear(forms[0]):
            return
        if self.nice_model(forms):
            return
        r, m, vs = self.check(forms, self.branch_ms * 3)
        if r == "unsat":
            raise PathEnd()
        if r == "sat":
            self.take_model(m, vs)
        else:
            self.inconc.append("no witness for the path condition (solver timeout)")

    def assume(self, b):
        if not isinstance(b, SymBool):
            if not b:
                raise PathEnd()
            return
        if b.op == "and":
            for x in b.args:
                self.assume(x)
            return
        key = fkey(b)
        if self.decided.get(key) is True:
            return
        self.decided[key] = True
        self.add_pc(b)

    def concretise(self, x):
        """a native int for an integer expression; the other values are explored as other paths"""
        if x.k != 0:
            raise TypeError("'float' object cannot be interpreted as an integer")
        n = 0
        while True:
            pos = len(self.trace)
            if pos < len(self.prefix):
                v = self.prefix[pos]
                if v[0] != "v":
                    raise Unsupported("nondeterministic replay of a path")
                v = v[1]
            else:
                if self.dirty:
                    self.settle()
                v = int(self.ev.value(x))
            self.trace.append(("v", v))
            if self.decide(N.compare(x, lift(v), "==")):
                return v
            n += 1
            if n > 3000:
                raise Unsupported("unbounded value concretised")

    def nonneg(self, x):
        t = x.t
        if all(c > 0 and k[0] > 0 and all(e % 2 == 0 or N.T.vars[v].role == "sqrt" for v, e in zip(k[1::2], k[2::2])) for k, c in t.items()):
            return True
        if len(t) > 400:
            return False
        key = frozenset(t.items())
        r = self.nn.get(key)
        if r is not None:
            return r
        b = SymBool("lt0", (Num(t, 1, None, 1),))
        if any(N.T.vars[v].role == "opaque" for v in fvars(b)):
            return False
        tv = self.ev_truth(b)
        if tv is True:
            r = False
        else:
            r = self.check([b], 1500)[0] == "unsat"
        self.nn[key] = r
        return r

    def require_nonneg(self, x):
        if self.nonneg(x):
            return
        b = SymBool("lt0", (Num(x.t, 1, None, 1),))
        if self.decide(b):
            raise Unsupported("square root of a negative value")

    def nonlinear(self, a, b):
        return a, b

    # ---------------------------------------------------------------- derived integers
    def derived(self, name, fn, key):
        v = self.memo.get(key)
        if v is None:
            var = N.new_var(name, "int", role="derived", val=fn)
            v = self.memo[key] = (var, Num({(1, var.id, 1): 1}, 1, None, 0))
            return v[0], v[1], True
        return v[0], v[1], False

    def floordiv(self, a, b):
        k = max(a.k, b.k)
        if k == 0:
            if b.is_rat():
                bf = b.frac()
                if bf == 0:
                    raise ZeroDivisionError("integer division or modulo by zero")
                pos = bf > 0
            else:
                if bool(N.compare(b, N.ZERO, "==")):
                    raise ZeroDivisionError("integer division or modulo by zero")
                pos = bool(N.compare(b, N.ZERO, ">"))
            if not pos:
                a, b = -a, -b
            if b.is_rat():
                x = N.divide(a, b)
                if self.integer_valued(x):
                    return x.withk(0)
            q = self._quotient(a, b)
            if q is not None:
                return q
            key = ("fd", frozenset(a.t.items()), frozenset(b.t.items()))
            var, q, new = self.derived("q", lambda ev: ev.value(a) // ev.value(b), key)
            if new:
                r = a - b * q
                var.cons = [N.compare(r, N.ZERO, ">="), N.compare(r, b, "<")]
            return q
        return self.floor(N.divide(a, b)).withk(k)

    def _quotient(self, a, b):
        """a polynomial quotient of a by b > 0, when one can be read off (b constant) or confirmed by the solver"""
        if a.D or b.D or a.d != 1 or b.d != 1 or any(k[0] != 1 for k in a.t) or any(k[0] != 1 for k in b.t):
            return None
        if any(N.T.vars[k[i]].sort != "int" for x in (a, b) for k in x.t for i in range(1, len(k), 2)):
            return None
        if b.is_rat():
            m = N.cint(b)
            Q = {k: c // m for k, c in a.t.items() if c // m}
            R = Num({k: c % m for k, c in a.t.items() if c % m}, 1, None, 0)
            if R.is_rat():
                return Num(Q, 1, None, 0)
            if not Q:
                return None
            return Num(Q, 1, None, 0) + self.floordiv(R, b)
        key = ("fq", frozenset(a.t.items()), frozenset(b.t.items()))
        cands = []
        for kb, cb in b.t.items():
            fb = dict(zip(kb[1::2], kb[2::2]))
            Q = {}
            for ka, ca in a.t.items():
                fa = dict(zip(ka[1::2], ka[2::2]))
                if all(fa.get(v, 0) >= e for v, e in fb.items()) and ca // cb:
                    kk = (1,)
                    for v in sorted(fa):
                        if fa[v] - fb.get(v, 0):
                            kk += (v, fa[v] - fb.get(v, 0))
                    Q[kk] = ca // cb
            for off in (0, -1, 1):
                q = Num(dict(Q), 1, None, 0) + off
                if not any((q - x).t == {} for x in cands):
                    cands.append(q)
        for q in cands[:12]:
            r = a - b * q
            ok = True
            for c in (N.compare(r, N.ZERO, ">="), N.compare(r, b, "<")):
                if c is False or (c is not True and self.check([lnot(c)], 1500)[0] != "unsat"):
                    ok = False
                    break
            if ok:
                return q
        return None

    def floor(self, x):
        if self.integer_valued(x):
            return x.withk(0)
        key = ("fl", frozenset(x.t.items()), x.d, frozenset((x.D or {}).items()))
        var, q, new = self.derived("f", lambda ev: int(mpmath.floor(_mp(ev.value(x)))), key)
        if new:
            var.cons = [N.compare(x, q, ">="), N.compare(x, q + 1, "<")]
        return q.withk(x.k) if x.k == 0 else q

    def round(self, x):
        if self.integer_valued(x):
            return x.withk(0)
        y = x + Fraction(1, 2)
        f = self.floor(y)
        if bool(N.compare(y, f.withk(1), "==")) and bool(N.compare(f % 2, N.ONE_I, "==")):
            return f - 1
        return f

    def gcd(self, a, b):
        """gcd of two integer multiples of one polynomial"""
        if not a.t or not b.t:
            return abs(a if a.t else b)
        from math import gcd
        ga, gb = gcd(*a.t.values()), gcd(*b.t.values())
        if a.d == b.d == 1 and not a.D and not b.D:
            pa, pb = Num({k: c // ga for k, c in a.t.items()}, 1, None, 0), Num({k: c // gb for k, c in b.t.items()}, 1, None, 0)
            if not (pa - pb).t or not (pa + pb).t:
                return abs(pa * gcd(ga, gb))
        raise Unsupported("gcd of symbolic integers")

    def denominator(self, x):
        if self.integer_valued(x):
            return 1
        raise Unsupported("denominator of a symbolic value")

    def integer_valued(self, x):
        """a polynomial of integer variables takes integer values everywhere iff it does on a grid of deg+1 points per variable"""
        if x.D or not x.t:
            return False
        deg = {}
        for k in x.t:
            if k[0] != 1:
                return False
            for i in range(1, len(k), 2):
                deg[k[i]] = max(deg.get(k[i], 0), k[i + 1])
        if any(N.T.vars[v].sort != "int" for v in deg):
            return False
        if x.d == 1:
            return True
        size = 1
        for n in deg.values():
            size *= n + 1
        if size > 60000:
            return False
        key = ("iv", frozenset(x.t.items()), x.d)
        if key not in self.memo:
            vs = list(deg)
            grid = np.indices([deg[v] + 1 for v in vs]).reshape(len(vs), -1).astype(object)
            val = np.zeros(grid.shape[1], dtype=object)
            for k, c in x.t.items():
                m = np.full(grid.shape[1], c, dtype=object)
                for i in range(1, len(k), 2):
                    m = m * grid[vs.index(k[i])] ** k[i + 1]
                val = val + m
            self.memo[key] = bool(np.all(val % x.d == 0))
        return self.memo[key]

    def note_threshold(self):
        self.st.thresholds += 1

    # ---------------------------------------------------------------- fresh values
    def fresh_real(self, name):
        v = N.new_var(name, "real", role="env")
        return Num({(1, v.id, 1): 1}, 1, None, 1)

    RANDS = [Fraction(37, 100), Fraction(95, 128), Fraction(59, 97), Fraction(11, 64), Fraction(83, 101), Fraction(29, 113), Fraction(5, 89), Fraction(61, 64)]

    def fresh_random(self):
        if self.randvals:
            return self.randvals.pop(0)
        self.nrandom += 1
        n = self.nrandom
        self.st.assumed["random numbers are a fixed generic sequence"] = 1
        return N.from_fraction(self.RANDS[(n - 1) % 8] + Fraction((n - 1) // 8, 1009), 1)

    def fresh_nonzero(self, name, psd=False):
        v = N.new_var(name, "real", role="opaque")
        x = Num({(1, v.id, 1): 1}, 1, None, 1)
        v.cons = [N.compare(x, N.ZERO_F, ">")] if psd else [lnot(N.compare(x, N.ZERO_F, "=="))]
        return x

    def opaque(self, name):
        v = N.new_var(name, "real", role="opaque")
        return Num({(1, v.id, 1): 1}, 1, None, 1)

    def opaque_const(self, x):
        c = complex(x)
        if c.imag:
            re = N.recognise_num(c.real, 1e-11)
            im = N.recognise_num(c.imag, 1e-11)
            if re is not None and im is not None:
                return (re + N.J * im).withk(2)
        else:
            re = N.recognise_num(c.real, 1e-11)
            if re is not None:
                return re
        return self.opaque("numeric")

    def expm(self, a):
        """matrix exponential: one uninterpreted matrix per argument (exp(0) = 1)"""
        from . import arr as AR, npfuncs as F
        p = AR.plain(a)
        if all(not x.t for x in p.flat):
            e = F.eye(a.shape[-1])
            return AR.astype(e, a.k) if a.k == 2 else e
        if a.ndim > 2:
            return AR.mk(np.stack([AR.plain(self.expm(AR.mk(x, a.k))) for x in p]), a.k)
        key = ("expm", tuple((frozenset(x.t.items()), x.d, frozenset((x.D or {}).items())) for x in p.flat), a.shape)
        r = self.memo.get(key)
        if r is None:
            r = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                def mkv(part):
                    v = N.new_var(f"exp{part}", "real", role="derived", val=lambda ev, i=i, part=part: self.expval(ev, p, i, part))
                    return Num({(1, v.id, 1): 1}, 1, None, 1)
                r[i] = mkv("re")
                if a.k == 2:
                    r[i] = (r[i] + N.J * mkv("im")).withk(2)
            self.memo[key] = r
        return AR.mk(r.copy(), max(a.k, 1))

    def expval(self, ev, p, i, part):
        from scipy.linalg import expm
        m = np.array([[complex(float(ev.value(x.real)), float(ev.value(x.imag))) for x in row] for row in p])
        e = expm(m)[i]
        return mpmath.mpf(float(e.real if part == "re" else e.imag))

    def proved(self, b):
        """the condition holds for all values on this path (no fork)"""
        if not isinstance(b, SymBool):
            return bool(b)
        r, _, _ = self.check([lnot(b)], self.branch_ms)
        return r == "unsat"

    def equal(self, a, b):
        return a is b or (self.proved(N.compare(a.real, b.real, "==")) and self.proved(N.compare(a.imag, b.imag, "==")))

    def eig(self, a):
        from . import npfuncs as F
        r = F.eig_hinted(a, self.eighints)
        return F.eig_const(a) if r is None else r

    # ---------------------------------------------------------------- obligations
    def prove_pairs(self, pairs, label):
        """every pair of reals must be equal for all values"""
        self.st.obligations += 1
        self.st.labels[label] = self.st.labels.get(label, 0) + 1
        todo = [(a, b) for a, b in pairs if a.t or b.t]
        self.st.terms += sum(len(a.t) + len(b.t) for a, b in todo)
        if not todo:
            return
        CH = 250
        for i in range(0, len(todo), CH):
            chunk = todo[i:i + CH]
            if any(N.T.vars[v].role == "opaque" for a, b in chunk for v in a.varids() | b.varids()):
                self.inconc.append(f"{label}: depends on a value the encoding does not define")
                continue
            diffs = []
            if not self.pairs_unsat(chunk):
                for a, b in chunk:
                    d = N.compare(a, b, "==")
                    if d is not True:
                        diffs.append(lnot(d) if isinstance(d, SymBool) else True)
            if diffs:
                if N.T.inexact:
                    self.inconc.append(f"{label}: inexact numeric constants")
                    continue
                self.prove(diffs, label, count=False)

    def pairs_unsat(self, pairs):
        """True when the solver shows that no values make some pair differ (no path condition needed)"""
        z = self.z
        ors = []
        rads = set()
        for a, b in pairs:
            ta, tb = a.t, b.t
            if a.D or b.D:
                ta = self.cross(ta, b.D, a.D)
                tb = self.cross(tb, a.D, b.D)
            l, r = z.poly(ta, True), z.poly(tb, True)
            if a.d != b.d:
                l, r = l * b.d, r * a.d
            ors.append(l != r)
            for k in itertools.chain(ta, tb):
                if k[0] > 1:
                    rads.update(_primes(k[0]))
        s = z3.SolverFor("QF_NRA")
        for p in rads:
            x = z.rad(p)
            s.add(x > 0, x * x == p)
        s.add(z3.Or(ors))
        s.set("timeout", 5000)
        t0 = time.time()
        r = str(s.check())
        self.st.solver_s += time.time() - t0
        self.st.queries += 1
        setattr(self.st, r, getattr(self.st, r) + 1)
        return r == "unsat"

    def cross(self, t, D, mine):
        for p, e in (D or {}).items():
            e -= min(e, (mine or {}).get(p, 0))
            for _ in range(e):
                t = N._pmul(t, N.T.polys[p])
        return t

    def prove(self, forms, label, count=True):
        """every form (the negation of a claim) must be unsatisfiable on this path"""
        if count:
            self.st.obligations += 1
            self.st.labels[label] = self.st.labels.get(label, 0) + 1
        forms = [f for f in forms if f is not False]
        if not forms:
            return
        for f in forms:
            vs = fvars(f)
            if any(N.T.vars[v].role == "opaque" for v in vs):
                # opaque value in an obligation: only a refutation independent of it would count
                self.inconc.append(f"{label}: depends on a value the encoding does not define")
                return
        bad = lor(forms)
        if bad is True:
            raise Found({"label": label, "model": self.settled_values(), "why": "assertion is false on this path"})
        if bad is False:
            return
        t = self.ev_truth(bad)
        if t is not True:
            r, m, vs = self.check([bad], min(3000, self.oblig_ms), with_pc=False)
            if r == "unsat":
                return
            r, m, vs = self.check([bad], self.oblig_ms)
            if r == "unsat":
                return
            if r == "unknown":
                # split the disjunction
                if isinstance(bad, SymBool) and bad.op == "or":
                    for f in bad.args:
                        r, m, vs = self.check([f], self.oblig_ms)
                        if r != "unsat":
                            break
                    if r == "unsat":
                        return
                if r == "unknown":
                    self.inconc.append(f"{label}: solver timeout")
                    return
            if not self.nice_model([bad]):
                self.take_model(m, vs)
        else:
            self.st.queries += 1
            r, m, vs = self.check([bad], self.oblig_ms)     # the solver confirms the witness
            if r == "unsat":
                return
        raise Found({"label": label, "model": self.input_values(), "why": "solver found values that break the assertion"})

    def settled_values(self):
        """input values that satisfy every constraint of the path"""
        if self.dirty:
            try:
                self.settle()
            except Unsupported:
                pass
        return self.input_values()

    def input_values(self):
        out = {}
        for name, v in self.inputs.items():
            try:
                x = self.ev.var(v)
            except Unsupported:
                x = 0
            if isinstance(x, (int, Fraction)):
                out[name] = f"{x}"
            else:
                out[name] = mpmath.nstr(x, 20)
        return out


def _mp(x):
    return mpmath.mpf(x.numerator) / x.denominator if isinstance(x, (int, Fraction)) else x
