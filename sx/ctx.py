"""The interface harnesses see when they run symbolically."""
import importlib
import itertools
from fractions import Fraction
import numpy as np
from . import num as N
from . import arr as AR
from . import npfuncs as F
from . import shim
from .engine import Found, PathEnd
from .num import Num, SymBool, lift, land, lor, lnot, Unsupported


class SymCtx:
    sym = True
    np = shim.np_proxy

    def __init__(self, eng):
        self.e = eng
        self.w = []
        from . import symstr
        symstr.reset()

    # ---- modules
    def mod(self, name="lie_nn"):
        return importlib.import_module(name)

    @property
    def lie(self):
        return self.mod("lie_nn")

    @property
    def util(self):
        return self.mod("lie_nn._src.util")

    # ---- inputs
    def _new(self, name, sort, lo=None, hi=None):
        if name in self.e.inputs:
            raise ValueError(f"duplicate input {name}")
        v = N.new_var(name, sort)
        self.e.inputs[name] = v.id
        x = Num({(1, v.id, 1): 1}, 1, None, 0 if sort == "int" else 1)
        self.e.bounded[v.id] = (lo, hi)
        if lo is not None:
            v.cons.append(N.compare(x, lift(lo), ">="))
        if hi is not None:
            v.cons.append(N.compare(x, lift(hi), "<="))
        return x

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        return self._new(name, "int", lo, hi)

    def real(self, name):
        return self._new(name, "real")

    def pick(self, name, lo, hi):
        """a native int in lo..hi: every value the solver finds is a path of its own"""
        x = self.int(name, lo, hi)
        return N.cint(x)

    def choice(self, name, seq):
        seq = list(seq)
        return seq[self.pick(name, 0, len(seq) - 1)]

    def num(self, x):
        """native int of an integer expression (forks)"""
        return N.cint(lift(x))

    def arr(self, name, shape, kind="real"):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            nm = name + "".join(f"_{j}" for j in i)
            if kind == "complex":
                out[i] = (self.real(nm + "r") + N.J * self.real(nm + "i")).withk(2)
            elif kind == "int":
                out[i] = self.int(nm)
            else:
                out[i] = self.real(nm)
        return AR.mk(out, {"real": 1, "complex": 2, "int": 0}[kind])

    def herm(self, name, n, kind="complex", anti=False):
        """Hermitian / symmetric (anti: anti-Hermitian / antisymmetric) matrix of free entries"""
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(i, n):
                re = self.real(f"{name}_{i}_{j}r") if (i != j or not anti) else lift(0.0)
                if kind == "complex":
                    im = self.real(f"{name}_{i}_{j}i") if (i != j or anti) else lift(0.0)
                    z = (re + N.J * im).withk(2)
                else:
                    z = re
                out[i, j] = z
                if i != j:
                    out[j, i] = -z.conjugate() if anti else z.conjugate()
        return AR.mk(out, 2 if kind == "complex" else 1)

    def const(self, x, kind=None):
        a = AR.array(x)
        return a if kind is None else AR.astype(AR.sarr(a), {"int": 0, "real": 1, "complex": 2}[kind])

    def q(self, n, d=1):
        return N.from_fraction(Fraction(n, d), 1)

    def sqrt(self, x):
        return N.nsqrt(lift(x))

    @property
    def j(self):
        return N.J

    def numeral(self, name, digits, unbounded=True):
        """(text, value): a decimal numeral of the given number of digits (its head may stand for further digits)"""
        from . import symstr
        v, t = 0, ""
        for i in range(digits):
            lo = 1 if i == 0 and digits > 1 else 0
            x = self.int(f"{name}_{i}", lo, None if i == 0 and digits > 1 and unbounded else 9)
            t += symstr.new_char(x)
            v = v * 10 + x
        return t, v

    # ---- logic
    def assume(self, b):
        b = self._b(b)
        self.e.assume(b)

    @staticmethod
    def _b(b):
        if isinstance(b, np.ndarray):
            b = land(list(AR.plain(b).flat) if isinstance(b, AR.SArr) else list(b.flat))
        if isinstance(b, Num):
            b = lnot(N.compare(b, N.ZERO, "=="))
        return b

    def And(self, *bs):
        return land([self._b(b) for b in bs])

    def Or(self, *bs):
        return lor([self._b(b) for b in bs])

    def Not(self, b):
        return lnot(self._b(b))

    def decide(self, b):
        return bool(self._b(b))

    # ---- assertions
    def fail(self, label, why=""):
        raise Found({"label": label, "model": self.e.settled_values(), "why": why or "reached"})

    def true(self, b, label):
        b = self._b(b)
        self.e.prove([lnot(b)], label)

    def wvec(self, n):
        while len(self.w) < n:
            v = N.new_var(f"w{len(self.w)}", "real", role="env")
            self.w.append((1, v.id, 1))
        return self.w

    def eq(self, a, b, label):
        """entrywise equality of two arrays (or numbers), for every vector they act on"""
        a, b = AR.sarr(a), AR.sarr(b)
        if a.shape != b.shape:
            if a.ndim == 0 or b.ndim == 0:
                sh = np.broadcast_shapes(a.shape, b.shape)
                a = AR.mk(np.broadcast_to(AR.plain(a), sh), a.k)
                b = AR.mk(np.broadcast_to(AR.plain(b), sh), b.k)
            else:
                self.fail(label, f"shapes {a.shape} and {b.shape}")
        pa, pb = AR.plain(a), AR.plain(b)
        if pa.ndim == 0 or pa.size == 0:
            rows = [([pa[()]], [pb[()]])] if pa.ndim == 0 else []
        else:
            n = pa.shape[-1]
            ra, rb = pa.reshape(-1, n), pb.reshape(-1, n)
            rows = zip(ra, rb)
            self.wvec(n)
        pairs = []
        for x, y in rows:
            for part in (0, 1):
                lx, ly = self._contract(x, part), self._contract(y, part)
                if lx is None or ly is None:      # denominators: entry by entry
                    for u, v in zip(x, y):
                        u, v = self._part(u, part), self._part(v, part)
                        if u.t or v.t:
                            pairs.append((u, v))
                elif lx.t or ly.t:
                    pairs.append((lx, ly))
        self.e.prove_pairs(pairs, label)

    @staticmethod
    def _part(x, part):
        if isinstance(x, (bool, np.bool_, SymBool)):
            x = lift(x)
        return x.real if part == 0 else x.imag

    def _contract(self, row, part):
        if len(row) == 1:
            return self._part(row[0], part)
        t = {}
        den = 1
        from math import lcm
        ps = []
        for x in row:
            p = self._part(x, part)
            if p.D:
                return None
            den = lcm(den, p.d)
            ps.append(p)
        for p, w in zip(ps, self.w):
            if p.t:
                f = den // p.d
                vid = w[1]
                for k, c in p.t.items():
                    kk = k + (vid, 1) if len(k) == 1 or k[-2] < vid else None
                    if kk is None:
                        (kk, cc), = N._mulkey(k, w)
                        c = c * cc
                    t[kk] = t.get(kk, 0) + c * f
        return Num(t, den, None, 1)

    def raises(self, label, fn, *exc):
        exc = exc or (Exception,)
        try:
            fn()
        except exc:
            self.e.st.obligations += 1
            self.e.st.labels[label] = self.e.st.labels.get(label, 0) + 1
            return
        self.fail(label, "no exception was raised")

    def attempt(self, fn, *exc):
        """(True, value) or (False, exception) for the expected exception types"""
        try:
            return True, fn()
        except (exc or (Exception,)) as e:
            return False, e

    def randoms(self, vals):
        """the next numbers drawn from np.random.rand"""
        self.e.randvals = [lift(x) for x in vals]

    def eig_hint(self, vectors):
        """eigenvectors (rows) a later np.linalg.eig may return; used only when they are eigenvectors"""
        self.e.eighints.append([[lift(x) for x in v] for v in vectors])

    def expm(self, a):
        return self.e.expm(AR.sarr(a))

    def shape(self, a, shape, label):
        self.true(tuple(a.shape) == tuple(shape), label)

    def snapshot(self, a):
        return a.copy()

    def is_real_dtype(self, a):
        return np.dtype(a.dtype).kind != "c"

    # ---- set / rank helpers used by oracles
    def kernel(self, m):
        """exact basis (rows) of the kernel of a constant or symbolic matrix"""
        m = AR.sarr(m)
        ks = F.kernel_list(F.rowlist(m), m.shape[1]) if m.shape[0] else F.kernel_list([], m.shape[1])
        return ks

    def rank(self, m):
        m = AR.sarr(m)
        if m.shape[0] == 0 or m.shape[1] == 0:
            return 0
        n = 0
        for rs, cs in F._components(F.rowlist(m)):
            R, piv = F.echelon([[AR.plain(m)[i, j] for j in cs] for i in rs])
            n += len(piv)
        return n
