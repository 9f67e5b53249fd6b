"""Stand-ins for numpy, scipy, math, fractions and jax used by the symbolically executed modules."""
import fractions as _fractions
import functools
import importlib
import itertools
import math as _math
import types
from fractions import Fraction
import numpy as np
from . import num as N
from . import arr as AR
from . import npfuncs as F
from .num import Num, SymBool, lift, Unsupported
from .arr import SArr, wrap0, unwrap0, sarr


def _has_num(x, depth=0):
    if isinstance(x, (Num, SymBool)):
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(_has_num(y, depth + 1) for y in x)
    return False


def _has_arr(x):
    if isinstance(x, np.ndarray):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_arr(y) for y in x)
    return False


INEXACT_FUNCS = {"mean", "average", "linalg"}


class FuncWrap:
    def __init__(self, f, inexact=False):
        self.f = f
        self.inexact = inexact
        self.__name__ = getattr(f, "__name__", "f")

    def conv(self, a):
        if isinstance(a, (Num, SymBool)):
            return wrap0(a)
        if isinstance(a, (list, tuple)):
            if _has_arr(a):
                return type(a)(self.conv(x) if isinstance(x, (Num, SymBool)) else x for x in a) if type(a) in (list, tuple) else a
            if _has_num(a):
                return AR.array(list(a))
        if self.inexact and isinstance(a, np.ndarray) and not isinstance(a, SArr):
            return AR.mk(AR.to_obj(a), AR.kind_of_arr(a))
        if self.inexact and isinstance(a, (float, complex)) and np.isfinite(a):
            return wrap0(a)
        if isinstance(a, np.ndarray) and not isinstance(a, SArr) and a.dtype == object:
            return sarr(a)
        return a

    def __call__(self, *a, **k):
        a2 = [self.conv(x) for x in a]
        k2 = {n: (v if n in ("axis", "shape", "dtype", "subscripts") else self.conv(v)) for n, v in k.items()}
        r = self.f(*a2, **k2)
        if isinstance(r, SArr) and r.ndim == 0:
            return unwrap0(r)
        return r


def sx_idx(i):
    """symbolic index arrays and masks become native ones (forks), so that they also index native arrays"""
    if isinstance(i, SArr):
        return AR.fix_index(i)
    if i.__class__ is tuple and any(isinstance(x, SArr) for x in i):
        return tuple(AR.fix_index(x) if isinstance(x, SArr) else x for x in i)
    return i


class UfuncWrap:
    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__
        self.inexact = f.__name__ in AR.INEXACT

    def conv(self, a):
        if isinstance(a, (Num, SymBool)):
            return wrap0(a)
        if isinstance(a, (list, tuple)):
            a = AR.array(a)
        if isinstance(a, np.ndarray) and not isinstance(a, SArr):
            if a.dtype == object or self.inexact or a.dtype.kind in "fc":
                return sarr(a)
            return a
        if isinstance(a, np.generic) and a.dtype.kind == "b":
            return a
        if isinstance(a, (float, complex, Fraction)) and not isinstance(a, bool):
            return wrap0(a)
        if self.inexact and isinstance(a, (int, np.integer)):
            return wrap0(a)
        return a

    def __call__(self, *a, **k):
        r = self.f(*[self.conv(x) for x in a], **k)
        if isinstance(r, np.generic) and r.dtype.kind == "O":
            r = r.item()
        return unwrap0(r) if isinstance(r, SArr) else r

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        g = getattr(self.f, n)
        if callable(g):
            return lambda *a, **k: g(*[self.conv(x) for x in a[:1]], *a[1:], **k)
        return g


def _shape(s):
    if isinstance(s, (Num, SArr)):
        s = N.cint(s) if isinstance(s, Num) else tuple(N.cint(x) for x in s)
    if isinstance(s, (tuple, list)):
        return tuple(N.cint(x) if isinstance(x, Num) else x for x in s)
    return s


def zeros(shape, dtype=float, order="C", **kw):
    return AR.full(_shape(shape), 0, dtype=float if dtype is None else dtype)


def ones(shape, dtype=float, order="C", **kw):
    return AR.full(_shape(shape), 1, dtype=float if dtype is None else dtype)


def empty(shape, dtype=float, order="C", **kw):
    return F.empty(_shape(shape), dtype)


def full(shape, v, dtype=None, order="C", **kw):
    if isinstance(v, np.ndarray):
        r = AR.full(_shape(shape), 0, dtype=AR.DT[AR.kind_of_arr(v)] if dtype is None else dtype)
        r[...] = v
        return r
    return AR.full(_shape(shape), v, dtype)


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    if isinstance(x, (map, filter, types.GeneratorType)):
        x = list(x) if not isinstance(x, types.GeneratorType) else x
    r = AR.array(x, dtype=dtype, copy=True)
    return r.reshape((1,) * (ndmin - r.ndim) + r.shape) if r.ndim < ndmin else r


def asarray(x, dtype=None, **kw):
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    if isinstance(x, SArr) and AR.kind_of_dtype(dtype) == x.k:
        return x
    return AR.array(x, dtype=dtype)


def arange(*a, dtype=None, **kw):
    a = list(a)
    if "start" in kw:
        a.insert(0, kw["start"])
    if "stop" in kw:
        a.append(kw["stop"])
    if "step" in kw:
        a.append(kw["step"])
    if all(isinstance(x, (int, np.integer)) for x in a) and (dtype is None or AR.kind_of_dtype(dtype) <= 0):
        return np.arange(*a, dtype=dtype)
    xs = [lift(x) for x in a]
    if len(xs) == 1:
        start, stop, step = lift(0), xs[0], lift(1)
    elif len(xs) == 2:
        start, stop, step = xs[0], xs[1], lift(1)
    else:
        start, stop, step = xs
    k = max(x.k for x in xs)
    n = -N.nfloor(-N.divide(stop - start, step))      # ceil
    n = max(0, N.cint(n))
    out = np.empty(n, dtype=object)
    for i in range(n):
        out[i] = (start + step * i).withk(k)
    r = AR.mk(out, k)
    if dtype is not None:
        return r.astype(dtype)
    return AR.demote(r) if k == 0 else r


def linspace(a, b, num=50, endpoint=True, **kw):
    a, b = lift(a), lift(b)
    num = N.cint(num)
    d = (num - 1 if endpoint else num) or 1
    return AR.array([(a + N.divide((b - a) * i, lift(d))).withk(1) for i in range(num)])


def eye(n, M=None, k=0, dtype=float, **kw):
    return F.eye(n, M, k, dtype)


def fromfunction(f, shape, dtype=float, **kw):
    idx = np.indices(shape)
    return f(*idx, **kw)


def vectorize(f, **kw):
    def g(*a):
        arrs = [sarr(x) for x in a]
        r = np.frompyfunc(lambda *x: N.lift_or_raise(f(*[AR.mk(AR._box(y), y.k).item() if False else y for y in x])), len(arrs), 1)(*[AR.plain(x) for x in arrs])
        if isinstance(r, np.ndarray):
            return AR.mk(r, AR.kind_of_arr(r))
        return r
    return g


def fill_diagonal(a, v, wrap=False):
    v = np.asarray(AR.plain(AR.sarr(v))).reshape(-1)
    n = min(a.shape)
    for i in range(n):
        a[(i,) * a.ndim] = v[i % len(v)]


def asc(x, **kw):
    return x


def meshgrid(*xs, indexing="xy", **kw):
    return np.meshgrid(*xs, indexing=indexing, **kw)


def isscalar(x):
    return isinstance(x, (Num, int, float, complex, np.generic))


def np_isrealobj(x):
    return AR.sarr(x).k != 2


def result_type(*a):
    k = -1
    for x in a:
        if isinstance(x, np.ndarray):
            k = max(k, AR.kind_of_arr(x))
        elif isinstance(x, (type, np.dtype)):
            k = max(k, AR.kind_of_dtype(x))
        else:
            k = max(k, lift(x).k)
    return AR.DT[k]


def apply_along_axis(f, axis, a, *args, **kw):
    a = sarr(a)
    a2 = np.moveaxis(a, axis, -1)
    lead = a2.shape[:-1]
    outs = [f(x, *args, **kw) for x in a2.reshape((-1, a2.shape[-1]))]
    r = AR.array(outs) if not isinstance(outs[0], np.ndarray) else np.stack(outs)
    r = r.reshape(lead + r.shape[1:])
    if r.ndim > len(lead):
        r = np.moveaxis(r, -1, axis)
    return r


class _RClass:
    """np.r_ / np.c_ for sequences of arrays and numbers along one axis"""

    def __init__(self, columns):
        self.columns = columns

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        parts = []
        for x in key:
            if isinstance(x, slice):
                x = arange(x.start or 0, x.stop, 1 if x.step is None else x.step)
            elif isinstance(x, str):
                return (np.c_ if self.columns else np.r_)[key]
            else:
                x = sarr(x) if not isinstance(x, np.ndarray) else x
            parts.append(x.reshape(1) if x.ndim == 0 else x)
        return np.column_stack(parts) if self.columns else np.concatenate(parts, axis=0)


class Sub(types.ModuleType):
    def __init__(self, real, overrides, inexact=False):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_ov"] = overrides
        self.__dict__["_cache"] = {}
        self.__dict__["_inexact"] = inexact

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n.startswith("__"):
            return getattr(self._real, n)
        if n in self._ov:
            return self._ov[n]
        c = self._cache.get(n)
        if c is None:
            v = getattr(self._real, n)
            if isinstance(v, np.ufunc):
                c = UfuncWrap(v)
            elif isinstance(v, type) or isinstance(v, types.ModuleType):
                c = v
            elif callable(v):
                c = FuncWrap(v, self._inexact or n in INEXACT_FUNCS)
            else:
                c = v
            self._cache[n] = c
        return c


# ---- random: arbitrary values
def _rand(*shape):
    if not shape:
        return N.HOOK.fresh_random()
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = N.HOOK.fresh_random()
    return AR.mk(out, 1)


def _rand_size(*a, size=None, **k):
    if size is None and a and isinstance(a[0], (tuple, int)) and not isinstance(a[0], bool):
        size = a[0]
    if size is None:
        return _rand()
    return _rand(*(size if isinstance(size, tuple) else (size,)))


class _Rng:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("random", "uniform", "standard_normal", "normal", "random_sample"):
            return lambda *a, size=None, **k: _rand_size(size=size if size is not None else (a[-1] if a and isinstance(a[-1], tuple) else (a[0] if a and isinstance(a[0], int) and n in ("random", "standard_normal", "random_sample") else None)))
        if n in ("rand", "randn"):
            return _rand
        raise Unsupported(f"random.{n}")


class _Random(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("rand", "randn"):
            return _rand
        if n == "seed":
            return lambda *a, **k: None
        if n in ("default_rng", "RandomState", "Generator"):
            return lambda *a, **k: _Rng()
        return getattr(_Rng(), n)


_testing = Sub(np.testing, {"assert_allclose": F.assert_allclose, "assert_array_equal": F.assert_array_equal,
                            "assert_array_almost_equal": lambda a, b, decimal=6, **k: F.assert_allclose(a, b, 0, 1e-6),
                            "assert_almost_equal": lambda a, b, decimal=7, **k: F.assert_allclose(a, b, 0, 1e-7)})
_linalg = Sub(np.linalg, {"LinAlgError": np.linalg.LinAlgError}, inexact=True)

np_proxy = Sub(np, {
    "zeros": zeros, "ones": ones, "empty": empty, "full": full, "array": array, "asarray": asarray, "asanyarray": asarray,
    "ascontiguousarray": asarray, "arange": arange, "linspace": linspace, "eye": eye, "identity": lambda n, dtype=float, **k: eye(n, dtype=dtype),
    "linalg": _linalg, "testing": _testing, "random": _Random("numpy.random"), "vectorize": vectorize, "fromfunction": fromfunction,
    "fill_diagonal": fill_diagonal, "isscalar": isscalar, "result_type": result_type, "apply_along_axis": apply_along_axis,
    "einsum": lambda *a, **k: AR.einsum(*a, **k), "ndindex": np.ndindex, "newaxis": None, "errstate": np.errstate,
    "r_": _RClass(False), "c_": _RClass(True),
    "set_printoptions": lambda *a, **k: None, "seterr": lambda *a, **k: {}, "ndarray": np.ndarray,
    "cdouble": np.complex128, "pi": np.pi, "array_equal": FuncWrap(F._array_equal),
    "matmul": lambda a, b, **k: AR.matmul(a, b), "dot": lambda a, b, **k: AR.dot(a, b), "kron": FuncWrap(F._kron),
    "where": lambda *a: unwrap0(F._where(*a)) if len(a) == 3 else F._where(*a),
    "iscomplex": FuncWrap(F._iscomplex), "isreal": FuncWrap(F._isreal), "real": FuncWrap(F._real), "imag": FuncWrap(F._imag),
    "allclose": lambda a, b, *r, **k: F._allclose(a, b, *r, **k), "isclose": FuncWrap(F._isclose),
    "all": FuncWrap(F._all), "any": FuncWrap(F._any), "sum": FuncWrap(lambda a, *r, **k: np.sum(list(a) if isinstance(a, types.GeneratorType) else a, *r, **k)),
    "block": FuncWrap(np.block), "round": FuncWrap(F._round), "around": FuncWrap(F._round), "shape": lambda a: AR.sarr(a).shape if not isinstance(a, np.ndarray) else a.shape,
    "ndim": lambda a: a.ndim if hasattr(a, "ndim") else AR.sarr(a).ndim, "size": lambda a, axis=None: AR.sarr(a).size if axis is None else AR.sarr(a).shape[axis],
    "zeros_like": lambda a, dtype=None, **k: F._zeros_like(a if isinstance(a, np.ndarray) else AR.array(a), dtype),
    "ones_like": lambda a, dtype=None, **k: F._ones_like(a if isinstance(a, np.ndarray) else AR.array(a), dtype),
    "full_like": lambda a, v, dtype=None, **k: F._full_like(a if isinstance(a, np.ndarray) else AR.array(a), v, dtype),
    "empty_like": lambda a, dtype=None, **k: F._empty_like(a if isinstance(a, np.ndarray) else AR.array(a), dtype),
})


# ---------------------------------------------------------------- math
def _m1(name):
    f = getattr(_math, name)

    def g(*a):
        if any(isinstance(x, (Num, SArr)) for x in a):
            xs = [lift(x) for x in a]
            if all(x.is_const() for x in xs):
                if name in ("factorial", "comb", "perm", "gcd", "lcm"):
                    return f(*[N.cint(x) for x in xs])
                return AR.from_float(f(*[N.feval(x) for x in xs]))
            if name in ("factorial", "comb", "perm", "gcd", "lcm"):
                return f(*[N.cint(x) for x in xs])
            raise Unsupported("math." + name)
        if name in ("factorial", "comb", "perm", "gcd", "lcm"):
            return f(*[int(x) if isinstance(x, Fraction) and x.denominator == 1 else x for x in a])
        r = f(*a)
        if isinstance(r, float):
            return AR.from_float(r)
        return r
    return g


def _msqrt(x):
    return N.nsqrt(x)


def _mprod(xs, start=1):
    r = start
    for x in xs:
        r = r * x
    return r


def _mfloor(x):
    if isinstance(x, Num):
        r = N.nfloor(x)
        return N.cint(r) if r.is_rat() else r
    return _math.floor(x)


def _mceil(x):
    if isinstance(x, Num):
        r = -N.nfloor(-x)
        return N.cint(r) if r.is_rat() else r
    return _math.ceil(x)


def _misclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    return bool(F._tolerance_equal(lift(a), lift(b), rel_tol, abs_tol))


class _Math(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "sqrt":
            return _msqrt
        if n == "floor":
            return _mfloor
        if n == "ceil":
            return _mceil
        if n == "prod":
            return _mprod
        if n == "isclose":
            return _misclose
        if n == "fsum":
            return sum
        if n == "trunc":
            return lambda x: N.trunc(lift(x))
        if n == "pow":
            return lambda a, b: lift(N.power(a, b)).withk(1)
        if n == "fabs":
            return abs
        if n in ("isqrt",):
            return _math.isqrt
        v = getattr(_math, n)
        return _m1(n) if callable(v) else v


math_shim = _Math("math")


# ---------------------------------------------------------------- fractions
class FractionMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _fractions.Fraction)

    def __call__(cls, a=0, b=None):
        if isinstance(a, Num) or isinstance(b, Num):
            a = lift(a)
            b = lift(1) if b is None else lift(b)
            if a.is_rat() and b.is_rat():
                return a.frac() / b.frac()
            return N.divide(a, b)
        return _fractions.Fraction(a, b)


class FractionShim(metaclass=FractionMeta):
    from_float = _fractions.Fraction.from_float


class _Fractions(types.ModuleType):
    Fraction = FractionShim


fractions_shim = _Fractions("fractions")


# ---------------------------------------------------------------- scipy
def expm(a):
    return N.HOOK.expm(AR.sarr(a))


def sqrtm(a, *_, **__):
    """a principal-type square root of S when S^2 = 1 (P+ + i P-); numeric otherwise (constants)"""
    a = AR.sarr(a)
    n = a.shape[0]
    S2 = AR.matmul(a, a)
    I = F.eye(n)
    if bool(AR.np_all(np.equal(S2, I))):
        # principal branch: (-1)^(1/2) = i
        half = lift(Fraction(1, 2))
        Pp = (a + I) * half
        Pm = (I - a) * half
        if bool(AR.np_all(np.equal(a, I))):
            return a.copy()
        return Pp + Pm * N.J
    if bool(AR.np_all(np.equal(AR.matmul(S2, S2), I))):
        q = lift(Fraction(1, 4))
        S3 = AR.matmul(S2, a)
        r2 = N.sqrt_fraction(Fraction(1, 2))
        P1, Pm = (I + a + S2 + S3) * q, (I - a + S2 - S3) * q
        Pi, Pmi = (I - a * N.J - S2 + S3 * N.J) * q, (I + a * N.J - S2 - S3 * N.J) * q
        return P1 + Pm * N.J + Pi * ((1 + N.J) * r2) + Pmi * ((1 - N.J) * r2)
    import scipy.linalg
    r = scipy.linalg.sqrtm(F.to_native(a))
    N.T.inexact = True
    return F.from_native(r)


def null_space(a, rcond=None, **kw):
    a = AR.sarr(a)
    rows = F.rowlist(a)
    ker = F.kernel_const(a) if all(x.is_const() for x in AR.plain(a).flat) else F.orthonormal(F.kernel_list(rows, a.shape[1]))
    if not ker:
        return AR.full((a.shape[1], 0), 0.0)
    return F.from_rows(ker, max(a.k, 1)).T


def block_diag(*arrs):
    arrs = [np.atleast_2d(AR.sarr(x)) for x in arrs]
    k = max([x.k for x in arrs], default=1)
    out = AR.full((sum(x.shape[0] for x in arrs), sum(x.shape[1] for x in arrs)), 0, dtype=AR.DT[k])
    i = j = 0
    for x in arrs:
        out[i:i + x.shape[0], j:j + x.shape[1]] = x
        i += x.shape[0]
        j += x.shape[1]
    return out


class _SciLinalg(types.ModuleType):
    expm = staticmethod(expm)
    sqrtm = staticmethod(sqrtm)
    null_space = staticmethod(null_space)
    block_diag = staticmethod(block_diag)
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("inv", "det", "norm", "eigh", "eig", "pinv", "solve", "svd", "qr", "eigvalsh"):
            f = getattr(np_proxy.linalg, n)
            return lambda *a, **k: f(*a, **{x: y for x, y in k.items() if x not in ("check_finite", "overwrite_a", "overwrite_b", "assume_a")})
        if n == "kron":
            return np_proxy.kron
        import scipy.linalg
        g = getattr(scipy.linalg, n)
        return lambda *a, **k: F.numeric_fallback(g, [AR.sarr(x) if isinstance(x, np.ndarray) else x for x in a], k)


sla = _SciLinalg("scipy.linalg")


class _Sci(types.ModuleType):
    linalg = sla
    __path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "special":
            return _Special("scipy.special")
        import scipy
        return getattr(scipy, n)


class _Special(types.ModuleType):
    @staticmethod
    def factorial(n, exact=False):
        return _math.factorial(N.cint(lift(n)))

    @staticmethod
    def comb(n, k, exact=False, **kw):
        return _math.comb(N.cint(lift(n)), N.cint(lift(k)))

    binom = comb


sci = _Sci("scipy")


# ---------------------------------------------------------------- jax
class _AtIdx:
    def __init__(self, a, i):
        self.a, self.i = a, i

    def set(self, v):
        r = self.a.copy()
        r[self.i] = v
        return r

    def add(self, v):
        r = self.a.copy()
        r[self.i] = r[self.i] + v
        return r


def _jcond(pred, tf, ff, *ops):
    if isinstance(pred, np.ndarray):
        pred = pred.item() if pred.size == 1 else pred
    if bool(pred):
        return tf(*ops)
    return ff(*ops)


def _jscan(f, init, xs, length=None, reverse=False, **kw):
    carry = init
    ys = []
    it = [None] * length if xs is None else list(xs)
    if reverse:
        it = it[::-1]
    for x in it:
        carry, y = f(carry, x)
        ys.append(y)
    if ys and ys[0] is None:
        return carry, None
    return carry, np.stack([AR.sarr(y) for y in (ys[::-1] if reverse else ys)]) if ys else None


def _jfori(lo, hi, body, init):
    for i in range(N.cint(lift(lo)), N.cint(lift(hi))):
        init = body(i, init)
    return init


def _jwhile(cond, body, init):
    n = 0
    while bool(cond(init)):
        init = body(init)
        n += 1
        if n > 200:
            raise Unsupported("while_loop bound")
    return init


def _jvmap(f, in_axes=0, out_axes=0, **kw):
    def g(*args):
        ax = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
        n = None
        for a, x in zip(args, ax):
            if x is not None:
                n = a.shape[x]
        outs = []
        for i in range(n):
            outs.append(f(*[a if x is None else np.take(a, i, axis=x) for a, x in zip(args, ax)]))
        if n == 0:
            return _jvmap_empty(f, args, ax)
        if isinstance(outs[0], tuple):
            return tuple(np.stack([AR.sarr(o) for o in os_], axis=out_axes) for os_ in zip(*outs))
        return np.stack([AR.sarr(o) for o in outs], axis=out_axes)
    return g


def _jvmap_empty(f, args, ax):
    fake = [a if x is None else AR.full(tuple(s for j, s in enumerate(a.shape) if j != x % a.ndim), 1) if a.ndim > 1 else 1 for a, x in zip(args, ax)]
    r = AR.sarr(f(*fake))
    return AR.full((0,) + r.shape, 0.0)


class _Lax(types.ModuleType):
    cond = staticmethod(_jcond)
    scan = staticmethod(_jscan)
    fori_loop = staticmethod(_jfori)
    while_loop = staticmethod(_jwhile)

    @staticmethod
    def select(p, a, b):
        return F._where(p, a, b)

    @staticmethod
    def switch(i, branches, *ops):
        return branches[N.cint(lift(i))](*ops)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("jax.lax." + n)


class _Jit:
    def __call__(self, f=None, **kw):
        if f is None:
            return lambda g: g
        return f


class _JaxSciLinalg(types.ModuleType):
    expm = staticmethod(lambda a, **k: expm(a))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(sla, n)


class _JaxSci(types.ModuleType):
    linalg = _JaxSciLinalg("jax.scipy.linalg")
    __path__ = []


class _Jax(types.ModuleType):
    lax = _Lax("jax.lax")
    scipy = _JaxSci("jax.scipy")
    numpy = np_proxy
    jit = _Jit()
    vmap = staticmethod(_jvmap)
    __path__ = []
    Array = np.ndarray

    class tree_util:
        @staticmethod
        def register_pytree_node(*a, **k):
            return None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("jax." + n)


jax_shim = _Jax("jax")

MODULES = {
    "numpy": np_proxy, "numpy.linalg": _linalg, "numpy.testing": _testing, "math": math_shim, "fractions": fractions_shim,
    "scipy": sci, "scipy.linalg": sla, "scipy.special": _Special("scipy.special"), "jax": jax_shim, "jax.numpy": np_proxy, "jax.lax": jax_shim.lax,
    "jax.scipy": jax_shim.scipy, "jax.scipy.linalg": jax_shim.scipy.linalg,
}


# ---------------------------------------------------------------- rewritten builtins
def sx_div(a, b):
    if isinstance(a, SArr) or isinstance(b, SArr):
        return a / b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.true_divide(sarr(a), sarr(b))
    if isinstance(a, (Num, SymBool)) or isinstance(b, (Num, SymBool)):
        return N.divide(lift(a), lift(b))
    if isinstance(a, (int, float, np.integer, np.floating)) and isinstance(b, (int, float, np.integer, np.floating)):
        if b == 0:
            return a / b
        f = (Fraction(int(a)) if isinstance(a, (int, np.integer)) else N.float_fraction(float(a))) / \
            (Fraction(int(b)) if isinstance(b, (int, np.integer)) else N.float_fraction(float(b)))
        return N.exact_native(f, 1)
    if isinstance(a, (complex, np.complexfloating)) or isinstance(b, (complex, np.complexfloating)):
        return N.divide(lift(a), lift(b))
    return a / b


def sx_idiv(a, b):
    if isinstance(a, SArr):
        np.true_divide(a, b if isinstance(b, np.ndarray) else sarr(b), out=a)
        return a
    if isinstance(a, np.ndarray):
        raise TypeError("Cannot cast ufunc 'divide' output from dtype('float64') to dtype('int64')")
    return sx_div(a, b)


def sx_pow(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not isinstance(a, SArr) and not isinstance(b, SArr) and isinstance(b, (int, np.ndarray)) and isinstance(a, (int, np.ndarray)):
            if (b >= 0 if isinstance(b, int) else bool(np.all(b >= 0)) and b.dtype.kind in "iu") and (isinstance(a, int) or a.dtype.kind in "iub"):
                return a ** b
        return np_proxy.power(sarr(a), sarr(b)) if not (isinstance(b, int)) else _ipow(sarr(a), b)
    if isinstance(a, int) and isinstance(b, int) and b >= 0:
        return a ** b
    if isinstance(a, Fraction) and isinstance(b, int):
        return a ** b
    if isinstance(a, int) and isinstance(b, Fraction) and b.denominator == 1:
        return a ** b if b >= 0 else Fraction(1) / Fraction(a) ** (-b.numerator)
    if isinstance(a, (int, float, Num, Fraction, complex, np.generic, SymBool)):
        r = N.power(lift(a) if isinstance(a, SymBool) else (int(a) if isinstance(a, np.integer) else a), int(b) if isinstance(b, np.integer) else b)
        if isinstance(r, Num) and r.is_rat() and isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return N.exact_native(r.frac(), r.k) if r.k else int(r.frac())
        return r
    return a ** b


def _ipow(a, n):
    if n < 0:
        return 1 / _ipow(a, -n) if a.k >= 1 else (_ for _ in ()).throw(ValueError("Integers to negative integer powers are not allowed."))
    r = None
    for _ in range(n):
        r = a if r is None else r * a
    return r.copy() if r is not None else np.ones_like(a)


def sx_int(x=0, *a):
    if isinstance(x, Num):
        r = N.trunc(x)
        return N.cint(r) if r.is_rat() else r
    if isinstance(x, SArr):
        return sx_int(x.item())
    if isinstance(x, SymBool):
        return lift(x)
    if isinstance(x, str) and not a:
        from . import symstr
        if symstr.has(x):
            return symstr.to_int(x)
    return int(x, *a)


def sx_float(x=0.0):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, Num):
        if not x.is_real():
            raise TypeError("float() of a complex value")
        if x.is_rat():
            return N.exact_native(x.frac(), 1)
        return x.withk(1)
    if isinstance(x, Fraction):
        return N.exact_native(x, 1)
    return float(x)


def sx_complex(a=0, b=0):
    if isinstance(a, (Num, SArr)) or isinstance(b, (Num, SArr)):
        return (lift(a) + N.J * lift(b)).withk(2)
    return complex(a, b)


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = lift(self.start)
        n = 0
        up = self.step > 0
        while bool(i < self.stop) if up else bool(i > self.stop):
            yield N.cint(i) if i.is_rat() else i
            i = i + self.step
            n += 1
            if n > 400:
                raise Unsupported("symbolic range too long")

    def __reversed__(self):
        return iter([x for x in self][::-1])

    def __len__(self):
        return len([x for x in self])

    def __getitem__(self, i):
        return [x for x in self][i]

    def __contains__(self, x):
        x = lift(x)
        if self.step > 0:
            c = N.land([x >= self.start, x < self.stop, (x - self.start) % self.step == 0])
        else:
            c = N.land([x <= self.start, x > self.stop, (self.start - x) % (-self.step) == 0])
        return bool(c)


def sx_range(*a):
    if any(isinstance(x, Num) for x in a):
        a = [N.cint(x) if isinstance(x, Num) and x.is_rat() else x for x in a]
        if any(isinstance(x, Num) for x in a):
            if len(a) == 1:
                return SymRange(0, a[0], 1)
            if len(a) == 2:
                return SymRange(a[0], a[1], 1)
            return SymRange(a[0], a[1], N.cint(a[2]))
    return range(*a)


def sx_isinstance(x, t):
    if isinstance(x, Num):
        ts = t if isinstance(t, tuple) else (t,)
        for u in ts:
            if u is Num:
                return True
            if u is int or u is np.integer or u is np.int64:
                if x.k == 0:
                    return True
            elif u is float or u is np.floating or u is np.float64:
                if x.k == 1:
                    return True
            elif u is complex or u is np.complexfloating or u is np.complex128:
                if x.k == 2:
                    return True
            elif getattr(u, "__module__", "") == "numbers":
                if (u.__name__, x.k) in {("Integral", 0), ("Rational", 0), ("Real", 0), ("Real", 1)} or u.__name__ in ("Number", "Complex"):
                    return True
            elif u is object:
                return True
            elif isinstance(u, tuple):
                if sx_isinstance(x, u):
                    return True
        return False
    if hasattr(x, "_sx_str") and (t is str or isinstance(t, tuple) and str in t):
        return True
    return isinstance(x, t)


def sx_pow_builtin(a, b, m=None):
    if m is None:
        return sx_pow(a, b)
    return pow(a, b, m)


def sx_round(x, n=None):
    if isinstance(x, Num):
        r = x.__round__(n)
        return N.cint(r) if r.is_rat() and n is None else r
    return round(x) if n is None else round(x, n)
