"""Object arrays of exact numbers behaving like numpy arrays of a given dtype kind (0 int, 1 float, 2 complex, -1 bool)."""
import itertools
import operator
from fractions import Fraction
import numpy as np
from . import num as N
from .num import Num, SymBool, lift, lift_or_raise, Unsupported, ZERO_F, land, lor, lnot

DT = {-1: np.dtype(bool), 0: np.dtype(np.int64), 1: np.dtype(np.float64), 2: np.dtype(np.complex128)}


def kind_of_dtype(dt):
    if dt is None:
        return None
    if dt is int:
        return 0
    if dt is float:
        return 1
    if dt is complex:
        return 2
    if dt is bool:
        return -1
    try:
        k = np.dtype(dt).kind
    except TypeError:
        raise Unsupported(f"dtype {dt}")
    r = {"i": 0, "u": 0, "f": 1, "c": 2, "b": -1, "O": 1}.get(k)
    if r is None:
        raise Unsupported(f"dtype {dt}")
    return r


class SArr(np.ndarray):
    @property
    def dtype(self):
        return DT[self.k]

    def __array_finalize__(self, obj):
        self.k = getattr(obj, "k", 1) if obj is not None else 1

    def __reduce__(self):
        raise Unsupported("pickle")

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        return arr

    # ---- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return do_ufunc(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types, args, kwargs):
        return do_function(func, args, kwargs)

    # ---- item access
    def __getitem__(self, idx):
        idx = fix_index(idx)
        r = plain(self)[idx]
        if isinstance(r, np.ndarray):
            return mk(r, self.k)
        return r if (isinstance(r, (SymBool, bool)) or r.k == self.k) else r.withk(self.k)

    def __setitem__(self, idx, val):
        idx = fix_index(idx)
        p = plain(self)
        if isinstance(val, SArr):
            v = plain(val)
            if val.k > self.k:
                v = cast_down(v, val.k, self.k)
        elif isinstance(val, np.ndarray):
            v = to_obj(val)
            kk = kind_of_arr(val)
            if kk > self.k:
                v = cast_down(v, kk, self.k)
        elif isinstance(val, (list, tuple)):
            a = array(val)
            return self.__setitem__(idx, a)
        else:
            v = lift_or_raise(val) if not isinstance(val, SymBool) else val
            if isinstance(v, Num):
                if self.k < 2 and not v.is_real():
                    if isinstance(val, complex):
                        raise TypeError("can't convert complex to float")
                    v = v.real
                if self.k == 0 and v.k > 0:
                    v = N.trunc(v)
            r = p[idx]
            if not isinstance(r, np.ndarray):
                p[idx] = v
            else:
                w = np.empty((), dtype=object)
                w[()] = v
                p[idx] = w
            return
        p[idx] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool(lor(list(plain(do_ufunc(np.equal, "__call__", (self, x), None, {})).flat)))

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(plain(self).flat[0])

    def __index__(self):
        return operator.index(self.item())

    def __int__(self):
        return int(self.item())

    def __float__(self):
        return float(self.item())

    def __complex__(self):
        return complex(self.item())

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    # ---- methods
    def item(self, *a):
        r = plain(self).item(*a)
        return r.withk(self.k) if isinstance(r, Num) else r

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return [x.tolist() if isinstance(x, np.ndarray) else x for x in self]

    def astype(self, dt, **kw):
        k = kind_of_dtype(dt)
        return astype(self, k)

    def copy(self, order="C"):
        return mk(plain(self).copy(), self.k)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    @property
    def real(self):
        return unary(lambda x: x.real, self, min(self.k, 1))

    @real.setter
    def real(self, v):
        if self.k < 2:
            self[...] = v
        else:
            self[...] = v + 1j * self.imag

    @property
    def imag(self):
        return unary(lambda x: x.imag, self, min(self.k, 1))

    @imag.setter
    def imag(self, v):
        if self.k < 2:
            raise TypeError("array does not have imaginary part to set")
        self[...] = self.real + 1j * v

    def conj(self, *a, **k):
        return np.conjugate(self)

    conjugate = conj

    def dot(self, o):
        return dot(self, o)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return np.sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, **kw):
        return reduce_mul(self, axis, kw.get("keepdims", False))

    def mean(self, axis=None, keepdims=False, **kw):
        return mean(self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return np_all(self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return np_any(self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, initial=None):
        return minmax(self, axis, True, keepdims, initial)

    def min(self, axis=None, out=None, keepdims=False, initial=None):
        return minmax(self, axis, False, keepdims, initial)

    def argmax(self, axis=None, **kw):
        return np.argmax(self, axis)

    def argmin(self, axis=None, **kw):
        return np.argmin(self, axis)

    def argsort(self, axis=-1, **kw):
        return np.argsort(self, axis)

    def round(self, decimals=0, out=None):
        return np.round(self, decimals)

    def nonzero(self):
        return np.nonzero(self)

    def trace(self, *a, **k):
        return np.trace(self, *a, **k)

    def cumsum(self, axis=None, **kw):
        return mk(plain(self).cumsum(axis), self.k)

    def sort(self, axis=-1, **kw):
        self[...] = np.sort(self, axis)

    def fill(self, v):
        self[...] = v

    def view(self, *a, **k):
        if a and a[0] is np.ndarray:
            return np.ndarray.view(self, np.ndarray)
        raise Unsupported("view")

    def tobytes(self, *a):
        return repr(self).encode()

    def __repr__(self):
        return f"SArr{self.shape}[{'bifc'[self.k+1]}]" + (str(plain(self).tolist()) if self.size <= 16 else "")

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def plain(a):
    return np.ndarray.view(a, np.ndarray) if isinstance(a, SArr) else a


def mk(obj, k):
    """object ndarray of Num -> SArr of kind k (no copy)"""
    a = np.ndarray.view(obj, SArr)
    a.k = k
    return a


def wrap0(x):
    a = np.empty((), dtype=object)
    if isinstance(x, SymBool):
        a[()] = x
        return mk(a, -1)
    x = lift_or_raise(x)
    a[()] = x
    return mk(a, x.k)


def unwrap0(a):
    if isinstance(a, SArr) and a.ndim == 0:
        r = plain(a)[()]
        return r.withk(a.k) if isinstance(r, Num) else r
    return a


def kind_of_arr(a):
    if isinstance(a, SArr):
        return a.k
    c = a.dtype.kind
    r = {"b": -1, "i": 0, "u": 0, "f": 1, "c": 2}.get(c)
    if r is None:
        if c == "O":
            ks = [getattr(x, "k", None) if isinstance(x, Num) else (-1 if isinstance(x, (bool, SymBool)) else lift_or_raise(x).k) for x in a.flat]
            return max(ks, default=1)
        raise Unsupported(f"array of dtype {a.dtype}")
    return r


def to_obj(a):
    """native ndarray -> object ndarray of Num"""
    if isinstance(a, SArr):
        return plain(a)
    out = np.empty(a.shape, dtype=object)
    flat = [lift_or_raise(x) if not isinstance(x, SymBool) else x for x in a.reshape(-1).tolist()]
    if flat:
        out.reshape(-1)[:] = flat
    return out


def sarr(x):
    """anything array-like -> SArr"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        return mk(to_obj(x), kind_of_arr(x))
    if isinstance(x, (list, tuple)):
        return sarr(array(x))
    return wrap0(x)


def cast_down(v, k_from, k_to):
    if k_to == 1 or (k_to < 1 and k_from == 2):
        v = umap(lambda x: x.real, v)
    if k_to == 0:
        v = umap(lambda x: x if x.k == 0 else N.trunc(x), v)
    if k_to == -1:
        v = umap(lambda x: bool(x), v)
    return v


_UF = {}


def umap(f, a):
    r = np.frompyfunc(f, 1, 1)(plain(a))
    if not isinstance(r, np.ndarray):
        b = np.empty((), dtype=object)
        b[()] = r
        return b
    return r


def unary(f, a, k):
    return mk(umap(f, a), k)


def astype(a, k):
    if k is None or k == a.k:
        return a.copy()
    if k == -1:
        return boolarr(umap(lambda x: x if isinstance(x, (bool, SymBool)) else lnot(N.compare(x, N.ZERO, "==")), a))
    if a.k == -1:
        return mk(umap(lambda x: lift(x).withk(k), a), k)
    if k < a.k:
        v = cast_down(plain(a), a.k, k)
        v = umap(lambda x: x.withk(k), v)
        if k == 0:
            return demote(mk(v, 0))
        return mk(v, k)
    return mk(umap(lambda x: x.withk(k), a), k)


def demote(a):
    """int arrays of constants become native int64 arrays"""
    if a.k == 0 and all(x.is_rat() for x in plain(a).flat):
        try:
            out = np.empty(a.shape, dtype=np.int64)
            if a.size:
                out.reshape(-1)[:] = [x.frac().numerator for x in plain(a).reshape(-1)]
            return out if a.ndim else out[()]
        except OverflowError:
            return a
    return a


def boolarr(obj):
    """object array of bool/SymBool -> native bool array if possible"""
    for x in obj.flat:
        if isinstance(x, SymBool):
            return mk(obj, -1)
    return obj.astype(bool)


def concretise_bool(a):
    """boolean mask -> native bool array (forks on symbolic elements)"""
    if isinstance(a, SArr) and a.k == -1:
        p = plain(a)
        out = np.empty(p.shape, dtype=bool)
        for i in np.ndindex(p.shape):
            out[i] = bool(p[i])
        return out
    return a


def fix_index(idx):
    def one(i):
        if isinstance(i, SArr):
            if i.k == -1:
                return concretise_bool(i)
            out = np.empty(i.shape, dtype=np.int64)
            for j in np.ndindex(i.shape):
                out[j] = N.cint(plain(i)[j])
            return out
        if isinstance(i, Num):
            return N.cint(i)
        if isinstance(i, SymBool):
            return bool(i)
        if isinstance(i, slice):
            return slice(*[N.cint(x) if isinstance(x, Num) else x for x in (i.start, i.stop, i.step)])
        if isinstance(i, list):
            return [one(x) for x in i]
        return i
    if isinstance(idx, tuple):
        return tuple(one(i) for i in idx)
    return one(idx)


# ------------------------------------------------------------------ creation
def array(x, dtype=None, copy=True, ndmin=0, **kw):
    k = kind_of_dtype(dtype)
    if isinstance(x, SArr):
        r = x.copy() if copy else x
        r = r if k is None or k == x.k else astype(x, k)
        return r
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            r = mk(to_obj(x), kind_of_arr(x))
            return r if k is None else astype(r, k)
        if k is None:
            k = kind_of_arr(x)
        if k >= 1 and kind_of_arr(x) < 1 or kind_of_arr(x) >= 1:
            r = mk(to_obj(x), kind_of_arr(x))
            return astype(r, k)
        return np.array(x, dtype=dtype, copy=copy or None)
    # nested sequences / scalars
    flags = {"num": False, "k": -2}

    def walk(y):
        if isinstance(y, SArr):
            flags["num"] = True
            flags["k"] = max(flags["k"], y.k)
            return y.shape
        if isinstance(y, np.ndarray):
            kk = kind_of_arr(y)
            flags["k"] = max(flags["k"], kk)
            return y.shape
        if isinstance(y, (list, tuple, range)):
            sh = None
            for z in y:
                s = walk(z)
                if sh is None:
                    sh = s
                elif sh != s:
                    raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            return (len(y),) + (sh or ())
        if isinstance(y, SymBool):
            flags["num"] = True
            flags["k"] = max(flags["k"], -1)
            return ()
        if isinstance(y, (bool, np.bool_)):
            flags["k"] = max(flags["k"], -1)
            return ()
        n = lift(y)
        if n is None:
            flags["k"] = 99
            return ()
        if isinstance(y, Num):
            flags["num"] = True
        flags["k"] = max(flags["k"], n.k)
        return ()

    if not isinstance(x, (list, tuple, range, int, float, complex, bool, Num, SymBool, Fraction, np.generic)):
        if hasattr(x, "__iter__"):
            x = list(x)
        else:
            return np.array(x, dtype=dtype)
    if isinstance(x, (map, filter)):
        x = list(x)
    shape = walk(x)
    if flags["k"] == 99:
        return np.array(x, dtype=dtype)
    kk = flags["k"] if k is None else k
    if kk == -2:
        kk = 1
    if flags["num"] is False and kk in (-1, 0) and (k is None or k <= 0):
        return np.array(x, dtype=DT[kk] if k is None else dtype)
    out = np.empty(shape, dtype=object)

    def fill(y, o):
        if isinstance(y, np.ndarray):
            o[...] = to_obj(y)
        elif isinstance(y, (list, tuple, range)):
            for i, z in enumerate(y):
                if o.ndim == 1 and not isinstance(z, np.ndarray):
                    o[i] = z if isinstance(z, SymBool) else lift(z)
                else:
                    fill(z, o[i])
        else:
            o[()] = y if isinstance(y, SymBool) else lift(y)
    if shape == ():
        v = x if isinstance(x, SymBool) else lift(x[()] if isinstance(x, np.ndarray) else x)
        out[()] = v
    else:
        fill(x, out)
    src = flags["k"]
    r = mk(out, max(src, -1) if src != -2 else 1)
    if r.k != kk:
        r = astype(r, kk)
    if isinstance(r, SArr) and r.k == 0:
        return demote(r) if flags["num"] else r
    return r


def full(shape, value, dtype=None, **kw):
    k = kind_of_dtype(dtype)
    v = value if isinstance(value, SymBool) else lift_or_raise(value)
    if k is None:
        k = v.k if isinstance(v, Num) and not isinstance(value, (bool, np.bool_)) else -1
    if isinstance(shape, Num):
        shape = N.cint(shape)
    elif isinstance(shape, (tuple, list)):
        shape = tuple(N.cint(s) if isinstance(s, Num) else s for s in shape)
    if k <= 0 and isinstance(v, Num) and v.is_rat():
        return np.full(shape, N.cint(v), dtype=DT[k] if dtype is None or kind_of_dtype(dtype) == k and dtype in (int, bool, None) else dtype)
    out = np.empty(shape, dtype=object)
    out.fill(v.withk(k))
    return mk(out, k)


# ------------------------------------------------------------------ ufuncs
INEXACT = {"sqrt", "true_divide", "divide", "exp", "log", "sin", "cos", "tan", "arctan", "arctan2", "arccos", "arcsin", "reciprocal",
           "hypot", "exp2", "log2", "sinh", "cosh", "tanh", "cbrt"}
CMP = {"equal": "==", "less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">="}


def _const_fn(name):
    f = getattr(np, name)

    def g(x, *ys):
        vals = [x, *ys]
        if all(v.is_const() for v in vals):
            r = f(*[N.ceval(v) if not v.is_real() else N.feval(v) for v in vals])
            return from_float(r)
        raise Unsupported(f"{name} of a symbolic value")
    return g


def from_float(r):
    """nearest exact number to a native float/complex (recorded as inexact when no surd is near)"""
    if isinstance(r, (complex, np.complexfloating)):
        return (from_float(float(r.real)) + N.J * from_float(float(r.imag))).withk(2)
    r = float(r)
    x = N.recognise_num(r)
    if x is None:
        N.T.inexact = True
        x = N.from_fraction(Fraction(r).limit_denominator(10 ** 15), 1)
    return x


def nsign(x):
    if not x.is_real():
        raise Unsupported("sign of complex")
    if x.is_const():
        return N.from_fraction(Fraction(N.sign_const(x)), x.k)
    if x > 0:
        return N.from_fraction(Fraction(1), x.k)
    if x < 0:
        return N.from_fraction(Fraction(-1), x.k)
    return N.from_fraction(Fraction(0), x.k)


def _gcd(a, b):
    if a.is_rat() and b.is_rat():
        from math import gcd
        return lift(gcd(N.cint(a), N.cint(b)))
    return N.HOOK.gcd(a, b)


def nmax(a, b):
    return a if a >= b else b


def nmin(a, b):
    return a if a <= b else b


def _asbool(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, SymBool):
        return x
    return lnot(N.compare(lift(x), N.ZERO, "=="))


UN = {
    "negative": (lambda x: -x, None), "positive": (lambda x: x, None),
    "conjugate": (lambda x: x.conjugate(), None),
    "absolute": (abs, "abs"), "fabs": (abs, "abs"),
    "sqrt": (N.nsqrt, None), "square": (lambda x: x * x, None),
    "sign": (nsign, None), "floor": (lambda x: N.nfloor(x).withk(max(x.k, 0)), None),
    "ceil": (lambda x: (-N.nfloor(-x)), None), "rint": (lambda x: N.nround(x), None),
    "trunc": (lambda x: N.trunc(x), None),
    "reciprocal": (lambda x: N.divide(lift(1.0), x), None),
    "isfinite": (lambda x: True, "bool"), "isnan": (lambda x: False, "bool"), "isinf": (lambda x: False, "bool"),
    "logical_not": (lambda x: lnot(_asbool(x)), "bool"),
    "exp": (_const_fn("exp"), None), "log": (_const_fn("log"), None), "sin": (_const_fn("sin"), None),
    "cos": (_const_fn("cos"), None), "tan": (_const_fn("tan"), None), "angle": (_const_fn("angle"), None),
    "arccos": (_const_fn("arccos"), None), "arcsin": (_const_fn("arcsin"), None), "arctan": (_const_fn("arctan"), None),
    "cbrt": (_const_fn("cbrt"), None),
}


def _bitand(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) or isinstance(b, (SymBool, bool, np.bool_)):
        return land([_asbool(a), _asbool(b)])
    return a & b


def _bitor(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) or isinstance(b, (SymBool, bool, np.bool_)):
        return lor([_asbool(a), _asbool(b)])
    return lift(N.cint(a) | N.cint(b))


def _npow(a, b):
    if b.is_rat():
        f = b.frac()
        if b.k == 0:
            return lift(N.power(a, f.numerator))
        return N.power(a, float(f) if f.denominator & (f.denominator - 1) == 0 else f)
    return lift(N.power(a, b))


BIN = {
    "add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "true_divide": N.divide, "divide": N.divide,
    "floor_divide": N.floordiv, "remainder": lambda a, b: a - b * N.floordiv(a, b), "mod": lambda a, b: a - b * N.floordiv(a, b),
    "power": _npow, "float_power": _npow, "maximum": nmax, "minimum": nmin, "fmax": nmax, "fmin": nmin, "gcd": _gcd,
    "fmod": lambda a, b: a - b * N.trunc(N.divide(a, b)), "heaviside": lambda a, b: lift(1) if a > 0 else (b if a == 0 else lift(0)), "copysign": lambda a, b: abs(a) if b >= 0 else -abs(a),
    "arctan2": _const_fn("arctan2"), "hypot": lambda a, b: N.nsqrt(a * a + b * b),
}


def do_ufunc(ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    if method == "at":
        a, idx, *v = inputs
        a_p = a
        v = sarr(v[0])
        it = np.asarray(fix_index(idx))
        for n, i in enumerate(it):
            a_p[i] = do_ufunc(ufunc, "__call__", (a_p[i], v[n] if v.ndim else v), None, {})
        return None
    if method == "outer":
        a, b = sarr(inputs[0]), sarr(inputs[1])
        r = do_ufunc(ufunc, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), None, kw)
        return r
    if method == "reduce":
        a = inputs[0]
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        if name == "add":
            r = np_sum(sarr(a), axis, keep)
            if kw.get("initial", None) not in (None, np._NoValue):
                r = r + kw["initial"]
            return r
        if name == "multiply":
            return reduce_mul(sarr(a), axis, keep)
        if name in ("logical_and", "bitwise_and"):
            return np_all(a, axis, keep)
        if name in ("logical_or", "bitwise_or"):
            return np_any(a, axis, keep)
        if name in ("maximum", "fmax"):
            return minmax(sarr(a), axis, True, keep, kw.get("initial"))
        if name in ("minimum", "fmin"):
            return minmax(sarr(a), axis, False, keep, kw.get("initial"))
        raise Unsupported(f"{name}.reduce")
    if method == "accumulate":
        a = sarr(inputs[0])
        if name == "add":
            return mk(plain(a).cumsum(kw.get("axis", 0)), a.k)
        if name == "multiply":
            p = plain(a).copy()
            q = np.moveaxis(p, kw.get("axis", 0), 0)
            for i in range(1, q.shape[0]):
                q[i] = q[i - 1] * q[i]
            return mk(p, a.k)
        raise Unsupported("accumulate")
    if method != "__call__":
        raise Unsupported(f"ufunc method {method}")
    if name in ("matmul", "vecdot", "matvec", "vecmat"):
        r = matmul(inputs[0], inputs[1])
        return finish(r, out)
    if name == "clip":
        return finish(do_ufunc(np.minimum, "__call__", (do_ufunc(np.maximum, "__call__", inputs[:2], None, {}), inputs[2]), None, {}), out)
    if name == "divmod":
        return (do_ufunc(np.floor_divide, method, inputs, None, {}), do_ufunc(np.remainder, method, inputs, None, {}))
    arrs = [sarr(x) for x in inputs]
    where = kw.get("where", True)
    if len(arrs) == 1:
        a = arrs[0]
        if name in ("invert", "bitwise_not"):
            if a.k == -1:
                return boolarr(umap(lambda x: lnot(x), a))
            raise Unsupported("invert")
        if name not in UN:
            raise Unsupported(f"ufunc {name}")
        f, mode = UN[name]
        if name in ("isfinite", "isnan", "isinf"):
            return np.full(a.shape, name == "isfinite") if a.ndim else (name == "isfinite")
        if a.k == -1 and mode != "bool":
            a = astype(a, 0)
        r = umap(f, a)
        if mode == "bool":
            return scal(boolarr(r))
        k = min(a.k, 1) if mode == "abs" else a.k
        if name in INEXACT:
            k = max(k, 1)
        return finish(post(mk(r, k)), out)
    a, b = arrs
    if name in CMP or name == "not_equal":
        if name == "not_equal":
            r = _bcast2(lambda x, y: lnot(_cmp1(x, y, "==")), a, b)
        else:
            op = CMP[name]
            r = _bcast2(lambda x, y: _cmp1(x, y, op), a, b)
        return scal(boolarr(r))
    if name == "bitwise_xor" and all(x.k == -1 for x in arrs):
        name = "logical_xor"
    if name in ("logical_and", "logical_or", "logical_xor"):
        f = {"logical_and": lambda x, y: land([_asbool(x), _asbool(y)]), "logical_or": lambda x, y: lor([_asbool(x), _asbool(y)]),
             "logical_xor": lambda x, y: lnot(_asbool(x) == _asbool(y))}[name]
        return scal(boolarr(_bcast2(f, a, b)))
    if name in ("bitwise_and", "bitwise_or"):
        f = _bitand if name == "bitwise_and" else _bitor
        r = _bcast2(f, a, b)
        if a.k == -1 and b.k == -1:
            return finish(scal(boolarr(r)), out)
        return finish(post(mk(umap(lift, r), 0)), out)
    if name not in BIN:
        raise Unsupported(f"ufunc {name}")
    if a.k == -1:
        a = astype(a, 0)
        a = sarr(a)
    if b.k == -1:
        b = astype(b, 0)
        b = sarr(b)
    f = BIN[name]
    if name in ("true_divide", "divide") and where is True:
        f = _arrdiv
    if name == "floor_divide" and max(a.k, b.k) == 0:
        f = _arrfloordiv
    if name == "multiply":
        r = np.multiply(plain(a), plain(b))
        if not isinstance(r, np.ndarray):
            r = _box(r)
    elif name in ("add", "subtract"):
        r = (np.add if name == "add" else np.subtract)(plain(a), plain(b))
        if not isinstance(r, np.ndarray):
            r = _box(r)
    else:
        r = _bcast2(f, a, b)
    k = max(a.k, b.k)
    if name in INEXACT:
        k = max(k, 1)
    r = mk(r, k)
    if where is not True:
        raise Unsupported("ufunc where=")
    return finish(post(r), out)


class Poison:
    pass


def _arrdiv(x, y):
    if y.is_const_num() and not y.t:
        raise ZeroDivisionError("array division by zero")
    return N.divide(x, y)


def _arrfloordiv(x, y):
    if y.is_rat() and not y.t:
        return N.ZERO     # numpy int division by zero yields 0 (with a warning)
    if not y.is_const_num() and bool(N.compare(y, N.ZERO, "==")):
        return N.ZERO
    return N.floordiv(x, y)


def _box(x):
    b = np.empty((), dtype=object)
    b[()] = x
    return b


def _cmp1(x, y, op):
    if isinstance(x, (bool, SymBool)) or isinstance(y, (bool, SymBool)):
        if op == "==":
            if isinstance(x, SymBool):
                return x == y
            if isinstance(y, SymBool):
                return y == x
            return x == y
        x, y = lift(x), lift(y)
    return N.compare(x, y, op)


def _bcast2(f, a, b):
    r = np.frompyfunc(f, 2, 1)(plain(a), plain(b))
    return r if isinstance(r, np.ndarray) else _box(r)


def scal(r):
    if isinstance(r, np.ndarray) and r.ndim == 0:
        v = plain(r)[()]
        if isinstance(r, SArr):
            return v
        return v
    return r


def post(r):
    if r.ndim == 0:
        return unwrap0(r)
    return r


def finish(r, out):
    if out is None:
        return r
    o = out[0] if isinstance(out, tuple) else out
    kr = kind_of_arr(r) if isinstance(r, np.ndarray) else (lift(r).k if not isinstance(r, (bool, SymBool, np.bool_)) else -1)
    if isinstance(o, SArr):
        if kr > o.k:
            raise TypeError(f"Cannot cast ufunc output from dtype('{DT[kr]}') to dtype('{DT[o.k]}') with casting rule 'same_kind'")
        o[...] = r
        return o
    if isinstance(o, np.ndarray):
        if kr > kind_of_arr(o):
            raise TypeError("Cannot cast ufunc output")
        v = demote(r) if isinstance(r, SArr) else r
        if isinstance(v, SArr):
            raise Unsupported("in-place symbolic result in a native array")
        o[...] = v
        return o
    raise Unsupported("out=")


# ------------------------------------------------------------------ reductions
def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (axis,)
    return tuple(a % nd if -nd <= a < nd else _axerr(a, nd) for a in axis)


def _axerr(a, nd):
    raise np.exceptions.AxisError(a, nd)


def _reduce(a, axis, keep, f, init, k):
    p = plain(a)
    ax = _axes(axis, p.ndim)
    rest = [i for i in range(p.ndim) if i not in ax]
    q = p.transpose(rest + list(ax)).reshape([p.shape[i] for i in rest] + [-1]) if p.size else None
    shape = tuple(p.shape[i] for i in rest)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        out[i] = f(q[i]) if q is not None else f([])
    if keep:
        out = out.reshape([1 if i in ax else p.shape[i] for i in range(p.ndim)])
    return out


def np_sum(a, axis=None, keepdims=False):
    a = sarr(a)
    if a.k == -1:
        a = sarr(astype(a, 0))

    def f(xs):
        s = lift(0).withk(a.k)
        for x in xs:
            if x.t:
                s = s + x
        return s
    return post(mk(_reduce(a, axis, keepdims, f, None, a.k), a.k))


def reduce_mul(a, axis, keepdims=False):
    def f(xs):
        s = lift(1).withk(a.k)
        for x in xs:
            s = s * x
        return s
    return post(mk(_reduce(a, axis, keepdims, f, None, a.k), a.k))


def mean(a, axis=None, keepdims=False):
    a = sarr(a)
    ax = _axes(axis, a.ndim)
    n = 1
    for i in ax:
        n *= a.shape[i]
    return np_sum(a, axis, keepdims) / n


def _boolreduce(a, axis, keep, comb):
    if isinstance(a, (bool, np.bool_, SymBool)):
        return a
    a = sarr(a)
    r = _reduce(a, axis, keep, lambda xs: comb([_asbool(x) for x in xs]), None, -1)
    return scal(boolarr(r))


def np_all(a, axis=None, keepdims=False):
    return _boolreduce(a, axis, keepdims, land)


def np_any(a, axis=None, keepdims=False):
    return _boolreduce(a, axis, keepdims, lor)


def minmax(a, axis, mx, keepdims=False, initial=None):
    initial = [] if initial is None or initial is np._NoValue else [lift(initial)]

    def f(xs):
        xs = list(xs) + initial
        if len(xs) == 0:
            raise ValueError("zero-size array to reduction operation")
        if not isinstance(xs[0], Num) or any(isinstance(x, SymBool) for x in xs):
            m = xs[0]
            for x in xs[1:]:
                m = nmax(m, x) if mx else nmin(m, x)
            return m
        return N.extreme(xs, mx)
    a = sarr(a)
    r = post(mk(_reduce(a, axis, keepdims, f, None, a.k), a.k))
    return r


# ------------------------------------------------------------------ contraction
def _nz(p):
    """dict index->Num of nonzero entries of an object array"""
    out = {}
    it = np.ndindex(p.shape)
    flat = p.reshape(-1)
    for i, x in zip(it, flat):
        if x.t:
            out[i] = x
    return out


def parse_einsum(args):
    if not isinstance(args[0], str):
        # alternating operands / index lists
        ops, subs = [], []
        args = list(args)
        outl = args.pop() if len(args) % 2 else None
        for i in range(0, len(args), 2):
            ops.append(args[i])
            subs.append("".join("..." if x is Ellipsis else chr(97 + x) for x in args[i + 1]))
        s = ",".join(subs)
        if outl is not None:
            s += "->" + "".join("..." if x is Ellipsis else chr(97 + x) for x in outl)
        return s, ops
    return args[0].replace(" ", ""), list(args[1:])


def einsum(*args, **kw):
    s, ops = parse_einsum(args)
    ops = [sarr(o) for o in ops]
    if "->" in s:
        ins, outs = s.split("->")
    else:
        ins, outs = s, None
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise ValueError("more operands provided to einstein sum function than specified in the subscripts string"
                         if len(ops) > len(ins) else "fewer operands provided to einstein sum function than specified in the subscripts string")
    # ellipsis -> upper-case private labels
    pool = [chr(0x100 + i) for i in range(32)]
    nell = 0
    for st, op in zip(ins, ops):
        if "..." in st:
            nell = max(nell, op.ndim - len(st.replace("...", "")))
    labs = []
    dims = {}
    for st, op in zip(ins, ops):
        if "..." in st:
            n = op.ndim - len(st.replace("...", ""))
            if n < 0:
                raise ValueError("einstein sum subscripts string contains too many subscripts for operand")
            st = st.replace("...", "".join(pool[nell - n: nell]))
        if len(st) != op.ndim:
            raise ValueError("einstein sum subscripts string does not match the number of dimensions of an operand")
        labs.append(st)
        for c, d in zip(st, op.shape):
            if dims.get(c, 1) == 1:
                dims[c] = d
            elif d != 1 and d != dims[c]:
                raise ValueError("operands could not be broadcast together with remapped shapes in einsum")
    if outs is None:
        cnt = {}
        for st in labs:
            for c in st:
                cnt[c] = cnt.get(c, 0) + 1
        outs = "".join(pool[:nell]) + "".join(sorted(c for c in cnt if cnt[c] == 1 and c not in pool))
    else:
        outs = outs.replace("...", "".join(pool[:nell]))
    for c in outs:
        if c not in dims:
            raise ValueError(f"einstein sum subscripts string included output subscript '{c}' which never appeared in an input")
    if len(set(outs)) != len(outs):
        raise ValueError("einstein sum subscripts string includes output subscript multiple times")
    k = max(o.k for o in ops)
    # sparse operands
    sp = []
    for st, op in zip(labs, ops):
        d = {}
        uniq = list(dict.fromkeys(st))
        pos = [st.index(c) for c in uniq]
        rep = len(uniq) != len(st)
        bro = [i for i, c in enumerate(st) if op.shape[i] == 1 and dims[c] != 1]
        for idx, v in _nz(plain(op)).items():
            if rep:
                seen = {}
                ok = True
                for c, i in zip(st, idx):
                    if seen.setdefault(c, i) != i:
                        ok = False
                        break
                if not ok:
                    continue
            if bro:
                for alt in itertools.product(*[range(dims[st[i]]) for i in bro]):
                    ii = list(idx)
                    for b, a_ in zip(bro, alt):
                        ii[b] = a_
                    d[tuple(ii[p] for p in pos)] = v
            else:
                d[tuple(idx[p] for p in pos)] = v
        sp.append(("".join(uniq), d))

    def need(i):
        s_ = set(outs)
        for st, _ in sp[i:]:
            s_ |= set(st)
        return s_

    st, d = sp[0]
    st, d = _sumout(st, d, need(1))
    for i in range(1, len(sp)):
        st2, d2 = sp[i]
        st, d = _contract(st, d, st2, d2, need(i + 1))
    # output order
    pos = [st.index(c) for c in outs] if all(c in st for c in outs) else None
    shape = tuple(dims[c] for c in outs)
    out = np.empty(shape, dtype=object)
    out.fill(lift(0).withk(k))
    if pos is None:
        raise Unsupported("einsum output label")
    for idx, v in d.items():
        out[tuple(idx[p] for p in pos)] = v
    return post(mk(out, k))


def _sumout(st, d, need):
    keep = [i for i, c in enumerate(st) if c in need]
    if len(keep) == len(st):
        return st, d
    out = {}
    for idx, v in d.items():
        key = tuple(idx[i] for i in keep)
        o = out.get(key)
        out[key] = v if o is None else o + v
    return "".join(st[i] for i in keep), {a: v for a, v in out.items() if v.t}


def _contract(s1, d1, s2, d2, need):
    com = [c for c in s1 if c in s2]
    p1 = [s1.index(c) for c in com]
    p2 = [s2.index(c) for c in com]
    k1 = [i for i, c in enumerate(s1) if c in need]
    k2 = [i for i, c in enumerate(s2) if c in need and c not in s1]
    buckets = {}
    for idx, v in d2.items():
        buckets.setdefault(tuple(idx[i] for i in p2), []).append((tuple(idx[i] for i in k2), v))
    out = {}
    for idx, v in d1.items():
        bs = buckets.get(tuple(idx[i] for i in p1))
        if bs is None:
            continue
        a = tuple(idx[i] for i in k1)
        for b, w in bs:
            key = a + b
            pr = v * w
            o = out.get(key)
            out[key] = pr if o is None else o + pr
    return "".join(s1[i] for i in k1) + "".join(s2[i] for i in k2), {a: v for a, v in out.items() if v.t}


def matmul(a, b):
    a, b = sarr(a), sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    la, lb = a.ndim, b.ndim
    if (a.shape[-1]) != (b.shape[-2] if lb > 1 else b.shape[0]):
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    if la == 1 and lb == 1:
        return einsum("i,i", a, b)
    if la == 1:
        return einsum("i,...ij->...j", a, b)
    if lb == 1:
        return einsum("...ij,j->...i", a, b)
    return einsum("...ij,...jk->...ik", a, b)


def dot(a, b, out=None):
    a, b = sarr(a), sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    la = "".join(chr(0x4E00 + i) for i in range(a.ndim))
    lb = "".join(chr(0x5E00 + i) for i in range(b.ndim))
    c = -2 if b.ndim > 1 else -1
    lb = list(lb)
    lb[c] = la[-1]
    if a.shape[-1] != b.shape[c]:
        raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
    outl = la[:-1] + "".join(x for i, x in enumerate(lb) if i != (len(lb) + c))
    return einsum(la + "," + "".join(lb) + "->" + outl, a, b)


from . import npfuncs  # noqa: E402


def do_function(func, args, kwargs):
    return npfuncs.dispatch(func, args, kwargs)
