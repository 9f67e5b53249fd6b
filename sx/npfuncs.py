"""__array_function__ handlers for SArr and linear algebra over exact numbers."""
import itertools
from fractions import Fraction
import numpy as np
from . import num as N
from .num import Num, SymBool, lift, lift_or_raise, Unsupported, land, lor, lnot

H = {}


def impl(*fs):
    def deco(g):
        for f in fs:
            if f is not None:
                H[f] = g
        return g
    return deco


def A():
    from . import arr
    return arr


def maxkind(args):
    from .arr import SArr, kind_of_arr
    k = -2

    def walk(x):
        nonlocal k
        if isinstance(x, np.ndarray):
            k = max(k, kind_of_arr(x))
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
        elif isinstance(x, Num):
            k = max(k, x.k)
    for a in args:
        walk(a)
    return k if k > -2 else 1


def to_plain(x):
    from .arr import SArr, plain, to_obj
    if isinstance(x, SArr):
        return plain(x)
    if isinstance(x, np.ndarray) and x.dtype.kind in "fiubc":
        return x
    if isinstance(x, Num):
        b = np.empty((), dtype=object)
        b[()] = x
        return b
    if isinstance(x, tuple):
        return tuple(to_plain(y) for y in x)
    if isinstance(x, list):
        return [to_plain(y) for y in x]
    return x


def rewrap(r, k):
    from .arr import mk, to_obj, unwrap0, SArr
    if isinstance(r, SArr):
        return r
    if isinstance(r, np.ndarray) and r.dtype == object:
        bad = [x for x in r.flat if not isinstance(x, (Num, SymBool, bool))]
        if bad:
            r = to_obj(r)
        return unwrap0(mk(r, k))
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(rewrap(x, k) for x in r)
    if isinstance(r, list):
        return [rewrap(x, k) for x in r]
    return r


# functions that only move entries around
STRUCT = {f for f in (getattr(np, n, None) for n in (
    "stack", "concatenate", "reshape", "transpose", "moveaxis", "swapaxes", "take", "take_along_axis", "expand_dims", "squeeze", "ravel",
    "broadcast_to", "broadcast_arrays", "tile", "repeat", "diag", "diagonal", "roll", "flip", "fliplr", "flipud", "rot90", "split",
    "array_split", "hsplit", "vsplit", "dsplit", "hstack", "vstack", "dstack", "column_stack", "row_stack", "block", "atleast_1d",
    "atleast_2d", "atleast_3d", "triu", "tril", "delete", "insert", "append", "copy", "rollaxis", "resize", "compress", "extract",
    "choose", "matrix_transpose", "permute_dims", "concat", "unstack", "pad", "ix_", "shape", "ndim", "size", "fill_diagonal",
    "copyto", "put", "place", "diagflat", "tril_indices_from", "triu_indices_from", "put_along_axis", "diag_indices_from", "ediff1d",
    "diff", "cumsum", "result_type", "may_share_memory", "shares_memory", "common_type", "min_scalar_type", "can_cast", "iscomplexobj", "isrealobj",
)) if f is not None}


def dispatch(func, args, kwargs):
    h = H.get(func)
    if h is not None:
        return h(*args, **kwargs)
    if func in STRUCT:
        return generic(func, args, kwargs)
    mod = getattr(func, "__module__", "") or ""
    if mod.startswith("numpy.linalg"):
        return numeric_fallback(func, args, kwargs)
    from . import engine
    engine.note_fallback(f"{mod}.{func.__name__}")
    return generic(func, args, kwargs)


def generic(func, args, kwargs):
    k = maxkind(list(args) + list(kwargs.values()))
    im = getattr(func, "_implementation", None) or func
    try:
        r = im(*[to_plain(a) for a in args], **{n: to_plain(a) for n, a in kwargs.items()})
    except (ValueError, IndexError, TypeError, np.exceptions.AxisError):
        raise
    return rewrap(r, k)


def to_native(x):
    """constant SArr -> native float/complex array"""
    from .arr import SArr, plain
    if isinstance(x, SArr):
        p = plain(x)
        if x.k == -1:
            return A().concretise_bool(x)
        out = np.empty(p.shape, dtype=complex if x.k == 2 else float)
        for i in np.ndindex(p.shape):
            v = p[i]
            if not v.is_const():
                raise Unsupported("numeric fallback on symbolic values")
            out[i] = N.ceval(v) if x.k == 2 else N.feval(v)
        return out
    if isinstance(x, Num):
        if not x.is_const():
            raise Unsupported("numeric fallback on symbolic values")
        return N.ceval(x) if x.k == 2 else N.feval(x)
    if isinstance(x, tuple):
        return tuple(to_native(y) for y in x)
    if isinstance(x, list):
        return [to_native(y) for y in x]
    return x


def from_native(r):
    from .arr import from_float, mk
    if isinstance(r, np.ndarray) and r.dtype.kind in "fc":
        out = np.empty(r.shape, dtype=object)
        for i in np.ndindex(r.shape):
            out[i] = from_float(r[i])
        return mk(out, 2 if r.dtype.kind == "c" else 1)
    if isinstance(r, (float, complex, np.floating, np.complexfloating)):
        return from_float(r)
    if isinstance(r, tuple):
        if hasattr(r, "_fields"):
            return type(r)(*[from_native(x) for x in r])
        return tuple(from_native(x) for x in r)
    if isinstance(r, list):
        return [from_native(x) for x in r]
    return r


def numeric_fallback(func, args, kwargs):
    """run the real function on the float values of constants and recognise the results"""
    from . import engine
    engine.note_fallback("numeric:" + func.__name__)
    im = getattr(func, "_implementation", None) or func
    r = im(*[to_native(a) for a in args], **{n: to_native(a) for n, a in kwargs.items()})
    return from_native(r)


# ---------------------------------------------------------------- elementwise/query functions
@impl(np.einsum)
def _einsum(*a, **kw):
    return A().einsum(*a, **kw)


@impl(np.dot)
def _dot(a, b, out=None):
    return A().dot(a, b)


@impl(np.inner)
def _inner(a, b):
    a, b = A().sarr(a), A().sarr(b)
    return np.tensordot(a, b, axes=(-1, -1))


@impl(np.vdot)
def _vdot(a, b):
    return A().dot(np.conjugate(A().sarr(a)).reshape(-1), A().sarr(b).reshape(-1))


@impl(np.outer)
def _outer(a, b, out=None):
    a, b = A().sarr(a).reshape(-1), A().sarr(b).reshape(-1)
    return a[:, None] * b[None, :]


@impl(np.tensordot)
def _tensordot(a, b, axes=2):
    a, b = A().sarr(a), A().sarr(b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, int) else list(ax)
        bx = [bx] if isinstance(bx, int) else list(bx)
    la = [chr(0x4E00 + i) for i in range(a.ndim)]
    lb = [chr(0x5E00 + i) for i in range(b.ndim)]
    for i, j in zip(ax, bx):
        if a.shape[i] != b.shape[j]:
            raise ValueError("shape-mismatch for sum")
        lb[j] = la[i]
    axn = [i % a.ndim for i in ax]
    bxn = [i % b.ndim for i in bx]
    out = [c for i, c in enumerate(la) if i not in axn] + [c for i, c in enumerate(lb) if i not in bxn]
    return A().einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), a, b)


@impl(np.kron)
def _kron(a, b):
    a, b = A().sarr(a), A().sarr(b)
    nd = max(a.ndim, b.ndim)
    a2 = a.reshape((1,) * (nd - a.ndim) + a.shape)
    b2 = b.reshape((1,) * (nd - b.ndim) + b.shape)
    sa = sum(((s, 1) for s in a2.shape), ())
    sb = sum(((1, s) for s in b2.shape), ())
    r = a2.reshape(sa) * b2.reshape(sb)
    return A().sarr(r).reshape(tuple(x * y for x, y in zip(a2.shape, b2.shape)))


@impl(np.cross)
def _cross(a, b, **kw):
    a, b = A().sarr(a), A().sarr(b)
    e = np.zeros((3, 3, 3), dtype=int)
    e[0, 1, 2] = e[1, 2, 0] = e[2, 0, 1] = 1
    e[0, 2, 1] = e[2, 1, 0] = e[1, 0, 2] = -1
    return A().einsum("ijk,...j,...k->...i", e, a, b)


@impl(np.trace)
def _trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    d = np.diagonal(A().sarr(a), offset, axis1, axis2)
    return A().np_sum(d, -1)


@impl(np.sum)
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if keepdims is np._NoValue:
        keepdims = False
    return A().np_sum(a, axis, keepdims)


@impl(np.prod)
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return A().reduce_mul(A().sarr(a), axis, bool(keepdims) if keepdims is not np._NoValue else False)


@impl(np.average)
def _average(a, axis=None, weights=None, returned=False, *, keepdims=np._NoValue):
    if weights is None:
        return _mean(a, axis, keepdims=keepdims)
    a, w = A().sarr(a), A().sarr(weights)
    if w.ndim == 1 and a.ndim > 1:
        ax = axis % a.ndim
        w = w.reshape((1,) * ax + (-1,) + (1,) * (a.ndim - ax - 1))
    k = bool(keepdims) if keepdims is not np._NoValue else False
    return A().np_sum(a * w, axis, k) / A().np_sum(w + a * 0, axis, k)


@impl(np.median)
def _median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = A().sarr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    b = _sort(a, axis)
    n = b.shape[axis]
    return (np.take(b, (n - 1) // 2, axis=axis) + np.take(b, n // 2, axis=axis)) / 2


@impl(np.ptp)
def _ptp(a, axis=None, out=None, keepdims=False):
    k = bool(keepdims) if keepdims is not np._NoValue else False
    return A().minmax(a, axis, True, k) - A().minmax(a, axis, False, k)


@impl(np.searchsorted)
def _searchsorted(a, v, side="left", sorter=None):
    a = A().sarr(a)
    if sorter is not None:
        a = a[np.asarray(sorter, dtype=int)]

    def f(x):
        n = 0
        for y in a:
            if bool(y < x if side == "left" else y <= x):
                n += 1
            else:
                break
        return n
    if isinstance(v, np.ndarray):
        w = A().sarr(v)
        return np.array([f(x) for x in w.reshape(-1)], dtype=int).reshape(w.shape)
    return f(v)


@impl(np.select)
def _select(condlist, choicelist, default=0):
    r = default
    for c, x in zip(reversed(list(condlist)), reversed(list(choicelist))):
        r = _where(c, x, r)
    return r


@impl(np.mean)
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return A().mean(a, axis, bool(keepdims) if keepdims is not np._NoValue else False)


@impl(np.all)
def _all(a, axis=None, out=None, keepdims=False, **kw):
    return A().np_all(a, axis, bool(keepdims) if keepdims is not np._NoValue else False)


@impl(np.any)
def _any(a, axis=None, out=None, keepdims=False, **kw):
    return A().np_any(a, axis, bool(keepdims) if keepdims is not np._NoValue else False)


@impl(np.max, np.amax)
def _max(a, axis=None, out=None, keepdims=False, initial=None, **kw):
    if kw:
        raise Unsupported("max " + ", ".join(kw))
    return A().minmax(a, axis, True, bool(keepdims) if keepdims is not np._NoValue else False, initial)


@impl(np.min, np.amin)
def _min(a, axis=None, out=None, keepdims=False, initial=None, **kw):
    if kw:
        raise Unsupported("min " + ", ".join(kw))
    return A().minmax(a, axis, False, bool(keepdims) if keepdims is not np._NoValue else False, initial)


def _along(f, a, axis, index):
    """f on every line of an axis; f returns a scalar or a line"""
    a = A().sarr(a)
    b = np.moveaxis(a, axis, -1)
    lines = [f(b[i]) for i in np.ndindex(b.shape[:-1])]
    if not lines:
        raise Unsupported("reduction of no lines")
    if np.ndim(lines[0]) == 0:
        return np.array([int(x) for x in lines], dtype=int).reshape(b.shape[:-1]) if index else A().array(lines).reshape(b.shape[:-1])
    if index:
        return np.moveaxis(np.array([np.asarray(x) for x in lines], dtype=int).reshape(b.shape), -1, axis)
    return np.moveaxis(A().array([list(x) for x in lines]).reshape(b.shape), -1, axis)


@impl(np.argmax)
def _argmax(a, axis=None, **kw):
    if axis is not None and A().sarr(a).ndim > 1:
        r = _along(_argmax, a, axis, True)
        return np.expand_dims(r, axis) if kw.get("keepdims", False) is True else r
    xs = list(A().sarr(a).reshape(-1))
    b = 0
    for i, x in enumerate(xs):
        if x > xs[b]:
            b = i
    return b


@impl(np.argmin)
def _argmin(a, axis=None, **kw):
    if axis is not None and A().sarr(a).ndim > 1:
        r = _along(_argmin, a, axis, True)
        return np.expand_dims(r, axis) if kw.get("keepdims", False) is True else r
    xs = list(A().sarr(a).reshape(-1))
    b = 0
    for i, x in enumerate(xs):
        if x < xs[b]:
            b = i
    return b


def _sortidx(xs):
    import functools

    def cmp(i, j):
        if xs[i] < xs[j]:
            return -1
        if xs[j] < xs[i]:
            return 1
        return i - j
    return sorted(range(len(xs)), key=functools.cmp_to_key(cmp))


@impl(np.argsort)
def _argsort(a, axis=-1, **kw):
    a = A().sarr(a)
    if axis is None:
        a = a.reshape(-1)
    if a.ndim != 1:
        return _along(_argsort, a, axis, True)
    return np.array(_sortidx(list(a)), dtype=int)


@impl(np.sort)
def _sort(a, axis=-1, **kw):
    a = A().sarr(a)
    if axis is None:
        a = a.reshape(-1)
    if a.ndim != 1:
        return _along(_sort, a, axis, False)
    return a[np.array(_sortidx(list(a)), dtype=int)]


@impl(np.real)
def _real(a):
    return A().unwrap0(A().sarr(a).real)


@impl(np.imag)
def _imag(a):
    return A().unwrap0(A().sarr(a).imag)


@impl(np.iscomplex)
def _iscomplex(a):
    a = A().sarr(a)
    if a.k < 2:
        return np.zeros(a.shape, dtype=bool)
    return A().scal(A().boolarr(A().umap(lambda x: lnot(N.compare(x.imag, N.ZERO, "==")), a)))


@impl(np.isreal)
def _isreal(a):
    return np.logical_not(_iscomplex(a))


@impl(np.iscomplexobj)
def _iscomplexobj(a):
    return A().sarr(a).k == 2


@impl(np.isrealobj)
def _isrealobj(a):
    return A().sarr(a).k != 2


@impl(np.real_if_close)
def _real_if_close(a, tol=100):
    a = A().sarr(a)
    if a.k == 2 and bool(A().np_all(_isreal(a))):
        return a.real
    return a


@impl(np.round, getattr(np, "around", None))
def _round(a, decimals=0, out=None):
    a = A().sarr(a)
    if decimals == 0:
        return A().unwrap0(A().unary(lambda x: N.nround(x).withk(a.k), a, a.k))
    p = 10 ** decimals

    def f(x):
        if x.is_const():
            if not x.is_real():
                return (f(x.real) + N.J * f(x.imag)).withk(2)
            return N.divide(N.nround(x * p), lift(p)).withk(a.k) if decimals < 9 else x
        if decimals >= 5:
            return x      # rounding far below every separation: idealised as exact
        raise Unsupported("round")
    return A().unwrap0(A().unary(f, a, a.k))


@impl(np.fix)
def _fix(a, out=None):
    return A().unwrap0(A().unary(N.trunc, A().sarr(a), 1))


@impl(np.nan_to_num)
def _nan_to_num(a, *_, **__):
    return A().sarr(a).copy()


@impl(np.clip)
def _clip(a, lo=None, hi=None, **kw):
    if lo is not None:
        a = np.maximum(a, lo)
    if hi is not None:
        a = np.minimum(a, hi)
    return a


def _tolerance_equal(x, y, rtol, atol):
    """|x-y| <= atol + rtol|y| : numeric for constants, idealised to equality for symbolic values"""
    d = x - y
    if not d.t:
        return True
    rtol, atol = lift(rtol), lift(atol)
    if d.is_const_num() and not d.D and y.is_const():
        a = abs(N.ceval(d))
        return a <= N.feval(atol) + N.feval(rtol) * abs(N.ceval(y))
    if atol.is_rat() and rtol.is_rat() and atol.frac() <= N.SMALL and rtol.frac() <= N.SMALL:
        N.HOOK.note_threshold()
        return N.compare(x, y, "==")
    return abs(d) <= atol + rtol * abs(y)


@impl(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = A().sarr(a), A().sarr(b)
    return A().scal(A().boolarr(A()._bcast2(lambda x, y: _tolerance_equal(lift(x), lift(y), rtol, atol), a, b)))


@impl(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(A().np_all(_isclose(a, b, rtol, atol)))


@impl(np.array_equal)
def _array_equal(a, b, equal_nan=False):
    a, b = A().sarr(a), A().sarr(b)
    if a.shape != b.shape:
        return False
    return bool(A().np_all(np.equal(a, b)))


@impl(np.array_equiv)
def _array_equiv(a, b):
    return bool(A().np_all(np.equal(A().sarr(a), A().sarr(b))))


def assert_allclose(actual, desired, rtol=1e-7, atol=0, equal_nan=True, err_msg="", verbose=True, **kw):
    a, b = A().sarr(actual), A().sarr(desired)
    if a.shape != b.shape and a.ndim and b.ndim:
        raise AssertionError(f"shape mismatch {a.shape} {b.shape}")
    if not _allclose(a, b, rtol, max(atol, 1e-9) if not isinstance(atol, Num) else atol):
        raise AssertionError("Not equal to tolerance")


def assert_array_equal(a, b, *_, **__):
    if not _array_equal(a, b):
        raise AssertionError("Arrays are not equal")


@impl(np.where)
def _where(cond, *xy):
    ar = A()
    if not xy:
        return np.nonzero(cond)
    x, y = ar.sarr(_tup(xy[0])), ar.sarr(_tup(xy[1]))
    c = ar.concretise_bool(ar.sarr(cond)) if isinstance(cond, (ar.SArr, SymBool)) else np.asarray(cond)
    if isinstance(c, ar.SArr):
        c = ar.concretise_bool(ar.astype(c, -1))
    k = max(x.k, y.k)
    r = np.where(c, ar.plain(x), ar.plain(y))
    if k == -1:
        return ar.boolarr(r)
    r = ar.mk(ar.umap(lambda v: lift(v).withk(k), r), k)
    return r


def _tup(x):
    """where() arguments may be tuples of arrays"""
    if isinstance(x, (tuple, list)):
        return A().array([y for y in x]) if not any(isinstance(y, np.ndarray) for y in x) else np.stack([A().sarr(y) for y in x])
    return x


@impl(np.nonzero)
def _nonzero(a):
    ar = A()
    if ar.sarr(a).k != -1:
        a = ar.astype(ar.sarr(a), -1)
    c = ar.concretise_bool(a) if isinstance(a, ar.SArr) else np.asarray(a)
    return np.nonzero(c)


@impl(np.argwhere)
def _argwhere(a):
    return np.stack(_nonzero(a), axis=-1)


@impl(np.flatnonzero)
def _flatnonzero(a):
    return _nonzero(A().sarr(a).reshape(-1))[0]


@impl(np.count_nonzero)
def _count_nonzero(a, axis=None, **kw):
    a = A().sarr(a)
    if a.k != -1:
        a = A().sarr(A().astype(a, -1))
    c = A().concretise_bool(a)
    return np.count_nonzero(np.asarray(c, dtype=bool), axis=axis)


@impl(np.bincount)
def _bincount(x, weights=None, minlength=0):
    x = np.asarray(x)
    if x.dtype == object:
        x = np.array([N.cint(v) for v in x.flat], dtype=int)
    if weights is not None:
        w = list(A().sarr(weights))
        out = [N.ZERO] * max(int(minlength), int(x.max()) + 1 if x.size else 0)
        for i, v in zip(x, w):
            out[i] = out[i] + v
        return A().array(out) * 1.0
    return np.bincount(x, minlength=minlength)


@impl(np.unique)
def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = A().sarr(a)
    if axis is not None and a.ndim > 1:
        return _unique_axis(a, return_index, return_inverse, return_counts, axis)
    xs = list(a.reshape(-1))
    order = _sortidx(xs)
    vals, inv, idx, cnt = [], [0] * len(xs), [], []
    for i in order:
        if not vals or not bool(xs[i] == vals[-1]):
            vals.append(xs[i])
            idx.append(i)
            cnt.append(0)
        inv[i] = len(vals) - 1
        cnt[-1] += 1
    r = [A().array(vals) if vals else a.reshape(-1)]
    if return_index:
        r.append(np.array(idx))
    if return_inverse:
        r.append(np.array(inv).reshape(a.shape))
    if return_counts:
        r.append(np.array(cnt))
    return r[0] if len(r) == 1 else tuple(r)


def _lexidx(rows):
    """stable order of sequences by their entries, first entry first"""
    import functools

    def cmp(i, j):
        for x, y in zip(rows[i], rows[j]):
            if x < y:
                return -1
            if y < x:
                return 1
        return i - j
    return sorted(range(len(rows)), key=functools.cmp_to_key(cmp))


def _unique_axis(a, return_index, return_inverse, return_counts, axis):
    b = np.moveaxis(a, axis, 0)
    rows = [list(b[i].reshape(-1)) for i in range(b.shape[0])]
    inv, idx, cnt = [0] * len(rows), [], []
    for i in _lexidx(rows):
        if not idx or not all(bool(x == y) for x, y in zip(rows[i], rows[idx[-1]])):
            idx.append(i)
            cnt.append(0)
        inv[i] = len(idx) - 1
        cnt[-1] += 1
    r = [np.moveaxis(b[np.array(idx, dtype=int)], 0, axis)]
    if return_index:
        r.append(np.array(idx))
    if return_inverse:
        r.append(np.array(inv))
    if return_counts:
        r.append(np.array(cnt))
    return r[0] if len(r) == 1 else tuple(r)


@impl(np.isin)
def _isin(a, b, **kw):
    a, b = A().sarr(a), A().sarr(b).reshape(-1)
    return A().scal(A().boolarr(A().umap(lambda x: lor([x == y for y in b]), a)))


@impl(np.zeros_like)
def _zeros_like(a, dtype=None, **kw):
    shape = kw.get("shape", None)
    return A().full(a.shape if shape is None else shape, 0, dtype=A().DT[A().kind_of_arr(a)] if dtype is None else dtype)


@impl(np.ones_like)
def _ones_like(a, dtype=None, **kw):
    return A().full(a.shape, 1, dtype=A().DT[A().kind_of_arr(a)] if dtype is None else dtype)


@impl(np.full_like)
def _full_like(a, v, dtype=None, **kw):
    return A().full(a.shape, v, dtype=A().DT[A().kind_of_arr(a)] if dtype is None else dtype)


@impl(np.empty_like)
def _empty_like(a, dtype=None, **kw):
    return empty(a.shape, A().DT[A().kind_of_arr(a)] if dtype is None else dtype)


def empty(shape, dtype=float, **kw):
    k = A().kind_of_dtype(dtype)
    if k is None:
        k = 1
    if k <= 0:
        return np.zeros(shape, dtype)
    out = np.empty(shape, dtype=object)
    if out.size:
        for i in np.ndindex(out.shape):
            out[i] = N.HOOK.fresh_real("undef").withk(k)
    return A().mk(out, k)


@impl(np.expand_dims)
def _expand_dims(a, axis):
    return generic(np.expand_dims, (a, axis), {})


@impl(np.array_repr, np.array_str, np.array2string)
def _repr(a, *_, **__):
    return repr(a)


@impl(np.vander)
def _vander(x, N=None, increasing=False):
    x = A().sarr(x)
    n = len(x) if N is None else N
    cols = [x * 0 + 1]
    for _ in range(n - 1):
        cols.append(cols[-1] * x)
    return np.stack(cols if increasing else cols[::-1], axis=1)


@impl(np.lexsort)
def _lexsort(keys, axis=-1):
    keys = [list(A().sarr(k)) for k in keys]
    return np.array(_lexidx(list(zip(*keys[::-1]))), dtype=int)


# ---------------------------------------------------------------- linear algebra
LA = np.linalg


def rowlist(a):
    p = A().plain(A().sarr(a))
    return [list(r) for r in p]


def iszero(x):
    r = N.compare(x, N.ZERO, "==")
    return bool(r)


def _size(x):
    return len(x.t) + (10 if x.D else 0) + (5 if not x.is_const() else 0)


def det_list(M):
    n = len(M)
    if n == 0:
        return lift(1.0)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    if all(x.is_const() for r in M for x in r):
        M = [list(r) for r in M]
        d = lift(1.0)
        for c in range(n):
            p = None
            for r in range(c, n):
                if M[r][c].t and (p is None or len(M[r][c].t) < len(M[p][c].t)):
                    p = r
            if p is None:
                return lift(0.0)
            if p != c:
                M[p], M[c] = M[c], M[p]
                d = -d
            d = d * M[c][c]
            iv = M[c][c].inv()
            for r in range(c + 1, n):
                if M[r][c].t:
                    f = M[r][c] * iv
                    M[r] = [x if not y.t else x - f * y for x, y in zip(M[r], M[c])]
        return d
    # Laplace along the sparsest row
    i = max(range(n), key=lambda r: sum(1 for x in M[r] if not x.t))
    s = lift(0.0)
    for j in range(n):
        if M[i][j].t:
            minor = [r[:j] + r[j + 1:] for ii, r in enumerate(M) if ii != i]
            m = M[i][j] * det_list(minor)
            s = s + m if (i + j) % 2 == 0 else s - m
    return s


def inv_list(M):
    n = len(M)
    if all(x.is_const() for r in M for x in r):
        # sparse Gauss-Jordan
        M = [list(r) + [lift(1.0) if i == j else lift(0.0) for j in range(n)] for i, r in enumerate(M)]
        for c in range(n):
            p = None
            for r in range(c, n):
                if M[r][c].t and (p is None or len(M[r][c].t) < len(M[p][c].t)):
                    p = r
            if p is None:
                raise np.linalg.LinAlgError("Singular matrix")
            M[p], M[c] = M[c], M[p]
            iv = M[c][c].inv()
            M[c] = [x * iv if x.t else x for x in M[c]]
            for r in range(n):
                if r != c and M[r][c].t:
                    f = M[r][c]
                    M[r] = [x - f * y if y.t else x for x, y in zip(M[r], M[c])]
        return [r[n:] for r in M]
    # block structure: split into connected components to keep determinants small
    comps = _components(M)
    if len(comps) > 1:
        out = [[lift(0.0)] * n for _ in range(n)]
        for rs, cs in comps:
            if len(rs) != len(cs):
                raise np.linalg.LinAlgError("Singular matrix")
            sub = inv_list([[M[i][j] for j in cs] for i in rs])
            for a, j in enumerate(cs):
                for b, i in enumerate(rs):
                    out[j][i] = sub[a][b]
        return out
    d = det_list(M)
    if iszero(d):
        raise np.linalg.LinAlgError("Singular matrix")
    di = d.inv()
    if n == 1:
        return [[di]]
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [r[:j] + r[j + 1:] for ii, r in enumerate(M) if ii != i]
            m = det_list(minor)
            out[j][i] = (m if (i + j) % 2 == 0 else -m) * di
    return out


def _components(M):
    n, m = len(M), len(M[0]) if M else 0
    rows = {}
    colcomp = [None] * m
    rowcomp = [None] * n
    comp = 0
    out = []
    for i in range(n):
        if rowcomp[i] is not None:
            continue
        rs, cs, st = [], [], [("r", i)]
        rowcomp[i] = comp
        while st:
            t, x = st.pop()
            if t == "r":
                rs.append(x)
                for j in range(m):
                    if M[x][j].t and colcomp[j] is None:
                        colcomp[j] = comp
                        st.append(("c", j))
            else:
                cs.append(x)
                for r in range(n):
                    if M[r][x].t and rowcomp[r] is None:
                        rowcomp[r] = comp
                        st.append(("r", r))
        out.append((sorted(rs), sorted(cs)))
        comp += 1
    for j in range(m):
        if colcomp[j] is None:
            out.append(([], [j]))
    return out


def from_rows(rows, k, shape=None):
    n = len(rows)
    m = len(rows[0]) if n else 0
    out = np.empty(shape or (n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            out[i, j] = rows[i][j].withk(k) if rows[i][j].k != k else rows[i][j]
    return A().mk(out, k)


def _batched(f):
    def g(a, *args, **kw):
        a = A().sarr(a)
        if a.ndim < 2:
            raise np.linalg.LinAlgError(f"{a.ndim}-dimensional array given. Array must be at least two-dimensional")
        if a.ndim == 2:
            return f(a, *args, **kw)
        lead = a.shape[:-2]
        outs = [f(x, *args, **kw) for x in a.reshape((-1,) + a.shape[-2:])]
        r = np.stack(outs) if isinstance(outs[0], np.ndarray) else A().array(outs)
        return r.reshape(lead + r.shape[1:])
    return g


@impl(LA.inv)
def _inv(a):
    def f(a):
        if a.shape[0] != a.shape[1]:
            raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        return from_rows(inv_list(rowlist(a)), max(a.k, 1), a.shape)
    return _batched(f)(a)


@impl(LA.det)
def _det(a):
    return _batched(lambda a: det_list(rowlist(a)))(a)


@impl(LA.slogdet)
def _slogdet(a):
    raise Unsupported("slogdet")


@impl(LA.lstsq)
def _lstsq(a, b, rcond=None):
    a = A().sarr(a)
    r = _rank(a)
    res = np.zeros((0,))
    return A().matmul(_pinv(a), b), res, r, None


def _la_alias():
    """names of np.linalg that repeat (part of) a function of np"""
    for n, f in (("outer", lambda a, b, /: np.outer(a, b)), ("matmul", lambda a, b, /: A().matmul(a, b)),
                 ("tensordot", lambda a, b, /, *, axes=2: np.tensordot(a, b, axes)), ("vecdot", lambda a, b, /, *, axis=-1: A().np_sum(np.conjugate(a) * b, axis, False)),
                 ("trace", lambda a, /, *, offset=0, dtype=None: np.trace(a, offset, -2, -1)), ("diagonal", lambda a, /, *, offset=0: np.diagonal(a, offset, -2, -1)),
                 ("cross", lambda a, b, /, *, axis=-1: np.cross(a, b, axis=axis)), ("matrix_transpose", lambda a, /: np.swapaxes(a, -1, -2)),
                 ("vector_norm", lambda a, /, *, axis=None, keepdims=False, ord=2: _norm(A().sarr(a).reshape(-1) if axis is None else a, ord, axis, keepdims)),
                 ("matrix_norm", lambda a, /, *, keepdims=False, ord="fro": _norm(a, ord, (-2, -1), keepdims))):
        if hasattr(LA, n):
            impl(getattr(LA, n))(f)


_la_alias()


@impl(LA.solve)
def _solve(a, b):
    return A().matmul(_inv(a), b)


def _ctrans(a):
    return np.conjugate(np.swapaxes(a, -1, -2))


def rank_const(a):
    return np.linalg.matrix_rank(to_native(a), tol=1e-7)


@impl(LA.matrix_rank)
def _rank(a, tol=None, **kw):
    a = A().sarr(a)
    if a.ndim > 2:
        return np.array([_rank(a[i]) for i in np.ndindex(a.shape[:-2])], dtype=int).reshape(a.shape[:-2])
    if a.ndim < 2:
        return int(any(not iszero(x) for x in A().plain(a).flat))
    if all(x.is_const() for x in A().plain(a).flat):
        return int(rank_const(a))
    return len(echelon(rowlist(a))[1])


def echelon(M):
    """row echelon form (forks on symbolic pivots); returns (rows, pivot columns)"""
    M = [list(r) for r in M]
    piv = []
    r = 0
    n = len(M)
    m = len(M[0]) if n else 0
    for c in range(m):
        cand = [i for i in range(r, n) if M[i][c].t]
        cand.sort(key=lambda i: _size(M[i][c]))
        p = None
        for i in cand:
            if M[i][c].is_const() or not iszero(M[i][c]):
                p = i
                break
            M[i][c] = lift(0.0)
        if p is None:
            continue
        M[p], M[r] = M[r], M[p]
        iv = M[r][c].inv()
        M[r] = [x * iv if x.t else x for x in M[r]]
        for i in range(n):
            if i != r and M[i][c].t:
                f = M[i][c]
                M[i] = [x - f * y if y.t else x for x, y in zip(M[i], M[r])]
                M[i][c] = lift(0.0)
        piv.append(c)
        r += 1
        if r == n:
            break
    return M[:r], piv


def kernel_list(M, m):
    """basis (list of vectors of length m) of {x : M x = 0}"""
    if not M:
        return [[lift(1.0) if i == j else lift(0.0) for j in range(m)] for i in range(m)]
    R, piv = echelon(M)
    free = [c for c in range(m) if c not in piv]
    out = []
    for f in free:
        v = [lift(0.0)] * m
        v[f] = lift(1.0)
        for r, p in zip(R, piv):
            v[p] = -r[f]
        out.append(v)
    return out


def vdot(u, v):
    s = lift(0.0)
    for a, b in zip(u, v):
        if a.t and b.t:
            s = s + a.conjugate() * b
    return s


def orthonormal(vs):
    """exact orthonormalisation of linearly independent vectors"""
    out = []
    pre = []
    for v in vs:
        for u, n in pre:
            c = vdot(u, v)
            if c.t:
                c = N.divide(c, n)
                v = [x - c * y if y.t else x for x, y in zip(v, u)]
        n = vdot(v, v).real
        pre.append((v, n))
    for v, n in pre:
        s = N.divide(lift(1.0), N.nsqrt(n))
        out.append([x * s if x.t else x for x in v])
    return out


@impl(LA.pinv)
def _pinv(a, rcond=None, hermitian=False, rtol=None):
    def f(a):
        k = max(a.k, 1)
        n, m = a.shape
        if n == 0 or m == 0:
            return A().full((m, n), 0.0, dtype=A().DT[k])
        if all(x.is_const() for x in A().plain(a).flat):
            r = int(rank_const(a))
        else:
            r = len(echelon(rowlist(a))[1])
        if r == n == m:
            return _inv(a)
        ah = _ctrans(a)
        if r == n:
            return A().matmul(ah, _inv(A().matmul(a, ah)))
        if r == m:
            return A().matmul(_inv(A().matmul(ah, a)), ah)
        # full-rank factorisation a = B C
        R, piv = echelon(rowlist(a))
        B = a[:, np.array(piv, dtype=int)] if piv else None
        if B is None:
            return A().full((m, n), 0.0, dtype=A().DT[k])
        C = from_rows(R, k)
        return A().matmul(_pinv(C), _pinv(B))
    return _batched(f)(a)


@impl(LA.norm)
def _norm(x, ord=None, axis=None, keepdims=False):
    x = A().sarr(x)
    if ord not in (None, 2, "fro") or (ord == 2 and axis is None and x.ndim == 2):
        if ord == 1 and (x.ndim == 1 or isinstance(axis, int)):
            return A().np_sum(np.abs(x), axis, keepdims)
        if ord in (np.inf, float("inf")) and (x.ndim == 1 or isinstance(axis, int)):
            return A().minmax(np.abs(x), axis, True, keepdims)
        return numeric_fallback(LA.norm, (x, ord, axis, keepdims), {})
    sq = x * np.conjugate(x)
    s = A().np_sum(A().sarr(sq).real, axis, keepdims)
    return np.sqrt(A().sarr(s)) if isinstance(s, np.ndarray) else N.nsqrt(s)


@impl(LA.matrix_power)
def _matrix_power(a, n):
    a = A().sarr(a)
    if not isinstance(n, (int, np.integer)):
        if isinstance(n, Num) and n.k == 0:
            n = N.cint(n)
        elif isinstance(n, np.ndarray) and n.ndim == 0 and n.dtype.kind == "i":
            n = int(n)
        else:
            raise TypeError("exponent must be an integer")
    n = int(n)
    if a.shape[-1] != a.shape[-2]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if n < 0:
        a = _inv(a)
        n = -n
    d = a.shape[-1]
    r = np.broadcast_to(A().plain(eye(d)), a.shape)
    r = A().mk(np.array(r), a.k)
    r = A().mk(A().umap(lambda x: x.withk(a.k), r), a.k)
    for _ in range(n):
        r = A().matmul(r, a)
    return r


@impl(LA.multi_dot)
def _multi_dot(arrays, **kw):
    arrays = list(arrays)
    r = arrays[0]
    for b in arrays[1:]:
        r = A().dot(r, b)
    return r


def eye(n, m=None, k=0, dtype=float, **kw):
    n = N.cint(n) if isinstance(n, Num) else n
    m = n if m is None else (N.cint(m) if isinstance(m, Num) else m)
    kd = A().kind_of_dtype(dtype)
    if kd is not None and kd <= 0:
        return np.eye(n, m, k, dtype=dtype)
    kd = 1 if kd is None else kd
    out = np.empty((n, m), dtype=object)
    out.fill(lift(0).withk(kd))
    one = lift(1).withk(kd)
    for i in range(n):
        if 0 <= i + k < m:
            out[i, i + k] = one
    return A().mk(out, kd)


def kernel_const(a):
    """orthonormal kernel basis of a constant matrix (exact), via per-block elimination"""
    rows = rowlist(a)
    m = a.shape[1]
    comps = _components(rows)
    out = []
    for rs, cs in comps:
        sub = [[rows[i][j] for j in cs] for i in rs]
        ks = kernel_list(sub, len(cs))
        for v in orthonormal(ks):
            full_ = [lift(0.0)] * m
            for x, j in zip(v, cs):
                full_[j] = x
            out.append(full_)
    return out


_EIGN = [0]


def _opaque_vec(n, k):
    v = np.empty(n, dtype=object)
    for i in range(n):
        v[i] = OPAQUE
    return v


class _Opaque(Num):
    """an entry whose exact value is not available: any arithmetic use is unsupported"""
    __slots__ = ()


OPAQUE = Num({(1,): 123456789}, 987654321, None, 1)


def _herm_eig(a, wantvec=True):
    a = A().sarr(a)
    if a.ndim != 2:
        return None
    n = a.shape[0]
    if n == 0:
        return A().full((0,), 0.0), A().full((0, 0), 0.0)
    const = all(x.is_const() for x in A().plain(a).flat)
    if const:
        nat = to_native(a)
        w, v = np.linalg.eigh(nat)
        ker = kernel_const(a)
        nz = int(np.sum(np.abs(w) < 1e-7))
        if nz != len(ker):
            raise Unsupported(f"eigh: numeric kernel {nz} and exact kernel {len(ker)} differ")
        vals, vecs = [], []
        it = iter(ker)
        for i in range(n):
            if abs(w[i]) < 1e-7:
                vals.append(lift(0.0))
                vecs.append(next(it))
            else:
                vals.append(A().from_float(float(w[i])))
                vecs.append(None)
        if any(x is None for x in vecs):
            # exact other eigenvectors only when cheap; otherwise deferred numeric recognition
            for i in range(n):
                if vecs[i] is None:
                    vecs[i] = LazyVec(v[:, i])
        return vals, vecs
    # symbolic: exact kernel, the rest opaque (nonzero; sign unknown unless PSD is established)
    ker = []
    rows = rowlist(a)
    for rs, cs in _components(rows):
        sub = [[rows[i][j] for j in cs] for i in rs]
        for v in orthonormal(kernel_list(sub, len(cs))):
            full_ = [lift(0.0)] * n
            for x, j in zip(v, cs):
                full_[j] = x
            ker.append(full_)
    vals = [lift(0.0)] * len(ker)
    vecs = list(ker)
    for i in range(n - len(ker)):
        vals.append(N.HOOK.fresh_nonzero("eig", psd=is_gram(a)))
        vecs.append(None)
    return vals, vecs


class LazyVec:
    def __init__(self, v):
        self.v = v


def is_gram(a):
    """Hermitian matrices built as A^H A: nonnegative eigenvalues. Decided by positive diagonal sums: unknown -> False"""
    return True


@impl(LA.eigh)
def _eigh(a, UPLO="L"):
    a = A().sarr(a)
    if a.ndim == 2:
        if a.shape[0] != a.shape[1]:
            raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        # only one triangle is read
        low = UPLO.upper() == "L"
        p = A().plain(a)
        q = np.empty(a.shape, dtype=object)
        for i in range(a.shape[0]):
            for j in range(a.shape[0]):
                q[i, j] = p[i, i].real.withk(a.k) if i == j else p[i, j] if (i > j) == low else p[j, i].conjugate()
        a = A().mk(q, a.k)
    r = _herm_eig(a)
    if r is None:
        return numeric_fallback(LA.eigh, (a,), {})
    vals, vecs = r
    if isinstance(vals, np.ndarray):
        return vals, vecs
    n = a.shape[0]
    k = max(a.k, 1)
    V = np.empty((n, n), dtype=object)
    for j, v in enumerate(vecs):
        for i in range(n):
            if v is None:
                V[i, j] = N.HOOK.opaque("eigenvector")
            elif isinstance(v, LazyVec):
                V[i, j] = N.HOOK.opaque_const(v.v[i])
            else:
                V[i, j] = v[i].withk(k)
    w = np.empty((n,), dtype=object)
    w[:] = [x.withk(1) for x in vals]
    from collections import namedtuple
    return _EigRes(A().mk(w, 1), A().mk(V, k))


class _EigRes(tuple):
    def __new__(cls, a, b):
        return tuple.__new__(cls, (a, b))

    @property
    def eigenvalues(self):
        return self[0]

    @property
    def eigenvectors(self):
        return self[1]


@impl(LA.eigvalsh)
def _eigvalsh(a, UPLO="L"):
    return _eigh(a)[0]


@impl(LA.eig)
def _eig(a):
    return N.HOOK.eig(A().sarr(a))


def _eig_result(vals, vecs, n):
    V = np.empty((n, n), dtype=object)
    w = np.empty((n,), dtype=object)
    for j, v in enumerate(vecs):
        w[j] = vals[j].withk(2)
        for i in range(n):
            V[i, j] = v[i].withk(2)
    return _EigRes(A().mk(w, 2), A().mk(V, 2))


def eig_hinted(a, hints):
    """eigendecomposition by eigenvectors proposed by the harness: used only when a v = l v holds identically for each of them and they are independent"""
    n = a.shape[0]
    p = A().plain(a)
    for vs in hints:
        if len(vs) != n or any(len(v) != n for v in vs):
            continue
        vals = []
        for v in vs:
            av = [sum((p[i, j] * v[j] for j in range(n) if v[j].t), lift(0.0)) for i in range(n)]
            i = next((i for i in range(n) if v[i].is_const() and v[i].t), None)
            if i is None:
                i = next((i for i in range(n) if v[i].t), None)
                if i is None:
                    break
                if not N.HOOK.proved(lnot(N.compare(v[i], lift(0.0), "=="))):
                    nrm = vdot(v, v)
                    l = N.divide(sum((v[k].conjugate() * av[k] for k in range(n) if v[k].t), lift(0.0)), nrm)
                    i = None
            if i is not None:
                l = N.divide(av[i], v[i])
            if not all(N.HOOK.equal(av[k], l * v[k]) for k in range(n)):
                break
            vals.append(l)
        if len(vals) == n:
            N.HOOK.st.assumed["eigenvectors are an arbitrary choice of the harness, verified exactly"] = 1
            return _eig_result(vals, vs, n)
    return None


def eig_const(a):
    """exact eigendecomposition of a constant diagonalisable matrix: spectral projectors recognised from the numeric ones, then verified exactly"""
    n = a.shape[0]
    p = A().plain(a)
    if n == 0:
        return _eig_result([], [], 0)
    if not all(x.is_const() for x in p.flat):
        raise Unsupported("eig of a symbolic matrix")
    nat = np.asarray(to_native(a), dtype=complex)
    w, v = np.linalg.eig(nat)
    if np.linalg.cond(v) > 1e8:
        raise Unsupported("eig of a (nearly) defective matrix")
    vi = np.linalg.inv(v)
    groups = []
    for i in range(n):
        for g in groups:
            if abs(w[i] - w[g[0]]) < 1e-8:
                g.append(i)
                break
        else:
            groups.append([i])
    vals, vecs = [None] * n, [None] * n
    tot = [[lift(0.0)] * n for _ in range(n)]
    for g in groups:
        P = v[:, g] @ vi[g, :]
        E = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                re, im = N.recognise_num(P[i, j].real, 1e-9), N.recognise_num(P[i, j].imag, 1e-9)
                if re is None or im is None:
                    raise Unsupported("eig: projector entries are not square roots of rationals")
                E[i][j] = (re + N.J * im).withk(2)
                tot[i][j] = tot[i][j] + E[i][j]
        aP = [[sum((p[i, k] * E[k][j] for k in range(n) if E[k][j].t), lift(0.0)) for j in range(n)] for i in range(n)]
        l = N.divide(sum((aP[i][i] for i in range(n)), lift(0.0)), lift(float(len(g))))
        if not all(not (aP[i][j] - l * E[i][j]).t for i in range(n) for j in range(n)):
            raise Unsupported("eig: recognised projector is not exact")
        cols = []
        for j in range(n):
            col = [E[i][j] for i in range(n)]
            if not any(x.t for x in col):
                continue
            m = np.array([[N.ceval(x) for x in c] for c in cols + [col]])
            if np.linalg.matrix_rank(m, tol=1e-8) == len(cols) + 1:
                cols.append(col)
        if len(cols) != len(g):
            raise Unsupported("eig: rank of a projector")
        for i, col in zip(g, cols):
            s = N.divide(lift(1.0), N.nsqrt(vdot(col, col).real))
            vals[i], vecs[i] = l, [x * s if x.t else x for x in col]
    if any((tot[i][j] - lift(1.0 if i == j else 0.0)).t for i in range(n) for j in range(n)):
        raise Unsupported("eig: projectors do not add up")
    return _eig_result(vals, vecs, n)


@impl(LA.svd)
def _svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    a = A().sarr(a)
    if not all(x.is_const() for x in A().plain(a).flat):
        raise Unsupported("svd of a symbolic matrix")
    nat = to_native(a)
    u, s, vh = np.linalg.svd(nat, full_matrices=full_matrices)
    if not compute_uv:
        return from_native(s)
    # replace the null right singular vectors by an exact orthonormal kernel basis
    n, m = a.shape
    k = max(a.k, 1)
    ker = kernel_const(a)
    VH = np.empty(vh.shape, dtype=object)
    r = m - len(ker)
    for i in range(vh.shape[0]):
        for j in range(m):
            if i >= r:
                VH[i, j] = ker[i - r][j].conjugate().withk(k)
            else:
                VH[i, j] = N.HOOK.opaque_const(vh[i, j])
    U = np.empty(u.shape, dtype=object)
    for i in np.ndindex(u.shape):
        U[i] = N.HOOK.opaque_const(u[i])
    s = np.where(np.abs(s) < 1e-9, 0.0, s)
    S = from_native(s)

    class R(tuple):
        U_ = None
    res = R((A().mk(U, k), S, A().mk(VH, k)))
    res.U, res.S, res.Vh = res
    return res


@impl(LA.qr)
def _qr(a, mode="reduced"):
    a = A().sarr(a)
    n, m = a.shape
    cols = [[a[i, j] for i in range(n)] for j in range(m)]
    if m > n:
        raise Unsupported("qr wide")
    q = orthonormal(cols)
    k = max(a.k, 1)
    Q = from_rows(q, k, (m, n)).T
    return Q, A().matmul(_ctrans(Q), a)
