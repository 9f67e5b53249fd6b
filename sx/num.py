"""Exact symbolic numbers: fractions of polynomials over Q(sqrt of integers, i) in real/int variables.

term key: (rad, v1, e1, v2, e2, ...)   rad: squarefree int, negative = i*sqrt(|rad|); v: var id; e: exponent
Num = sum(coef * key) / (d * prod D)
"""
from fractions import Fraction
from math import gcd, isqrt, sqrt as fsqrt
import numpy as np

ONE = (1,)
I_KEY = (-1,)
SMALL = Fraction(1, 1000)


class Unsupported(BaseException):
    """operation outside the exact encoding: the path is inconclusive"""


class Var:
    __slots__ = ("id", "name", "sort", "defn", "val", "cons", "role")

    def __init__(self, id, name, sort, role="input", defn=None, val=None):
        self.id, self.name, self.sort, self.role, self.defn, self.val = id, name, sort, role, defn, val
        self.cons = []


class Table:
    """Per-path tables (variables, interned denominators, monomial products)."""

    def __init__(self):
        self.vars = {}
        self.mk = {}
        self.polys = {}      # id -> terms
        self.polyids = {}
        self.sqrtmemo = {}
        self.divmemo = {}
        self.inexact = False


T = Table()
_MKC = {}


def reset_table():
    global T
    T = Table()
    return T


def new_var(name, sort="real", role="input", defn=None, val=None):
    v = Var(len(T.vars) + 1, name, sort, role, defn, val)
    T.vars[v.id] = v
    return v


def _radmul(a, b):
    if a == 1:
        return 1, b
    if b == 1:
        return 1, a
    s = 1
    neg = False
    if a < 0 and b < 0:
        s = -1
        a, b = -a, -b
    elif a < 0:
        neg, a = True, -a
    elif b < 0:
        neg, b = True, -b
    g = gcd(a, b)
    r = (a // g) * (b // g)
    return s * g, (-r if neg else r)


def _mulkey(k1, k2):
    """product of two keys as a tuple of (key, coef)"""
    if len(k1) == 1 and len(k2) == 1:
        p = (k1, k2)
        r = _MKC.get(p)
        if r is None:
            c, rad = _radmul(k1[0], k2[0])
            r = (((rad,), c),)
            _MKC[p] = r
        return r
    p = (k1, k2)
    r = T.mk.get(p)
    if r is not None:
        return r
    c, rad = _radmul(k1[0], k2[0])
    ex = {}
    for k in (k1, k2):
        for i in range(1, len(k), 2):
            ex[k[i]] = ex.get(k[i], 0) + k[i + 1]
    todo = []
    for v in list(ex):
        var = T.vars[v]
        if var.defn is not None and ex[v] >= 2:
            q, rem = divmod(ex[v], 2)
            todo.append((v, q))
            if rem:
                ex[v] = rem
            else:
                del ex[v]
    flat = []
    for v in sorted(ex):
        flat.append(v)
        flat.append(ex[v])
    key = (rad, *flat)
    if not todo:
        r = ((key, c),)
    else:
        t = {key: c}
        for v, q in todo:
            for _ in range(q):
                t = _pmul(t, T.vars[v].defn)
        r = tuple(t.items())
    T.mk[p] = r
    return r


def _pmul(t1, t2):
    if len(t1) > len(t2):
        t1, t2 = t2, t1
    out = {}
    get = out.get
    for k1, c1 in t1.items():
        if k1 == ONE:
            for k2, c2 in t2.items():
                out[k2] = get(k2, 0) + c1 * c2
        else:
            for k2, c2 in t2.items():
                for k, c in _mulkey(k1, k2):
                    out[k] = get(k, 0) + c * c1 * c2
    return {k: c for k, c in out.items() if c}


def _padd(t1, t2, f1=1, f2=1):
    out = {k: c * f1 for k, c in t1.items()} if f1 != 1 else dict(t1)
    for k, c in t2.items():
        s = out.get(k, 0) + c * f2
        if s:
            out[k] = s
        else:
            out.pop(k, None)
    return out


def _content(t):
    g = 0
    for c in t.values():
        g = gcd(g, c)
        if g == 1:
            break
    return g


def _intern(t):
    """t: nonzero real polynomial; returns (poly id, sign*content) with t = factor * poly"""
    g = _content(t)
    lead = max(t)
    if t[lead] < 0:
        g = -g
    p = {k: c // g for k, c in t.items()} if g != 1 else t
    key = frozenset(p.items())
    pid = T.polyids.get(key)
    if pid is None:
        pid = len(T.polys) + 1
        T.polyids[key] = pid
        T.polys[pid] = p
    return pid, g


def _dkey(k, m):
    """k / m for keys (m with rad 1), or None"""
    if m[0] != 1:
        return None
    ex = {k[i]: k[i + 1] for i in range(1, len(k), 2)}
    for i in range(1, len(m), 2):
        e = ex.get(m[i], 0) - m[i + 1]
        if e < 0:
            return None
        if e:
            ex[m[i]] = e
        else:
            del ex[m[i]]
    flat = []
    for v in sorted(ex):
        flat += [v, ex[v]]
    return (k[0], *flat)


def _order(k):
    # monomial order: degree lexicographic on exponent vectors (rad last)
    deg = sum(k[2::2])
    return (deg, tuple((-k[i], k[i + 1]) for i in range(1, len(k), 2)), k[0])


def _pdiv(t, p):
    """exact division of polynomials t / p without using sqrt relations, or None (p primitive)"""
    if len(t) < 2 and len(p) > 1:
        return None
    lead = max(p, key=_order)
    lc = p[lead]
    if lead[0] != 1:
        return None
    rest = [(k, c) for k, c in p.items()]
    q = {}
    r = dict(t)
    n = 0
    while r:
        n += 1
        if n > 400:
            return None
        k = max(r, key=_order)
        c = r[k]
        m = _dkey(k, lead)
        if m is None or c % lc:
            return None
        f = c // lc
        q[m] = q.get(m, 0) + f
        for k2, c2 in rest:
            pr = _mulkey(m, k2)
            if len(pr) != 1:
                return None
            kk, cc = pr[0]
            s = r.get(kk, 0) - f * c2 * cc
            if s:
                r[kk] = s
            else:
                r.pop(kk, None)
    return q


def squarefree(n):
    """n>0: n = a^2 * b, b squarefree -> (a, b)"""
    a, b = 1, 1
    p = 2
    while p * p <= n:
        if n % p == 0:
            e = 0
            while n % p == 0:
                n //= p
                e += 1
            a *= p ** (e // 2)
            if e & 1:
                b *= p
        p += 1 if p == 2 else 2
        if p > 100000:
            r = isqrt(n)
            if r * r == n:
                return a * r, b
            break
    return a, b * n


_sqf = {}


def squarefree_c(n):
    r = _sqf.get(n)
    if r is None:
        r = _sqf[n] = squarefree(n)
    return r


class Num:
    __slots__ = ("t", "d", "D", "k")
    __array_ufunc__ = None

    def __init__(self, t, d=1, D=None, k=1):
        self.t, self.d, self.D, self.k = t, d, D, k

    # ---- predicates
    def is_const(self):
        for k in self.t:
            if len(k) > 1:
                return False
        return not self.D

    def is_rat(self):
        t = self.t
        return not self.D and (not t or (len(t) == 1 and ONE in t))

    def frac(self):
        """Fraction value of a rational constant"""
        return Fraction(self.t.get(ONE, 0), self.d)

    def is_real(self):
        for k in self.t:
            if k[0] < 0:
                return False
        return True

    def varids(self):
        s = set()
        for k in self.t:
            s.update(k[1::2])
        if self.D:
            for p in self.D:
                for k in T.polys[p]:
                    s.update(k[1::2])
        return s

    def withk(self, k):
        return self if k == self.k else Num(self.t, self.d, self.D, k)

    # ---- arithmetic
    def __add__(self, o):
        if o.__class__ is not Num:
            if isinstance(o, np.ndarray):
                return np.add(_wrap0(self), o)
            o = lift(o)
            if o is None:
                return NotImplemented
        k = self.k if self.k > o.k else o.k
        if not o.t:
            return self.withk(k)
        if not self.t:
            return o.withk(k)
        if self.D or o.D:
            return _addD(self, o, k)
        d1, d2 = self.d, o.d
        if d1 == d2:
            t = _padd(self.t, o.t)
            d = d1
        else:
            g = gcd(d1, d2)
            t = _padd(self.t, o.t, d2 // g, d1 // g)
            d = d1 // g * d2
        if d != 1:
            if not t:
                return Num({}, 1, None, k)
            g = d
            for c in t.values():
                g = gcd(g, c)
                if g == 1:
                    break
            if g != 1:
                t = {kk: c // g for kk, c in t.items()}
                d //= g
        return Num(t, d, None, k)

    __radd__ = __add__

    def __neg__(self):
        return Num({k: -c for k, c in self.t.items()}, self.d, self.D, self.k)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return np.subtract(_wrap0(self), o)
        o = lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return np.subtract(o, _wrap0(self))
        o = lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if o.__class__ is not Num:
            if isinstance(o, np.ndarray):
                return np.multiply(_wrap0(self), o)
            o = lift(o)
            if o is None:
                return NotImplemented
        k = self.k if self.k > o.k else o.k
        if not self.t or not o.t:
            return Num({}, 1, None, k)
        if self.k == 0 and o.k == 0 and HOOK is not None and not self.is_const() and not o.is_const():
            self, o = HOOK.nonlinear(self, o)
        t = _pmul(self.t, o.t)
        if not t:
            return Num({}, 1, None, k)
        d = self.d * o.d
        if self.D or o.D:
            D = dict(self.D or {})
            for p, e in (o.D or {}).items():
                D[p] = D.get(p, 0) + e
            return _norm(t, d, D, k)
        if d != 1:
            g = d
            for c in t.values():
                g = gcd(g, c)
                if g == 1:
                    break
            if g != 1:
                t = {kk: c // g for kk, c in t.items()}
                d //= g
        return Num(t, d, None, k)

    __rmul__ = __mul__

    def inv(self):
        """1/self, self known nonzero on this path"""
        t = self.t
        if not t:
            raise ZeroDivisionError
        if not self.is_real():
            c = self.conjugate()
            return c * (self * c).inv()
        k = max(self.k, 1)
        numD = Num({ONE: self.d}, 1, None, k)
        for p, e in (self.D or {}).items():
            for _ in range(e):
                numD = numD * Num(T.polys[p], 1, None, k)
        if len(t) == 1:
            (key, c), = t.items()
            rad = key[0]
            out = Num({(rad,): 1}, 1, None, k)
            den = c * rad
            D = {}
            for i in range(1, len(key), 2):
                v, e = key[i], key[i + 1]
                var = T.vars[v]
                if var.defn is not None:     # e == 1 : 1/s = s/s^2
                    out = out * Num({(1, v, 1): 1}, 1, None, k)
                    out = out * Num(var.defn, 1, None, k).inv()
                else:
                    pid, g = _intern({(1, v, 1): 1})
                    D[pid] = D.get(pid, 0) + e
            if den < 0:
                out, den = -out, -den
            r = out * Num({ONE: 1}, den, D or None, k)
            return (numD * r) if numD.t != {ONE: 1} or numD.d != 1 else r
        if self.is_const() or not any(len(k) > 1 for k in t):
            # rationalise: multiply by conjugates
            cur = Num(t, 1, None, k)
            out = Num({ONE: 1}, 1, None, k)
            guard = 0
            while not (len(cur.t) == 1):
                guard += 1
                p = None
                for key in cur.t:
                    if key[0] != 1:
                        p = _smallest_prime(key[0])
                        break
                conj = Num({key: (-c if key[0] % p == 0 else c) for key, c in cur.t.items()}, 1, None, k)
                out = out * conj
                cur = cur * conj
                if guard > 40:
                    raise Unsupported("rationalising a denominator")
            return numD * out * cur.inv()
        # general real polynomial: eliminate sqrt variables linearly when cheap
        for v in sorted(self.varids_num()):
            var = T.vars[v]
            if var.defn is not None and len(t) <= 12:
                A = {k_: c for k_, c in t.items() if v not in k_[1::2]}
                B = {k_: c for k_, c in t.items() if v in k_[1::2]}
                if A and B:
                    cj = Num(_padd(A, B, 1, -1), 1, None, k)
                    return numD * cj * (Num(t, 1, None, k) * cj).inv()
        pid, g = _intern(t)
        if g < 0:
            return numD * Num({ONE: -1}, -g, {pid: 1}, k)
        return numD * Num({ONE: 1}, g, {pid: 1}, k)

    def varids_num(self):
        s = set()
        for k in self.t:
            s.update(k[1::2])
        return s

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return np.true_divide(_wrap0(self), o)
        o = lift(o)
        if o is None:
            return NotImplemented
        return divide(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return np.true_divide(o, _wrap0(self))
        o = lift(o)
        if o is None:
            return NotImplemented
        return divide(o, self)

    def __floordiv__(self, o):
        if isinstance(o, np.ndarray):
            return np.floor_divide(_wrap0(self), o)
        o = lift(o)
        if o is None:
            return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        if isinstance(o, np.ndarray):
            return np.floor_divide(o, _wrap0(self))
        o = lift(o)
        return NotImplemented if o is None else floordiv(o, self)

    def __mod__(self, o):
        if isinstance(o, np.ndarray):
            return np.remainder(_wrap0(self), o)
        o = lift(o)
        if o is None:
            return NotImplemented
        return self - o * floordiv(self, o)

    def __rmod__(self, o):
        if isinstance(o, np.ndarray):
            return np.remainder(o, _wrap0(self))
        o = lift(o)
        return NotImplemented if o is None else o - self * floordiv(o, self)

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __rdivmod__(self, o):
        q = o // self
        return q, o - q * self

    def __pow__(self, o):
        if isinstance(o, np.ndarray):
            return np.power(_wrap0(self), o)
        return power(self, o)

    def __rpow__(self, o):
        if isinstance(o, np.ndarray):
            return np.power(o, _wrap0(self))
        return power(o, self)

    def __and__(self, o):
        if self.k == 0 and not isinstance(o, Num) and o == 1:
            return self % 2
        return cint(self) & (cint(o) if isinstance(o, Num) else o)

    __rand__ = __and__

    def __rshift__(self, o):
        return self // (2 ** cint(o))

    def __lshift__(self, o):
        return self * (2 ** cint(o))

    def __abs__(self):
        if not self.is_real():
            return nsqrt((self * self.conjugate()).withk(1))
        k = min(self.k, 1)
        if self.is_const():
            return (self if sign_const(self) >= 0 else -self).withk(k)
        if HOOK is not None and HOOK.nonneg(self):
            return self.withk(k)
        return Lazy("abs", (self,), k)

    def conjugate(self):
        if self.is_real():
            return self
        return Num({k: (-c if k[0] < 0 else c) for k, c in self.t.items()}, self.d, self.D, self.k)

    conj = conjugate

    @property
    def real(self):
        k = min(self.k, 1)
        if self.is_real():
            return self.withk(k)
        return _norm({kk: c for kk, c in self.t.items() if kk[0] > 0}, self.d, self.D, k)

    @property
    def imag(self):
        k = min(self.k, 1)
        t = {((-kk[0],) + kk[1:]): c for kk, c in self.t.items() if kk[0] < 0}
        return _norm(t, self.d, self.D, k)

    def sqrt(self):
        return nsqrt(self)

    def item(self):
        return self

    def _arr(self):
        from . import arr
        return arr.sarr(self)

    def reshape(self, *shape, **k):
        return self._arr().reshape(*shape)

    def ravel(self, *a):
        return self._arr().reshape(-1)

    flatten = ravel

    def sum(self, *a, **k):
        return self

    def transpose(self, *a):
        return self

    T = property(lambda self: self)
    size = 1

    @property
    def dtype(self):
        return np.dtype(("int64", "float64", "complex128")[self.k])

    ndim = 0
    shape = ()
    size = 1

    # ---- comparisons
    def _cmp(self, o, op):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return compare(self, o2, op)

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return np.equal(_wrap0(self), o)
        return self._cmp(o, "==")

    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            return np.not_equal(_wrap0(self), o)
        r = self._cmp(o, "==")
        return r if r is NotImplemented else lnot(r)

    def __lt__(self, o):
        if isinstance(o, np.ndarray):
            return np.less(_wrap0(self), o)
        return self._cmp(o, "<")

    def __le__(self, o):
        if isinstance(o, np.ndarray):
            return np.less_equal(_wrap0(self), o)
        return self._cmp(o, "<=")

    def __gt__(self, o):
        if isinstance(o, np.ndarray):
            return np.greater(_wrap0(self), o)
        return self._cmp(o, ">")

    def __ge__(self, o):
        if isinstance(o, np.ndarray):
            return np.greater_equal(_wrap0(self), o)
        return self._cmp(o, ">=")

    def __hash__(self):
        if self.is_rat():
            return hash(self.frac())
        if self.is_const():
            return hash(frozenset(self.t.items()))
        return 0x5eed

    def __bool__(self):
        return bool(lnot(compare(self, ZERO, "==")))

    def __index__(self):
        return cint(self)

    def __int__(self):
        return cint(trunc(self))

    def __float__(self):
        if self.is_const():
            return feval(self)
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        if self.is_const():
            return ceval(self)
        raise Unsupported("complex() of a symbolic value")

    def __round__(self, n=None):
        if n is not None and n != 0:
            raise Unsupported("round to digits")
        return nround(self)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return nfloor(self)

    def __ceil__(self):
        return -nfloor(-self)

    def is_integer(self):
        return self == nround(self)

    @property
    def numerator(self):
        if self.k == 0:
            return self
        if self.is_rat():
            return self.frac().numerator
        if HOOK.denominator(self) == 1:
            return nround(self)
        raise Unsupported("numerator")

    @property
    def denominator(self):
        if self.k == 0:
            return 1
        if self.is_rat():
            return self.frac().denominator
        return HOOK.denominator(self)

    def astype(self, dt):
        return np_astype(self, dt)

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def __repr__(self):
        if self.is_rat():
            return f"{self.frac()}"
        s = "+".join(f"{c}*{keystr(k)}" for k, c in list(self.t.items())[:8])
        if self.d != 1:
            s = f"({s})/{self.d}"
        if self.D:
            s += "/D" + str(dict(self.D))
        return s

    def __format__(self, spec):
        return repr(self)


HOOK = None       # the engine


def keystr(k):
    s = [] if k[0] == 1 else [f"r({k[0]})"]
    for i in range(1, len(k), 2):
        v = T.vars.get(k[i])
        s.append((v.name if v else f"v{k[i]}") + (f"^{k[i+1]}" if k[i + 1] > 1 else ""))
    return "*".join(s) or "1"


def _wrap0(x):
    from .arr import wrap0
    return wrap0(x)


def np_astype(x, dt):
    from .arr import wrap0, unwrap0
    return unwrap0(wrap0(x).astype(dt))


def _norm(t, d, D, k):
    if not t:
        return Num({}, 1, None, k)
    if D:
        D2 = {}
        for p, e in D.items():
            poly = T.polys[p]
            while e:
                if len(t) > 600:
                    break
                q = None
                if len(t) >= len(poly):
                    q = _pdiv(t, poly)
                if q is None:
                    break
                t = q
                e -= 1
            if e:
                D2[p] = e
        D = D2 or None
    else:
        D = None
    g = d
    if g != 1:
        for c in t.values():
            g = gcd(g, c)
            if g == 1:
                break
        if g != 1:
            t = {kk: c // g for kk, c in t.items()}
            d //= g
    return Num(t, d, D, k)


def _addD(a, b, k):
    D1, D2 = a.D or {}, b.D or {}
    L = dict(D1)
    for p, e in D2.items():
        if e > L.get(p, 0):
            L[p] = e
    ta, tb = a.t, b.t
    for p, e in L.items():
        for _ in range(e - D1.get(p, 0)):
            ta = _pmul(ta, T.polys[p])
        for _ in range(e - D2.get(p, 0)):
            tb = _pmul(tb, T.polys[p])
    g = gcd(a.d, b.d)
    t = _padd(ta, tb, b.d // g, a.d // g)
    return _norm(t, a.d // g * b.d, L, k)


def _smallest_prime(n):
    n = abs(n)
    if n == 1:
        return None
    p = 2
    while p * p <= n:
        if n % p == 0:
            return p
        p += 1
    return n


ZERO = Num({}, 1, None, 0)
ZERO_F = Num({}, 1, None, 1)
ONE_I = Num({ONE: 1}, 1, None, 0)
ONE_F = Num({ONE: 1}, 1, None, 1)
J = Num({I_KEY: 1}, 1, None, 2)
_small_i = {n: Num({ONE: n} if n else {}, 1, None, 0) for n in range(-64, 257)}


def from_fraction(f, k=1):
    return Num({ONE: f.numerator} if f.numerator else {}, f.denominator, None, k)


_fl = {}


def float_fraction(x):
    f = _fl.get(x)
    if f is None:
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("nan/inf in exact arithmetic")
        f = Fraction(x)
        if f.denominator > (1 << 20):
            f2 = Fraction(repr(x))
            if f2.denominator > 10 ** 12:
                r = recognise(x)
                if r is not None:
                    _fl[x] = r
                    return r
                T.inexact = True
            f = f2
        _fl[x] = f
    return f


def recognise(x):
    """nearest small rational within 1e-13 relative, as Fraction, else None (float artefacts)"""
    f = Fraction(x).limit_denominator(5000)
    if abs(float(f) - x) <= 4e-15 * max(1.0, abs(x)):
        return f
    return None


def recognise_num(x, tol=1e-10, k=1):
    """nearest rational / square root of a rational as an exact Num; None if nothing is near"""
    if abs(x) < tol:
        return Num({}, 1, None, k)
    f = Fraction(x).limit_denominator(720)
    if abs(float(f) - x) <= tol * max(1.0, abs(x)):
        return from_fraction(f, k)
    f = Fraction(x * x).limit_denominator(20000)
    if f > 0 and abs(fsqrt(float(f)) - abs(x)) <= tol * max(1.0, abs(x)):
        r = sqrt_fraction(f)
        return (r if x > 0 else -r).withk(k)
    return None


def lift(x):
    c = x.__class__
    if c is Num:
        return x
    if c is int:
        if -64 <= x <= 256:
            return _small_i[x]
        return Num({ONE: x}, 1, None, 0)
    if c is float:
        if x == 0.0:
            return ZERO_F
        return from_fraction(float_fraction(x), 1)
    if c is Lazy:
        return x
    if c is bool or c is np.bool_:
        return _small_i[int(x)]
    if c is Fraction:
        return from_fraction(x, 1)
    if c is complex or isinstance(x, np.complexfloating):
        return (lift(float(x.real)) + J * lift(float(x.imag))).withk(2)
    if isinstance(x, np.integer):
        return lift(int(x))
    if isinstance(x, np.floating):
        return lift(float(x))
    if isinstance(x, SymBool):
        return lift(1 if bool(x) else 0)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x[()])
    if hasattr(x, "_sx_num"):
        return x._sx_num()
    return None


def lift_or_raise(x):
    r = lift(x)
    if r is None:
        raise TypeError(f"not a number: {type(x)}")
    return r


# ---------------------------------------------------------------- evaluation of constants
def feval(x):
    return ceval(x).real


def _mpval(x, prec=60):
    import mpmath
    with mpmath.workdps(prec):
        re, im = mpmath.mpf(0), mpmath.mpf(0)
        for k, c in x.t.items():
            v = mpmath.mpf(c) * mpmath.sqrt(abs(k[0]))
            if k[0] < 0:
                im += v
            else:
                re += v
        return re / x.d, im / x.d


def ceval(x):
    re = im = 0.0
    sc = 0.0
    try:
        for k, c in x.t.items():
            v = c * fsqrt(abs(k[0]))
            sc = max(sc, abs(v))
            if k[0] < 0:
                im += v
            else:
                re += v
        if sc == 0 or (abs(re) + abs(im) > 1e-6 * sc):
            return complex(re / x.d, im / x.d)
    except OverflowError:
        pass
    r, i = _mpval(x)
    return complex(float(r), float(i))


def sign_const(x):
    t = x.t
    if not t:
        return 0
    if len(t) == 1:
        (k, c), = t.items()
        return 1 if c > 0 else -1
    s = 0.0
    a = 0.0
    try:
        for k, c in t.items():
            v = c * fsqrt(k[0])
            s += v
            a += abs(v)
        if abs(s) > 1e-9 * a:
            return 1 if s > 0 else -1
    except OverflowError:
        pass
    for prec in (60, 200, 1000):
        r, _ = _mpval(x, prec)
        if abs(r) > 10.0 ** (-prec // 2):
            return 1 if r > 0 else -1
    raise Unsupported("sign of a constant")


# ---------------------------------------------------------------- square roots
def sqrt_fraction(f):
    n, d = f.numerator, f.denominator
    a1, b1 = squarefree_c(n)
    a2, b2 = squarefree_c(d)
    # sqrt(n/d) = a1 sqrt(b1) / (a2 sqrt(b2)) = a1 sqrt(b1 b2) / (a2 b2)
    c, r = _radmul(b1, b2)
    g = gcd(a1 * c, a2 * b2)
    return Num({(r,): a1 * c // g}, a2 * b2 // g, None, 1)


def nsqrt(x):
    x = lift_or_raise(x)
    if not x.t:
        return ZERO_F
    if x.is_rat():
        f = x.frac()
        if f > 0:
            return sqrt_fraction(f)
        if x.k == 2:
            return (sqrt_fraction(-f) * J).withk(2)
        raise Unsupported("sqrt of a negative number")
    if not x.is_real():
        raise Unsupported("sqrt of a complex number")
    if x.is_const():
        # nested radical: try a + b sqrt(r) = (sqrt u + sqrt v)^2
        r = _denest(x)
        if r is not None:
            return r
        val = feval(x)
        if val <= 0:
            raise Unsupported("sqrt of a negative constant")
        return _sqrtvar(x, fsqrt(val))
    # polynomial: perfect square?
    ps = _perfect_square(x)
    if ps is not None:
        return abs(ps)
    return _sqrtvar(x, None)


def _denest(x):
    ks = list(x.t)
    if len(ks) != 2 or ONE not in x.t:
        return None
    r = ks[0][0] if ks[0] != ONE else ks[1][0]
    a = Fraction(x.t[ONE], x.d)
    b = Fraction(x.t[(r,)], x.d)
    disc = a * a - b * b * r
    if disc < 0:
        return None
    n, d = disc.numerator, disc.denominator
    if isqrt(n) ** 2 != n or isqrt(d) ** 2 != d:
        return None
    s = Fraction(isqrt(n), isqrt(d))
    u, v = (a + s) / 2, (a - s) / 2
    if u < 0 or v < 0:
        return None
    ru, rv = lift(0.0) if u == 0 else sqrt_fraction(u), lift(0.0) if v == 0 else sqrt_fraction(v)
    return ru + rv if b > 0 else ru - rv


def _perfect_square(x):
    """x = c * m^2 or (linear form)^2 for simple cases; returns a root or None"""
    if x.D:
        # sqrt(N/D): only if all exponents even
        if all(e % 2 == 0 for e in x.D.values()):
            top = _perfect_square(Num(x.t, x.d, None, 1))
            if top is None:
                return None
            den = lift(1.0)
            for p, e in x.D.items():
                for _ in range(e // 2):
                    den = den * Num(T.polys[p], 1, None, 1)
            return top * den.inv()
        return None
    if len(x.t) == 1:
        (k, c), = x.t.items()
        if k[0] == 1 and c > 0 and all(e % 2 == 0 for e in k[2::2]) :
            flat = []
            for i in range(1, len(k), 2):
                flat += [k[i], k[i + 1] // 2]
            return sqrt_fraction(Fraction(c, x.d)) * Num({(1, *flat): 1}, 1, None, 1)
        return None
    # polynomial square root by leading terms (rational coefficients)
    lead = max(x.t, key=_order)
    if lead[0] != 1 or any(e % 2 for e in lead[2::2]) or x.t[lead] <= 0:
        return None
    n = x.t[lead]
    rt = isqrt(n * x.d)
    if rt * rt != n * x.d or len(x.t) > 40:
        return None
    flat = []
    for i in range(1, len(lead), 2):
        flat += [lead[i], lead[i + 1] // 2]
    lk = (1, *flat)
    # work with integer polynomial X = x.t * x.d = R^2
    X = {k: c * x.d for k, c in x.t.items()}
    R = {lk: rt}
    rem = _padd(X, _pmul(R, R), 1, -1)
    n = 0
    while rem:
        n += 1
        if n > 20:
            return None
        k = max(rem, key=_order)
        m = _dkey(k, lk)
        if m is None or rem[k] % (2 * rt) or m in R:
            return None
        R = _padd(R, {m: rem[k] // (2 * rt)})
        rem = _padd(X, _pmul(R, R), 1, -1)
    return Num(R, 1, None, 1) * Num({ONE: 1}, x.d, None, 1)


def _sqrtvar(x, val):
    """sqrt of a nonnegative real expression as a fresh variable s with s^2 = e"""
    # sqrt(N/(d*D)) = sqrt(N*d*D')/(d*D'') with D' squarefree part
    N = x.t
    d = x.d
    den = Num({ONE: d}, 1, None, 1)
    for p, e in (x.D or {}).items():
        poly = Num(T.polys[p], 1, None, 1)
        for _ in range((e + 1) // 2):
            den = den * poly
        if e & 1:
            N = _pmul(N, T.polys[p])
            if HOOK is not None and not HOOK.nonneg(poly):
                if not (poly > 0):
                    den = -den
        elif HOOK is not None and (e // 2) % 2 == 1 and not HOOK.nonneg(poly):
            if not (poly > 0):
                den = -den
    N = {k: c * d for k, c in N.items()}
    # pull out square content
    g = _content(N)
    a, _ = squarefree_c(g)
    if a > 1:
        N = {k: c // (a * a) for k, c in N.items()}
    key = frozenset(N.items())
    v = T.sqrtmemo.get(key)
    if v is None:
        if val is None and HOOK is not None:
            HOOK.require_nonneg(Num(N, 1, None, 1))
        fv = None
        if val is not None:
            fv = fsqrt(feval(Num(N, 1, None, 1)))
        v = new_var(f"s{len(T.vars)+1}", "real", role="sqrt", defn=N, val=fv)
        T.sqrtmemo[key] = v
    s = Num({(1, v.id, 1): a}, 1, None, 1)
    return s * den.inv()


# ---------------------------------------------------------------- division, powers, rounding
def divide(a, b):
    k = max(a.k, b.k, 1)
    if b.is_rat():
        f = b.frac()
        if f == 0:
            raise ZeroDivisionError("division by zero")
        n, d = f.numerator, f.denominator
        if n < 0:
            n, d = -n, -d
        return _norm({kk: c * d for kk, c in a.t.items()}, a.d * n, a.D, k)
    if not b.t:
        raise ZeroDivisionError("division by zero")
    if not b.is_const():
        if bool(compare(b, ZERO, "==")):
            raise ZeroDivisionError("division by a value that can be zero")
    if not a.t:
        return Num({}, 1, None, k)
    return (a * b.inv()).withk(k)


def floordiv(a, b):
    if a.is_rat() and b.is_rat():
        r = a.frac() // b.frac()
        return Num({ONE: r} if r else {}, 1, None, max(a.k, b.k))
    if a.is_const() and b.is_const():
        return nfloor(divide(a, b)).withk(max(a.k, b.k))
    return HOOK.floordiv(a, b)


def nfloor(x):
    x = lift_or_raise(x)
    if x.k == 0:
        return x
    if x.is_rat():
        f = x.frac()
        return lift(f.numerator // f.denominator)
    if x.is_const():
        n = int(np.floor(feval(x)))
        while sign_const(x - n) < 0:
            n -= 1
        while sign_const(x - (n + 1)) >= 0:
            n += 1
        return lift(n)
    return HOOK.floor(x)


def nround(x):
    x = lift_or_raise(x)
    if x.k == 0:
        return x
    if x.is_rat():
        return lift(round(x.frac()))
    if x.is_const():
        return nfloor(x + Fraction(1, 2))
    return HOOK.round(x)


def trunc(x):
    if x.k == 0:
        return x
    if x.is_rat():
        f = x.frac()
        n = abs(f.numerator) // f.denominator
        return lift(n if f >= 0 else -n)
    if not x.is_real():
        raise TypeError("int() of a complex number")
    if HOOK.integer_valued(x):
        return x.withk(0)
    if x >= 0:
        return nfloor(x)
    return -nfloor(-x)


def cint(x):
    """a native int (symbolic values are concretised by forking)"""
    if x.__class__ is int:
        return x
    x = lift_or_raise(x)
    if x.is_rat():
        f = x.frac()
        if f.denominator != 1:
            raise TypeError("not an integer")
        return f.numerator
    if x.is_const():
        raise TypeError("not an integer")
    return HOOK.concretise(x)


def exact_native(f, k):
    """native number for a Fraction when it is exactly representable and simple"""
    d = f.denominator
    if d & (d - 1) == 0 and d <= 1 << 20 and abs(f.numerator) < 1 << 50:
        return float(f)
    return from_fraction(f, max(k, 1))


def power(a, b):
    """exact a ** b; native results where python would give ints"""
    if isinstance(b, Num) and b.is_rat():
        f = b.frac()
        b = f.numerator if (f.denominator == 1 and b.k == 0) else (float(f) if b.k == 1 else f)
    if a.__class__ is Lazy and a.kind == "abs" and a.v is None and isinstance(b, (int, float, np.number)) and b % 2 == 0:
        a = a.args[0].withk(a.k)
    if isinstance(b, float) and b == 0.5:
        return nsqrt(a)
    if isinstance(b, float) and b == -0.5:
        return divide(lift(1.0), nsqrt(a))
    intres = isinstance(b, int) or isinstance(b, np.integer)
    if isinstance(b, (float, Fraction, np.floating)):
        if b == int(b):
            bi = int(b)
        else:
            bb = Fraction(b)
            if bb.denominator == 2:
                return power(nsqrt(a), bb.numerator)
            raise Unsupported(f"power {b}")
    elif intres:
        bi = int(b)
    elif isinstance(b, Num):
        if b.k == 0:
            an = lift(a)
            if an.is_rat() and an.frac() in (1, -1):
                if an.frac() == 1:
                    return an
                par = b % 2
                return ONE_I - 2 * par if not par.is_const() else lift(1 if par == 0 else -1)
            bi = cint(b)
        else:
            raise Unsupported("symbolic power")
    else:
        raise TypeError("power")
    if isinstance(a, int) and not isinstance(a, bool) and intres and bi >= 0:
        return a ** bi
    an = lift(a)
    if an is None:
        raise TypeError("power")
    if bi < 0:
        an = divide(lift(1.0), an)
        bi = -bi
    r = lift(1).withk(an.k)
    base = an
    while bi:
        if bi & 1:
            r = r * base
        bi >>= 1
        if bi:
            base = base * base
    if not intres:
        r = r.withk(max(r.k, 1))
    return r


# ---------------------------------------------------------------- formulas
class SymBool:
    """op: eq0 (num), lt0, le0, and, or, not"""
    __slots__ = ("op", "args", "_h")

    def __init__(self, op, args):
        self.op, self.args = op, args

    def __bool__(self):
        return HOOK.decide(self)

    def __and__(self, o):
        return land([self, o])

    __rand__ = __and__

    def __or__(self, o):
        return lor([self, o])

    __ror__ = __or__

    def __invert__(self):
        return lnot(self)

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else lnot(self)
        if isinstance(o, SymBool):
            return lor([land([self, o]), land([lnot(self), lnot(o)])])
        n = lift(o)
        if n is not None:
            return lift(self) == n
        return NotImplemented

    def __ne__(self, o):
        return lnot(self == o)

    __hash__ = None

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return lift(self) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return lift(self) + o

    __radd__ = __add__

    def logical_not(self):
        return lnot(self)

    def __repr__(self):
        return f"{self.op}({', '.join(map(repr, self.args))})"


def lnot(b):
    if b is True or b is False:
        return not b
    if isinstance(b, np.bool_):
        return not bool(b)
    if b.op == "not":
        return b.args[0]
    return SymBool("not", (b,))


def land(bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            if b.op == "and":
                out.extend(b.args)
            else:
                out.append(b)
        elif isinstance(b, Num):
            r = lnot(compare(b, ZERO, "=="))
            if isinstance(r, SymBool):
                out.append(r)
            elif not r:
                return False
        elif not b:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool("and", tuple(out))


def lor(bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            if b.op == "or":
                out.extend(b.args)
            else:
                out.append(b)
        elif isinstance(b, Num):
            r = lnot(compare(b, ZERO, "=="))
            if isinstance(r, SymBool):
                out.append(r)
            elif r:
                return True
        elif b:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool("or", tuple(out))


def numerator_poly(x):
    """Num with the same sign/zero set when the denominator is positive: returns (Num without D, needs_sign)"""
    return x


def _sgn_poly(x):
    """a polynomial with the sign of x (multiply by squares of odd denominators)"""
    if not x.D:
        return Num(x.t, 1, None, 1 if x.k == 1 else x.k)
    t = x.t
    for p, e in x.D.items():
        if e & 1:
            pn = Num(T.polys[p], 1, None, 1)
            if HOOK is not None and HOOK.nonneg(pn):
                continue
            t = _pmul(t, T.polys[p])
    return Num(t, 1, None, x.k)


class Lazy(Num):
    """|x|, max(xs) or min(xs) whose value is only decided when it is needed

    A comparison with it is a formula over the candidates, which does not split the path.
    """
    __slots__ = ("kind", "args", "v")

    def __init__(self, kind, args, k):
        self.kind, self.args, self.v = kind, args, None
        Num.k.__set__(self, k)

    def force(self):
        if self.v is None:
            if self.kind == "abs":
                x = self.args[0]
                self.v = x if compare(x, ZERO, ">=") else -x
            else:
                op = ">=" if self.kind == "max" else "<="
                m = self.args[0]
                for x in self.args[1:]:
                    if not compare(forced(m), forced(x), op):
                        m = x
                self.v = forced(m)
            self.v = self.v.withk(self.k)
        return self.v

    t = property(lambda self: self.force().t)
    d = property(lambda self: self.force().d)
    D = property(lambda self: self.force().D)

    def withk(self, k):
        return self if k == self.k else (Lazy(self.kind, self.args, k) if self.v is None else self.v.withk(k))

    def __abs__(self):
        return self if self.kind == "abs" else abs(self.force())

    def __mul__(self, o):
        if o is self and self.kind == "abs" and self.v is None:
            return (self.args[0] * self.args[0]).withk(self.k)
        return Num.__mul__(self, o)

    __rmul__ = __mul__


def forced(x):
    return x.force() if x.__class__ is Lazy else x


def extreme(xs, mx):
    """max or min of numbers"""
    kind = "max" if mx else "min"
    ys = []
    for x in xs:
        if x.__class__ is Lazy and x.v is None and x.kind == kind:
            ys += x.args
        else:
            ys.append(x)
    consts = [y for y in ys if y.__class__ is Num and y.is_const()]
    rest = [y for y in ys if not (y.__class__ is Num and y.is_const())]
    if consts:
        c = consts[0]
        for y in consts[1:]:
            if compare(y, c, ">" if mx else "<"):
                c = y
        # a constant that is not above 0 is never the largest of absolute values
        if not rest:
            return c
        if not (mx and sign_const(c) <= 0 and all(y.__class__ is Lazy and y.kind == "abs" for y in rest)):
            rest.append(c)
    if len(rest) == 1:
        return rest[0]
    return Lazy(kind, tuple(rest), max(y.k for y in rest))


def compare_lazy(a, b, op):
    if a.__class__ is not Lazy or a.v is not None:
        if b.__class__ is Lazy and b.v is None:
            return compare_lazy(b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op))
        return compare(forced(a), forced(b), op)
    b = forced(b)
    small = b.is_rat() and 0 <= b.frac() <= SMALL
    if op in (">", ">="):
        if a.kind == "abs":
            return lnot(compare_lazy(a, b, "<=" if op == ">" else "<"))
        return (lor if a.kind == "max" else land)([compare(x, b, op) for x in a.args])
    if op in ("<", "<="):
        if a.kind != "abs":
            return (land if a.kind == "max" else lor)([compare(x, b, op) for x in a.args])
        if small:
            if op == "<" and not b.t:
                return False
            if b.t and HOOK is not None:
                HOOK.note_threshold()
            return compare(a.args[0], ZERO_F, "==")
        if b.is_rat() and (b.frac() < 0 or not b.t and op == "<"):
            return False
        return land([compare(a.args[0], b, op), compare(-a.args[0], b, op)])
    if a.kind == "abs" and not b.t:
        return compare(a.args[0], ZERO, "==")
    return compare(a.force(), b, op)


def compare(a, b, op):
    if a.__class__ is Lazy or b.__class__ is Lazy:
        return compare_lazy(a, b, op)
    x = a - b
    if not x.t:
        return op in ("==", "<=", ">=")
    if op == "==":
        if not x.is_const_num():
            if x.is_real():
                t = x.t
                if len(t) == 1:
                    (k, c), = t.items()
                    if len(k) == 3:
                        v = T.vars[k[1]]
                        t = v.defn if v.defn is not None else {(1, k[1], 1): 1}
                return SymBool("eq0", (Num(t, 1, None, x.k),))
            return land([compare(Num(p.t, 1, None, 1), ZERO, "==") for p in (x.real, x.imag) if p.t] or [True])
        return False
    if not x.is_real():
        raise TypeError("ordering of complex numbers")
    if x.is_const():
        s = sign_const(x)
        return {"<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0}[op]
    # idealise comparisons with tiny thresholds
    for y, z, flip in ((b, a, False), (a, b, True)):
        if y.t and y.is_rat() and y.k == 1:
            f = y.frac()
            if 0 < abs(f) <= SMALL:
                o = op
                if flip:
                    o = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
                # z o f
                if f > 0:
                    o = {"<": "<=", "<=": "<=", ">": ">", ">=": ">"}[o]
                else:
                    o = {"<": "<", "<=": "<", ">": ">=", ">=": ">="}[o]
                if HOOK is not None:
                    HOOK.note_threshold()
                return compare(z, ZERO_F, o)
    p = _sgn_poly(x)
    if len(p.t) == 1:
        (k, c), = p.t.items()
        if len(k) == 3 and k[2] == 1 and k[0] > 0 and T.vars[k[1]].defn is not None:
            # c * sqrt(e): only zero or of the sign of c
            z = compare(Num(T.vars[k[1]].defn, 1, None, 1), ZERO_F, "==")
            if c > 0:
                return {"<": False, ">=": True, "<=": z, ">": lnot(z)}[op]
            return {"<": lnot(z), ">=": z, "<=": True, ">": False}[op]
        if len(k) == 3 and k[2] == 1 and k[0] == 1:
            p = Num({k: 1 if c > 0 else -1}, 1, None, p.k)
    if op in (">", ">="):
        p = -p
        op = "<" if op == ">" else "<="
    return SymBool("lt0" if op == "<" else "le0", (p,))


def _is_const_num(self):
    for k in self.t:
        if len(k) > 1:
            return False
    return True


Num.is_const_num = _is_const_num
