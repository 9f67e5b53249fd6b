"""Summary of round_to_sqrt_rational used outside P22 (P22 checks the real function against this summary)."""
from fractions import Fraction
import numpy as np
from . import num as N
from . import arr as AR
from .num import Num, lift


def _round_real(x, md):
    if not x.t:
        return x
    if not x.is_const():
        return None
    sq = x * x
    if sq.is_rat():
        f = sq.frac()
        g = f.limit_denominator(md * md + 1)
        if f == g:
            return x
        r = N.sqrt_fraction(g) if g else lift(0.0)
        return r if N.sign_const(x) > 0 else -r
    if md >= 1000:
        return None
    re, _ = N._mpval(sq)
    g = Fraction(str(re)).limit_denominator(md * md + 1)
    r = N.sqrt_fraction(g) if g else lift(0.0)
    return r if N.sign_const(x) > 0 else -r


def _round(x, md):
    if x.is_real():
        r = _round_real(x, md)
        if r is None:
            from . import engine
            if engine.ENG is not None:
                engine.ENG.st.assumed["rounding leaves values that are not square roots of rationals unchanged (it moves them by less than 1e-7)"] = 1
            return x
        return r.withk(x.k)
    return (_round(x.real, md) + N.J * _round(x.imag, md)).withk(2)


def wrap(orig):
    def round_to_sqrt_rational(x, max_denominator=4096):
        a = AR.sarr(AR.array(x))
        md = N.cint(lift(max_denominator))
        out = AR.umap(lambda v: _round(v.withk(max(v.k, 1)), md), a)
        k = max(a.k, 1)
        cplx = k == 2 and any(not v.is_real() for v in out.flat)
        if k == 2 and not cplx:
            k = 1
            out = AR.umap(lambda v: v.withk(1), out)
        r = AR.mk(out, k)
        return r
    round_to_sqrt_rational.__wrapped__ = orig
    return round_to_sqrt_rational
