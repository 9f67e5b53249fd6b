"""Runs a harness on the real library with concrete inputs. Server: one JSON request per line."""
import contextlib
import importlib
import io
import json
import os
import signal
import sys
import traceback
import warnings
from fractions import Fraction
import numpy as np


class Skip(BaseException):
    pass


class Fail(BaseException):
    pass


class RealCtx:
    sym = False
    np = np
    TOL = 1e-5

    def __init__(self, values):
        self.values = values
        self.failures = []
        self.checks = 0

    def mod(self, name="lie_nn"):
        return importlib.import_module(name)

    lie = property(lambda self: self.mod())
    util = property(lambda self: self.mod("lie_nn._src.util"))

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        v = int(Fraction(self.values[name])) if name in self.values else (lo if lo is not None else (hi if hi is not None else 0))
        return v

    def real(self, name):
        return float(Fraction(self.values[name])) if name in self.values else 1.0

    def pick(self, name, lo, hi):
        return self.int(name, lo, hi)

    def choice(self, name, seq):
        seq = list(seq)
        return seq[self.pick(name, 0, len(seq) - 1)]

    def num(self, x):
        return int(x)

    def arr(self, name, shape, kind="real"):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype={"real": np.float64, "complex": np.complex128, "int": np.int64}[kind])
        for i in np.ndindex(shape):
            nm = name + "".join(f"_{j}" for j in i)
            if kind == "complex":
                out[i] = self.real(nm + "r") + 1j * self.real(nm + "i")
            elif kind == "int":
                out[i] = self.int(nm)
            else:
                out[i] = self.real(nm)
        return out

    def herm(self, name, n, kind="complex", anti=False):
        out = np.zeros((n, n), dtype=complex if kind == "complex" else float)
        for i in range(n):
            for j in range(i, n):
                re = self.real(f"{name}_{i}_{j}r") if (i != j or not anti) else 0.0
                z = re
                if kind == "complex":
                    z = z + 1j * (self.real(f"{name}_{i}_{j}i") if (i != j or anti) else 0.0)
                out[i, j] = z
                if i != j:
                    out[j, i] = -np.conj(z) if anti else np.conj(z)
        return out

    def const(self, x, kind=None):
        return np.array(x, dtype={None: None, "int": np.int64, "real": np.float64, "complex": np.complex128}[kind])

    def q(self, n, d=1):
        return n / d

    def sqrt(self, x):
        return np.sqrt(x)

    j = 1j

    def numeral(self, name, digits, unbounded=True):
        v, t = 0, ""
        for i in range(digits):
            x = self.int(f"{name}_{i}", 1 if i == 0 and digits > 1 else 0)
            t += str(x)
            v = v * 10 + x
        return t, v

    def assume(self, b):
        if not np.all(b):
            raise Skip()

    def And(self, *bs):
        return all(bool(np.all(b)) for b in bs)

    def Or(self, *bs):
        return any(bool(np.all(b)) for b in bs)

    def Not(self, b):
        return not bool(np.all(b))

    def decide(self, b):
        return bool(np.all(b))

    def fail(self, label, why=""):
        self.failures.append((label, why or "reached"))
        raise Fail()

    def true(self, b, label):
        self.checks += 1
        if not bool(np.all(b)):
            self.failures.append((label, "false"))

    def eq(self, a, b, label):
        self.checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            if a.ndim and b.ndim:
                return self.fail(label, f"shapes {a.shape} and {b.shape}")
            a, b = np.broadcast_arrays(a, b)
        if a.size == 0:
            return
        if a.dtype.kind == "O" or b.dtype.kind == "O":
            a, b = a.astype(complex), b.astype(complex)
        if a.dtype.kind in "iub" and b.dtype.kind in "iub":
            d = a.astype(object) - b.astype(object)
            if np.any(d != 0):
                self.failures.append((label, f"integers differ by {np.abs(d).max()}"))
            return
        with np.errstate(all="ignore"):
            d = np.abs(a - b)
            fin = np.concatenate([np.abs(a[np.isfinite(a)]).ravel(), np.abs(b[np.isfinite(b)]).ravel(), [1.0]])
        m = np.max(np.where(np.isfinite(d), d, np.inf))
        if not m <= self.TOL * fin.max():
            self.failures.append((label, f"largest difference {m:.6g}"))

    def raises(self, label, fn, *exc):
        self.checks += 1
        try:
            fn()
        except (exc or (Exception,)):
            return
        self.fail(label, "no exception was raised")

    def attempt(self, fn, *exc):
        try:
            return True, fn()
        except (exc or (Exception,)) as e:
            return False, e

    def randoms(self, vals):
        self.rands = [float(x) for x in vals]
        old = self.rand0

        def rand(*shape):
            n = int(np.prod(shape)) if shape else 1
            if len(self.rands) < n:
                return old(*shape)
            r, self.rands = self.rands[:n], self.rands[n:]
            return np.array(r).reshape(shape) if shape else r[0]
        np.random.rand = rand

    rand0 = staticmethod(np.random.rand)

    def eig_hint(self, vectors):
        pass

    def expm(self, a):
        from scipy.linalg import expm
        return expm(a)

    def shape(self, a, shape, label):
        self.true(tuple(a.shape) == tuple(shape), label)

    def snapshot(self, a):
        return a.copy()

    def is_real_dtype(self, a):
        return np.asarray(a).dtype.kind != "c"

    def kernel(self, m):
        import scipy.linalg
        m = np.asarray(m)
        if m.shape[0] == 0:
            return list(np.eye(m.shape[1]))
        return list(scipy.linalg.null_space(m, rcond=1e-9).T)

    def rank(self, m):
        m = np.asarray(m)
        if m.shape[0] == 0 or m.shape[1] == 0:
            return 0
        return int(np.linalg.matrix_rank(m, tol=1e-7 * max(1.0, np.abs(m).max())))


class Timeout(BaseException):
    pass


def run(check, name, cfg, values, limit=120, seeds=(0,)):
    from . import h
    hs = h.load(check)
    res = None
    for seed in seeds:
        c = RealCtx(values)
        np.random.seed(seed)
        exc = None
        status = "ok"

        def onalarm(*_):
            raise Timeout()
        signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(limit)
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                hs[name].fn(c, **cfg)
        except Skip:
            status = "skip"
        except Fail:
            pass
        except Timeout:
            status = "timeout"
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if "lie_nn" in f.filename][-3:]
            exc = f"{type(e).__name__}: {str(e)[:200]} at {' '.join(where)}"
            if h.internal_missing(e, tb):
                status = "skip"
            else:
                c.failures.append(("exception", exc))
        finally:
            signal.alarm(0)
            np.random.rand = RealCtx.rand0
        if c.failures and status not in ("skip", "timeout"):
            status = "fail"
        res = {"status": status, "failures": [[str(x) for x in f] for f in c.failures[:5]], "checks": c.checks}
        if status != "fail":
            return res
    return res


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    repo = os.environ.get("SX_REPO", "/repo")
    sys.path.insert(0, repo)
    import lie_nn
    assert os.path.abspath(lie_nn.__file__).startswith(os.path.abspath(repo)), lie_nn.__file__
    out.write("ready\n")
    out.flush()
    for line in sys.stdin:
        q = json.loads(line)
        try:
            r = run(q["check"], q["harness"], q["cfg"], q["values"], q.get("limit", 120), tuple(q.get("seeds", (0,))))
        except Exception as e:
            r = {"status": "error", "failures": [["server", repr(e)]], "checks": 0}
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
