"""The exponential map, numpy and JAX versions."""
from fractions import Fraction
from sx.h import harness
from checks.common import sym_algebra, sym_rep
from checks.p12 import irreps


def x64(c):
    if not c.sym:
        import jax
        jax.config.update("jax_enable_x64", True)


DIAGS = [[1, 1, 1, 1], [-2, 1, 3, 1], [-1, 1, -1, 1], [0.5, -1, 1, 2]]


def unitri(c, name, d, kind, k, diag=0):
    """an invertible matrix: unit lower triangular with k free entries times one of four diagonals (a shear, one without
    finite order, an involution, mixed), and its inverse"""
    np = c.np
    M = np.eye(d, dtype=complex if kind == "complex" else float)
    R = np.eye(d, dtype=complex if kind == "complex" else float)
    pos = [(i, j) for i in range(d) for j in range(i)][:k]
    for n, (i, j) in enumerate(pos):
        E = np.eye(d, dtype=complex if kind == "complex" else float)
        F = np.eye(d, dtype=complex if kind == "complex" else float)
        x = c.real(f"{name}{n}")
        if kind == "complex":
            x = x + c.j * c.real(f"{name}{n}i")
        E[i, j], F[i, j] = x, -x
        M, R = M @ E, F @ R
    w = c.j if kind == "complex" and diag == 1 else 1
    s = [c.q(Fraction(x).numerator, Fraction(x).denominator) * (w if i == 0 else 1) for i, x in enumerate(DIAGS[diag % 4][:d])]
    g = [c.q(Fraction(x).denominator, Fraction(x).numerator) * (-w if i == 0 and w != 1 else 1) for i, x in enumerate(DIAGS[diag % 4][:d])]
    return M @ np.diag(np.array(s)), np.diag(np.array(g)) @ R


def mpow(c, H, Hi, k):
    np = c.np
    r = np.eye(H.shape[0])
    for _ in range(abs(k)):
        r = r @ (H if k > 0 else Hi)
    return r


def expected(c, X, H, Hi, t, k):
    np = c.np
    d = X.shape[1]
    g = np.zeros((d, d))
    for a in range(X.shape[0]):
        g = g + t[a] * X[a]
    out = c.expm(g)
    for i in range(len(H) - 1, -1, -1):
        out = mpow(c, H[i], None if Hi is None else Hi[i], k[i]) @ out
    return out


def shapes(t):
    q = [(1, 0, 1, "real"), (1, 1, 2, "real"), (2, 2, 2, "complex"), (0, 2, 2, "real"), (0, 1, 3, "complex"), (3, 0, 2, "complex"), (2, 1, 3, "real"), (1, 3, 2, "real"), (0, 0, 2, "real"), (7, 0, 2, "real"), (0, 5, 2, "real")]
    th = q + [(2, 2, 3, "complex"), (3, 2, 3, "real"), (1, 3, 3, "real"), (4, 1, 4, "real")]
    return [dict(zip(("n", "nH", "d", "kind"), s)) for s in (q if t == "quick" else th)][::-1]


@harness(shapes, "generators with free entries, all continuous parameters, exponents -2..3 for up to 3 (listed ones for 5) invertible discrete generators with free entries; the matrix exponential is an uninterpreted function of its argument", limit=200, max_replays=8)
def plain(c, n, nH, d, kind):
    np = c.np
    A = sym_algebra(c, n)
    X = c.arr("x", (n, d, d), kind)
    s = c.pick("diag", 0, 3) if nH else 0
    HH = [unitri(c, f"h{i}", d, kind, 1, s + i) for i in range(nH)]
    H = np.stack([h for h, _ in HH]) if nH else np.zeros((0, d, d))
    r = c.lie.GenericRep(A, X, H)
    t = c.arr("t", (n,))
    hi = 3 if nH < 3 else 1
    k = [c.pick(f"k{i}", -2 if i == 0 else -1, hi) for i in range(nH)] if nH < 4 else list(c.choice("k", [(1, 2, -1, 0, 3), (0, 1, 1, 1, 1), (-3, 0, 1, 2, 1)]))
    sX, sH = c.snapshot(X), c.snapshot(H)
    kk = np.array(k) if nH else np.zeros(0, dtype=int)
    out = r.exp_map(t, kk)
    c.shape(out, (d, d), "shape")
    c.eq(out, expected(c, X, [h for h, _ in HH], [g for _, g in HH], t, k), "H_1^n1 H_2^n2 .. exp(t X)")
    c.eq(r.X, sX, "continuous generators not modified")
    c.eq(r.H, sH, "discrete generators not modified")
    if d == 1 or nH:
        c.eq(r.exp_map(0.0 * t, 0 * kk), np.eye(d), "the zero parameters give the identity")


@harness(lambda t: [{"fam": f, "kind": k} for f in ("su2", "z2", "o3", "prod", "sun2", "sl2c", "so13") for k in ("irrep", "multiple", "reduced", "reduced_q")], "all continuous parameters, exponents 0..2, irreps of the listed families alone, repeated, summed and in a changed basis", limit=200, max_replays=6)
def kinds(c, fam, kind):
    lie, np = c.lie, c.np
    rs = irreps(c, fam)
    r = {"irrep": lambda: rs[1], "multiple": lambda: lie.MulIrrep(2, rs[1]),
         "reduced": lambda: lie.ReducedRep.from_irreps([(1, rs[0]), (2, rs[1])]),
         "reduced_q": lambda: lie.change_basis(lie.ReducedRep.from_irreps([(1, rs[0]), (1, rs[1])]), lower(c, rs[0].dim + rs[1].dim))}[kind]()
    X, H = r.X, r.H
    t = c.arr("t", (X.shape[0],))
    k = [c.pick(f"k{i}", 0, 2) for i in range(len(H))]
    out = r.exp_map(t, np.array(k) if k else np.zeros(0, dtype=int))
    c.eq(out, expected(c, X, H, None, t, k), "discrete powers times the exponential")
    if kind in ("multiple", "reduced"):
        c.true(r.dim == X.shape[1], "dimension")


def lower(c, d):
    np = c.np
    Q = np.eye(d)
    if d > 1:
        Q[d - 1, 0] = c.real("q")
    return Q


JK = lambda tier: [{"d": d, "lo": lo, "hi": hi} for d, lo, hi in (((2, 0, 9), (2, 10, 17), (1, 0, 20), (3, 0, 5)) if tier == "quick" else ((2, 0, 9), (2, 10, 17), (2, 18, 26), (2, 27, 34), (1, 0, 40), (1, 60, 70), (3, 0, 5), (3, 6, 9)))][::-1]


@harness(JK, "matrices with free entries, exponents 0..17 / 34", limit=200, max_replays=12)
def jax_power(c, d, lo, hi):
    np = c.np
    x64(c)
    m = c.mod("lie_nn._src.jax_utils")
    F = c.arr("f", (d, d))
    if d == 2:
        c.assume(F[1, 0] == 0)
        F = np.array([[F[0, 0], F[0, 1]], [0.0 * F[0, 0], F[1, 1]]])
    if d == 3:
        F = np.array([[1.0, F[0, 1], 0.0], [0.0, -1.0, F[1, 2]], [0.0, 0.0, F[2, 2]]])
    n = c.pick("n", lo, hi)
    if not c.sym:
        s = float(abs(F).max())
        F = F / (s if s > 1 else 1.0)
    out = m.matrix_power(F, n)
    r = np.eye(d)
    for _ in range(n):
        r = r @ F
    c.eq(np.asarray(out) if not c.sym else out, r, "matrix power")


@harness(lambda t: [{"d": 2, "bits": b} for b in ((5, 7, 10, 16, 31) if t == "quick" else (5, 7, 10, 13, 16, 20, 25, 30, 31))], "large exponents for diagonal matrices of entries 0, 1, -1, i and nilpotent matrices with a free entry", limit=200, max_replays=12)
def jax_power_large(c, d, bits):
    np = c.np
    x64(c)
    m = c.mod("lie_nn._src.jax_utils")
    x = c.real("x")
    n = 2 ** (bits - 1) + c.pick("low", 0, 3) + (2 ** (bits - 2) if c.pick("mid", 0, 1) else 0)
    N = np.array([[1.0, x], [0.0, 1.0]])
    c.eq(asnp(c, m.matrix_power(N, n)), np.array([[1.0, n * x], [0.0, 1.0]]), "power of a shear")
    P = np.array([[0.0, -1.0], [1.0, 0.0]])
    e = [np.eye(2), P, -np.eye(2), -P][n % 4]
    c.eq(asnp(c, m.matrix_power(P, n)), e, "power of a rotation by a quarter turn")


def asnp(c, x):
    return x if c.sym else c.np.asarray(x)


@harness(shapes, "as for the numpy version, exponents 0..3", limit=200, max_replays=8)
def jax_exp(c, n, nH, d, kind):
    np = c.np
    x64(c)
    m = c.mod("lie_nn._src.jax_utils")
    A = sym_algebra(c, n)
    X = c.arr("x", (n, d, d), kind)
    s = c.pick("diag", 0, 3) if nH else 0
    HH = [unitri(c, f"h{i}", d, kind, 1, s + i)[0] for i in range(nH)]
    H = np.stack(HH) if nH else np.zeros((0, d, d))
    r = c.lie.GenericRep(A, X, H)
    t = c.arr("t", (n,))
    k = [c.pick(f"k{i}", 0, 3 if nH < 3 else 2) for i in range(nH)]
    out = m.exp_map(r, t, np.array(k) if nH else np.zeros(0, dtype=int))
    c.shape(out, (d, d), "shape")
    c.eq(asnp(c, out), expected(c, X, HH, None, t, k), "H_1^n1 H_2^n2 .. exp(t X)")
    c.eq(asnp(c, out), r.exp_map(t, np.array(k) if nH else np.zeros(0, dtype=int)), "agrees with the numpy version")
