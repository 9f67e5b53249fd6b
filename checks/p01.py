"""Rotation-group irreps realise their Lie algebra."""
from sx.h import harness


def comm(c, X, i, j):
    return X[i] @ X[j] - X[j] @ X[i]


def check_rep(c, rep, dim, lie, nH, A_ref, real=None, antiherm=False):
    np = c.np
    X = rep.continuous_generators()
    H = rep.discrete_generators()
    A = rep.algebra()
    c.true(rep.dim == dim, "declared dimension")
    c.shape(X, (lie, dim, dim), "shape of X")
    c.shape(H, (nH, dim, dim), "shape of H")
    c.shape(A, (lie, lie, lie), "shape of A")
    c.eq(A, A_ref, "algebra independent of label")
    for i in range(lie):
        for j in range(lie):
            rhs = np.zeros((dim, dim))
            for k in range(lie):
                rhs = rhs + A[i, j, k] * X[k]
            c.eq(comm(c, X, i, j), rhs, "commutation relation")
    if antiherm:
        c.eq(np.conj(np.swapaxes(X, 1, 2)), -X, "anti-Hermitian")
    if real:
        c.true(c.is_real_dtype(X), "real dtype")
        c.eq(np.swapaxes(X, 1, 2), -X, "antisymmetric")
    # nontrivial action: Casimir is the expected multiple of the identity (shows the label is the right one)
    return X, H


def casimir(c, X, val):
    np = c.np
    C = X[0] @ X[0] + X[1] @ X[1] + X[2] @ X[2]
    c.eq(C, -val * np.eye(X.shape[1]), "Casimir")


def js(tier):
    n = 20 if tier == "quick" else 34
    return [{"lo": 2 * i, "hi": 2 * i + 1} for i in range(n // 2 + 1)][::-1]


@harness(js, "2j <= 21 (quick) / 35 (thorough)")
def su2(c, lo, hi):
    j = c.pick("j", lo, hi)
    L = c.mod("lie_nn.irreps")
    rep = L.SU2(j)
    A0 = L.SU2(1).algebra()
    X, H = check_rep(c, rep, j + 1, 3, 0, A0, antiherm=True)
    casimir(c, X, c.q(j * (j + 2), 4))


@harness(lambda t: [{"lo": i, "hi": i} for i in range((12 if t == "quick" else 17))][::-1], "2j <= 11 / 16")
def su2_real(c, lo, hi):
    j = c.pick("j", lo, hi)          # twice the label
    L = c.mod("lie_nn.irreps")
    rep = L.SU2Real(j / 2)
    A0 = L.SU2Real(1).algebra()
    d = j + 1 if j % 2 == 0 else 2 * (j + 1)
    X, H = check_rep(c, rep, d, 3, 0, A0, real=True)
    casimir(c, X, c.q(j * (j + 2), 4))


@harness(lambda t: [{"lo": i, "hi": i} for i in range((12 if t == "quick" else 17))][::-1], "l <= 11 / 16")
def so3(c, lo, hi):
    l = c.pick("l", lo, hi)
    L = c.mod("lie_nn.irreps")
    rep = L.SO3(l)
    X, H = check_rep(c, rep, 2 * l + 1, 3, 0, L.SO3(1).algebra(), real=True)
    casimir(c, X, l * (l + 1))


@harness(lambda t: [{"lo": i, "hi": i} for i in range((12 if t == "quick" else 17))][::-1], "l <= 11 / 16, both parities")
def o3(c, lo, hi):
    l = c.pick("l", lo, hi)
    p = c.choice("p", [1, -1])
    np = c.np
    L = c.mod("lie_nn.irreps")
    rep = L.O3(l, p)
    X, H = check_rep(c, rep, 2 * l + 1, 3, 1, L.O3(1, 1).algebra(), real=True)
    casimir(c, X, l * (l + 1))
    c.eq(H[0], p * np.eye(2 * l + 1), "parity times identity")
    c.eq(H[0] @ H[0], np.eye(2 * l + 1), "involution")
    for i in range(3):
        c.eq(H[0] @ X[i], X[i] @ H[0], "discrete and continuous generators commute")


@harness(None, "both parities")
def z2(c):
    p = c.choice("p", [1, -1])
    np = c.np
    L = c.mod("lie_nn.irreps")
    rep = L.Z2(p)
    X, H = check_rep(c, rep, 1, 0, 1, np.zeros((0, 0, 0)))
    c.eq(H[0], p * np.eye(1), "parity times identity")
    c.eq(H[0] @ H[0], np.eye(1), "involution")


@harness(None, "two unrelated labels up to 30")
def same_algebra(c):
    """the structure constants of any two labels agree"""
    L = c.mod("lie_nn.irreps")
    fam = c.choice("family", ["SU2", "SU2Real", "SO3", "O3"])
    a = c.int("a", 0, 30)
    mk = (lambda l: L.O3(l, 1)) if fam == "O3" else getattr(L, fam)
    c.eq(mk(a).algebra(), mk(1).algebra(), "algebra for an arbitrary label")


LARGE = [("SU2", 40), ("SU2", 61), ("SU2Real", 24), ("SU2Real", 31), ("SO3", 20), ("SO3", 27), ("O3", 18), ("O3", 23)]
LARGE_T = [("SU2", 99), ("SU2", 120), ("SU2Real", 41), ("SU2Real", 50), ("SO3", 40), ("O3", 33)] + LARGE


@harness(lambda t: [{"fam": f, "a": a} for f, a in (LARGE if t == "quick" else LARGE_T)], "single larger labels: 2j <= 61 (120), l <= 27 (40)", limit=120)
def large(c, fam, a):
    L = c.mod("lie_nn.irreps")
    if fam == "SU2":
        X, H = check_rep(c, L.SU2(a), a + 1, 3, 0, L.SU2(1).algebra(), antiherm=True)
        casimir(c, X, c.q(a * (a + 2), 4))
    elif fam == "SU2Real":
        X, H = check_rep(c, L.SU2Real(a / 2), a + 1 if a % 2 == 0 else 2 * (a + 1), 3, 0, L.SU2Real(1).algebra(), real=True)
        casimir(c, X, c.q(a * (a + 2), 4))
    elif fam == "SO3":
        X, H = check_rep(c, L.SO3(a), 2 * a + 1, 3, 0, L.SO3(1).algebra(), real=True)
        casimir(c, X, a * (a + 1))
    else:
        X, H = check_rep(c, L.O3(a, -1), 2 * a + 1, 3, 1, L.O3(1, 1).algebra(), real=True)
        casimir(c, X, a * (a + 1))
        c.eq(H[0], -c.np.eye(2 * a + 1), "parity times identity")
