"""Lorentz-type irreps realise their Lie algebra."""
from sx.h import harness
from checks.common import check_relations, check_rep_shape


def labels(tier):
    n = 5 if tier == "quick" else 8
    return [{"s": s} for s in range(n + 1)][::-1]


def eps(i, j, k):
    return {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1, (0, 2, 1): -1, (2, 1, 0): -1, (1, 0, 2): -1}.get((i, j, k), 0)


def expected(c, kk):
    """structure constants: [J,J] = eps J, [J,K] = eps K, [K,K] = kk eps J"""
    A = [[[0] * 6 for _ in range(6)] for _ in range(6)]
    for i in range(3):
        for j in range(3):
            for k in range(3):
                e = eps(i, j, k)
                A[i][j][k] = e
                A[i][3 + j][3 + k] = e
                A[3 + i][j][3 + k] = e
                A[3 + i][3 + j][k] = kk * e
    return c.const(A, "real")


@harness(labels, "l + k <= 5 (quick) / 8 (thorough)")
def sl2c(c, s):
    l = c.pick("l", 0, s)
    k = s - l
    L = c.mod("lie_nn.irreps")
    rep = L.SL2C(l, k)
    X, H, A = check_rep_shape(c, rep, (l + 1) * (k + 1), 6, 0)
    c.eq(A, L.SL2C(1, 0).algebra(), "algebra independent of the label")
    check_relations(c, X, A)
    casimirs(c, X, l, k, 1)


def casimirs(c, X, l, k, kk):
    """X_l = (J + K)/2-type combinations act with spins l/2 and k/2 (shows that the label is the right one)"""
    np = c.np
    d = X.shape[1]
    JJ = X[0] @ X[0] + X[1] @ X[1] + X[2] @ X[2]
    KK = X[3] @ X[3] + X[4] @ X[4] + X[5] @ X[5]
    # JJ + KK' = -2 (a(a+1) + b(b+1)), a = l/2, b = k/2, with KK' = kk KK
    val = c.q(l * (l + 2) + k * (k + 2), 2)
    c.eq(JJ + kk * KK, -val * np.eye(d), "Casimir")
    # J.K = a^2 - b^2 with K = i (the one of sl(2,C)) for so(1,3): tells (l, k) from (k, l)
    JK = X[0] @ X[3] + X[1] @ X[4] + X[2] @ X[5]
    c.eq(JK, -c.q(l * (l + 2) - k * (k + 2), 4) * (1 if kk == 1 else c.j) * np.eye(d), "mixed Casimir")


@harness(lambda t: [{"s": s, "d": d} for s in range(0, (8 if t == "quick" else 10) + 1, 2) for d in range(0, s + 1, 2)][::-1], "l + k <= 8 (quick) / 10 (thorough), even")
def so13(c, s, d):
    l = c.choice("l", sorted({(s + d) // 2, (s - d) // 2}))
    k = s - l
    L = c.mod("lie_nn.irreps")
    rep = L.SO13(l, k)
    X, H, A = check_rep_shape(c, rep, (l + 1) * (k + 1), 6, 0)
    c.eq(A, L.SO13(1, 1).algebra(), "algebra independent of the label")
    c.eq(A, expected(c, -1), "declared so(1,3) structure constants")
    check_relations(c, X, A)
    casimirs(c, X, l, k, -1)
    if l == k:
        c.true(c.is_real_dtype(X), "real generators for l = k")


@harness(None, "every pair of labels (algebra)")
def declared_algebra(c):
    L = c.mod("lie_nn.irreps")
    l, k = c.int("l", 0, 20), c.int("k", 0, 20)
    c.eq(L.SL2C(l, k).algebra(), expected(c, 1), "sl(2,C) structure constants")
    m = c.int("m", 0, 20)
    c.eq(L.SO13(l, l + 2 * m).algebra(), expected(c, -1), "so(1,3) structure constants")


@harness(None, "the four-vector representation, arbitrary vectors")
def four_vector(c):
    np = c.np
    L = c.mod("lie_nn.irreps")
    rep = L.SO13.four_vector()
    X, H, A = check_rep_shape(c, rep, 4, 6, 0)
    c.eq(A, L.SO13(1, 1).algebra(), "same algebra")
    check_relations(c, X, A)
    eta = np.diag(c.const([1, -1, -1, -1], "real"))
    t = c.arr("t", 6)
    v = c.arr("v", 4)
    w = c.arr("w", 4)
    G = sum((t[a] * X[a] for a in range(6)), np.zeros((4, 4)))
    c.eq((G @ v) @ eta @ w + v @ eta @ (G @ w), c.q(0), "Minkowski form invariant")


LARGE = [("SL2C", 8, 0), ("SL2C", 0, 9), ("SL2C", 12, 1), ("SL2C", 2, 9), ("SL2C", 5, 4), ("SL2C", 6, 6), ("SO13", 10, 0), ("SO13", 1, 9)]
LARGE_T = [("SL2C", 20, 0), ("SL2C", 0, 25), ("SL2C", 9, 7), ("SL2C", 15, 2), ("SO13", 5, 5), ("SO13", 12, 0), ("SO13", 8, 2)] + LARGE


@harness(lambda t: [{"fam": f, "l": l, "k": k} for f, l, k in (LARGE if t == "quick" else LARGE_T)], "single larger labels (l, k <= 12; 25 thorough)", limit=120)
def large(c, fam, l, k):
    K = getattr(c.mod("lie_nn.irreps"), fam)
    kk = 1 if fam == "SL2C" else -1
    X, H, A = check_rep_shape(c, K(l, k), (l + 1) * (k + 1), 6, 0)
    c.eq(A, expected(c, kk), "declared structure constants")
    check_relations(c, X, A)
    casimirs(c, X, l, k, kk)
    if fam == "SO13" and l == k:
        c.true(c.is_real_dtype(X), "real generators for l = k")
