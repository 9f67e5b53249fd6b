"""Tensor product of arbitrary representations."""
from sx.h import harness
from checks.common import sym_algebra, sym_rep, defect, kron2, same_rep, other_algebras, PATTERNS, near_algebras


def shapes(t):
    q = [(0, 1, 2, 2, "real"), (1, 1, 2, 3, "real"), (2, 0, 2, 2, "complex"), (2, 1, 3, 1, "complex"), (2, 2, 1, 3, "real"), (3, 1, 2, 2, "real"), (1, 0, 1, 1, "complex"),
         (0, 2, 3, 2, "complex")]
    th = q + [(3, 2, 3, 2, "real"), (2, 1, 3, 3, "complex"), (4, 1, 2, 2, "real"), (1, 3, 4, 2, "complex"), (0, 0, 2, 2, "real"), (3, 1, 1, 4, "complex"), (1, 1, 4, 4, "real")]
    return [dict(zip(("n", "nH", "d1", "d2", "kind"), s)) for s in (q if t == "quick" else th)][::-1]


@harness(shapes, "all real or complex matrices of dimension <= 3 / 4, up to 3 / 4 continuous and 2 / 3 discrete generators, arbitrary structure constants")
def formula(c, n, nH, d1, d2, kind):
    np = c.np
    A = sym_algebra(c, n)
    r1, r2 = sym_rep(c, "a", A, d1, nH, kind), sym_rep(c, "b", A.copy(), d2, nH, kind)
    t = c.lie.tensor_product(r1, r2)
    I1, I2 = np.eye(d1), np.eye(d2)
    same_rep(c, t, A, [kron2(c, r1.X[i], I2) + kron2(c, I1, r2.X[i]) for i in range(n)], [kron2(c, r1.H[i], r2.H[i]) for i in range(nH)], d1 * d2)


@harness(lambda t: [s for s in shapes(t) if 2 <= s["n"] <= 3 and s["d1"] * s["d2"] <= 6], "as above with dimension <= 6 and 2 or 3 continuous generators")
def relations(c, n, nH, d1, d2, kind):
    """[T_i, T_j] - A_ijk T_k is the Kronecker sum of the operands' defects: zero when theirs are"""
    np = c.np
    A = sym_algebra(c, n)
    r1, r2 = sym_rep(c, "a", A, d1, nH, kind), sym_rep(c, "b", A, d2, nH, kind)
    t = c.lie.tensor_product(r1, r2)
    D1, D2, D = defect(r1.X, A), defect(r2.X, A), defect(t.X, t.A)
    I1, I2 = np.eye(d1), np.eye(d2)
    for i in range(n):
        for j in range(i + 1, n):
            c.eq(D[i, j], kron2(c, D1[i, j], I2) + kron2(c, I1, D2[i, j]), "commutation relations inherited")


@harness(lambda t: [{"n": n, "i": i, "j": j, "k": k} for n in (1, 2, 3) for i in range(n) for j in range(n) for k in range(n)][:: 1 if t == "thorough" else 2],
         "structure constants that differ in one arbitrary entry by at least 1/100 (relative to entries <= 10)")
def other_algebra(c, n, i, j, k):
    np = c.np
    A = np.zeros((n, n, n))
    for q in np.ndindex(n, n, n):
        x = c.real("A_%d_%d_%d" % q)
        c.assume(c.And(x <= 10, x >= -10))
        A[q] = x
    B = A.copy()
    y = c.real("y")
    c.assume(c.Or(y - A[i, j, k] >= c.q(1, 100), A[i, j, k] - y >= c.q(1, 100)))
    c.assume(c.And(y <= 10, y >= -10))
    B[i, j, k] = y
    r1, r2 = sym_rep(c, "a", A, 1, 0), sym_rep(c, "b", B, 2, 0)
    c.raises("different algebras refused", lambda: c.lie.tensor_product(r1, r2))
    c.raises("different algebras refused", lambda: c.lie.tensor_product(r2, r1))


@harness(lambda t: [{"n1": a, "n2": b} for a in range(4) for b in range(4) if a != b], "zero structure constants of different sizes 0..3, 0..2 discrete generators")
def other_size(c, n1, n2):
    np = c.np
    nH = c.pick("nH", 0, 2)
    A, B = np.zeros((n1, n1, n1)), np.zeros((n2, n2, n2))
    r1, r2 = sym_rep(c, "a", A, 2, nH), sym_rep(c, "b", B, 2, nH)
    c.raises("algebras of different dimension refused", lambda: c.lie.tensor_product(r1, r2))


@harness(None, "0..3 discrete generators on either side")
def other_discrete(c):
    n = c.pick("n", 0, 2)
    h1, h2 = c.pick("h1", 0, 3), c.pick("h2", 0, 3)
    A = sym_algebra(c, n)
    r1, r2 = sym_rep(c, "a", A, 2, h1), sym_rep(c, "b", A, 2, h2)
    if h1 != h2:
        c.raises("different numbers of discrete generators refused", lambda: c.lie.tensor_product(r1, r2))
    else:
        c.shape(c.lie.tensor_product(r1, r2).H, (h1, 4, 4), "discrete generators")


@harness(lambda t: [{"kind": k} for k in ("irrep", "multiple", "finite", "product", "reduced")], "library representations combined with a matrix representation of the same group")
def mixed(c, kind):
    np, lie = c.np, c.lie
    L = c.mod("lie_nn.irreps")
    fin = c.mod("lie_nn.finite")
    r = {"irrep": lambda: L.O3(1, -1), "multiple": lambda: lie.MulIrrep(2, L.SU2(1)), "finite": lambda: fin.Sn_standard(3),
         "product": lambda: lie.group_product(L.SU2(1), L.Z2(-1)),
         "reduced": lambda: lie.ReducedRep.from_irreps([(1, L.SU2(1)), (2, L.SU2(0))], np.array([[1.0, 2, 0, 0], [0, 1, 0, 1], [0, 0, 1, 0], [1, 0, 0, 1]]))}[kind]()
    g = sym_rep(c, "b", r.A, 2, r.H.shape[0], "complex")
    I1, I2 = np.eye(r.dim), np.eye(2)
    n, nH = r.X.shape[0], r.H.shape[0]
    same_rep(c, lie.tensor_product(r, g), r.A, [kron2(c, r.X[i], I2) + kron2(c, I1, g.X[i]) for i in range(n)], [kron2(c, r.H[i], g.H[i]) for i in range(nH)], 2 * r.dim)
    same_rep(c, lie.tensor_product(g, r), r.A, [kron2(c, g.X[i], I1) + kron2(c, I2, r.X[i]) for i in range(n)], [kron2(c, g.H[i], r.H[i]) for i in range(nH)], 2 * r.dim)


@harness(lambda t: [{"n": n, "pattern": p} for n in (2, 3) for p in PATTERNS], "structure constants of 2 or 3 generators (entries <= 10) that differ by at least 1/100 in the given pattern: two opposite changes, one value moved to another entry, sign, order of the indices, names of the generators")
def other_algebra_pattern(c, n, pattern):
    A, B = other_algebras(c, n, pattern)
    r1, r2 = sym_rep(c, "a", A, 1, 0), sym_rep(c, "b", B, 1, 0)
    c.raises("different algebras refused", lambda: c.lie.tensor_product(r1, r2))
    c.raises("different algebras refused", lambda: c.lie.tensor_product(r2, r1))


@harness(lambda t: [dict(zip(("n", "nH", "d1", "d2", "kind"), s)) for s in ((6, 4, 2, 5, "real"), (0, 7, 3, 3, "complex"), (10, 0, 1, 2, "real"), (1, 1, 5, 6, "real"), (8, 3, 3, 1, "complex"), (4, 2, 4, 4, "real"))],
         "more generators (up to 10 continuous, 7 discrete) and larger matrices (up to 5 x 6)", limit=150)
def wide(c, n, nH, d1, d2, kind):
    np = c.np
    A = sym_algebra(c, n)
    r1, r2 = sym_rep(c, "a", A, d1, nH, kind), sym_rep(c, "b", A.copy(), d2, nH, kind)
    t = c.lie.tensor_product(r1, r2)
    I1, I2 = np.eye(d1), np.eye(d2)
    same_rep(c, t, A, [kron2(c, r1.X[i], I2) + kron2(c, I1, r2.X[i]) for i in range(n)], [kron2(c, r1.H[i], r2.H[i]) for i in range(nH)], d1 * d2)


@harness(lambda t: [{"k": k} for k in (3, 4)], "so(3) constants against the same with one entry changed by 1 to 2 times 10^-k")
def near_algebra(c, k):
    np, lie = c.np, c.lie
    A, B = near_algebras(c, k)
    r1, r2 = sym_rep(c, "a", A, 1, 0), sym_rep(c, "b", B, 2, 0)
    c.raises("different algebras refused", lambda: lie.tensor_product(r1, r2))
    c.raises("different algebras refused", lambda: lie.tensor_product(r2, r1))
