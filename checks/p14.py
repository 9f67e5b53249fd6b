"""Basis changes, algebra changes, conjugates and direct sums of arbitrary representations."""
from sx.h import harness
from checks.common import sym_algebra, sym_rep, defect, block2, same_rep, comm, other_algebras, PATTERNS, near_algebras, tiny
from checks.p12 import irreps, symQ


def shapes(t):
    q = [(0, 1, 2, "real"), (1, 1, 2, "complex"), (2, 0, 2, "real"), (2, 1, 3, "real"), (1, 2, 2, "complex"), (3, 1, 1, "complex"), (0, 0, 2, "real"), (3, 0, 2, "real")]
    th = q + [(2, 1, 3, "complex"), (3, 2, 3, "real"), (4, 0, 2, "complex"), (1, 1, 4, "real"), (0, 3, 3, "complex")]
    return [dict(zip(("n", "nH", "d", "kind"), s)) for s in (q if t == "quick" else th)][::-1]


def general(c, name, n, kind):
    """an arbitrary invertible matrix (2x2: any entries with nonzero determinant; larger: P L D U with free entries)"""
    np = c.np
    if n == 2 and kind == "real":
        Q = c.arr(name, (2, 2))
        c.assume(Q[0, 0] * Q[1, 1] - Q[0, 1] * Q[1, 0] != 0)
        return Q
    return symQ(c, name, n, kind, 1 if n > 1 else 0)


@harness(lambda t: [dict(s, qk=qk) for s in shapes(t) for qk in ("real", "complex") if not (qk == "complex" and s["d"] > 2 and t == "quick")],
         "matrices of dimension <= 3 / 4 with free entries, Q: every real 2x2 matrix of nonzero determinant, P L U with free real or complex entries above", limit=200)
def basis_formula(c, n, nH, d, kind, qk):
    """X' Q = Q X for every generator, algebra kept"""
    np = c.np
    A = sym_algebra(c, n)
    r = sym_rep(c, "a", A, d, nH, kind)
    Q = general(c, "q", d, qk)
    t = c.lie.change_basis(r, Q)
    X, H = t.X, t.H
    c.shape(X, (n, d, d), "shape of the continuous generators")
    c.shape(H, (nH, d, d), "shape of the discrete generators")
    c.eq(t.A, A, "algebra unchanged")
    for i in range(n):
        c.eq(X[i] @ Q, Q @ r.X[i], "continuous generators conjugated")
    for i in range(nH):
        c.eq(H[i] @ Q, Q @ r.H[i], "discrete generators conjugated")


@harness(lambda t: [dict(s, qk=qk) for s in shapes(t) if s["n"] >= 2 and s["d"] < 4 for qk in ("real", "complex")], "as above with at least two continuous generators", limit=200)
def basis_relations(c, n, nH, d, kind, qk):
    A = sym_algebra(c, n)
    r = sym_rep(c, "a", A, d, nH, kind)
    Q = symQ(c, "q", d, qk, d - 1)
    t = c.lie.change_basis(r, Q)
    D, E = defect(r.X, A), defect(t.X, t.A)
    for i in range(n):
        for j in range(i + 1, n):
            c.eq(E[i, j] @ Q, Q @ D[i, j], "commutation relations inherited")


@harness(lambda t: [{"kind": k, "fam": f} for k in ("plain", "irrep", "multiple", "reduced", "reduced_q") for f in (("su2", "z2") if t == "quick" else ("su2", "z2", "o3", "prod", "sl2c", "sun2"))],
         "every kind of representation, two successive basis changes with free unit lower/upper triangular factors", limit=200)
def composition(c, kind, fam):
    """change_basis(change_basis(r, Q1), Q2) acts as Q2 Q1 X (Q2 Q1)^-1"""
    lie, np = c.lie, c.np
    rs = irreps(c, fam)
    r = {"plain": lambda: lie.GenericRep.from_rep(rs[1]), "irrep": lambda: rs[1], "multiple": lambda: lie.MulIrrep(2, rs[1]),
         "reduced": lambda: lie.ReducedRep.from_irreps([rs[0], (1, rs[1])]), "reduced_q": lambda: lie.ReducedRep.from_irreps([rs[0], (1, rs[1])], symQ(c, "q0", rs[0].dim + rs[1].dim, "complex"))}[kind]()
    d = r.dim
    X, H = r.X, r.H
    Q1, Q2 = symQ(c, "q1", d, "real", 0), symQ(c, "q2", d, "complex" if d < 3 else "real", d - 1)
    t1 = lie.change_basis(r, Q1)
    t2 = lie.change_basis(t1, Q2)
    P = Q2 @ Q1
    t3 = lie.change_basis(r, P)
    for t, q, label in ((t1, Q1, "one basis change"), (t2, P, "successive basis changes"), (t3, P, "basis change by a product")):
        c.eq(t.A, r.A, "algebra unchanged")
        c.true(t.dim == d, "dimension")
        tX, tH = t.X, t.H
        c.shape(tX, X.shape, "shape")
        c.shape(tH, H.shape, "shape")
        for i in range(X.shape[0]):
            c.eq(tX[i] @ q, q @ X[i], label)
        for i in range(H.shape[0]):
            c.eq(tH[i] @ q, q @ H[i], label)
    rX, rH = r.X, r.H
    c.eq(rX, X, "operand unchanged")
    c.eq(rH, H, "operand unchanged")


@harness(lambda t: [dict(s, qk=qk) for s in shapes(t) if 1 <= s["n"] <= 3 for qk in ("general", "diagonal")], "free structure constants and matrices of dimension <= 3, 1..3 generators; Q: every 1x1 or 2x2 matrix of nonzero determinant, P L U of size 3, or any diagonal matrix", limit=250)
def algebra_formula(c, n, nH, d, kind, qk):
    np = c.np
    A = sym_algebra(c, n)
    r = sym_rep(c, "a", A, d, nH, kind)
    if qk == "diagonal" or n == 1:
        Q = np.zeros((n, n))
        for i in range(n):
            x = c.real(f"q{i}")
            c.assume(x != 0)
            Q[i, i] = x
    else:
        Q = general(c, "q", n, "real")
    t = c.lie.change_algebra(r, Q)
    B, X = t.A, t.X
    c.shape(X, (n, d, d), "shape of the continuous generators")
    c.shape(t.H, (nH, d, d), "shape of the discrete generators")
    c.shape(B, (n, n, n), "shape of the algebra")
    for i in range(n):
        want = np.zeros((d, d))
        for a in range(n):
            want = want + Q[i, a] * r.X[a]
        c.eq(X[i], want, "generators of the new algebra basis")
    for i in range(nH):
        c.eq(t.H[i], r.H[i], "discrete generators unchanged")
    # A'_ijk Q_kc = Q_ia Q_jb A_abc
    for i in range(n):
        for j in range(n):
            for k in range(n):
                left, right = 0, 0
                for m in range(n):
                    left = left + B[i, j, m] * Q[m, k]
                    for l in range(n):
                        right = right + Q[i, m] * Q[j, l] * A[m, l, k]
                c.eq(left, right, "transformed structure constants")


@harness(lambda t: [s for s in shapes(t) if 2 <= s["n"] <= 3], "as above, 2 or 3 generators", limit=250)
def algebra_relations(c, n, nH, d, kind):
    A = sym_algebra(c, n)
    r = sym_rep(c, "a", A, d, nH, kind)
    Q = symQ(c, "q", n, "real", 1)
    t = c.lie.change_algebra(r, Q)
    D, E = defect(r.X, A), defect(t.X, t.A)
    for i in range(n):
        for j in range(i + 1, n):
            w = 0
            for a in range(n):
                for b in range(n):
                    w = w + Q[i, a] * Q[j, b] * D[a, b]
            c.eq(E[i, j], w, "commutation relations inherited")


@harness(shapes, "free real or complex matrices")
def conjugate(c, n, nH, d, kind):
    np = c.np
    A = sym_algebra(c, n)
    r = sym_rep(c, "a", A, d, nH, kind)
    t = c.lie.conjugate(r)
    re = lambda m: [[m[i, j].real for j in range(d)] for i in range(d)]
    X, H = t.X, t.H
    c.shape(X, (n, d, d), "shape")
    c.shape(H, (nH, d, d), "shape")
    c.eq(t.A, A, "algebra unchanged")
    for P, R in ((X, r.X), (H, r.H)):
        for g in range(P.shape[0]):
            for i in range(d):
                for j in range(d):
                    z, w = P[g, i, j], R[g, i, j]
                    c.eq(z + w, 2 * np.real(w), "entrywise conjugate")
                    c.eq(z - w, -2 * c.j * np.imag(w), "entrywise conjugate")
    if n >= 2:
        D, E = defect(r.X, A), defect(X, t.A)
        for i in range(n):
            for j in range(i + 1, n):
                c.eq(E[i, j], np.conj(D[i, j]), "commutation relations inherited")


def two(t):
    q = [(0, 1, 2, 1, "real"), (1, 1, 2, 3, "complex"), (2, 0, 2, 2, "real"), (2, 2, 1, 3, "real"), (3, 1, 2, 2, "complex"), (0, 0, 1, 2, "real")]
    th = q + [(2, 1, 3, 3, "complex"), (4, 2, 2, 1, "real"), (1, 3, 4, 2, "real")]
    return [dict(zip(("n", "nH", "d1", "d2", "kind"), s)) for s in (q if t == "quick" else th)][::-1]


@harness(two, "free real or complex matrices of dimension <= 3 / 4")
def direct_sum(c, n, nH, d1, d2, kind):
    np = c.np
    A = sym_algebra(c, n)
    r1, r2 = sym_rep(c, "a", A, d1, nH, kind), sym_rep(c, "b", A.copy(), d2, nH, "real")
    for u, v in ((r1, r2), (r2, r1)):
        t = c.lie.direct_sum(u, v)
        same_rep(c, t, A, [block2(c, u.X[i], v.X[i]) for i in range(n)], [block2(c, u.H[i], v.H[i]) for i in range(nH)], d1 + d2)
    if n >= 2:
        t = c.lie.direct_sum(r1, r2)
        D1, D2, D = defect(r1.X, A), defect(r2.X, A), defect(t.X, t.A)
        for i in range(n):
            for j in range(i + 1, n):
                c.eq(D[i, j], block2(c, D1[i, j], D2[i, j]), "commutation relations inherited")


@harness(lambda t: [{"n1": a, "n2": b} for a in range(4) for b in range(4) if a != b], "zero structure constants of different sizes 0..3")
def direct_sum_other_algebra(c, n1, n2):
    np = c.np
    nH = c.pick("nH", 0, 2)
    r1, r2 = sym_rep(c, "a", np.zeros((n1, n1, n1)), 2, nH), sym_rep(c, "b", np.zeros((n2, n2, n2)), 1, nH)
    c.raises("algebras of different dimension refused", lambda: c.lie.direct_sum(r1, r2))


@harness(lambda t: [{"n": n, "i": i, "j": j, "k": k} for n in (1, 2, 3) for i in range(n) for j in range(n) for k in range(n)][:: 1 if t == "thorough" else 2],
         "structure constants that differ in one arbitrary entry by at least 1/100 (entries <= 10)")
def direct_sum_other_constants(c, n, i, j, k):
    np = c.np
    A = np.zeros((n, n, n))
    for q in np.ndindex(n, n, n):
        x = c.real("A_%d_%d_%d" % q)
        c.assume(c.And(x <= 10, x >= -10))
        A[q] = x
    B = A.copy()
    y = c.real("y")
    c.assume(c.Or(y - A[i, j, k] >= c.q(1, 100), A[i, j, k] - y >= c.q(1, 100)))
    c.assume(c.And(y <= 10, y >= -10))
    B[i, j, k] = y
    r1, r2 = sym_rep(c, "a", A, 1, 0), sym_rep(c, "b", B, 2, 0)
    c.raises("different algebras refused", lambda: c.lie.direct_sum(r1, r2))
    c.raises("different algebras refused", lambda: c.lie.direct_sum(r2, r1))


@harness(lambda t: [{"kind": k} for k in ("irrep", "multiple", "finite", "product", "reduced")], "library representations in every operation")
def library(c, kind):
    np, lie = c.np, c.lie
    L = c.mod("lie_nn.irreps")
    fin = c.mod("lie_nn.finite")
    r = {"irrep": lambda: L.O3(1, -1), "multiple": lambda: lie.MulIrrep(2, L.SU2(1)), "finite": lambda: fin.Sn_standard(3), "product": lambda: lie.group_product(L.SU2(1), L.Z2(-1)),
         "reduced": lambda: lie.ReducedRep.from_irreps([(1, L.SU2(1)), (2, L.SU2(0))], symQ(c, "q", 4, "complex"))}[kind]()
    A, X, H = r.A, r.X, r.H
    n, nH = X.shape[0], H.shape[0]
    t = lie.conjugate(r)
    same_rep(c, t, A, [np.conj(X[i]) for i in range(n)], [np.conj(H[i]) for i in range(nH)], r.dim, "conjugate: ")
    g = sym_rep(c, "b", A, 2, nH, "complex")
    same_rep(c, lie.direct_sum(r, g), A, [block2(c, X[i], g.X[i]) for i in range(n)], [block2(c, H[i], g.H[i]) for i in range(nH)], r.dim + 2, "direct sum: ")
    same_rep(c, lie.direct_sum(g, r), A, [block2(c, g.X[i], X[i]) for i in range(n)], [block2(c, g.H[i], H[i]) for i in range(nH)], r.dim + 2, "direct sum: ")
    if n:
        Q = symQ(c, "z", n, "real", 1)
        t = lie.change_algebra(r, Q)
        tX = t.X
        for i in range(n):
            w = 0
            for a in range(n):
                w = w + Q[i, a] * X[a]
            c.eq(tX[i], w, "change of algebra")
        c.eq(t.H, H, "discrete generators unchanged")
        B = t.A
        for i in range(n):
            for j in range(n):
                s = 0
                for k in range(n):
                    s = s + B[i, j, k] * tX[k]
                c.eq(comm(tX[i], tX[j]), s, "commutation relations of the changed algebra")


@harness(lambda t: [{"n": n, "pattern": p} for n in (2, 3) for p in PATTERNS], "structure constants of 2 or 3 generators (entries <= 10) that differ by at least 1/100 in the given pattern: two opposite changes, one value moved to another entry, sign, order of the indices, names of the generators")
def direct_sum_pattern(c, n, pattern):
    A, B = other_algebras(c, n, pattern)
    r1, r2 = sym_rep(c, "a", A, 1, 0), sym_rep(c, "b", B, 1, 0)
    c.raises("different algebras refused", lambda: c.lie.direct_sum(r1, r2))
    c.raises("different algebras refused", lambda: c.lie.direct_sum(r2, r1))


def sparseQ(c, name, d):
    """a cyclic exchange of the axes times a unit triangular matrix with two free entries, and its inverse"""
    np = c.np
    L, M = np.eye(d), np.eye(d)
    x, y = c.real(name + "x"), c.real(name + "y")
    L[d - 1, 0], M[d - 1, 0] = x, -x
    L[d - 1, 1], M[d - 1, 1] = y, -y
    P = np.zeros((d, d))
    for i in range(d):
        P[(i * 2 + 1) % d if d % 2 else (i + 3) % d, i] = 1
    return P @ L, M @ P.T


@harness(lambda t: [dict(zip(("n", "nH", "d", "kind"), s)) for s in ((7, 1, 2, "real"), (1, 5, 3, "complex"), (2, 1, 7, "real"), (5, 0, 4, "real"), (10, 0, 1, "complex"))],
         "more generators (up to 10 continuous, 5 discrete) and larger matrices (up to 7 x 7), changes of basis and of the algebra with two free entries", limit=200)
def wide(c, n, nH, d, kind):
    np, lie = c.np, c.lie
    A = sym_algebra(c, n)
    r, s = sym_rep(c, "a", A, d, nH, kind), sym_rep(c, "b", A.copy(), 2, nH, "real")
    same_rep(c, lie.conjugate(r), A, [np.conj(r.X[i]) for i in range(n)], [np.conj(r.H[i]) for i in range(nH)], d, "conjugate: ")
    for u, v in ((r, s), (s, r)):
        same_rep(c, lie.direct_sum(u, v), A, [block2(c, u.X[i], v.X[i]) for i in range(n)], [block2(c, u.H[i], v.H[i]) for i in range(nH)], d + 2, "direct sum: ")
    if d > 1:
        Q, R = sparseQ(c, "q", d) if d > 2 else (np.array([[0.0, 1.0], [1.0, 1.0]]), np.array([[-1.0, 1.0], [1.0, 0.0]]))
        same_rep(c, lie.change_basis(r, Q), A, [Q @ r.X[i] @ R for i in range(n)], [Q @ r.H[i] @ R for i in range(nH)], d, "change of basis: ")
    if n > 2:
        Q, R = sparseQ(c, "z", n)
        t = lie.change_algebra(r, Q)
        for i in range(n):
            w = 0
            for a in range(n):
                w = w + Q[i, a] * r.X[a]
            c.eq(t.X[i], w, "change of algebra")
        c.eq(t.H, r.H, "discrete generators unchanged")
        B = t.A
        if n <= 7:
            c.eq(np.einsum("ijm,mk->ijk", B, Q), np.einsum("ia,jb,abk->ijk", Q, Q, A), "transformed structure constants")


@harness(lambda t: [{"k": k} for k in (3, 4)], "so(3) constants against the same with one entry changed by 1 to 2 times 10^-k")
def near_algebra(c, k):
    np, lie = c.np, c.lie
    A, B = near_algebras(c, k)
    r1, r2 = sym_rep(c, "a", A, 1, 0), sym_rep(c, "b", B, 2, 0)
    c.raises("different algebras refused", lambda: lie.direct_sum(r1, r2))
    c.raises("different algebras refused", lambda: lie.direct_sum(r2, r1))


@harness(lambda t: [{"k": k, "what": w} for k in (1, 2, 4, 6) for w in ("basis", "algebra")], "changes of basis that are almost singular: one entry of size 10^-k")
def near_singular(c, k, what):
    np, lie = c.np, c.lie
    e = tiny(c, k)
    Q, iQ = np.array([[1.0, 2.0], [0.0, 1.0 * e]]), np.array([[1.0, -2.0 / e], [0.0, 1.0 / e]])
    if what == "basis":
        X, H = np.array([[[1.0, 2.0], [3.0, 4.0]]]), np.array([[[0.0, 1.0], [1.0, 0.0]]])
        r = lie.change_basis(lie.GenericRep(np.zeros((1, 1, 1)), X, H), Q)
        for m, got in ((X, r.X), (H, r.H)):
            c.eq(got[0], Q @ m[0] @ iQ, "Q X Q^-1")
    else:
        A = np.zeros((2, 2, 2))
        A[0, 1, 1], A[1, 0, 1] = 1.0, -1.0
        X = np.array([[[1.0, 0.0], [0.0, 0.0]], [[0.0, 1.0], [0.0, 0.0]]])
        r = lie.change_algebra(lie.GenericRep(A, X, np.zeros((0, 2, 2))), Q)
        c.eq(r.A, np.einsum("ia,jb,abc,ck->ijk", Q, Q, A, iQ), "transformed constants")
        c.eq(r.X, np.einsum("ia,auv->iuv", Q, X), "transformed generators")
