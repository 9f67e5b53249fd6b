"""Orthonormal bases, null spaces, intersections."""
from sx.h import harness
from checks.common import tiny


def same_span(c, rows, ref, label):
    """the rows span the row space of ref (both any arrays with equal column count)"""
    np = c.np
    r = c.rank(ref) if ref.shape[0] else 0
    c.true(rows.shape[0] == r, label + ": dimension")
    if rows.shape[0]:
        both = np.concatenate([rows, ref], axis=0)
        c.true(c.rank(both) == r, label + ": span")


def orthonormal(c, Q, label="orthonormal rows"):
    np = c.np
    c.eq(Q @ np.conj(Q.T), np.eye(Q.shape[0]), label)


def projector_reproduces(c, Q, A, label):
    """every row of A is a combination of the orthonormal rows Q: A Q^H Q = A"""
    np = c.np
    c.eq(A @ np.conj(Q.T) @ Q, A, label)


def mat(c, name, m, n, kind, zeros=()):
    np = c.np
    A = c.arr(name, (m, n), kind)
    for i, j in zeros:
        A[i, j] = 0
    return A


def shapes(t):
    q = [(0, 2, "real"), (1, 1, "complex"), (1, 2, "complex"), (1, 3, "real"), (2, 1, "real"), (2, 2, "real"), (2, 2, "complex"), (3, 1, "complex"), (3, 2, "real"), (0, 1, "complex")]
    th = q + [(2, 3, "real"), (1, 4, "complex"), (4, 2, "real"), (3, 2, "complex"), (4, 1, "complex")]
    return [dict(zip(("m", "n", "kind"), s)) for s in (q if t == "quick" else th)][::-1]


@harness(shapes, "all real or complex matrices up to 3x3 / 4x2", limit=200)
def gram_schmidt(c, m, n, kind):
    A = mat(c, "a", m, n, kind)
    Q = c.util.gram_schmidt(A)
    c.true(Q.ndim == 2 and Q.shape[1] == n, "shape")
    c.true(Q.shape[0] == (c.rank(A) if m else 0), "number of rows is the rank")
    if Q.shape[0]:
        orthonormal(c, Q)
        projector_reproduces(c, Q, A, "rows of the matrix are in the span")


def smaller(t):
    return [x for x in shapes(t) if not (x["kind"] == "complex" and x["m"] * x["n"] > 3) and not (x["m"] > 1 and x["n"] > 2) and x["n"] < 4] + ([dict(m=2, n=2, kind="complex"), dict(m=4, n=2, kind="real")] if t == "thorough" else [])


def check_null(c, X, A, nullity, label=""):
    np = c.np
    c.true(X.ndim == 2 and X.shape[1] == A.shape[1], label + "shape")
    c.true(X.shape[0] == nullity, label + "dimension of the null space")
    if X.shape[0]:
        orthonormal(c, X, label + "orthonormal")
        c.eq(A @ X.T, np.zeros((A.shape[0], X.shape[0])), label + "annihilated by the matrix")


@harness(smaller, "all real matrices up to 3x2 and 1x3, complex up to 3 entries", limit=200)
def nullspace(c, m, n, kind):
    A = mat(c, "a", m, n, kind)
    check_null(c, c.util.nullspace(A), A, n - (c.rank(A) if m else 0))


def rref(c, name, piv, n, kind, few=99):
    """reduced row echelon form with the given pivot columns, free entries at the first `few` places and fixed ones at the others"""
    np = c.np
    fixed = [2, -1, c.q(1, 2), 3, -2, 1]
    R = np.zeros((len(piv), n), dtype=complex if kind == "complex" else float)
    for i, p in enumerate(piv):
        R[i, p] = 1
        for j in range(p + 1, n):
            if j not in piv:
                few -= 1
                if few < 0:
                    R[i, j] = fixed[(i + j) % 6]
                    continue
                x = c.real(f"{name}{i}_{j}r")
                R[i, j] = x + c.j * c.real(f"{name}{i}_{j}i") if kind == "complex" else x
    return R


def rr(t):
    """(columns, pivots, extra rows, kind)"""
    q = [(3, (0,), 0, "complex", 1), (3, (0, 1), 0, "complex"), (3, (0, 2), 1, "real"), (3, (1,), 1, "complex"), (2, (0,), 2, "complex"), (4, (0, 1, 2), 0, "real"), (4, (0, 3), 0, "complex", 1), (4, (1, 2), 0, "real"),
         (2, (0, 1), 1, "complex"), (3, (0, 1), 1, "real"), (5, (0, 1, 2, 4), 0, "complex", 2)]
    th = q + [(3, (0,), 0, "real"), (4, (0, 3), 0, "real"), (4, (0, 1), 0, "real", 2), (5, (0, 1, 2, 3), 0, "real"), (4, (0, 2, 3), 1, "complex", 1), (4, (0,), 0, "real", 1), (6, (0, 1, 2, 3, 5), 0, "real", 3), (3, (0, 1), 1, "complex", 1)]
    return [dict(zip(("n", "piv", "extra", "kind", "few"), tuple(s) + (99,))) for s in (q if t == "quick" else th)][::-1]


@harness(rr, "every matrix L R: R in reduced echelon form with the listed pivots and free real or complex entries, L the identity on top of free rows", limit=250)
def nullspace_rank(c, n, piv, extra, kind, few):
    np = c.np
    R = rref(c, "r", list(piv), n, kind, few)
    A = R if not extra else np.concatenate([R, mat(c, "l", extra, len(piv), "real") @ R], axis=0)
    check_null(c, c.util.nullspace(A), A, n - len(piv))


@harness(smaller, "all real matrices up to 3x2 and 1x3, complex up to 3 entries", limit=200)
def extend(c, m, n, kind):
    np = c.np
    A = mat(c, "a", m, n, kind)
    check_extend(c, A, c.rank(A) if m else 0)


def check_extend(c, A, r):
    np = c.np
    m, n = A.shape
    keep = c.snapshot(A)
    Q = c.util.extend_basis(A)
    c.shape(Q, (n, n), "complete basis")
    orthonormal(c, Q)
    if r:
        projector_reproduces(c, Q[:r], A, "the basis starts with the given span")
    E = c.util.extend_basis(A, returns="E")
    c.shape(E, (n - r, n), "added rows")
    if n - r:
        orthonormal(c, E)
        c.eq(A @ np.conj(E.T), np.zeros((m, n - r)), "added rows are orthogonal to the given span")
    c.eq(A, keep, "argument unchanged")


@harness(lambda t: [x for x in rr(t) if x["n"] < 5], "rows in reduced echelon form with free entries, plus free combinations of them", limit=250)
def extend_rank(c, n, piv, extra, kind, few):
    np = c.np
    R = rref(c, "r", list(piv), n, kind, few)
    A = R if not extra else np.concatenate([R, mat(c, "l", extra, len(piv), "real") @ R], axis=0)
    check_extend(c, A, len(piv))


@harness(rr, "rows in reduced echelon form with free entries, plus free combinations of them", limit=250)
def gram_schmidt_rank(c, n, piv, extra, kind, few):
    np = c.np
    R = rref(c, "r", list(piv), n, kind, few)
    A = R if not extra else np.concatenate([mat(c, "l", extra, len(piv), "real") @ R, R], axis=0)
    Q = c.util.gram_schmidt(A)
    c.shape(Q, (len(piv), n), "number of rows is the rank")
    orthonormal(c, Q)
    projector_reproduces(c, Q, A, "rows of the matrix are in the span")


def seqs(t):
    """rows per matrix, columns; entries are placed so that the stacked matrix is in reduced echelon form up to row order"""
    q = [(3, (0, 1), (1, 1), "real"), (3, (0, 1), (1, 1), "complex"), (4, (0, 1, 2), (2, 1), "real"), (3, (0, 2), (1, 1), "complex"), (2, (0,), (1, 0, 0), "complex"), (2, (0, 1), (1, 1), "real"), (3, (0,), (0, 1), "real")]
    th = q + [(4, (0, 1, 3), (1, 1, 1), "real"), (4, (0, 1, 2), (1, 2), "complex"), (3, (0, 1, 2), (1, 1, 1), "real")]
    return [dict(zip(("n", "piv", "split", "kind"), s)) for s in (q if t == "quick" else th)][::-1]


@harness(seqs, "1..3 constraint matrices with free entries (2..4 unknowns), repeated constraints, any requested dimension", limit=250)
def sequential(c, n, piv, split, kind):
    np = c.np
    R = rref(c, "r", list(piv), n, kind)
    parts, s = [], 0
    for k in split:
        parts.append(R[s:s + k])
        s += k
    rep = c.pick("repeat", 0, len(parts) - 1)            # a constraint that adds nothing, between the others
    parts.insert(rep + 1, 2 * parts[rep])
    null = n - len(piv)
    want = c.pick("want", 0, n)
    gen = (p for p in parts)
    if want < null:
        c.raises("too few constraints refused", lambda: c.util.sequential_nullspace(gen, want), ValueError)
        return
    S = c.util.sequential_nullspace(gen, want)
    c.true(S.ndim == 2 and S.shape[1] == n and null <= S.shape[0] <= max(want, null), "at most the requested dimension")
    # the result is the null space of the constraints used so far: the shortest prefix that reaches the dimension
    for k in range(1, len(parts) + 1):
        used = np.concatenate(parts[:k], axis=0)
        d = n - (c.rank(used) if used.shape[0] else 0)
        if d <= want:
            break
    check_null(c, S, used, d)


def ints(t):
    """columns, pivots of both bases, number of shared rows, kind"""
    q = [(2, (0,), (0,), 0, "complex"), (3, (0, 1), (0, 2), 0, "real"), (3, (0,), (0, 1), 0, "real", 1), (3, (0, 1), (1,), 1, "complex"), (3, (0, 1), (0, 1), 2, "real", 0), (2, (0, 1), (0,), 1, "complex"), (4, (0, 1), (2, 3), 1, "real", 1),
         (2, (0,), (1,), 0, "real"), (3, (), (0, 1), 0, "real"), (2, (0,), (), 0, "complex"), (3, (0, 2), (0, 1), 1, "complex"), (3, (0, 2), (0, 1), 1, "complex", 0)]
    th = q + [(3, (0, 1), (0, 1), 2, "real", 1), (3, (0, 1), (0, 1), 0, "real", 1), (4, (0, 1, 2), (0, 3), 1, "real", 1), (4, (0, 1), (0, 1), 1, "complex", 0), (4, (0, 1, 2), (1, 2, 3), 0, "real", 0)]
    return [dict(zip(("n", "p1", "p2", "shared", "kind", "few"), tuple(s) + (99,))) for s in (q if t == "quick" else th)][::-1]


@harness(ints, "two bases of dimension 0..3 in a space of dimension 2..4 with free entries, generic or sharing 1 or 2 vectors, also given as arrays of matrices", limit=250)
def intersection(c, n, p1, p2, shared, kind, few):
    np = c.np
    B1 = rref(c, "a", list(p1), n, kind, few)
    B2 = rref(c, "b", list(p2), n, kind, few)
    if shared:
        # the first rows of the second basis are combinations of the first one
        C = mat(c, "k", shared, len(p1), kind)
        for i in range(shared):
            C[i, i] = 1
            for j in range(i):
                C[i, j] = 0
        B2 = np.concatenate([C @ B1, B2[shared:]], axis=0)
    r1, r2 = len(p1), len(p2)
    c.assume(c.rank(B2) == r2 if r2 else True)
    r = c.rank(np.concatenate([B1, B2], axis=0))
    k = r1 + r2 - r
    shaped = n == 4 and c.pick("shaped", 0, 1)
    a1, a2 = (B1.reshape(r1, 2, 2), B2.reshape(r2, 2, 2)) if shaped else (B1, B2)
    if (kind == "real" or n < 3 or few < 99) and c.pick("swap", 0, 1):
        a1, a2, B1, B2, r1, r2 = a2, a1, B2, B1, r2, r1
    x1, x2 = c.util.basis_intersection(a1, a2)
    c.shape(x1, (k, r1), "coefficients of the first basis")
    c.shape(x2, (k, r2), "coefficients of the second basis")
    if k:
        V1, V2 = x1 @ B1, x2 @ B2
        c.true(c.rank(V1) == k, "independent vectors of the first basis")
        c.true(c.rank(V2) == k, "independent vectors of the second basis")
        c.true(c.rank(np.concatenate([V1, B2], axis=0)) == r2, "in the span of the second basis")
        c.true(c.rank(np.concatenate([V2, B1], axis=0)) == r1, "in the span of the first basis")


def larges(t):
    q = [(7, 5, 2, "real"), (8, 4, 1, "real"), (6, 5, 3, "complex"), (9, 8, 2, "real"), (8, 3, 4, "complex"), (12, 6, 1, "real")]
    th = q + [(12, 10, 2, "complex"), (15, 12, 5, "real"), (20, 8, 3, "real")]
    return [dict(zip(("n", "r", "extra", "kind"), s)) for s in (q if t == "quick" else th)][::-1]


@harness(larges, "larger matrices of rank r: pairwise orthogonal integer rows, one of them with a free length and one with a free direction, plus repeated and combined rows", limit=200)
def large(c, n, r, extra, kind):
    """rows supported on pairs of axes, so that the orthonormal bases stay simple"""
    np = c.np
    x, y = c.real("x"), c.real("y")
    c.assume(x * x >= c.q(1, 4))
    R = np.zeros((r, n), dtype=complex if kind == "complex" else float)
    for i in range(r):
        if 2 * i + 1 < n:
            a, b = [(3, 4), (1, 0), (5, -12), (-4, 3)][i % 4]
            R[i, 2 * i], R[i, 2 * i + 1] = a, b * (c.j if kind == "complex" else 1)
        else:                                             # the other direction of an earlier pair
            k = i - n // 2
            a, b = [(3, 4), (1, 0), (5, -12), (-4, 3)][k % 4]
            R[i, 2 * k], R[i, 2 * k + 1] = -b, a * (c.j if kind == "complex" else 1)
    R[0] = x * R[0]
    order = [(i * 2) % r if r % 2 else i for i in range(r)]
    A = R[order]
    if extra:
        more = []
        for e in range(extra):
            v = R[e % r] + (e + 1) * R[(e + 1) % r]
            if e == 0:
                v = v + y * R[r - 1]
            more.append(v)
        A = np.concatenate([A, np.stack(more)], axis=0)
    k = c.rank(R)
    Q = c.util.gram_schmidt(A)
    c.shape(Q, (k, n), "number of rows is the rank")
    orthonormal(c, Q)
    projector_reproduces(c, Q, A, "rows of the matrix are in the span")
    E = c.util.extend_basis(A, returns="E")
    c.shape(E, (n - k, n), "added rows")
    orthonormal(c, E)
    c.eq(A @ np.conj(E.T), np.zeros((A.shape[0], n - k)), "added rows are orthogonal to the given span")
    X = c.util.nullspace(R)
    check_null(c, X, A, n - k, "null space: ")
    S = c.util.sequential_nullspace((R[i : i + 1] for i in range(r)), n - k)
    check_null(c, S, A, n - k, "successive null spaces: ")


@harness(lambda t: [{"k": k, "kind": w} for k in (1, 2, 3) for w in ("real", "complex")], "rows that are almost dependent: they differ by a free amount of size 10^-k")
def near_rows(c, k, kind):
    np = c.np
    e = tiny(c, k)
    if kind == "complex":
        e = e * c.j
    A = np.array([[1.0, 0.0, 0.0], [1.0, 1.0 * e, 0.0], [2.0, 0.0, 0.0]])
    Q = c.util.gram_schmidt(A)
    c.shape(Q, (2, 3), "two independent rows")
    c.eq(np.conj(Q) @ Q.T, np.eye(2), "orthonormal")
    c.eq(Q[:, 2], np.zeros(2), "same span")
    for what, n in (("Q", 3), ("E", 1)):
        B = c.util.extend_basis(A, returns=what)
        c.shape(B, (n, 3), "extension")
        c.eq(np.conj(B) @ B.T, np.eye(n), "orthonormal extension")


@harness(lambda t: [{"kind": w} for w in ("real", "complex")], "matrices with a small free entry of size 2 to 4 times 10^-2, twice that for the intersection")
def near_null(c, kind):
    np, u = c.np, c.util
    e = tiny(c, 2, m=2) * (c.j if kind == "complex" else 1)
    A = np.array([[1.0, 0.0, 0.0], [0.0, 1.0 * e, 0.0]])
    c.shape(u.nullspace(A), (1, 3), "only the third axis is annihilated")
    c.shape(u.sequential_nullspace([A[:1], A[1:]], 1), (1, 3), "only the third axis is annihilated")
    B1, B2 = np.array([[1.0, 0.0, 0.0], [0.0, 0.0, 1.0]]), np.array([[1.0, 2.0 * e, 0.0], [0.0, 0.0, 1.0]])
    P1, P2 = u.basis_intersection(B1 + 0.0 * e, B2)
    c.shape(P1, (1, 2), "one common direction")
    c.shape(P2, (1, 2), "one common direction")
