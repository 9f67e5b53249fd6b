"""Intertwiner search finds all and only the intertwiners."""
from sx.h import harness
from checks.common import sym_algebra, sym_rep, kron2, other_algebras, PATTERNS, near_algebras, tiny
from checks.p12 import irreps, symQ


def system(c, Y1, Y2, d1, d2):
    """linear system M vec(S) = 0 of S Y1 = Y2 S with S of shape (d2, d1), by its entries"""
    np = c.np
    M = np.zeros((len(Y1) * d1 * d2, d1 * d2), dtype=complex)
    r = 0
    for y1, y2 in zip(Y1, Y2):
        for i in range(d2):
            for j in range(d1):
                for k in range(d1):
                    M[r, i * d1 + k] = M[r, i * d1 + k] + y1[k, j]
                for k in range(d2):
                    M[r, k * d1 + j] = M[r, k * d1 + j] - y2[i, k]
                r += 1
    return M


def gens(rep):
    X, H = rep.X, rep.H
    return [X[i] for i in range(X.shape[0])] + [H[i] for i in range(H.shape[0])]


def check(c, r1, r2, count=None):
    """all and only the Q with Q r1 = r2 Q"""
    np = c.np
    d1, d2 = r1.dim, r2.dim
    Q = c.lie.infer_change_of_basis(r1, r2)
    c.true(Q.ndim == 3 and tuple(Q.shape[1:]) == (d2, d1), "shape of the result")
    Y1, Y2 = gens(r1), gens(r2)
    if count is None:
        count = d1 * d2 - (c.rank(system(c, Y1, Y2, d1, d2)) if Y1 else 0)
    c.true(Q.shape[0] == count, "number of independent intertwiners")
    for z in range(Q.shape[0]):
        for y1, y2 in zip(Y1, Y2):
            c.eq(Q[z] @ y1, y2 @ Q[z], "intertwines")
    if Q.shape[0] > 1:
        c.true(c.rank(Q.reshape(Q.shape[0], d1 * d2)) == Q.shape[0], "linearly independent")
    elif Q.shape[0] == 1:
        c.true(c.rank(Q[0]) > 0, "nonzero")
    scaled(c, Q, d2)


def scaled(c, Q, d):
    """orthogonal for the trace product, of squared length the dimension of the target"""
    np = c.np
    if Q.shape[0] and d and Q[0].size:
        F = Q.reshape(Q.shape[0], Q[0].size)
        c.eq(F @ np.conj(F).T, d * np.eye(Q.shape[0]), "orthogonal, squared length is the dimension of the target")


def small(t):
    """(n, nH, d1, d2, kinds): free matrices"""
    q = [(1, 0, 1, 1, "complex"), (0, 1, 1, 2, "real"), (1, 0, 2, 1, "real"), (1, 1, 1, 1, "real"), (0, 2, 1, 1, "complex"), (2, 1, 1, 1, "real"), (0, 0, 1, 2, "real"), (0, 0, 2, 2, "real")]
    th = q + [(1, 1, 1, 2, "real")]
    return [dict(zip(("n", "nH", "d1", "d2", "kind"), s)) for s in (q if t == "quick" else th)][::-1]


@harness(small, "representations by free real or complex matrices, dimensions (1,1), (1,2), (2,1), up to 3 generators", limit=200)
def free(c, n, nH, d1, d2, kind):
    A = c.np.zeros((n, n, n))
    check(c, sym_rep(c, "a", A, d1, nH, kind), sym_rep(c, "b", A, d2, nH, kind))


def concrete(c, name):
    """concrete representations of one group: (list of generator lists); the representation space of the names"""
    L, lie, F = c.mod("lie_nn.irreps"), c.lie, c.mod("lie_nn.finite")
    np = c.np
    return {"su2": lambda: [L.SU2(0), L.SU2(1), L.SU2(2), lie.MulIrrep(2, L.SU2(1)), lie.ReducedRep.from_irreps([L.SU2(1), (2, L.SU2(0))])],
            "so3": lambda: [L.SO3(0), L.SO3(1), lie.MulIrrep(2, L.SO3(1))], "o3": lambda: [L.O3(0, -1), L.O3(1, -1), L.O3(1, 1), lie.ReducedRep.from_irreps([L.O3(0, 1), (2, L.O3(0, -1))])],
            "z2": lambda: [L.Z2(1), L.Z2(-1), lie.ReducedRep.from_irreps([L.Z2(1), (2, L.Z2(-1))]), lie.ReducedRep.from_irreps([(2, L.Z2(1)), L.Z2(-1)])],
            "s3": lambda: [F.Sn_standard(3), F.Sn_natural(3), F.Sn_trivial(3)], "s4": lambda: [F.Sn_standard(4), F.Sn_natural(4)], "su2real": lambda: [L.SU2Real(0), L.SU2Real(1), L.SU2Real(0.5)],
            "sl2c": lambda: [L.SL2C(1, 0), L.SL2C(0, 1), L.SL2C(0, 0), lie.MulIrrep(2, L.SL2C(0, 1))], "prod": lambda: [lie.group_product(L.SU2(1), L.Z2(-1)), lie.group_product(L.SU2(1), L.Z2(1)), lie.group_product(L.SU2(0), L.Z2(-1))],
            "su3": lambda: [L.SU3((1, 0, 0)), L.SU3((1, 1, 0)), L.SU3((0, 0, 0))],
            "sun2": lambda: [L.SU2_((1, 0)), L.SU2_((0, 0)), L.SU2_((2, 0))]}[name]()


MULT = {  # dimension of the space of intertwiners by content: computed from the terms
}


def content(c, r):
    lie = c.lie
    if isinstance(r, lie.ReducedRep):
        return {repr(m.rep): m.mul for m in r.irreps}
    if isinstance(r, lie.MulIrrep):
        return {repr(r.rep): r.mul}
    return {repr(r): 1}


def conj_by(c, r, Q, iQ):
    return c.lie.GenericRep(r.A, Q @ r.X @ iQ, Q @ r.H @ iQ)


NAMES = ["su2", "so3", "o3", "z2", "s3", "s4", "su2real", "sl2c", "prod", "su3", "sun2"]


@harness(lambda t: [{"name": n} for n in NAMES], "all ordered pairs of 3..5 concrete representations of each of 11 groups", limit=200)
def pairs(c, name):
    rs = concrete(c, name)
    a, b = c.choice("a", rs), c.choice("b", rs)
    n = None
    if name not in ("s3", "s4", "su2real"):
        A, B = content(c, a), content(c, b)
        n = sum(m * B.get(k, 0) for k, m in A.items())
        c.true(n == a.dim * b.dim - c.rank(system(c, gens(a), gens(b), a.dim, b.dim)), "Schur count (oracle self-check)")
    check(c, a, b, n)


def moved_cfgs(t):
    q = [("su2", 1, 1), ("o3", 0, 3), ("z2", 2, 3), ("s3", 0, 1), ("s3", 0, 0), ("su2", 0, 4), ("sun2", 0, 0), ("so3", 1, 1), ("z2", 1, 2), ("sl2c", 0, 0), ("sl2c", 0, 1), ("prod", 0, 0), ("prod", 0, 1)]
    th = q + [("su2", 1, 3), ("s3", 1, 1), ("su2real", 1, 1), ("su3", 0, 0), ("su3", 0, 1), ("s4", 0, 0)]
    return [{"name": n, "i": i, "j": j, "side": s} for n, i, j in (q if t == "quick" else th) for s in (0, 1)]


@harness(moved_cfgs, "concrete representations with one side conjugated by a unit triangular matrix with one free entry next to a fixed dense one", limit=250)
def moved(c, name, i, j, side):
    """one side conjugated by a symbolic matrix: same number of intertwiners"""
    np = c.np
    rs = concrete(c, name)
    a, b = rs[i], rs[j]
    tgt = b if side else a
    d = tgt.dim
    Q, iQ = np.eye(d), np.eye(d)
    if d > 1:
        x = c.real("x")
        Q[0, d - 1], iQ[0, d - 1] = x, -x
    else:
        x = c.real("x")
        c.assume(x != 0)
        Q[0, 0], iQ[0, 0] = x, 1 / x
    g = conj_by(c, tgt, Q, iQ)
    Y1, Y2 = gens(a), gens(b)
    n = a.dim * b.dim - c.rank(system(c, Y1, Y2, a.dim, b.dim))
    check(c, *((a, g, n) if side else (g, b, n)))


@harness(lambda t: [{"n1": a, "n2": b} for a in range(4) for b in range(4) if a != b], "algebras of different dimension 0..3, generators in equal total number")
def other_dimension(c, n1, n2):
    np = c.np
    m = max(n1, n2)
    r1, r2 = sym_rep(c, "a", np.zeros((n1, n1, n1)), 1, m - n1), sym_rep(c, "b", np.zeros((n2, n2, n2)), 1, m - n2)
    c.raises("algebras of different dimension refused", lambda: c.lie.infer_change_of_basis(r1, r2))


@harness(lambda t: [{"n": n, "i": i, "j": j, "k": k} for n in (1, 2, 3) for i in range(n) for j in range(n) for k in range(n)][:: 1 if t == "thorough" else 3], "structure constants that differ in one entry by at least 1/100 (entries <= 10)")
def other_constants(c, n, i, j, k):
    np = c.np
    A = np.zeros((n, n, n))
    for q in np.ndindex(n, n, n):
        x = c.real("A_%d_%d_%d" % q)
        c.assume(c.And(x <= 10, x >= -10))
        A[q] = x
    B = A.copy()
    y = c.real("y")
    c.assume(c.Or(y - A[i, j, k] >= c.q(1, 100), A[i, j, k] - y >= c.q(1, 100)))
    c.assume(c.And(y <= 10, y >= -10))
    B[i, j, k] = y
    r1, r2 = sym_rep(c, "a", A, 1, 0), sym_rep(c, "b", B, 1, 0)
    c.raises("different algebras refused", lambda: c.lie.infer_change_of_basis(r1, r2))


# ---- Clebsch-Gordan coefficients of arbitrary representations
def check_cg(c, r1, r2, r3, count=None, norm=True):
    np = c.np
    d1, d2, d3 = r1.dim, r2.dim, r3.dim
    C = c.lie.clebsch_gordan(r1, r2, r3)
    c.true(C.ndim == 4 and tuple(C.shape[1:]) == (d1, d2, d3), "shape of the coefficients")
    I1, I2 = np.eye(d1), np.eye(d2)
    X1, X2, X3, H1, H2, H3 = r1.X, r2.X, r3.X, r1.H, r2.H, r3.H
    for z in range(C.shape[0]):
        S = np.moveaxis(C[z], 2, 0).reshape(d3, d1 * d2)
        for a in range(X1.shape[0]):
            c.eq(S @ (kron2(c, X1[a], I2) + kron2(c, I1, X2[a])), X3[a] @ S, "equivariant")
        for a in range(H1.shape[0]):
            c.eq(S @ kron2(c, H1[a], H2[a]), H3[a] @ S, "equivariant (discrete)")
    if count is None:
        Y12 = [kron2(c, X1[a], I2) + kron2(c, I1, X2[a]) for a in range(X1.shape[0])] + [kron2(c, H1[a], H2[a]) for a in range(H1.shape[0])]
        count = d1 * d2 * d3 - (c.rank(system(c, Y12, gens(r3), d1 * d2, d3)) if Y12 else 0)
    c.true(C.shape[0] == count, "number of equivariant bilinear maps")
    if C.shape[0]:
        c.true(c.rank(C.reshape(C.shape[0], d1 * d2 * d3)) == C.shape[0], "linearly independent")
    if norm:
        scaled(c, C, d3)


@harness(lambda t: [dict(zip(("n", "nH", "d1", "d2", "d3"), s)) for s in ((1, 0, 1, 1, 1), (0, 1, 1, 1, 1), (1, 1, 1, 1, 1), (0, 1, 1, 1, 2), (0, 1, 2, 1, 1), (1, 0, 1, 2, 1), (0, 0, 1, 2, 1))], "free matrices of dimension 1, one of them of dimension 2", limit=150, prio=1)
def cg_free(c, n, nH, d1, d2, d3):
    A = c.np.zeros((n, n, n))
    k = "real" if max(d1, d2, d3) > 1 else "complex"
    check_cg(c, sym_rep(c, "a", A, d1, nH, k), sym_rep(c, "b", A, d2, nH, k), sym_rep(c, "c", A, d3, nH, k), norm=max(d1, d2, d3) == 1)


@harness(lambda t: [{"name": n} for n in (("su2", "z2", "s3", "o3", "prod", "sun2") if t == "quick" else NAMES)], "triples of concrete representations of each group, not tabulated (plain copies)", limit=250)
def cg_concrete(c, name):
    lie = c.lie
    rs = [r for r in concrete(c, name) if r.dim <= 3][:4]
    a, b, o = c.choice("a", rs[:3]), c.choice("b", rs), c.choice("o", rs)
    plain = c.pick("plain", 0, 2)
    ops = [lie.GenericRep.from_rep(r) if p == plain else r for p, r in enumerate((a, b, o))]
    check_cg(c, *ops)


@harness(lambda t: [{"name": n, "ops": o, "pos": p, "count": k} for n, o, p, k in (("su2", (1, 1, 0), 0, 1), ("su2", (1, 1, 0), 1, 1), ("su2", (0, 1, 1), 1, 1), ("su2", (1, 0, 1), 2, 1), ("su2", (0, 1, 1), 2, 1), ("s3", (0, 0, 2), 0, 1), ("s3", (0, 0, 2), 1, 1), ("s3", (2, 0, 0), 2, 1),
                                                                                 ("s3", (0, 2, 0), 0, 1), ("z2", (2, 1, 3), 0, 5), ("z2", (2, 1, 3), 2, 5), ("o3", (3, 0, 0), 0, 1))],
         "products with a one-dimensional representation, one operand conjugated by a unit triangular matrix with a free entry", limit=200)
def cg_moved(c, name, ops, pos, count):
    np = c.np
    rs = concrete(c, name)
    ops = [rs[i] for i in ops]
    d = ops[pos].dim
    x = c.real("x")
    Q, iQ = np.eye(d), np.eye(d)
    if d > 1:
        Q[0, d - 1], iQ[0, d - 1] = x, -x
    ops[pos] = conj_by(c, ops[pos], Q, iQ)
    check_cg(c, *ops, count=count)


@harness(lambda t: [{"n": n, "pattern": p} for n in (2, 3) for p in PATTERNS], "structure constants of 2 or 3 generators (entries <= 10) that differ by at least 1/100 in the given pattern: two opposite changes, one value moved to another entry, sign, order of the indices, names of the generators")
def other_pattern(c, n, pattern):
    A, B = other_algebras(c, n, pattern)
    r1, r2 = sym_rep(c, "a", A, 1, 0), sym_rep(c, "b", B, 1, 0)
    c.raises("different algebras refused", lambda: c.lie.infer_change_of_basis(r1, r2))
    c.raises("different algebras refused", lambda: c.lie.infer_change_of_basis(r2, r1))


@harness(None, "0..3 discrete generators on either side, free matrices of dimension 1 or 2")
def other_discrete(c):
    n, d = c.pick("n", 0, 2), c.pick("d", 1, 2)
    h1, h2 = c.pick("h1", 0, 3), c.pick("h2", 0, 3)
    c.assume(h1 != h2)
    A = sym_algebra(c, n)
    r1, r2 = sym_rep(c, "a", A, 1, h1), sym_rep(c, "b", A, d, h2)
    c.raises("different numbers of discrete generators refused", lambda: c.lie.clebsch_gordan(r1, r2, r2))


@harness(lambda t: [dict(zip(("d1", "d2", "kind"), s)) for s in ((1, 1, "complex"), (1, 2, "real"), (2, 1, "real"))], "one free real or complex matrix on either side, given bare or as an ensemble of one", limit=150)
def single_matrix(c, d1, d2, kind):
    """the array form: X1 S = S X2"""
    x1, x2 = c.arr("x", (d1, d1), kind), c.arr("y", (d2, d2), kind)
    form = c.pick("form", 0, 2)
    S = c.util.infer_change_of_basis(x1 if form != 1 else x1[None], x2 if form != 2 else x2[None])
    c.true(S.ndim == 3 and tuple(S.shape[1:]) == (d1, d2), "shape of the result")
    n = d1 * d2 - c.rank(system(c, [x2], [x1], d2, d1))
    c.true(S.shape[0] == n, "number of independent intertwiners")
    for z in range(S.shape[0]):
        c.eq(x1 @ S[z], S[z] @ x2, "intertwines")
    if S.shape[0]:
        c.true(c.rank(S.reshape(S.shape[0], d1 * d2)) == S.shape[0], "linearly independent")


@harness(lambda t: [{"d": d, "i": i} for d in (2, 3) for i in range(3) if d == 2 or i], "one matrix of dimension 2 or 3 against its copy moved by a unit triangular matrix with a free entry", limit=150)
def single_moved(c, d, i):
    np = c.np
    m = [np.array([[1.0, 2, 0], [0, 3, 1], [4, 0, 5]]), np.diag([1.0, 1.0, 2.0]), np.array([[0.0, 1, 0], [-1, 0, 0], [0, 0, 1]])][i][:d, :d]
    x = c.real("x")
    Q, iQ = np.eye(d), np.eye(d)
    Q[0, d - 1], iQ[0, d - 1] = x, -x
    y = Q @ m @ iQ
    n = d * d - c.rank(system(c, [m], [m], d, d))
    for a, b in ((m, y), (y, m)):
        S = c.util.infer_change_of_basis(a, b)
        c.true(tuple(S.shape) == (n, d, d), "number of independent intertwiners")
        for z in range(n):
            c.eq(a @ S[z], S[z] @ b, "intertwines")
        c.true(c.rank(S.reshape(n, d * d)) == n, "linearly independent")


@harness(None, "one, two or three of the representations of dimension zero (no copy of an irrep, as a multiple, a plain or a reduced representation), the others of dimension 1 to 3; 0..2 generators of each kind", max_paths=4000)
def empty(c):
    """nothing maps to or from a representation of dimension zero"""
    lie, np, L = c.lie, c.np, c.mod("lie_nn.irreps")
    fam = c.choice("fam", ["SO3", "O3", "Z2", "SU2", "free"])
    if fam == "free":
        n, nH = c.pick("n", 0, 2), c.pick("nH", 0, 2)
        ir = sym_rep(c, "a", np.zeros((n, n, n)), c.pick("d", 1, 2), nH)
    else:
        ir = {"SO3": lambda: L.SO3(1), "O3": lambda: L.O3(1, -1), "Z2": lambda: L.Z2(-1), "SU2": lambda: L.SU2(2)}[fam]()
    kind = c.choice("kind", ["multiple", "plain", "reduced"])
    z = lie.MulIrrep(0, ir)
    if kind == "plain":
        z = lie.GenericRep.from_rep(z)
    elif kind == "reduced":
        z = lie.ReducedRep(ir.algebra(), (z,), None)
    c.true(z.dim == 0, "dimension zero")
    where = [c.pick(f"w{i}", 0, 1) for i in range(3)]
    if not any(where):
        where[0] = 1
    ops = [z if w else (lie.GenericRep.from_rep(ir) if i == 1 else ir) for i, w in enumerate(where)]
    C = lie.clebsch_gordan(*ops)
    c.true(tuple(C.shape) == (0,) + tuple(o.dim for o in ops), "no bilinear map, of the right shape")
    if where[0] or where[1]:
        Q = lie.infer_change_of_basis(ops[0], ops[1])
        c.true(tuple(Q.shape) == (0, ops[1].dim, ops[0].dim), "no intertwiner, of the right shape")


@harness(lambda t: [{"name": n, "ta": a, "tb": b} for n, a, b in [("z2", [(4, 0), (3, 1)], [(2, 1), (3, 0), (1, 1)]), ("su2", [(3, 1), (2, 0)], [(1, 0), (2, 1), (1, 0)]), ("o3", [(2, 0), (1, 1)], [(3, 0), (1, 1), (1, 2)]), ("su2", [(1, 2), (3, 0), (1, 1)], [(2, 0), (1, 2)]),
                                                                  ("prod", [(2, 1), (3, 2)], [(4, 2), (1, 0)]), ("sun2", [(3, 0), (2, 1)], [(2, 0), (5, 1)]), ("z2", [(7, 1)], [(6, 1)]), ("s3", [(2, 0), (3, 2)], [(1, 0), (2, 2)])]
                    + ([("su2", [(4, 1), (3, 0)], [(4, 0), (3, 1)]), ("so3", [(3, 1), (2, 0)], [(2, 1), (4, 0)]), ("z2", [(6, 1), (5, 0)], [(4, 0), (7, 1)])] if t == "thorough" else [])],
         "sums with larger multiplicities (up to 7, dimension up to 13), the second one in a basis with a free entry: sum of the products of the multiplicities", limit=200)
def copies(c, name, ta, tb):
    np, lie = c.np, c.lie
    rs = concrete(c, name)
    a, b = (lie.ReducedRep.from_irreps([(m, rs[i]) for m, i in t]) for t in (ta, tb))
    d = b.dim
    Q, iQ = np.eye(d), np.eye(d)
    x = c.real("x")
    Q[d - 1, 0], iQ[d - 1, 0] = x, -x
    g = conj_by(c, b, Q[::-1], iQ[:, ::-1])
    n = sum(m * k for m, i in ta for k, j in tb if i == j)
    check(c, a, g, n)
    check(c, g, a, n)


@harness(lambda t: [{"k": k} for k in (3, 4)], "so(3) constants against the same with one entry changed by 1 to 2 times 10^-k")
def near_algebra(c, k):
    np, lie = c.np, c.lie
    A, B = near_algebras(c, k)
    r1, r2 = sym_rep(c, "a", A, 1, 0), sym_rep(c, "b", B, 1, 0)
    c.raises("different algebras refused", lambda: lie.infer_change_of_basis(r1, r2))


@harness(lambda t: [{"b": b, "d": d, "kind": w} for b in ((1, 1), (2, 2), (1, 3), (1, 5), (1, 7)) for d in (1, 2) for w in ("X", "H")], "representations that differ by a small free amount: no matrix that is not an intertwiner is returned (the search may refuse)")
def near(c, b, d, kind):
    np, lie = c.np, c.lie
    e = tiny(c, b[1], m=b[0])
    u, v = [2.0, 1.0][:d], [1.0 * (2.0 + e), 3.0][:d]
    Y1, Y2 = (np.stack([np.diag(np.array(x))]) for x in (u, v))
    if kind == "X":
        r1, r2 = (lie.GenericRep(np.zeros((1, 1, 1)), y, np.zeros((0, d, d))) for y in (Y1, Y2))
    else:
        r1, r2 = (lie.GenericRep(np.zeros((0, 0, 0)), np.zeros((0, d, d)), y) for y in (Y1, Y2))
    ok, S = c.attempt(lambda: lie.infer_change_of_basis(r1, r2), AssertionError)
    if ok:
        c.shape(S, (0, d, d), "there is no intertwiner")
    else:
        c.true(b[1] > 1 and b != (2, 2), "differences of 1/50 and more are told apart")
