"""Decomposition into irreps."""
from sx.h import harness
from checks.common import sym_rep, tiny
from checks.p12 import irreps, symQ
from checks.p17 import system, gens, conj_by


def commutant_dim(c, rep):
    Y = gens(rep)
    if not Y:
        return rep.dim ** 2
    return rep.dim ** 2 - c.rank(system(c, Y, Y, rep.dim, rep.dim))


def check(c, rep, terms=None):
    lie = c.lie
    kA, kX, kH = c.snapshot(rep.A), c.snapshot(rep.X), c.snapshot(rep.H)
    r = lie.reduce(rep)
    c.true(isinstance(r, lie.ReducedRep), "a reduced representation")
    c.eq(r.A, kA, "same algebra")
    c.true(r.dim == rep.dim, "same dimension")
    c.true(sum(m.mul * m.rep.dim for m in r.irreps) == rep.dim, "dimensions of the terms add up")
    c.eq(r.X, kX, "same continuous generators")
    c.eq(r.H, kH, "same discrete generators")
    for m in r.irreps:
        if m.mul:
            c.true(commutant_dim(c, m.rep) == 1, "terms are irreducible")
            c.eq(m.rep.A, kA, "algebra of the terms")
    if terms is not None:
        got = sorted((m.rep.dim, m.mul) for m in r.irreps if m.mul)
        c.true(sum(m for _, m in got) == sum(m for _, m in terms), "number of irreps")
    c.eq(rep.X, kX, "operand not modified")
    c.eq(rep.H, kH, "operand not modified")
    return r


# ---- sums of irreps, constant bases
def pool(c):
    L, lie, np = c.mod("lie_nn.irreps"), c.lie, c.np
    Z = np.zeros
    char = lambda *z: lie.GenericRep(Z((0, 0, 0)), Z((0, 1, 1)), np.array([[[x]] for x in z]))
    return {
        "z2": [L.Z2(1), L.Z2(-1)], "su2": [L.SU2(0), L.SU2(1), L.SU2(2)], "so3": [L.SO3(0), L.SO3(1)], "o3": [L.O3(0, 1), L.O3(0, -1), L.O3(1, -1)],
        "sl2c": [L.SL2C(0, 0), L.SL2C(1, 0), L.SL2C(0, 1)], "sun2": [L.SU2_((0, 0)), L.SU2_((1, 0))], "su3": [L.SU3((0, 0, 0)), L.SU3((1, 0, 0)), L.SU3((1, 1, 0))],
        "prod": [lie.group_product(L.SU2(0), L.Z2(-1)), lie.group_product(L.SU2(1), L.Z2(1)), lie.group_product(L.SU2(1), L.Z2(-1))],
        "z4": [char(1.0 + 0 * c.j), char(c.j), char(-1.0 + 0 * c.j), char(-c.j)],
        "u1": [lie.GenericRep(Z((1, 1, 1)), np.array([[[k * c.j]]]), Z((0, 1, 1))) for k in (0, 1, -2)],
        "charges": [lie.GenericRep(Z((1, 1, 1)), np.array([[[k * c.j]]]), Z((0, 1, 1))) for k in (0, 1, -2, 3, -1, 2, -3)],
        "q8": [char(1.0 + 0 * c.j, -1.0 + 0 * c.j), lie.GenericRep(Z((0, 0, 0)), Z((0, 2, 2)), np.stack([c.j * np.array([[1.0, 0.0], [0.0, -1.0]]), np.array([[0.0 + 0 * c.j, 1.0], [-1.0, 0.0]])]))],
    }


SUMS = [("z2", (0, 1)), ("z2", (0, 1, 1)), ("z2", (1, 1)), ("su2", (0, 1)), ("su2", (1, 0)), ("su2", (1,)), ("su2", (2, 0)), ("so3", (0, 1)), ("o3", (0, 1)), ("o3", (1, 2)), ("o3", (0, 1, 1)),
        ("sl2c", (1, 2)), ("sl2c", (0, 1)), ("sun2", (1, 0)), ("su3", (1,)), ("su3", (0, 1)), ("prod", (0, 1)), ("prod", (1, 2)), ("z4", (1, 3)), ("z4", (0, 1, 2)), ("z4", (1, 1)), ("u1", (0, 1)), ("u1", (1, 2)), ("u1", (1, 2, 1)), ("q8", (0, 1)), ("q8", (1,)), ("su2", (1, 1)), ("z2", (1, 1, 1)), ("u1", (0, 1, 1, 1)), ("z4", (3, 1, 0, 2)), ("z2", (0, 1, 0, 1)), ("charges", (0, 1, 2, 3, 4, 5)), ("charges", (6, 3, 5, 0, 4, 2, 1))]
MORE = [("su2", (1, 2)), ("su2", (0, 0, 1)), ("su3", (1, 2)), ("q8", (1, 0, 1)), ("so3", (1, 1)), ("o3", (2, 0, 1)), ("prod", (0, 1, 0)), ("z4", (0, 1, 2, 3)), ("su2", (0, 2, 0))]


def total(c, fam, terms):
    lie = c.lie
    rs = pool(c)[fam]
    G = lie.GenericRep.from_rep
    r = G(rs[terms[0]])
    for i in terms[1:]:
        r = G(lie.direct_sum(r, G(rs[i])))
    n = {}
    for i in terms:
        n[i] = n.get(i, 0) + 1
    return r, n


def weights(c, rep, terms, dims, T, iT, triangular=False):
    """numbers in [0, 1) a random generator may return: generic ones, or for repeated irreps those giving a commuting matrix with rational eigenvalues"""
    np = c.np
    n = [terms.count(i) for i in terms]
    if max(n) == 1 and not triangular:
        return [0.71, 0.23, 0.59, 0.83, 0.13, 0.37, 0.47, 0.89, 0.31]
    d = rep.dim
    M = np.zeros((d, d))
    off = [sum(dims[:i]) for i in range(len(dims))]
    free = [c.q(1, 8), c.q(3, 16), c.q(13, 16), c.q(15, 16)]
    for i, t in enumerate(terms):
        for j, u in enumerate(terms):
            if t != u:
                continue
            if triangular:                 # eigenvalues in the order of the terms
                w = [c.q(x, 16) for x in (3, 9, 5, 13, 7)][i] if i == j else c.q(int(i < j), 8)
            elif terms.count(t) == 2:
                first = terms.index(t)
                k = len([x for x in set(terms[:first]) if terms.count(x) == 2])      # eigenvalues 5/16, 10/16 and for the second pair 8/16, 11/16
                w = [[[c.q(7, 16), c.q(2, 16)], [c.q(3, 16), c.q(8, 16)]], [[c.q(9, 16), c.q(2, 16)], [c.q(1, 16), c.q(10, 16)]]][k][int(i != first)][int(j != first)]
            elif terms.count(t) == 3:      # eigenvalues 3/4, 1/4, 1/2
                k = [x for x, y in enumerate(terms) if y == t]
                w = [[c.q(11, 24), c.q(5, 24), c.q(1, 12)], [c.q(5, 24), c.q(11, 24), c.q(1, 12)], [c.q(1, 12), c.q(1, 12), c.q(7, 12)]][k.index(i)][k.index(j)]
            else:
                w = free[t]
            for k in range(dims[i]):
                M[off[i] + k, off[j] + k] = w
    M = T @ M @ iT
    Q = c.util.infer_change_of_basis(np.concatenate([rep.X, rep.H]), np.concatenate([rep.X, rep.H]), epsilon=1e-10)
    ws = []
    for q in Q:
        w = sum(np.conj(q[i, j]) * M[i, j] for i in range(d) for j in range(d)) / sum(np.conj(q[i, j]) * q[i, j] for i in range(d) for j in range(d))
        c.assume(c.And(w.imag == 0 if c.sym else abs(w.imag) < 1e-9, (w.real >= (0 if c.sym else -1e-12)) if triangular else w.real > 0, w.real < 1))
        ws.append(w.real)
    return ws


@harness(lambda t: [{"fam": f, "terms": list(s), "basis": b} for f, s in SUMS + (MORE if t == "thorough" else []) for b in ("plain", "phase", "mix", "shear")],
         "sums of up to 4 small irreps of 11 groups, 6 or 7 charges of U(1) (also repeated, up to three times) in permuted bases, bases with phases 1, i, -1, -i, a complex rotation of two axes, a shear", limit=250, max_paths=60, max_replays=60)
def sums(c, fam, terms, basis):
    np, lie = c.np, c.lie
    r, n = total(c, fam, terms)
    d = r.dim
    Q, iQ = np.eye(d, dtype=complex), np.eye(d, dtype=complex)
    if d > 1:
        k = c.pick("k", 0, min(d, 3) - 1)
        p = [(i + k) % d for i in range(d)]
        Q, iQ = Q[p], iQ[:, p]
        if basis == "phase":
            D, iD = np.eye(d, dtype=complex), np.eye(d, dtype=complex)
            for i in (0, d - 1):
                z = [1.0, c.j, -1.0, -c.j][c.pick(f"z{i}", 0, 3)]
                D[i, i], iD[i, i] = z, np.conj(z)
            Q, iQ = D @ Q, iQ @ iD
        if basis == "mix":
            M = np.eye(d, dtype=complex)
            s = c.sqrt(c.q(1, 2))
            M[0, 0], M[0, d - 1], M[d - 1, 0], M[d - 1, d - 1] = s, s * c.j, s * c.j, s
            Q, iQ = M @ Q, iQ @ np.conj(M.T)
        if basis == "shear":
            M, iM = np.eye(d, dtype=complex), np.eye(d, dtype=complex)
            M[0, d - 1], iM[0, d - 1] = 1.0 + c.j, -1.0 - c.j
            Q, iQ = M @ Q, iQ @ iM
    c.randoms(weights(c, conj_by(c, r, Q, iQ), list(terms), [pool(c)[fam][i].dim for i in terms], Q, iQ))
    check(c, conj_by(c, r, Q, iQ), list(n.items()))


# ---- symbolic bases: the eigenvectors are given, verified, and any generic weights are allowed
def rot(c, name):
    """cos, sin of an arbitrary angle"""
    if c.sym:
        a, b = c.real(name + "c"), c.real(name + "s")
        c.assume(a * a + b * b == 1)
        return a, b
    t = float(c.real(name + "c"))
    return (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)


SYM = [("z2", (0, 1), "rotation"), ("z2", (0, 1), "shear"), ("z4", (1, 3), "rotation"), ("u1", (0, 1), "shear"), ("u1", (1, 2), "rotation"), ("o3", (0, 1), "rotation"), ("z4", (1, 2), "phase"), ("z2", (1, 0), "shear"), ("su2", (1,), "phase"), ("q8", (1,), "phase"), ("su2", (1,), "shear"), ("q8", (1,), "shear")]
SYMT = [("z2", (0, 1), "complex shear"), ("su2", (0, 1), "shear"), ("su2", (0, 1), "phase"), ("q8", (0, 1), "shear"), ("q8", (1,), "rotation"), ("z4", (0, 1, 2), "shear")]


@harness(lambda t: [{"fam": f, "terms": list(s), "basis": b, "free": w} for f, s, b in SYM + (SYMT if t == "thorough" else []) for w in ((0, 1) if len(s) > 1 else (0,))],
         "sums of inequivalent irreps of dimension <= 2 (3 thorough) in a basis given by an arbitrary rotation, shear or phase (symbolic) of two axes", limit=250)
def anybasis(c, fam, terms, basis, free):
    np, lie = c.np, c.lie
    r, n = total(c, fam, terms)
    d = r.dim
    Q, iQ = np.eye(d, dtype=complex), np.eye(d, dtype=complex)
    e = d - 1
    if basis == "rotation":
        x, y = rot(c, "r")
        Q[0, 0], Q[0, e], Q[e, 0], Q[e, e] = x, -y, y, x
        iQ = np.conj(Q.T)
    elif basis == "phase":
        x, y = rot(c, "r")
        Q[e, e], iQ[e, e] = x + c.j * y, x - c.j * y
    else:
        x = c.real("x")
        if basis == "complex shear":
            x = x + c.j * c.real("y")
        Q[0, e], iQ[0, e] = x, -x
    hint = [[Q[i, k] for i in range(d)] for k in range(d)]
    c.eig_hint(hint)
    rep = conj_by(c, r, Q, iQ)
    Y = np.concatenate([rep.X, rep.H])
    K = c.util.infer_change_of_basis(Y, Y, epsilon=1e-10)
    if len(terms) > 1:
        w = [0.71, 0.23, 0.59, 0.83, 0.13, 0.37, 0.47, 0.89, 0.31][:len(K)]
        if free:
            w = [c.real(f"w{i}") for i in range(len(K))]
            for x in w:
                c.assume(c.And(x >= 0, x < 1))
        c.randoms(w)
        M = iQ @ sum(x * k for x, k in zip(w, K)) @ Q
        off = [sum(pool(c)[fam][j].dim for j in terms[:i]) for i in range(len(terms))]
        for i in range(len(off)):
            for j in range(i):
                e = M[off[i], off[i]] - M[off[j], off[j]]
                c.assume(c.Not(c.And(e.real == 0, e.imag == 0)) if c.sym else abs(e) > 1e-3)     # the numbers drawn are generic
    check(c, rep, list(n.items()))


# ---- representations that are reduced already
@harness(lambda t: [{"fam": f} for f in ("su2", "so3", "o3", "z2", "sl2c", "sun2", "prod", "su2real")], "irreps, multiples 1..3, of eight groups", limit=250)
def multiples(c, fam):
    lie = c.lie
    r = c.choice("r", irreps(c, fam)[:3])
    m = c.pick("m", 0, 3)
    rep = r if m == 0 else lie.MulIrrep(m, r)
    q = lie.reduce(rep)
    c.true(isinstance(q, lie.ReducedRep), "a reduced representation")
    c.true(q.dim == rep.dim, "same dimension")
    c.eq(q.A, rep.A, "same algebra")
    c.eq(q.X, rep.X, "same continuous generators")
    c.eq(q.H, rep.H, "same discrete generators")
    c.true(sum(t.mul * t.rep.dim for t in q.irreps) == rep.dim, "dimensions add up")


@harness(lambda t: [{"fam": f, "terms": s, "q": q} for f, s in (("su2", [(1, 1), (2, 0)]), ("o3", [(1, 0), (1, 1)]), ("z2", [(2, 0), (1, 1)]), ("prod", [(1, 0), (1, 1)]), ("su2", [(0, 0), (1, 1)])) for q in ("real", "none")],
         "reduced representations with a symbolic change of basis", limit=250)
def reduced(c, fam, terms, q):
    lie = c.lie
    rs = irreps(c, fam)
    d = sum(m * rs[i].dim for m, i in terms)
    rep = lie.ReducedRep.from_irreps([(m, rs[i]) for m, i in terms], symQ(c, "q", d, q, 1))
    z = lie.reduce(rep)
    c.true(isinstance(z, lie.ReducedRep), "a reduced representation")
    c.eq(z.A, rep.A, "same algebra")
    c.eq(z.X, rep.X, "same continuous generators")
    c.eq(z.H, rep.H, "same discrete generators")
    c.true(sum(t.mul * t.rep.dim for t in z.irreps) == rep.dim, "dimensions add up")


# ---- irreducibility
@harness(lambda t: [dict(n=n, nH=h, d=d, kind=k) for n, h, d, k in [(1, 0, 1, "complex"), (0, 1, 1, "real"), (0, 0, 1, "real"), (0, 0, 2, "real"), (2, 1, 1, "complex"), (0, 0, 3, "real")]],
         "generators with free entries of dimension 1; no generators, dimension <= 3", limit=250)
def irreducible_free(c, n, nH, d, kind):
    np = c.np
    r = sym_rep(c, "a", np.zeros((n, n, n)), d, nH, kind)
    c.true(bool(c.lie.is_irreducible(r)) == (commutant_dim(c, r) == 1), "irreducible exactly when only scalars commute")


@harness(lambda t: [dict(n=n, nH=h, tri=k, free=f) for f in ((2, 3) if t == 'thorough' else (2,)) for n, h, k in [(2, 0, 0), (0, 2, 0), (1, 1, 0), (2, 0, 1), (0, 2, 1), (1, 1, 1)]], "pairs of 2x2 generators with two (thorough: three) free entries", limit=250)
def irreducible_pair(c, n, nH, tri, free):
    np = c.np
    x, y, z = c.real("x") if free == 3 else c.q(0), c.real("y"), c.real("z")
    a = np.array([[1.0, 0.0], [0.0, -1.0]])
    a[0, 1] = x
    b = np.zeros((2, 2))
    b[0, 1], b[1, 0] = y, z
    if tri:
        b[1, 0] = 0.0
        b[0, 0] = z
    g = np.stack([a, b])
    r = c.lie.GenericRep(np.zeros((n, n, n)), g[:n], g[n:])
    c.true(bool(c.lie.is_irreducible(r)) == (commutant_dim(c, r) == 1), "irreducible exactly when only scalars commute")


@harness(lambda t: [{"fam": f} for f in ("z2", "su2", "so3", "o3", "sl2c", "sun2", "su3", "prod", "z4", "u1", "q8")], "irreps, multiples and pairwise sums of small irreps of 11 groups", limit=250, max_paths=60)
def irreducible_known(c, fam):
    lie = c.lie
    rs = pool(c)[fam]
    r = c.choice("r", rs)
    k = c.pick("k", 0, 2)
    if k == 0:
        c.true(bool(lie.is_irreducible(r)), "irreps are irreducible")
    elif k == 1:
        c.true(not bool(lie.is_irreducible(lie.MulIrrep(2, r))), "multiples are not irreducible")
        c.true(bool(lie.is_irreducible(lie.MulIrrep(1, r))), "one copy is irreducible")
    else:
        o = c.choice("o", rs)
        s = lie.direct_sum(r, o)
        c.true(not bool(lie.is_irreducible(lie.GenericRep.from_rep(s))), "sums are not irreducible")
        c.true(not bool(lie.is_irreducible(s)), "sums are not irreducible")


@harness(lambda t: [dict(h=h, zero=z) for h in (0, 1) for z in ((1, 0), (0, 0))], "one 2x2 generator with two or three free entries", limit=250)
def irreducible_one(c, h, zero):
    np = c.np
    a = np.zeros((2, 2))
    for i in range(2):
        for j in range(2):
            if (i, j) not in (tuple(zero), (1, 1)):
                a[i, j] = c.real(f"a{i}{j}")
    g = a[None]
    r = c.lie.GenericRep(np.zeros((1 - h,) * 3), g[: 1 - h], g[1 - h :])
    c.true(bool(c.lie.is_irreducible(r)) == (commutant_dim(c, r) == 1), "irreducible exactly when only scalars commute")


@harness(lambda t: [{"k": k, "kind": w} for k in (1, 2, 3) for w in ("X", "H")], "two blocks that are coupled by a small free entry of size 10^-k")
def near_reducible(c, k, kind):
    np, lie = c.np, c.lie
    e = tiny(c, k)
    Y = np.array([[[1.0, 0.0], [0.0, 2.0]], [[1.0, 1.0 * e], [1.0 * e, 3.0]]])
    Z = np.zeros((0, 2, 2))
    r = lie.GenericRep(np.zeros((2, 2, 2)), Y, Z) if kind == "X" else lie.GenericRep(np.zeros((0, 0, 0)), Z, Y)
    c.true(bool(lie.is_irreducible(r)), "coupled blocks are irreducible")
    c.true(bool(c.util.is_irreducible(np.concatenate([r.X, r.H]) if kind == "H" else r.X)), "also when given as matrices")


@harness(lambda t: [{"fam": f, "terms": list(s)} for f, s in [("z2", (0, 1, 0, 1)), ("z2", (0, 1, 1, 0)), ("z4", (1, 3, 0, 1, 3)), ("u1", (1, 2, 1)), ("o3", (0, 1, 0)), ("prod", (1, 2, 1)), ("su3", (1, 2, 1)), ("o3", (2, 0, 2)), ("u1", (0, 1, 2, 0, 1))]],
         "sums in which copies of an irrep come with other irreps of the same dimension in between", limit=250, max_replays=60)
def interleaved(c, fam, terms):
    np = c.np
    r, n = total(c, fam, terms)
    one = np.eye(r.dim, dtype=complex)
    c.randoms(weights(c, r, list(terms), [pool(c)[fam][i].dim for i in terms], one, one, True))
    check(c, r, list(n.items()))
