"""Tensor powers."""
from sx.h import harness
from checks.common import sym_algebra, sym_rep, kron2
from checks.p12 import irreps, symQ


def plain_power(c, X, H, d, n):
    """generators of the n-fold product by the entrywise Kronecker formula"""
    np = c.np
    if n == 0:
        return [np.zeros((1, 1)) for _ in X], [np.ones((1, 1)) for _ in H], 1
    PX, PH, D = list(X), list(H), d
    I = np.eye(d)
    for _ in range(n - 1):
        ID = np.eye(D)
        PX = [kron2(c, p, I) + kron2(c, ID, x) for p, x in zip(PX, X)]
        PH = [kron2(c, p, h) for p, h in zip(PH, H)]
        D *= d
    return PX, PH, D


def check(c, rep, n):
    np = c.np
    t = c.lie.tensor_power(rep, n)
    X, H = rep.X, rep.H
    PX, PH, D = plain_power(c, [X[i] for i in range(X.shape[0])], [H[i] for i in range(H.shape[0])], rep.dim, n)
    c.true(t.dim == D, "dimension")
    tX, tH = t.X, t.H
    c.shape(tX, (len(PX), D, D), "shape of the continuous generators")
    c.shape(tH, (len(PH), D, D), "shape of the discrete generators")
    c.eq(t.A, rep.A, "algebra")
    for i, x in enumerate(PX):
        c.eq(tX[i], x, "continuous generators of the power")
    for i, h in enumerate(PH):
        c.eq(tH[i], h, "discrete generators of the power")


def pl(t):
    q = [(1, 1, 2, "real", 4), (2, 1, 2, "complex", 3), (0, 2, 2, "real", 3), (3, 0, 1, "complex", 6), (1, 2, 3, "real", 2), (0, 0, 2, "real", 3), (2, 0, 2, "real", 2)]
    if t == "thorough":
        q += [(1, 1, 2, "complex", 4), (2, 2, 3, "real", 3), (0, 1, 2, "real", 5), (1, 1, 1, "real", 9), (3, 1, 2, "real", 4)]
    return [dict(zip(("n", "nH", "d", "kind", "k"), s)) for s in q][::-1]


@harness(pl, "arbitrary matrices of dimension <= 3, powers 0..4 (0..9 for dimension 1)", max_paths=50)
def plain(c, n, nH, d, kind, k):
    p = c.pick("power", 0, k)
    A = sym_algebra(c, n)
    check(c, sym_rep(c, "a", A, d, nH, kind), p)


@harness(lambda t: [{"fam": f, "i": i, "k": k} for f, i, k in
                    [("su2", 1, 3), ("su2", 0, 4), ("so3", 1, 2), ("o3", 1, 2), ("o3", 2, 5), ("z2", 1, 6), ("su2real", 1, 2), ("sl2c", 1, 2), ("sun2", 1, 3), ("su3", 1, 2), ("prod", 1, 3), ("prod3", 1, 2)]
                    + ([("su2", 1, 4), ("su2", 2, 3), ("so3", 1, 3), ("sl2c", 2, 3), ("su3", 2, 2), ("z2", 1, 9), ("prod", 1, 4)] if t == "thorough" else [])],
         "irreps of every family and of products of groups, powers 0..2 / 0..4 (up to 9 for dimension 1)", limit=250)
def tabulated(c, fam, i, k):
    p = c.pick("power", 0, k)
    check(c, irreps(c, fam)[i], p)


@harness(lambda t: [{"fam": f, "terms": ts, "q": q, "k": k} for f, ts, q, k in
                    [("su2", [(1, 0), (1, 1)], "real", 2), ("z2", [(1, 0), (1, 1)], "complex", 2), ("z2", [(2, 1)], "real", 3), ("o3", [(1, 2), (1, 0)], "real", 2), ("prod", [(1, 1)], "real", 2),
                     ("su2", [(2, 1)], "none", 2), ("su2", [(0, 0), (1, 1)], "real", 2)]
                    + ([("sun2", [(1, 1)], "complex", 3), ("z2", [(1, 0), (1, 1)], "complex", 3), ("z2", [(1, 0), (2, 1)], "real", 2), ("sl2c", [(1, 1)], "real", 3)] if t == "thorough" else [])],
         "multiples and reduced representations with free change of basis, powers 0..2 / 0..3", limit=250)
def reduced(c, fam, terms, q, k):
    lie = c.lie
    rs = irreps(c, fam)
    p = c.pick("power", 0, k)
    d = sum(m * rs[i].dim for m, i in terms)
    if q == "none":
        check(c, lie.MulIrrep(terms[0][0], rs[terms[0][1]]), p)
    else:
        check(c, lie.ReducedRep.from_irreps([(m, rs[i]) for m, i in terms], symQ(c, "q", d, q)), p)


@harness(lambda t: [{"kind": k} for k in ("natural", "standard", "trivial", "multiple", "product_plain")], "finite-group and mixed product representations, powers 0..3", limit=150)
def other(c, kind):
    lie = c.lie
    f = c.mod("lie_nn.finite")
    L = c.mod("lie_nn.irreps")
    p = c.pick("power", 0, 3)
    if kind == "product_plain":
        A, B = sym_algebra(c, 1, "A"), sym_algebra(c, 1, "B")
        return check(c, lie.group_product(sym_rep(c, "a", A, 2, 1, "real"), sym_rep(c, "b", B, 1, 1, "complex")), p)
    n = c.pick("n", 1 if kind in ("natural", "trivial") else 2, 3 if kind != "multiple" else 2)
    r = {"natural": f.Sn_natural, "standard": f.Sn_standard, "trivial": f.Sn_trivial, "multiple": lambda n: lie.MulIrrep(2, f.Sn_standard(n))}[kind](n)
    check(c, r, p)


@harness(None, "powers 0..40 of a one-dimensional group given by free matrices of dimension 1")
def scalars(c):
    """dimension one: the power acts as n x and h^n"""
    lie, np = c.lie, c.np
    n = c.pick("power", 0, 40)
    x, h = c.real("x"), c.real("h")
    X, H = np.zeros((1, 1, 1)), np.zeros((1, 1, 1))
    X[0, 0, 0], H[0, 0, 0] = x, h
    t = lie.tensor_power(lie.GenericRep(np.zeros((1, 1, 1)), X, H), n)
    c.true(t.dim == 1, "dimension")
    c.eq(t.X[0, 0, 0], n * x, "continuous generator")
    w = 1
    for _ in range(n):
        w = w * h
    c.eq(t.H[0, 0, 0], w, "discrete generator")
