"""Direct products of groups."""
from sx.h import harness
from checks.common import sym_algebra, sym_rep, defect, kron2, comm


def embed(c, mats, dims, pos):
    np = c.np
    out = []
    for m in mats:
        x = None
        for p, d in enumerate(dims):
            f = m if p == pos else np.eye(d)
            x = f if x is None else kron2(c, x, f)
        out.append(x)
    return out


def check_product(c, t, reps, label=""):
    """t: product of reps in order"""
    np = c.np
    dims = [r.dim for r in reps]
    D = 1
    for d in dims:
        D *= d
    ns = [r.X.shape[0] for r in reps]
    hs = [r.H.shape[0] for r in reps]
    n = sum(ns)
    c.true(t.dim == D, label + "dimension")
    X, H, A = t.X, t.H, t.A
    c.shape(X, (n, D, D), label + "shape of the continuous generators")
    c.shape(H, (sum(hs), D, D), label + "shape of the discrete generators")
    c.shape(A, (n, n, n), label + "shape of the algebra")
    want = np.zeros((n, n, n), dtype=complex)
    s = 0
    for r, k in zip(reps, ns):
        B = r.A
        for i in range(k):
            for j in range(k):
                for l in range(k):
                    want[s + i, s + j, s + l] = B[i, j, l]
        s += k
    c.eq(A, want, label + "block-diagonal algebra")
    wx = [m for p, r in enumerate(reps) for m in embed(c, [r.X[i] for i in range(ns[p])], dims, p)]
    wh = [m for p, r in enumerate(reps) for m in embed(c, [r.H[i] for i in range(hs[p])], dims, p)]
    for i, w in enumerate(wx):
        c.eq(X[i], w, label + "continuous generators")
    for i, w in enumerate(wh):
        c.eq(H[i], w, label + "discrete generators")
    return X, H, A, ns, hs


def groups(ns):
    return [p for p, n in enumerate(ns) for _ in range(n)]


def check_commute(c, X, H, ns, hs):
    g, h = groups(ns), groups(hs)
    for i in range(len(g)):
        for j in range(len(g)):
            if g[i] < g[j]:
                c.eq(X[i] @ X[j], X[j] @ X[i], "generators of different factors commute")
        for j in range(len(h)):
            if g[i] != h[j]:
                c.eq(X[i] @ H[j], H[j] @ X[i], "generators of different factors commute")
    for i in range(len(h)):
        for j in range(len(h)):
            if h[i] < h[j]:
                c.eq(H[i] @ H[j], H[j] @ H[i], "generators of different factors commute")


def shapes(t):
    q = [((1, 1, 2, "real"), (2, 1, 2, "complex")), ((0, 2, 2, "real"), (1, 0, 1, "real")), ((2, 0, 1, "complex"), (0, 1, 3, "real")), ((0, 1, 2, "complex"), (0, 2, 2, "real")), ((3, 0, 2, "real"), (2, 1, 1, "real")),
         ((0, 0, 2, "real"), (1, 1, 2, "real")), ((1, 2, 3, "real"), (1, 0, 2, "real")), ((6, 1, 2, "real"), (4, 5, 1, "complex")), ((1, 4, 1, "real"), (3, 3, 3, "real")), ((1, 0, 4, "real"), (0, 1, 5, "real"))]
    th = q + [((3, 1, 2, "complex"), (3, 1, 2, "real")), ((2, 2, 3, "real"), (1, 1, 3, "real"))]
    three = [((1, 1, 2, "real"), (1, 1, 2, "complex"), (1, 1, 1, "real")), ((0, 1, 2, "real"), (2, 0, 1, "real"), (1, 1, 2, "complex")), ((2, 0, 1, "real"), (0, 2, 2, "complex"), (0, 0, 2, "real"))]
    th3 = three + [((1, 1, 2, "real"), (2, 1, 2, "complex"), (1, 1, 2, "real"))]
    return [{"fs": f} for f in (q + three if t == "quick" else th + th3)][::-1]


@harness(shapes, "two or three factors given by free real or complex matrices of dimension <= 5, up to 6 continuous and 5 discrete generators each, free structure constants")
def plain(c, fs):
    reps = []
    for i, (n, nH, d, k) in enumerate(fs):
        reps.append(sym_rep(c, "abc"[i], sym_algebra(c, n, "ABC"[i]), d, nH, k))
    t = c.lie.group_product(*reps)
    X, H, A, ns, hs = check_product(c, t, reps)
    check_commute(c, X, H, ns, hs)
    # the relations of the product are the embedded relations of the factors
    D = defect(X, A)
    dims = [r.dim for r in reps]
    g = groups(ns)
    off = [sum(ns[:p]) for p in range(len(ns))]
    Ds = [defect(r.X, r.A) for r in reps]
    for i in range(len(g)):
        for j in range(i + 1, len(g)):
            if g[i] == g[j]:
                p = g[i]
                w = embed(c, [Ds[p][i - off[p], j - off[p]]], dims, p)[0]
            else:
                w = 0 * D[i, j]
            c.eq(D[i, j], w, "commutation relations inherited")


def fam(c, f):
    L = c.mod("lie_nn.irreps")
    return {"SU2": lambda: [L.SU2(0), L.SU2(1), L.SU2(2)], "SO3": lambda: [L.SO3(0), L.SO3(1)], "O3": lambda: [L.O3(0, -1), L.O3(1, -1), L.O3(1, 1)], "Z2": lambda: [L.Z2(1), L.Z2(-1)],
            "SL2C": lambda: [L.SL2C(0, 0), L.SL2C(1, 0), L.SL2C(0, 1)], "SU2_": lambda: [L.SU2_((0, 0)), L.SU2_((1, 0))], "SU3": lambda: [L.SU3((0, 0, 0)), L.SU3((1, 0, 0)), L.SU3((1, 1, 0))],
            "SU2Real": lambda: [L.SU2Real(0), L.SU2Real(1)], "SO13": lambda: [L.SO13(0, 0), L.SO13(1, 1)]}[f]()


PAIRS = [("SU2", "Z2"), ("Z2", "SO3"), ("O3", "Z2"), ("SO3", "SU2"), ("Z2", "Z2"), ("SL2C", "Z2"), ("SU2_", "O3"), ("SU2Real", "SU2")]
MORE = [("SU3", "Z2"), ("SO13", "Z2"), ("SL2C", "SU2"), ("O3", "O3"), ("SU3", "SU2")]


def small(c, f, g, name):
    """a pair of irreps, one of each family"""
    return c.choice(name + "1", fam(c, f)), c.choice(name + "2", fam(c, g))


@harness(lambda t: [{"f": f, "g": g} for f, g in PAIRS + MORE[: 2 if t == "quick" else None]], "all pairs of the smallest irreps of two families", limit=200)
def tabulated(c, f, g):
    a, b = small(c, f, g, "a")
    t = c.lie.group_product(a, b)
    c.true(isinstance(t, c.lie.TabulatedIrrep), "product of irreps is an irrep")
    X, H, A, ns, hs = check_product(c, t, [a, b])
    check_commute(c, X, H, ns, hs)
    n = sum(ns)
    for i in range(n):
        for j in range(i + 1, n):
            w = 0
            for k in range(n):
                w = w + A[i, j, k] * X[k]
            c.eq(comm(X[i], X[j]), w, "commutation relations")


@harness(lambda t: [{"fs": f} for f in [("SU2", "Z2", "Z2"), ("Z2", "SU2", "O3"), ("O3", "Z2", "SU2")] + ([("SU2", "SO3", "Z2"), ("SL2C", "Z2", "SU2")] if t == "thorough" else [])], "three families", limit=200)
def tabulated3(c, fs):
    rs = [c.choice(f"a{i}", fam(c, f)[-2:]) for i, f in enumerate(fs)]
    t = c.lie.group_product(*rs)
    c.true(isinstance(t, c.lie.TabulatedIrrep), "product of irreps is an irrep")
    X, H, A, ns, hs = check_product(c, t, rs)
    check_commute(c, X, H, ns, hs)


def key(r):
    if hasattr(r, "rep1"):
        return key(r.rep1) + key(r.rep2)
    return (type(r).__name__,) + (tuple(r.S) if hasattr(r, "S") else tuple(getattr(r, k) for k in ("j", "l", "k", "p") if hasattr(r, k)))


TREES = {"r": (0, (1, 2)), "l": ((0, 1), 2), "rl": (0, ((1, 2), 3)), "bal": ((0, 1), (2, 3)), "rr": (0, (1, (2, 3)))}
NESTED = [("r", ("SU2", "O3", "Z2")), ("r", ("SO3", "Z2", "O3")), ("r", ("Z2", "O3", "SU2")), ("l", ("O3", "Z2", "SU2")), ("rl", ("SU2", "Z2", "Z2", "SO3")), ("bal", ("Z2", "SU2", "O3", "Z2")), ("rr", ("SO3", "Z2", "O3", "Z2"))]


def build(c, tree, rs):
    return rs[tree] if isinstance(tree, int) else c.lie.group_product(build(c, tree[0], rs), build(c, tree[1], rs))


@harness(lambda t: [{"tree": k, "fs": f} for k, f in NESTED[: 6 if t == "quick" else None]], "products of products of irreps of three or four families, in every nesting, the two smallest non-trivial labels of each", limit=200)
def tabulated_nested(c, tree, fs):
    lie = c.lie
    rs = [c.choice(f"a{i}", fam(c, f)[-2:]) for i, f in enumerate(fs)]
    t = build(c, TREES[tree], rs)
    c.true(isinstance(t, lie.TabulatedIrrep), "product of irreps is an irrep")
    X, H, A, ns, hs = check_product(c, t, rs)
    check_commute(c, X, H, ns, hs)
    o = t.create_trivial()
    c.true(key(o) == sum((key(r.create_trivial()) for r in rs), ()), "trivial irrep of the product")
    c.true([key(r) for r in t * o] == [key(t)] and [key(r) for r in o * t] == [key(t)], "the trivial irrep is neutral")


def check_coupling(c, tree, rs, qs, outs):
    np, lie = c.np, c.lie
    R, S, O = (build(c, tree, x) for x in (rs, qs, outs))
    C = lie.clebsch_gordan(R, S, O)
    want = np.ones((1, 1, 1, 1))
    for a, b, o in zip(rs, qs, outs):
        D = lie.clebsch_gordan(a, b, o)
        n = tuple(x * y for x, y in zip(want.shape, D.shape))
        w = np.zeros(n, dtype=complex)
        for i in np.ndindex(*want.shape):
            for j in np.ndindex(*D.shape):
                w[tuple(x * s + y for x, y, s in zip(i, j, D.shape))] = want[i] * D[j]
        want = w
    c.shape(C, want.shape, "shape of the coefficients")
    c.eq(C, want, "coefficients are Kronecker products")


@harness(lambda t: [{"tree": k, "fs": f} for k, f in NESTED[:5 if t == "quick" else None]], "coefficients of products of products of irreps, one label triple per family chosen among the smallest", limit=200)
def coupling_nested(c, tree, fs):
    np, lie = c.np, c.lie
    rs = [fam(c, f)[-1] for f in fs]
    k = c.choice("varied", list(range(len(fs))))
    qs = list(rs)
    qs[k] = fam(c, fs[k])[-2]
    outs = [list(a * b)[0] for a, b in zip(rs, qs)]
    check_coupling(c, TREES[tree], rs, qs, outs)


@harness(lambda t: [{"f": f, "g": g} for f, g in PAIRS + ([("SU3", "Z2"), ("O3", "O3")] if t == "thorough" else [])], "products of all pairs of the smallest irreps of two families with every listed third irrep and one that is not listed", limit=280)
def coupling(c, f, g):
    lie, np = c.lie, c.np
    a1, a2 = small(c, f, g, "a")
    b1, b2 = small(c, f, g, "b")
    A, B = lie.group_product(a1, a2), lie.group_product(b1, b2)
    got = list(A * B)
    o1, o2 = list(a1 * b1), list(a2 * b2)
    c.true(sorted(map(repr, map(key, got))) == sorted(repr(key(x) + key(y)) for x in o1 for y in o2), "label products combine")
    trip = [(x, y) for x in o1 for y in o2]
    extra1 = [x for x in fam(c, f) if x not in o1][:1]
    trip += [(x, o2[0]) for x in extra1]
    for x, y in trip:
        O = lie.group_product(x, y)
        C = lie.clebsch_gordan(A, B, O)
        C1, C2 = lie.clebsch_gordan(a1, b1, x), lie.clebsch_gordan(a2, b2, y)
        z1, z2 = C1.shape[0], C2.shape[0]
        c.shape(C, (z1 * z2, A.dim, B.dim, O.dim), "shape of the coefficients")
        for p in range(z1):
            for q in range(z2):
                for k1 in range(x.dim):
                    for k2 in range(y.dim):
                        c.eq(C[p * z2 + q, :, :, k1 * y.dim + k2], rect(c, C1[p, :, :, k1], C2[q, :, :, k2]), "coefficients are Kronecker products")


def rect(c, a, b):
    np = c.np
    out = np.zeros((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), dtype=complex)
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            for k in range(b.shape[0]):
                for l in range(b.shape[1]):
                    out[i * b.shape[0] + k, j * b.shape[1] + l] = a[i, j] * b[k, l]
    return out


@harness(None, "factors with several paths each: real SU(2) irreps of half-integer spin, and with SU(3) factors without and with a path", limit=150)
def coupling_paths(c):
    L = c.mod("lie_nn.irreps")
    H, O, I = L.SU2Real(0.5), L.SU2Real(0), L.SU2Real(1)
    u, v, w = L.SU3((1, 0, 0)), L.SU3((1, 1, 0)), L.SU3((2, 0, 0))
    a, b, o = c.choice("case", [((H, H), (H, H), (O, O)), ((H, I), (H, I), (I, I)), ((I, H), (O, H), (I, I)), ((H, u), (H, u), (O, v)), ((u, H), (u, O), (w, H)), ((H, u), (H, u), (O, u))])
    check_coupling(c, (0, 1), a, b, o)


@harness(lambda t: [{"kind": k} for k in ("irrep_plain", "plain_irrep", "multiple", "reduced", "finite", "three_mixed", "nested")], "products of library representations of different kinds with free matrices", limit=100)
def mixed(c, kind):
    lie, np = c.lie, c.np
    L, F = c.mod("lie_nn.irreps"), c.mod("lie_nn.finite")
    g = sym_rep(c, "g", sym_algebra(c, 2), 2, 1, "complex")
    reps = {"irrep_plain": lambda: [L.O3(1, -1), g], "plain_irrep": lambda: [g, L.SU2(1)], "multiple": lambda: [lie.MulIrrep(2, L.SU2(1)), lie.MulIrrep(3, L.Z2(-1))],
            "reduced": lambda: [lie.ReducedRep.from_irreps([L.SU2(1), (2, L.SU2(0))]), g], "finite": lambda: [F.Sn_standard(3), F.Sn_natural(2)],
            "three_mixed": lambda: [L.Z2(-1), g, L.SU2(1)], "nested": lambda: [L.SU2(1), L.Z2(-1), g]}[kind]()
    if kind == "nested":
        t = lie.group_product(lie.group_product(reps[0], reps[1]), reps[2])
        u = lie.group_product(reps[0], lie.group_product(reps[1], reps[2]))
        check_product(c, u, reps, "nested on the right: ")
    else:
        t = lie.group_product(*reps)
    X, H, A, ns, hs = check_product(c, t, reps)
    check_commute(c, X, H, ns, hs)
