"""Trivial representations."""
from sx.h import harness
from checks.common import sym_rep, sym_algebra, kron2, tiny
from checks.p12 import irreps, symQ

FAMS = ["su2", "so3", "o3", "z2", "su2real", "sl2c", "so13", "sun2", "su3", "prod", "prod3"]


def check(c, rep, tensor=True):
    np, lie = c.np, c.lie
    A, X, H = rep.algebra(), rep.continuous_generators(), rep.discrete_generators()
    kX, kH = c.snapshot(X), c.snapshot(H)
    t = rep.create_trivial()
    c.true(t.dim == 1, "one-dimensional")
    c.shape(t.continuous_generators(), (X.shape[0], 1, 1), "as many continuous generators")
    c.shape(t.discrete_generators(), (H.shape[0], 1, 1), "as many discrete generators")
    c.eq(t.continuous_generators(), np.zeros((X.shape[0], 1, 1)), "zero continuous generators")
    c.eq(t.discrete_generators(), np.ones((H.shape[0], 1, 1)), "unit discrete generators")
    c.eq(t.algebra(), A, "same algebra")
    c.true(bool(t.is_trivial()), "recognised as trivial")
    if tensor:
        for r in (lie.tensor_product(rep, t), lie.tensor_product(t, rep)):
            c.true(r.dim == rep.dim, "tensoring keeps the dimension")
            c.eq(r.continuous_generators(), kX, "tensoring keeps the continuous generators")
            c.eq(r.discrete_generators(), kH, "tensoring keeps the discrete generators")
            c.eq(r.algebra(), A, "tensoring keeps the algebra")
    c.eq(rep.continuous_generators(), kX, "operand not modified")
    c.eq(rep.discrete_generators(), kH, "operand not modified")
    return t


@harness(lambda t: [{"fam": f} for f in FAMS], "irreps of every family", limit=150)
def tabulated(c, fam):
    r = c.choice("r", irreps(c, fam))
    t = check(c, r)
    c.true(type(t) is type(r), "an irrep of the same family")
    c.true(bool(r.is_trivial()) == (r.dim == 1 and not any(c.decide(c.Not(c.And(x.real == 0, x.imag == 0))) for x in r.X.reshape(-1)) and not any(c.decide(c.Not(c.And((x - 1).real == 0, (x - 1).imag == 0))) for x in r.H.reshape(-1))),
           "trivial exactly when zero and one")


@harness(lambda t: [{"fam": f} for f in ("su2", "so3", "o3", "z2", "sl2c", "sun2", "prod", "su3")], "multiples 1..3", limit=150)
def multiple(c, fam):
    r = c.choice("r", irreps(c, fam)[:2])
    check(c, c.lie.MulIrrep(c.pick("m", 1, 3), r))


@harness(lambda t: [{"fam": f, "terms": s, "q": q} for f, s in (("su2", [(1, 1), (1, 0)]), ("o3", [(1, 0), (1, 1)]), ("z2", [(2, 0), (1, 1)]), ("z2", [(1, 1)]), ("prod", [(1, 1)]), ("su2", [(0, 0), (1, 1)]), ("sun2", [(1, 1), (1, 0)])) for q in ("real", "complex", "none")],
         "sums with a symbolic change of basis", limit=200)
def reduced(c, fam, terms, q):
    rs = irreps(c, fam)
    d = sum(m * rs[i].dim for m, i in terms)
    check(c, c.lie.ReducedRep.from_irreps([(m, rs[i]) for m, i in terms], symQ(c, "q", d, q, 1 if d > 1 else 0)))


@harness(lambda t: [dict(n=n, nH=h, d=d, kind=k) for n, h, d, k in ([(0, 0, 1, "real"), (0, 0, 2, "real"), (1, 0, 1, "real"), (1, 0, 2, "complex"), (0, 1, 2, "real"), (2, 1, 2, "real"), (3, 2, 1, "complex"), (1, 1, 3, "real"), (2, 2, 2, "complex")] + ([(3, 1, 3, "complex"), (1, 2, 4, "real")] if t == "thorough" else []))],
         "all generator entries and all structure constants", limit=200)
def plain(c, n, nH, d, kind):
    A = sym_algebra(c, n)
    check(c, sym_rep(c, "a", A, d, nH, kind))


@harness(lambda t: [dict(n=n, nH=h, d=d, kind=k) for n, h, d, k in [(0, 0, 1, "real"), (1, 0, 1, "real"), (0, 1, 1, "real"), (1, 1, 1, "complex"), (2, 2, 1, "real"), (3, 0, 1, "complex"), (0, 0, 2, "real"), (1, 1, 2, "real"), (0, 3, 1, "complex")]], "all generator entries", limit=200, max_paths=200)
def recognised(c, n, nH, d, kind):
    np = c.np
    r = sym_rep(c, "a", np.zeros((n, n, n)), d, nH, kind)
    got = bool(r.is_trivial())
    eqs = []
    for x in r.X.reshape(-1):
        eqs += [x.real == 0, x.imag == 0]
    for x in r.H.reshape(-1):
        eqs += [x.real == 1, x.imag == 0]
    f = c.And(*eqs) if eqs else True
    c.true(c.And(d == 1, f) if got else c.Not(c.And(d == 1, f)), "trivial exactly when one-dimensional, zero and one")


@harness(lambda t: [{"name": f, "n": n} for f in ("Sn_natural", "Sn_standard", "Sn_trivial") for n in (1, 2, 3, 4, 5)], "finite groups S(1)..S(5)", limit=150)
def finite(c, name, n):
    if name == "Sn_standard" and n == 1:
        return
    F = c.mod("lie_nn.finite")
    check(c, getattr(F, name)(n))


@harness(lambda t: [{"a": a, "b": b} for a in ("su2", "z2", "o3", "su3", "sun2") for b in ("su2", "z2", "plain")], "products of two groups", limit=200)
def product(c, a, b):
    np, lie = c.np, c.lie
    r1 = c.choice("a", irreps(c, a)[:2])
    if b == "plain":
        r1 = lie.GenericRep.from_rep(r1)
        r2 = sym_rep(c, "g", np.zeros((1, 1, 1)), 2 if r1.dim < 3 else 1, 1, "real")
    else:
        r2 = c.choice("b", irreps(c, b)[:2])
    check(c, lie.group_product(r1, r2), tensor=r1.dim * r2.dim <= 6)


@harness(lambda t: [dict(fam=f, k=k) for f in ("su2", "z2", "o3") for k in (0, 1, 2, 3)], "powers 0..3 of irreps", limit=100)
def power(c, fam, k):
    """the zeroth power is trivial, the first keeps the generators"""
    lie = c.lie
    r = c.choice("r", irreps(c, fam)[:2])
    p = lie.tensor_power(r, k)
    c.true(p.dim == r.dim ** k, "dimension")
    if k == 0:
        c.true(bool(p.is_trivial()), "zeroth power is trivial")
    if k == 1:
        c.eq(p.X, r.X, "first power")
        c.eq(p.H, r.H, "first power")


@harness(lambda t: [{"n": n, "b": b} for n, b in ([(1, 0), (2, 3), (3, 2), (4, 1), (5, 1)] if t == "quick" else [(1, 0), (2, 6), (3, 3), (4, 2), (5, 1)])],
         "SU(N) irreps with N = 1..5 as they come out of a product, and given directly, entries <= 3 / 6", limit=150)
def su_n(c, n, b):
    SUN = c.mod("lie_nn._src.irreps.sun").SUN
    S = [c.pick(f"s{i}", 0, b) for i in range(n - 1)]
    for x, y in zip(S, S[1:]):
        c.assume(x >= y)
    r = SUN(tuple(S) + (0,))
    z = SUN((0,) * n)
    for r in (r, list(r * z)[0]):
        t = check(c, r, tensor=n > 1 and r.dim <= 4)
        c.true(t == z and t.S == (0,) * n, "the trivial label of the same group")


@harness(lambda t: [{"fam": f} for f in ("SU2", "SL2C", "SO13", "O3", "SU2_", "SU3", "SU4", "SPN", "SON")], "all labels (unbounded integers)", limit=100)
def scalar(c, fam):
    """is_scalar: every continuous generator vanishes, that is all angular labels are zero"""
    L = c.mod("lie_nn.irreps")
    if fam in ("SPN", "SON"):
        cls = getattr(c.mod("lie_nn._src.irreps." + fam.lower()), fam)
    else:
        cls = getattr(L, fam)
    a = [c.int(f"a{i}", 0) for i in range({"SU2": 1, "O3": 1, "SU2_": 1, "SL2C": 2, "SO13": 2, "SU3": 2}.get(fam, 3))]
    if fam in ("SU2_", "SU3", "SU4"):
        for x, y in zip(a, a[1:]):
            c.assume(x >= y)
        r = cls(tuple(a) + (0,))
    elif fam in ("SPN", "SON"):
        for x, y in zip(a, a[1:]):
            c.assume(x >= y)
        r = cls(tuple(a))
    elif fam == "O3":
        r = cls(a[0], c.choice("p", [1, -1]))
    else:
        if fam == "SO13":
            c.assume((a[0] + a[1]) % 2 == 0)
        r = cls(*a)
    z = c.decide(r.is_scalar())
    c.true(c.And(*[x == 0 for x in a]) if z else c.Or(*[x != 0 for x in a]), "scalar exactly when the angular labels vanish")


@harness(lambda t: [{"fam": f} for f in ("su2", "o3", "sl2c", "so13", "sun2", "su3")], "small irreps", limit=100)
def scalar_acts_by_zero(c, fam):
    r = c.choice("r", irreps(c, fam))
    zero = not any(c.decide(c.Not(c.And(x.real == 0, x.imag == 0))) for x in r.X.reshape(-1))
    c.true(c.decide(r.is_scalar()) == zero, "scalar exactly when the continuous generators vanish")


@harness(lambda t: [{"what": w, "k": k} for w in ("X", "H") for k in (3, 6, 9, 12)], "one-dimensional representations that deviate from the trivial one by 1 to 2 times 10^-k")
def near_trivial(c, what, k):
    np = c.np
    X, H = np.zeros((3, 1, 1)) + 0.0 * c.j, np.ones((2, 1, 1)) + 0.0 * c.j
    e = tiny(c, k) * c.choice("phase", [1, c.j])
    if what == "X":
        a = c.pick("a", 0, 2)
        X[a, 0, 0] = X[a, 0, 0] + e
    else:
        a = c.pick("a", 0, 1)
        H[a, 0, 0] = H[a, 0, 0] + e
    c.true(not bool(c.lie.GenericRep(np.zeros((3, 3, 3)), X, H).is_trivial()), "not trivial")
