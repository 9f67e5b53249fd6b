"""Tensor product of irreps, multiples and reduced representations, against the plain Kronecker formula."""
from sx.h import harness
from checks.common import kron2, stack_cg, tiny

CASES = {
    "su2": ("SU2", [(0,), (1,), (2,)]), "so3": ("SO3", [(0,), (1,), (2,)]), "o3": ("O3", [(0, 1), (1, -1), (0, -1)]), "z2": ("Z2", [(1,), (-1,)]),
    "su2real": ("SU2Real", [(0,), (1,)]), "sl2c": ("SL2C", [(0, 0), (1, 0), (0, 1)]), "so13": ("SO13", [(0, 0), (1, 1)]), "sun2": ("SU2_", [((0, 0),), ((1, 0),)]),
    "su3": ("SU3", [((0, 0, 0),), ((1, 0, 0),), ((1, 1, 0),)]),
}


def irreps(c, fam):
    L, lie = c.mod("lie_nn.irreps"), c.lie
    if fam == "prod":
        return [lie.group_product(L.SU2(0), L.Z2(1)), lie.group_product(L.SU2(1), L.Z2(-1))]
    if fam == "prod3":
        return [lie.group_product(L.SU2(1), L.Z2(-1), L.Z2(1)), lie.group_product(L.SU2(1), L.Z2(1), L.Z2(-1))]
    cls, args = CASES[fam]
    return [getattr(L, cls)(*a) for a in args]


def finite(c, n):
    f = c.mod("lie_nn.finite")
    return [f.Sn_standard(n), f.Sn_trivial(n)]


def symQ(c, name, d, kind, perm=0):
    """unit lower times unit upper triangular with free entries (dense, inverse polynomial), rows rotated by perm"""
    np = c.np
    if kind == "none":
        return None
    dt = complex if kind == "complex" else float
    Lo, Up = np.eye(d, dtype=dt), np.eye(d, dtype=dt)

    def entry(nm):
        x = c.real(nm + "r")
        return x + c.j * c.real(nm + "i") if kind == "complex" else x
    for i in range(d - 1):
        Up[i, i + 1] = entry(f"{name}u{i}")
    if d > 1:
        Lo[d - 1, 0] = entry(f"{name}l")
    Q = Lo @ Up
    return np.concatenate([Q[perm:], Q[:perm]], axis=0)


def check(c, t, r1, r2, want=None):
    np = c.np
    lie = c.lie
    d1, d2 = r1.dim, r2.dim
    c.true(isinstance(t, lie.ReducedRep), "returned in reduced form")
    c.true(t.dim == d1 * d2, "dimension")
    X1, X2, H1, H2 = r1.X, r2.X, r1.H, r2.H
    c.eq(t.A, r1.A, "algebra")
    X, H = t.X, t.H
    c.shape(X, (X1.shape[0], d1 * d2, d1 * d2), "shape of the continuous generators")
    c.shape(H, (H1.shape[0], d1 * d2, d1 * d2), "shape of the discrete generators")
    I1, I2 = np.eye(d1), np.eye(d2)
    for a in range(X1.shape[0]):
        c.eq(X[a], kron2(c, X1[a], I2) + kron2(c, I1, X2[a]), "continuous generators")
    for a in range(H1.shape[0]):
        c.eq(H[a], kron2(c, H1[a], H2[a]), "discrete generators")
    c.true(sum(m.mul * m.rep.dim for m in t.irreps) == d1 * d2, "multiplicities add up")
    if want is not None:
        got = {}
        for m in t.irreps:
            if m.mul:
                got[repr(m.rep)] = got.get(repr(m.rep), 0) + m.mul
        c.true(got == {k: v for k, v in want.items() if v}, "multiplicities of the irreps")


def terms(c, rep):
    """[(mul, irrep)] of an operand"""
    lie = c.lie
    if isinstance(rep, lie.ReducedRep):
        return [(m.mul, m.rep) for m in rep.irreps]
    if isinstance(rep, lie.MulIrrep):
        return [(rep.mul, rep.rep)]
    return [(1, rep)]


def expected(c, r1, r2):
    out = {}
    for m1, a in terms(c, r1):
        for m2, b in terms(c, r2):
            for o in a * b:
                cg = c.lie.clebsch_gordan(a, b, o)
                n = cg.shape[0]
                if hasattr(o, "j") and 2 * o.j % 2:      # quaternionic type: several paths with the same image
                    n = c.rank(stack_cg(c, [cg])) // o.dim
                out[repr(o)] = out.get(repr(o), 0) + m1 * m2 * n
    return out


FAMS = ["su2", "so3", "o3", "z2", "su2real", "sl2c", "so13", "sun2", "su3", "prod", "prod3"]


@harness(lambda t: [{"fam": f} for f in FAMS], "all pairs of the listed small irreps of every family", limit=60)
def pair(c, fam):
    rs = irreps(c, fam)
    r1, r2 = c.choice("a", rs), c.choice("b", rs)
    check(c, c.lie.tensor_product(r1, r2), r1, r2, expected(c, r1, r2))


@harness(lambda t: [{"fam": f} for f in ("su2", "o3", "z2", "sl2c", "sun2", "prod")] + ([{"fam": f} for f in ("so3", "su2real", "su3")] if t == "thorough" else []),
         "multiples 0..2 of the listed irreps on either side, or a bare irrep", limit=120)
def multiple(c, fam):
    lie = c.lie
    rs = irreps(c, fam)
    m1, m2 = c.pick("m1", -1, 2), c.pick("m2", -1, 2)        # -1: bare irrep
    r1 = c.choice("a", rs[:2] if fam != "su2" else rs)
    r2 = c.choice("b", rs[-2:])
    r1 = r1 if m1 < 0 else lie.MulIrrep(m1, r1)
    r2 = r2 if m2 < 0 else lie.MulIrrep(m2, r2)
    check(c, lie.tensor_product(r1, r2), r1, r2, expected(c, r1, r2))


def red(t):
    """(family, terms 1, terms 2, Q kind 1, Q kind 2); a term list given as a bare (mul, index) means a multiple"""
    q = [("su2", [(1, 0), (1, 1)], [(1, 1)], "real", "complex"), ("su2", [(1, 1), (2, 0)], [(2, 0)], "complex", "none"), ("z2", [(1, 0), (2, 1)], [(1, 1), (1, 0)], "real", "real"),
         ("o3", [(1, 2), (1, 1)], [(2, 2)], "real", "real"), ("su2", [(1, 1)], [(1, 0), (1, 1)], "none", "real"), ("sl2c", [(1, 1)], [(1, 2), (1, 0)], "real", "none"),
         ("prod", [(1, 1), (1, 0)], [(1, 1)], "real", "none"), ("sun2", [(1, 1), (1, 0)], [(1, 1)], "none", "complex"), ("z2", [(0, 0), (1, 1)], [(1, 0), (1, 1)], "none", "real"),
         ("su2", [(1, 1), (0, 2), (1, 0)], [(1, 1)], "real", "none"), ("su2", [(1, 2), (1, 0)], [(1, 1), (0, 0)], "real", "none")]
    th = q + [("su2", [(1, 0), (1, 1)], [(1, 1), (1, 0)], "complex", "complex"), ("so3", [(1, 1)], [(1, 1)], "real", "real"), ("su2", [(2, 1)], [(1, 1), (1, 0)], "real", "real"),
              ("o3", [(2, 2), (1, 1)], [(1, 0), (1, 2)], "real", "complex"), ("su3", [(1, 1)], [(1, 2)], "real", "none"), ("su2real", [(1, 1), (1, 0)], [(1, 1)], "real", "none"),
              ("z2", [(2, 0), (2, 1)], [(1, 1), (2, 0)], "complex", "real"), ("so13", [(1, 1)], [(2, 0)], "real", "real"), ("prod3", [(1, 1), (1, 0)], [(1, 0)], "real", "none")]
    return [dict(zip(("fam", "t1", "t2", "q1", "q2"), s), perm=i % 2) for i, s in enumerate(q if t == "quick" else th)]


@harness(red, "sums of 1..3 terms of dimension <= 6 with change-of-basis matrices P L U of free real or complex entries", limit=250)
def reduced(c, fam, t1, t2, q1, q2, perm):
    lie = c.lie
    rs = irreps(c, fam)
    ops = []
    for n, (t, q) in enumerate(((t1, q1), (t2, q2))):
        d = sum(m * rs[i].dim for m, i in t)
        ops.append(lie.ReducedRep.from_irreps([(m, rs[i]) for m, i in t], symQ(c, f"q{n}", d, q, perm if d > 1 else 0)))
    r1, r2 = ops
    check(c, lie.tensor_product(r1, r2), r1, r2, expected(c, r1, r2))


@harness(lambda t: [{"k1": a, "k2": b, "fam": f} for a in ("irrep", "multiple", "reduced") for b in ("irrep", "multiple", "reduced") for f in (("su2", "z2") if t == "quick" else ("su2", "z2", "o3", "prod", "sun2"))],
         "every combination of argument kinds", limit=120)
def kinds(c, k1, k2, fam):
    lie = c.lie
    rs = irreps(c, fam)

    def mk(k, i, nm):
        if k == "irrep":
            return rs[i]
        if k == "multiple":
            return lie.MulIrrep(2, rs[i])
        return lie.ReducedRep.from_irreps([(1, rs[i]), rs[0]], symQ(c, nm, rs[i].dim + rs[0].dim, "real"))
    r1, r2 = mk(k1, 1, "a"), mk(k2, len(rs) - 1 if fam != "su2" else 1, "b")
    check(c, lie.tensor_product(r1, r2), r1, r2, expected(c, r1, r2))


@harness(lambda t: [{"n": n} for n in ((2, 3) if t == "quick" else (2, 3, 4))], "multiples 0..2 and sums of representations that are not tabulated (S_n, arbitrary matrices)", limit=120)
def not_tabulated(c, n):
    lie, np = c.lie, c.np
    s, one = finite(c, n)
    nat = c.mod("lie_nn.finite").Sn_natural(n)
    m1, m2 = c.pick("m1", 0, 2), c.pick("m2", 0, 2)
    r1, r2 = lie.MulIrrep(m1, s), lie.MulIrrep(m2, nat if n < 4 else one)
    check(c, lie.tensor_product(r1, r2), r1, r2)
    if m1 == 1 and n < 4:
        g = lie.GenericRep(s.A, np.zeros((0, 2, 2)), c.arr("h", (s.H.shape[0], 2, 2)))
        r3 = lie.MulIrrep(m2, g)
        check(c, lie.tensor_product(r1, r3), r1, r3)
        r4 = lie.ReducedRep.from_irreps([r1, (1, one)], symQ(c, "q", r1.dim + 1, "real"))
        check(c, lie.tensor_product(r4, r3), r4, r3)
        check(c, lie.tensor_product(r3, r4), r3, r4)


@harness(lambda t: [{"fam": f} for f in ("su2", "z2", "o3")], "product with itself and triple products", limit=150)
def nested(c, fam):
    lie = c.lie
    rs = irreps(c, fam)
    d = rs[1].dim + rs[0].dim
    r = lie.ReducedRep.from_irreps([rs[1], rs[0]], symQ(c, "q", d, "real")) if fam != "o3" else lie.ReducedRep.from_irreps([rs[2], rs[0]], symQ(c, "q", 2, "real"))
    t = lie.tensor_product(r, r)
    check(c, t, r, r)
    u = lie.tensor_product(t, rs[0] if fam == "su2" else rs[-1])
    check(c, u, t, rs[0] if fam == "su2" else rs[-1])


@harness(lambda t: [{"a": a, "b": b} for a in range(3) for b in range(3) if (a + b) % 2 or a % 2], "real SU(2) labels 0, 1/2, 1 (twice the label given) with at least one half-integer")
def su2real_half(c, a, b):
    L = c.mod("lie_nn.irreps")
    lab = lambda n: n // 2 if n % 2 == 0 else n / 2
    r1, r2 = L.SU2Real(lab(a)), L.SU2Real(lab(b))
    check(c, c.lie.tensor_product(r1, r2), r1, r2, expected(c, r1, r2))


@harness(lambda t: [{"fam": "su2real", "m1": m1, "m2": m2} for m1, m2 in ((1, 1), (2, 1), (1, 2))] + [{"fam": "su3", "m1": 1, "m2": 1}] + ([{"fam": "su2real", "m1": 2, "m2": 2}, {"fam": "su3", "m1": 2, "m2": 1}] if t == "thorough" else []),
         "multiples of irreps whose product contains an irrep several times: spin 1/2 of the real SU(2), 8 x 8 of SU(3)", limit=150)
def several(c, fam, m1, m2):
    L = c.mod("lie_nn.irreps")
    ir = L.SU2Real(0.5) if fam == "su2real" else L.SU3((2, 1, 0))
    r1, r2 = c.lie.MulIrrep(m1, ir), c.lie.MulIrrep(m2, ir)
    check(c, c.lie.tensor_product(r1, r2), r1, r2, expected(c, r1, r2))


@harness(lambda t: [{"fam": f, "phase": p, "side": s} for f in (("su2", "z2", "o3") if t == "quick" else ("su2", "z2", "o3", "so3", "sl2c", "sun2")) for p in ("sign", "phase", "swap", "scale") for s in (0, 1, 2)],
         "operands with every diagonal matrix of signs, of fourth roots of unity, of 1 and a free nonzero number, or an exchange of two coordinates as change of basis", limit=150)
def monomial(c, fam, phase, side):
    lie, np = c.lie, c.np
    rs = irreps(c, fam)
    terms = [(1, rs[1]), (2 if rs[1].dim == 1 else 1, rs[0])]
    d = sum(m * r.dim for m, r in terms)
    if phase == "swap":
        Q = np.eye(d)
        Q = np.concatenate([Q[1:2], Q[0:1], Q[2:]], axis=0)
    else:
        Q = np.eye(d, dtype=complex if phase == "phase" else float)
        if phase == "scale":
            x = c.real("x")
            c.assume(x != 0)
            Q[0, 0] = x
        else:
            for i in range(d):
                Q[i, i] = c.choice(f"s{i}", [1, -1] if phase == "sign" else [1, c.j])
    r = lie.ReducedRep.from_irreps(terms, Q)
    o = lie.ReducedRep.from_irreps([(1, rs[0]), (0, rs[1])]) if fam == "z2" else rs[0] if side < 2 else r
    a, b = (r, o) if side != 1 else (o, r)
    check(c, lie.tensor_product(a, b), a, b, expected(c, a, b))


def wides(t):
    q = [("z2", [(5, 1), (3, 0)], [(2, 0), (4, 1)]), ("su2", [(3, 1), (2, 0)], [(2, 0), (1, 1), (1, 0), (1, 1)]), ("su2", [(7, 1)], [(1, 1), (3, 0)]), ("o3", [(2, 2), (1, 1), (3, 2)], [(4, 0)]),
         ("z2", [(11, 0)], [(1, 1), (2, 0), (1, 1)]), ("so3", [(1, 2), (4, 0)], [(1, 1)]), ("prod", [(3, 1), (1, 0)], [(2, 1), (1, 0)]), ("sl2c", [(1, 1), (2, 2), (1, 0)], [(2, 1)]), ("sun2", [(2, 1), (1, 0), (1, 1)], [(1, 1), (2, 0)])]
    th = q + [("su2", [(2, 2), (3, 1), (1, 2)], [(1, 2), (2, 0)]), ("su3", [(2, 1), (1, 0)], [(1, 2), (2, 0)]), ("prod3", [(2, 1), (2, 0)], [(1, 0), (1, 1)])]
    return [dict(zip(("fam", "t1", "t2"), s)) for s in (q if t == "quick" else th)][::-1]


@harness(wides, "longer sums and larger multiplicities (up to 11), terms that come again later, one operand in a basis with a free entry", limit=200)
def wide(c, fam, t1, t2):
    lie, np = c.lie, c.np
    rs = irreps(c, fam)
    ops = []
    side = c.pick("side", 0, 2)
    for n, t in enumerate((t1, t2)):
        d = sum(m * rs[i].dim for m, i in t)
        Q = None
        if side == n and d > 1:
            Q = np.eye(d)
            Q[0, d - 1] = c.real("q")
            Q = np.concatenate([Q[1:], Q[:1]], axis=0)
        ops.append(lie.ReducedRep.from_irreps([(m, rs[i]) for m, i in t], Q))
    check(c, lie.tensor_product(*ops), *ops, expected(c, *ops))


@harness(lambda t: [{"fam": f, "k": k, "what": w, "side": s} for f in ("su2", "z2") for k in (2, 3, 4) for w in ("shear", "imaginary") for s in (0, 1)], "changes of basis that are almost the identity: one entry of size 10^-k, real or imaginary", limit=100)
def near_identity(c, fam, k, what, side):
    np, lie = c.np, c.lie
    A = irreps(c, fam)
    terms = [(1, A[1]), (1, A[0])]
    d = sum(m * r.dim for m, r in terms)
    Q = np.eye(d, dtype=complex if what == "imaginary" else float)
    i, j = c.choice("at", [(0, d - 1), (d - 1, 0), (0, 0)])
    Q[i, j] = Q[i, j] + tiny(c, k) * (c.j if what == "imaginary" else 1)
    r = lie.ReducedRep.from_irreps(terms, Q)
    o = lie.ReducedRep.from_irreps([(1, A[1])])
    pair = (r, o) if side == 0 else (o, r)
    check(c, lie.tensor_product(*pair), *pair)
