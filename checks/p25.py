"""Structure constants: inference and verification."""
from sx.h import harness
from checks.common import sym_algebra, defect, comm, tiny


def zero(c, *arrs):
    """every entry (real and imaginary part) vanishes"""
    out = []
    for a in arrs:
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                x = a[i, j]
                out += [x.real == 0, x.imag == 0]
    return c.And(*out) if out else True


def clear(c, *arrs):
    """the first defect that is not exactly zero is not tiny either (so that replays with tolerances agree)"""
    if not c.sym:
        m = max([abs(complex(x)) for a in arrs for x in a.ravel()] + [0.0])
        c.assume(m < 1e-11 or m > 1e-6)


SH = lambda t: [dict(n=n, d=d, kind=k) for n, d, k in ([(0, 1, "real"), (1, 1, "real"), (1, 2, "complex"), (2, 1, "complex"), (2, 2, "real"), (2, 2, "complex"), (3, 1, "real"), (3, 2, "real")] + ([(3, 3, "real"), (3, 2, "complex"), (4, 2, "real"), (2, 4, "real")] if t == "thorough" else []))][::-1]


@harness(SH, "all generator and structure-constant entries (A arbitrary, not even antisymmetric)", limit=200)
def check_function(c, n, d, kind):
    np = c.np
    X = c.arr("x", (n, d, d), kind)
    A = c.arr("a", (n, n, n))
    D = list(defect(X, A).values())
    clear(c, *D)
    keepX, keepA = c.snapshot(X), c.snapshot(A)
    ok = bool(c.util.check_algebra_vs_generators(A, X))
    z = zero(c, *D)
    c.true(z if ok else c.Not(z), "true exactly when every relation holds")
    raised = not c.attempt(lambda: c.util.check_algebra_vs_generators(A, X, assert_=True), AssertionError)[0]
    c.true(raised != ok, "raises exactly when it is false")
    r = c.lie.GenericRep(A, X, np.zeros((0, d, d)))
    raised = not c.attempt(lambda: r.check_algebra_vs_generators(), AssertionError)[0]
    c.true(raised != ok, "the method agrees")
    c.eq(X, keepX, "generators not modified")
    c.eq(A, keepA, "structure constants not modified")


def elem(c, d, i, j):
    m = c.np.zeros((d, d))
    m[i, j], m[j, i] = 1.0, -1.0
    return m


def gell_mann(c):
    np = c.np
    out = []
    for i, j in ((0, 1), (0, 2), (1, 2)):
        m = np.zeros((3, 3)) + 0.0 * c.j
        m[i, j] = m[j, i] = c.j
        out += [m, elem(c, 3, i, j) + 0.0 * c.j]
    a, b = np.zeros((3, 3)) + 0.0 * c.j, np.zeros((3, 3)) + 0.0 * c.j
    a[0, 0], a[1, 1] = c.j, -c.j
    b[1, 1], b[2, 2] = c.j, -c.j
    return out + [a, b]


def closed(c, name):
    """a basis of a Lie algebra of matrices and a list of its dimension"""
    np = c.np
    f = lambda m: np.array(m)
    z = 0.0
    return {
        "abelian": [f([[1.0, z], [z, z]]), f([[z, z], [z, 1.0]])],
        "affine": [f([[1.0, z], [z, z]]), f([[z, 1.0], [z, z]])],
        "heis": [f([[z, 1.0, z], [z, z, z], [z, z, z]]), f([[z, z, z], [z, z, 1.0], [z, z, z]]), f([[z, z, 1.0], [z, z, z], [z, z, z]])],
        "so3": [f([[z, z, z], [z, z, -1.0], [z, 1.0, z]]), f([[z, z, 1.0], [z, z, z], [-1.0, z, z]]), f([[z, -1.0, z], [1.0, z, z], [z, z, z]])],
        "sl2": [f([[z, 1.0], [z, z]]), f([[z, z], [1.0, z]]), f([[1.0, z], [z, -1.0]])],
        "su2": [0.5 * c.j * f([[z, 1.0], [1.0, z]]), 0.5 * c.j * f([[z, -c.j], [c.j, z]]), 0.5 * c.j * f([[1.0, z], [z, -1.0]])],
        "borel": [f([[1.0, z], [z, z]]), f([[z, 1.0], [z, z]]), f([[z, z], [z, 1.0]])],
        "so4": [elem(c, 4, i, j) for i in range(4) for j in range(i)],
        "su3": gell_mann(c),
        "gl2": [f([[1.0, z], [z, z]]), f([[z, 1.0], [z, z]]), f([[z, z], [1.0, z]]), f([[z, z], [z, 1.0]])],
    }[name]


def mixtures(t):
    out = []
    for alg, n in (("abelian", 2), ("affine", 2), ("heis", 3), ("so3", 3), ("sl2", 3), ("su2", 3), ("borel", 3), ("gl2", 4), ("so4", 6), ("su3", 8)):
        out.append(dict(alg=alg, mix="scale"))
        out.append(dict(alg=alg, mix="shear"))
        if n == 2 or t == "thorough":
            out.append(dict(alg=alg, mix="conj"))
    return out[::-1]


@harness(mixtures, "matrix Lie algebras of dimension 2 to 8 in scaled, sheared and conjugated bases with free real parameters", limit=200, oblig_ms=20000)
def infer_closed(c, alg, mix):
    np = c.np
    B = closed(c, alg)
    n, d = len(B), B[0].shape[0]
    if mix == "scale":
        s = [c.real(f"s{i}") for i in range(min(n, 3))] + [1.0] * (n - min(n, 3))
        for x in s[:3]:
            c.assume(x != 0)
        Y = [s[i] * B[i] for i in range(n)]
    elif mix == "shear":
        a, b = c.real("a"), c.real("b")
        Y = [B[0] + a * B[n - 1]] + B[1:]
        Y[n - 1] = Y[n - 1] + b * Y[0] if n == 2 else Y[n - 1]
        if n > 2:
            Y[1] = Y[1] + b * B[n - 1]
    else:
        a = c.real("a")
        P, Pi = np.eye(d), np.eye(d)
        P[0, d - 1], Pi[0, d - 1] = a, -a
        Y = [P @ m @ Pi for m in B]
    X = np.stack(Y)
    keep = c.snapshot(X)
    calls = []
    r = c.lie.GenericRep.from_generators(X, round_fn=lambda v: (calls.append(1), v)[1])
    c.true(r is not None, "closed generators have structure constants")
    A = r.A
    c.shape(A, (n, n, n), "shape")
    c.true(c.is_real_dtype(A), "structure constants are real")
    for i in range(n):
        for j in range(n):
            rhs = 0.0 * X[0]
            for k in range(n):
                rhs = rhs + A[i, j, k] * X[k]
            c.eq(comm(X[i], X[j]), rhs, "[X_i, X_j] = A_ijk X_k")
    c.eq(r.X, keep, "the representation keeps the generators")
    c.eq(X, keep, "generators not modified")
    c.shape(r.H, (0, d, d), "no discrete generator by default")
    c.true(len(calls) == 1, "round_fn is applied once")


@harness(lambda t: [{"n": 1, "d": 2, "pat": "full"}, {"n": 2, "d": 2, "pat": "tri"}, {"n": 2, "d": 2, "pat": "diag"}, {"n": 2, "d": 2, "pat": "gen"}, {"n": 2, "d": 3, "pat": "sparse"}],
         "pairs of independent generators with free entries, closed or not", limit=200, oblig_ms=20000)
def infer_any(c, n, d, pat):
    np = c.np
    a, b = c.real("a"), c.real("b")
    if pat == "full":
        X = c.arr("x", (1, d, d))
        c.assume(c.Or(*[X[0][i, j] != 0 for i in range(d) for j in range(d)]))
    elif pat == "tri":
        X = np.stack([np.array([[1.0, a], [0.0, -1.0]]), np.array([[0.0, 1.0], [b, 0.0]])])
    elif pat == "diag":
        X = np.stack([np.array([[a, 0.0], [0.0, 1.0]]), np.array([[0.0, 1.0], [0.0, b]])])
    elif pat == "gen":
        X = np.stack([np.array([[a, 1.0], [b, 0.0]]), np.array([[0.0, 0.0], [1.0, 2.0]])])
    else:
        X = np.stack([np.array([[0.0, 1.0, a], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]), np.array([[0.0, 0.0, 0.0], [0.0, 0.0, b], [0.0, 1.0, 0.0]])])
    H = c.arr("h", (1, d, d))
    r = c.lie.GenericRep.from_generators(X, H)
    if r is None:
        B = c.arr("c", (n, n, n))
        D = defect(X, B)
        if not c.sym:
            clear(c, *D.values())
        c.true(c.Not(zero(c, *D.values())), "nothing is returned only when no structure constants exist")
        return
    D = defect(X, r.A)
    for v in D.values():
        c.eq(v, 0.0 * v, "returned structure constants hold")
    c.eq(r.H, H, "discrete generators kept")


class swapped:
    """clebsch_gordan replaced under every name by which the library's modules can reach it"""

    def __init__(self, c, new):
        import sys
        self.new, self.places = new, []
        old = c.mod("lie_nn._src.clebsch_gordan").clebsch_gordan
        mods = [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "lie_nn"]
        for m in mods:
            for k, v in list(getattr(m, "__dict__", {}).items()):
                if v is old:
                    self.places.append((m, k, old))

    def __enter__(self):
        for m, k, _ in self.places:
            setattr(m, k, self.new)

    def __exit__(self, *a):
        for m, k, old in self.places:
            setattr(m, k, old)


def triple(c, fam):
    L = c.mod("lie_nn.irreps")
    f, a, b, d = {"su2": ("SU2", 1, 1, 2), "so3": ("SO3", 1, 1, 1), "sl2r": ("SL2R", 1, 0, 1)}[fam]
    C = getattr(L, f)
    return [c.lie.GenericRep.from_rep(C(x)) for x in (a, b, d)]


@harness(lambda t: [{"fam": f, "which": w, "part": p} for f in (("su2", "so3") if t == "quick" else ("su2", "so3", "sl2r")) for w in (0, 1, 2) for p in ("A", "X")],
         "triples of representations with one arbitrarily shifted entry of the algebra or of a generator", limit=200)
def triplet_rejects(c, fam, which, part):
    """a triple with a single deviating entry is accepted only if the deviation is zero"""
    np = c.np
    m = c.mod("lie_nn._src.rep")
    rs = triple(c, fam)
    e = c.real("e")
    r = rs[which]
    if part == "A":
        B = c.snapshot(r.A)
        i, j, k = (0, 1, 2) if c.pick("at", 0, 1) else (2, 0, 0)
        B[i, j, k] = B[i, j, k] + e
        rs[which] = c.lie.GenericRep(B, r.X, r.H)
    else:
        B = c.snapshot(r.X)
        a, i, j = c.pick("a", 0, 2), c.pick("i", 0, r.dim - 1), c.pick("j", 0, r.dim - 1)
        B[a, i, j] = B[a, i, j] + e
        rs[which] = c.lie.GenericRep(r.A, B, r.H)
    if not c.sym:
        c.assume(e == 0 or abs(e) > 1e-6)
    # no coefficients to look at: the relations alone decide
    with swapped(c, lambda *a, **kw: np.zeros((0,) + tuple(x.dim for x in rs))):
        ok = c.attempt(lambda: m.check_representation_triplet(*rs), AssertionError)[0]
    c.true(e == 0 if ok else e != 0, "accepted exactly when the entry is right")


@harness(lambda t: [{"fam": f} for f in (("su2", "so3") if t == "quick" else ("su2", "so3", "sl2r"))], "coefficients with one arbitrarily shifted entry", limit=200)
def triplet_coefficients(c, fam):
    """the triplet check looks at the coefficients themselves"""
    np = c.np
    m, cgm = c.mod("lie_nn._src.rep"), c.mod("lie_nn._src.clebsch_gordan")
    rs = triple(c, fam)
    good = cgm.clebsch_gordan(*rs)
    c.true(good.shape[0] == 1, "one path")
    bad = c.snapshot(good)
    i, j, k = [c.pick(x, 0, r.dim - 1) for x, r in zip("ijk", rs)]
    e = c.real("e")
    if not c.sym:
        c.assume(e == 0 or abs(e) > 1e-6)
    bad[0, i, j, k] = bad[0, i, j, k] + e
    with swapped(c, lambda *a, **kw: bad):
        ok = c.attempt(lambda: m.check_representation_triplet(*rs), AssertionError)[0]
    c.true(e == 0 if ok else e != 0, "accepted exactly when the coefficients intertwine")
    c.true(c.attempt(lambda: m.check_representation_triplet(*rs), AssertionError)[0], "right data is accepted")


@harness(lambda t: [{"n": n, "nH": h} for n in (2, 3) for h in (0, 1)], "finite groups: no continuous generator", limit=100)
def discrete_only(c, n, nH):
    np = c.np
    m, fin = c.mod("lie_nn._src.rep"), c.mod("lie_nn.finite")
    s, t = fin.Sn_standard(n), fin.Sn_trivial(n)
    s.check_algebra_vs_generators()
    m.check_representation_triplet(s, s, t)
    m.check_representation_triplet(t, s, s)
    X = np.zeros((0, n, n))
    r = c.lie.GenericRep.from_generators(X, c.arr("h", (nH, n, n)))
    c.true(r is not None, "the empty algebra is closed")
    c.shape(r.A, (0, 0, 0), "empty algebra")
    c.true(r.dim == n, "dimension")


@harness(lambda t: [{"alg": a, "part": p, "k": k} for a in ("so3", "su2", "sl2") for p in ("A", "X") for k in (3, 5, 8)], "one entry of the structure constants or of a generator changed by 1 to 2 times 10^-k", limit=200)
def near(c, alg, part, k):
    np, m = c.np, c.mod("lie_nn._src.rep")
    X = np.stack(closed(c, alg))
    r = c.lie.GenericRep.from_generators(X)
    A = c.snapshot(r.A)
    e = tiny(c, k)
    if part == "A":
        at = c.choice("at", [(0, 1, 2), (2, 1, 0), (0, 0, 0), (1, 2, 1)])
        A[at] = A[at] + e
    else:
        X = c.snapshot(X)
        X[0, 0, 0] = X[0, 0, 0] + e
        c.true(c.lie.GenericRep.from_generators(X) is None, "not closed any more")
    bad = c.lie.GenericRep(A, X, r.H)
    c.true(not bool(c.util.check_algebra_vs_generators(A, X)), "reported as wrong")
    c.raises("refused", lambda: c.util.check_algebra_vs_generators(A, X, assert_=True), AssertionError)
    c.raises("refused by the method", lambda: bad.check_algebra_vs_generators(), AssertionError)
    pos = c.pick("pos", 0, 2)
    rs = [bad if p == pos else r for p in range(3)]
    with swapped(c, lambda *a, **kw: np.zeros((0,) + tuple(x.dim for x in rs))):
        c.raises("refused in a triplet", lambda: m.check_representation_triplet(*rs), AssertionError)


@harness(lambda t: [{"k": k} for k in (3, 5, 8)], "one coefficient changed by 1 to 2 times 10^-k", limit=200)
def near_coefficients(c, k):
    np, m = c.np, c.mod("lie_nn._src.rep")
    rs = triple(c, "so3")
    bad = c.snapshot(c.mod("lie_nn._src.clebsch_gordan").clebsch_gordan(*rs))
    at = (0,) + tuple(c.pick(x, 0, 2) for x in "ijk")
    bad[at] = bad[at] + tiny(c, k)
    with swapped(c, lambda *a, **kw: bad):
        c.raises("refused", lambda: m.check_representation_triplet(*rs), AssertionError)
