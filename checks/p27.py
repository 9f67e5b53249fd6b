"""Unitarity and reality predicates, explicitly real forms."""
from sx.h import harness
from checks.common import tiny
from checks.p17 import system, gens


def P(c):
    return c.mod("lie_nn._src.properties")


def R(c):
    return c.mod("lie_nn._src.real")


SH = lambda t: [dict(n=n, nH=h, d=d, kind=k) for n, h, d, k in ([(0, 0, 1, "real"), (1, 0, 1, "complex"), (0, 1, 1, "complex"), (1, 1, 1, "complex"), (1, 0, 2, "complex"), (0, 1, 2, "real"), (1, 1, 2, "real"), (2, 0, 2, "complex"), (0, 1, 2, "complex"), (2, 1, 2, "real"), (1, 2, 1, "complex"), (0, 2, 2, "real")] + ([(3, 0, 3, "complex"), (0, 1, 3, "real"), (1, 1, 2, "complex"), (2, 0, 4, "real")] if t == "thorough" else []))][::-1]


@harness(SH, "all generator entries (real or complex) of dimension <= 2 / 4", limit=250, oblig_ms=20000)
def unitary(c, n, nH, d, kind):
    np = c.np
    X, H = c.arr("x", (n, d, d), kind), c.arr("h", (nH, d, d), kind)
    kX, kH = c.snapshot(X), c.snapshot(H)
    r = c.lie.GenericRep(np.zeros((n, n, n)), X, H)
    ok = bool(P(c).is_unitary(r))
    eqs, dev = [], [0.0]
    for m in range(n):
        for i in range(d):
            for j in range(i, d):
                z = X[m, i, j] + np.conj(X[m, j, i])
                eqs += [z.real == 0, z.imag == 0]
                dev.append(0.0 if c.sym else abs(z))
    for m in range(nH):
        for i in range(d):
            for j in range(i, d):
                z = sum(H[m, i, k] * np.conj(H[m, j, k]) for k in range(d)) - int(i == j)
                eqs += [z.real == 0, z.imag == 0]
                dev.append(0.0 if c.sym else abs(z))
    if not c.sym:
        m = max(dev)
        c.assume(m < 1e-14 or m > 1e-4)
        c.true(ok == (m < 1e-14), "unitary exactly when anti-Hermitian and unitary generators")
        return
    f = c.And(*eqs) if eqs else True
    c.true(f if ok else c.Not(f), "unitary exactly when anti-Hermitian and unitary generators")
    c.eq(X, kX, "generators not modified")
    c.eq(H, kH, "generators not modified")


# name: (constructor, is it equivalent to a real representation)
def cases(c):
    L, lie, F = c.mod("lie_nn.irreps"), c.lie, c.mod("lie_nn.finite")
    return {
        "SU2:0": (lambda: L.SU2(0), True), "SU2:1": (lambda: L.SU2(1), False), "SU2:2": (lambda: L.SU2(2), True), "SU2:3": (lambda: L.SU2(3), False), "SU2:4": (lambda: L.SU2(4), True),
        "SO3:1": (lambda: L.SO3(1), True), "SO3:2": (lambda: L.SO3(2), True), "O3:1-": (lambda: L.O3(1, -1), True), "Z2:-": (lambda: L.Z2(-1), True),
        "SU2_:1": (lambda: L.SU2_((1, 0)), False), "SU2_:2": (lambda: L.SU2_((2, 0)), True), "SU2_:3": (lambda: L.SU2_((3, 0)), False),
        "SU3:3": (lambda: L.SU3((1, 0, 0)), False), "SU3:3*": (lambda: L.SU3((1, 1, 0)), False), "SU3:6": (lambda: L.SU3((2, 0, 0)), False), "SU3:8": (lambda: L.SU3((2, 1, 0)), True),
        "SU4:4": (lambda: L.SU4((1, 0, 0, 0)), False), "SU4:6": (lambda: L.SU4((1, 1, 0, 0)), True), "SU4:4*": (lambda: L.SU4((1, 1, 1, 0)), False), "SU4:15": (lambda: L.SU4((2, 1, 1, 0)), True),
        "SU2R:1": (lambda: L.SU2Real(1), True),
        "SU2xSU2:11": (lambda: lie.group_product(L.SU2(1), L.SU2(1)), True), "SU2xSU2:12": (lambda: lie.group_product(L.SU2(1), L.SU2(2)), False), "SU2xZ2:1": (lambda: lie.group_product(L.SU2(1), L.Z2(-1)), False),
        "SU2xZ2:2": (lambda: lie.group_product(L.SU2(2), L.Z2(-1)), True), "SU3xZ2": (lambda: lie.group_product(L.SU3((1, 0, 0)), L.Z2(-1)), False), "SO3xZ2": (lambda: lie.group_product(L.SO3(1), L.Z2(-1)), True),
        "Q8": (lambda: lie.GenericRep(c.np.zeros((0, 0, 0)), c.np.zeros((0, 2, 2)), c.np.stack([c.j * c.np.array([[1.0, 0.0], [0.0, -1.0]]), c.np.array([[0.0 + 0.0 * c.j, 1.0], [-1.0, 0.0]])])), False),
        "D4": (lambda: lie.GenericRep(c.np.zeros((0, 0, 0)), c.np.zeros((0, 2, 2)), c.np.stack([c.np.array([[0.0 + 0.0 * c.j, -1.0], [1.0, 0.0]]), c.np.array([[0.0 + 0.0 * c.j, 1.0], [1.0, 0.0]])])), True),
        "Z3": (lambda: lie.GenericRep(c.np.zeros((0, 0, 0)), c.np.zeros((0, 1, 1)), c.np.array([[[-0.5 * c.q(1) + 0.5 * c.j * c.sqrt(c.q(3))]]])), False),
        "Z4": (lambda: lie.GenericRep(c.np.zeros((0, 0, 0)), c.np.zeros((0, 1, 1)), c.np.array([[[c.j]]])), False),
        "U1": (lambda: lie.GenericRep(c.np.zeros((1, 1, 1)), c.np.array([[[c.j]]]), c.np.zeros((0, 1, 1))), False),
    }


NAMES = ["SU2:0", "SU2:1", "SU2:2", "SU2:3", "SU2:4", "SO3:1", "SO3:2", "O3:1-", "Z2:-", "SU2_:1", "SU2_:2", "SU2_:3", "SU3:3", "SU3:3*", "SU3:6", "SU3:8", "SU4:4", "SU4:6", "SU4:4*", "SU2R:1",
         "SU2xSU2:11", "SU2xSU2:12", "SU2xZ2:1", "SU2xZ2:2", "SU3xZ2", "SO3xZ2", "Q8", "D4", "Z3", "Z4", "U1"]
SMALL = ["SU2:1", "SU2:2", "SU2_:1", "SU2_:2", "SU2:3", "SU3:3", "SO3:1", "O3:1-", "SU2xSU2:11", "SU2xZ2:1", "SU2xZ2:2", "Q8", "D4", "Z3", "Z4", "U1"]


def reality(c, rep, real, full=True):
    """reality by the library against the known type; the explicit form is real and equivalent"""
    c.true(bool(P(c).is_unitary(rep)), "the irreps listed are unitary")
    c.true(bool(R(c).is_real(rep)) == real, "reported real exactly when it is")
    if not full:
        return
    ok, m = c.attempt(lambda: R(c).make_explicitly_real(rep), ValueError)
    c.true(ok == real, "made real exactly when it is")
    if ok:
        for g in gens(m):
            c.eq(g.imag, 0.0 * g.real, "real entries")
        c.eq(m.A, rep.A, "same algebra")
        c.true(m.dim == rep.dim, "same dimension")
        equivalent(c, m, rep)


def equivalent(c, a, b):
    np = c.np
    d = a.dim
    Y1, Y2 = gens(a), gens(b)
    if not Y1:
        return
    M = system(c, Y1, Y2, d, d)
    ker = c.kernel(M)
    c.true(len(ker) == 1, "one intertwiner between the irrep and its real form")
    Q = np.array([x for x in ker[0]]).reshape(d, d)
    c.true(c.rank(Q) == d, "which is invertible")


@harness(lambda t: [{"name": n} for n in NAMES + (["SU4:15"] if t == "thorough" else [])][::-1], "listed irreps in their own basis", limit=250)
def types(c, name):
    f, real = cases(c)[name]
    rep = f()
    keep = c.snapshot(rep.X)
    reality(c, rep, real)
    c.eq(rep.X, keep, "operand not modified")


@harness(lambda t: [{"name": n, "mix": m} for n in SMALL for m in ("none", "pair")], "listed irreps in bases given by every choice of phases 1, i, -1, -i on the first three axes, a swap and a complex rotation of two axes", limit=250, max_replays=20, max_paths=200)
def phases(c, name, mix):
    np, lie = c.np, c.lie
    f, real = cases(c)[name]
    rep = f()
    d = rep.dim
    Q = np.eye(d, dtype=complex)
    for i in range(min(d, 3)):
        if i == 0 and d > 1:
            continue
        k = c.pick(f"k{i}", 0, 3)
        Q[i, i] = [1.0, c.j, -1.0, -c.j][k]
    if mix == "pair" and d > 1:
        M = np.eye(d, dtype=complex)
        s = c.sqrt(c.q(1, 2))
        M[0, 0], M[0, d - 1], M[d - 1, 0], M[d - 1, d - 1] = s, s * c.j, s * c.j, s
        Q = Q @ M
    r = lie.GenericRep.from_rep(lie.change_basis(rep, Q))
    reality(c, r, real)


@harness(lambda t: [{"name": n} for n in SMALL if n not in ("SU2:3", "SU2xSU2:11") or t == "thorough"], "bases given by an arbitrary phase (symbolic, |u| = 1) on the last axis", limit=250)
def any_phase(c, name):
    np, lie = c.np, c.lie
    f, real = cases(c)[name]
    rep = f()
    d = rep.dim
    X, H = c.snapshot(rep.X), c.snapshot(rep.H)
    u = []
    for i in range(d):
        if i == d - 1:
            a, b = c.real(f"a{i}"), c.real(f"b{i}")
            if not c.sym:
                t = float(a)
                a, b = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
            else:
                c.assume(a * a + b * b == 1)
            u.append(a + c.j * b)
        else:
            u.append(1.0 + 0.0 * c.j)
    D = np.diag(np.array(u))
    Di = np.conj(D)
    r = lie.GenericRep(rep.A, np.stack([D @ x @ Di for x in X]) if len(X) else X, np.stack([D @ x @ Di for x in H]) if len(H) else H)
    reality(c, r, real, full=False)


@harness(lambda t: [{"fam": f} for f in ("su2", "su3", "so3", "z2")], "families", limit=150)
def unitary_families(c, fam):
    """every irrep of the compact families is unitary, non-unitary ones are reported as such"""
    L, lie, np = c.mod("lie_nn.irreps"), c.lie, c.np
    good = {"su2": [L.SU2(1), L.SU2(2)], "su3": [L.SU3((1, 0, 0)), L.SU3((2, 1, 0))], "so3": [L.SO3(1), L.O3(1, -1)], "z2": [L.Z2(-1)]}[fam]
    bad = {"su2": [], "su3": [L.SO13(1, 1)], "so3": [], "z2": []}[fam]
    for r in good:
        c.true(bool(P(c).is_unitary(r)), "unitary")
        c.true(bool(P(c).is_unitary(lie.MulIrrep(2, r))), "multiples")
        c.true(bool(P(c).is_unitary(lie.ReducedRep.from_irreps([r, (2, r)]))), "sums")
    for r in bad:
        c.true(not bool(P(c).is_unitary(r)), "not unitary")
    r = good[0]
    e = c.real("e")
    if not c.sym:
        c.assume(abs(e) > 1e-3)
    Q = np.eye(r.dim + 1)
    Q[0, r.dim] = e
    c.assume(e != 0)
    s = lie.change_basis(lie.direct_sum(lie.GenericRep.from_rep(r), lie.GenericRep.from_rep(r.create_trivial())), Q)
    c.true(not bool(P(c).is_unitary(s)) , "a sheared sum is not unitary")


@harness(lambda t: [{"what": w, "k": k} for w, ks in (("X", (3, 5, 8, 11)), ("H", (3, 5, 8, 11)), ("scale", (2, 3))) for k in ks], "unitary representations with one entry changed by 1 to 2 times 10^-k")
def near_unitary(c, what, k):
    np = c.np
    X = np.array([[[0.0, 1.0 + c.j], [-1.0 + c.j, c.j]], [[c.j, 0.0], [0.0, 0.0]]])
    H = np.array([[[0.0 * c.j, 1.0], [1.0, 0.0]], [[c.j, 0.0], [0.0, 1.0]]])
    r = c.lie.GenericRep(np.zeros((2, 2, 2)), X, H)
    c.true(bool(P(c).is_unitary(r)), "unitary")
    e = tiny(c, k) * c.choice("phase", [1, c.j])
    a, i, j = c.pick("a", 0, 1), c.pick("i", 0, 1), c.pick("j", 0, 1)
    if what == "X":
        X = c.snapshot(X)
        if i == j and not c.sym:
            c.assume(abs(complex(e).real) > 0)
        if i == j:
            c.assume(e.real != 0)
        X[a, i, j] = X[a, i, j] + e
    else:
        H = c.snapshot(H)
        if what == "scale":
            i, j = [(0, 1), (1, 1)][a]
            e = e.real
            c.assume(e != 0)
        else:
            i, j = [(0, 0), (1, 0)][a]
        H[a, i, j] = H[a, i, j] + e
    r = c.lie.GenericRep(np.zeros((2, 2, 2)), X, H)
    c.true(not bool(P(c).is_unitary(r)), "not unitary any more")
