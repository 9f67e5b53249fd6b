"""Families of related groups agree with each other."""
from sx.h import harness
from checks.common import kron2
from checks.p17 import system


def intertwiners(c, Y1, Y2):
    """dimension of the space of S with S Y1 = Y2 S, from the exact rank of the linear system"""
    d1, d2 = Y1[0].shape[0], Y2[0].shape[0]
    return d1 * d2 - c.rank(system(c, Y1, Y2, d1, d2))


def mats(X):
    return [X[i] for i in range(X.shape[0])]


@harness(lambda t: [{"l": l} for l in range(6 if t == "quick" else 9)][::-1], "l <= 5 / 8, both parities")
def o3(c, l):
    """O(3) is SO(3) with the inversion acting as the parity"""
    L, np = c.mod("lie_nn.irreps"), c.np
    p = c.choice("p", [1, -1])
    a, b = L.O3(l, p), L.SO3(l)
    c.true(a.dim == b.dim, "dimension")
    c.eq(a.A, b.A, "structure constants")
    c.eq(a.X, b.X, "rotations")
    c.shape(a.H, (1, b.dim, b.dim), "one inversion")
    c.eq(a.H[0], p * np.eye(b.dim), "inversion acts as the parity")


def small(t, n, thin):
    return [{"a": a, "b": b} for a in range(thin + 1) for b in range(thin + 1) if max(a, b) <= n or min(a, b) <= 1][::-1]


@harness(lambda t: small(t, 2, 3) if t == "quick" else small(t, 3, 5), "l1, l2 <= 2 / 3 (one of them <= 1: 3 / 5), l3 <= l1 + l2 + 1, all parities")
def o3_coefficients(c, a, b):
    L = c.mod("lie_nn.irreps")
    o = c.pick("o", 0, a + b + 1)
    p, q, r = c.choice("p", [1, -1]), c.choice("q", [1, -1]), c.choice("r", [1, -1])
    C = L.O3.clebsch_gordan(L.O3(a, p), L.O3(b, q), L.O3(o, r))
    W = L.SO3.clebsch_gordan(L.SO3(a), L.SO3(b), L.SO3(o))
    if p * q == r:
        c.eq(C, W, "coefficients of SO(3)")
    else:
        c.true(C.shape[0] == 0, "no path against parity")
    c.true([x.l for x in L.O3(a, p) * L.O3(b, q)] == [x.l for x in L.SO3(a) * L.SO3(b)] and all(x.p == p * q for x in L.O3(a, p) * L.O3(b, q)), "labels of the product")


@harness(lambda t: [{"l": l} for l in range(6 if t == "quick" else 9)][::-1], "integer spin <= 5 / 8, given as int or float")
def su2real(c, l):
    L = c.mod("lie_nn.irreps")
    a, b = L.SU2Real(float(l) if c.pick("f", 0, 1) else l), L.SO3(l)
    c.true(a.dim == b.dim, "dimension")
    c.eq(a.A, b.A, "structure constants")
    c.eq(a.X, b.X, "generators of SO(3)")


@harness(lambda t: small(t, 2, 3) if t == "quick" else small(t, 3, 4), "l1, l2 <= 2 / 3 (one of them <= 1: 3 / 4), l3 <= l1 + l2 + 1")
def su2real_coefficients(c, a, b):
    L = c.mod("lie_nn.irreps")
    o = c.pick("o", 0, a + b + 1)
    c.eq(L.SU2Real.clebsch_gordan(L.SU2Real(a), L.SU2Real(b), L.SU2Real(o)), L.SO3.clebsch_gordan(L.SO3(a), L.SO3(b), L.SO3(o)), "coefficients of SO(3)")


@harness(lambda t: [{"n": n} for n in range(5 if t == "quick" else 7)][::-1], "2j <= 4 / 6, real form against every 2k <= 4 / 6")
def real_of_complex(c, n):
    """over the complex numbers the real irrep of spin j is one (integer) or two (half-integer) copies of spin j"""
    L = c.mod("lie_nn.irreps")
    a = L.SU2Real(n // 2 if n % 2 == 0 else n / 2)
    k = c.pick("k", 0, 4 if n < 5 else 6)
    b = L.SU2(k)
    c.eq(a.A, b.A, "structure constants")
    c.true(a.dim == (1 + n % 2) * L.SU2(n).dim, "dimension")
    c.true(intertwiners(c, mats(a.X), mats(b.X)) == (0 if k != n else 1 + n % 2), "number of intertwiners")


@harness(lambda t: [{"l": l, "k": k} for l in range(3 if t == "quick" else 4) for k in range(3 if t == "quick" else 4) if (l + 1) * (k + 1) <= (6 if t == "quick" else 9)][::-1], "l, k <= 2 / 3")
def sl2c(c, l, k):
    """(l, k) is (l, 0) x (0, k); the first acts on rotations as spin l / 2 and on boosts alike, the second by the negative conjugates on boosts"""
    L, np = c.mod("lie_nn.irreps"), c.np
    R, S, T = L.SL2C(l, k), L.SL2C(l, 0), L.SL2C(0, k)
    c.eq(S.X[:3], L.SU2(l).X, "(l, 0) on rotations")
    c.eq(S.X[3:], L.SU2(l).X, "(l, 0) on boosts")
    c.eq(T.X[:3], np.conj(L.SU2(k).X), "(0, k) on rotations")
    c.eq(T.X[3:], -np.conj(L.SU2(k).X), "(0, k) on boosts")
    I1, I2 = np.eye(l + 1), np.eye(k + 1)
    Y = [kron2(c, S.X[i], I2) + kron2(c, I1, T.X[i]) for i in range(6)]
    c.true(intertwiners(c, Y, mats(R.X)) == 1, "product of its two parts")


@harness(lambda t: [{"l": l, "k": k} for l in range(4 if t == "quick" else 5) for k in range(4 if t == "quick" else 5) if (l + k) % 2 == 0 and (l + 1) * (k + 1) <= (9 if t == "quick" else 16)][::-1], "l, k <= 3 / 4")
def so13(c, l, k):
    """SO(1, 3) acts like SL(2, C) with the boosts times i, for no other label"""
    L, np = c.mod("lie_nn.irreps"), c.np
    R = L.SO13(l, k)
    q = c.choice("q", [(l, k), (k, l)] if l != k else [(l, k)])
    S = L.SL2C(*q)
    Y = [S.X[i] if i < 3 else c.j * S.X[i] for i in range(6)]
    c.true(R.dim == S.dim, "dimension")
    c.true(intertwiners(c, Y, mats(R.X)) == (1 if q == (l, k) else 0), "number of intertwiners")


@harness(lambda t: [{"n": n} for n in range(4 if t == "quick" else 6)][::-1], "2j <= 3 / 5")
def sun_two(c, n):
    """the SU(2) member of the SU(N) family is spin j, with the generators of the two families related by one fixed rescaling"""
    L = c.mod("lie_nn.irreps")
    k = c.pick("k", 0, 3 if n < 4 else 5)
    X, Y = L.SU2(n).X, L.SU2_((k, 0)).X
    c.true(L.SU2_((k, 0)).dim == L.SU2(k).dim, "dimension")
    h = c.q(1, 2)
    c.true(intertwiners(c, mats(X), [-h * Y[1], h * Y[2], h * Y[0]]) == (1 if k == n else 0), "number of intertwiners")


@harness(lambda t: [{"S": S} for S in ([(0, 0), (1, 0), (2, 0), (3, 0), (0, 0, 0), (1, 0, 0), (1, 1, 0), (2, 0, 0), (2, 1, 0), (0, 0, 0, 0), (1, 0, 0, 0), (1, 1, 0, 0), (1, 1, 1, 0)] + ([(3, 0, 0), (2, 2, 0), (3, 1, 0), (2, 0, 0, 0)] if t == "thorough" else []))][::-1],
         "the listed weights of SU(2), SU(3), SU(4)")
def sun_named(c, S):
    """the named families are the general SU(N) at that N"""
    L = c.mod("lie_nn.irreps")
    SUN = c.mod("lie_nn._src.irreps.sun").SUN
    S = tuple(S)
    cls = {2: L.SU2_, 3: L.SU3, 4: L.SU4}[len(S)]
    a, b = cls(S), SUN(S)
    c.true(a.dim == b.dim, "dimension")
    c.eq(a.A, b.A, "structure constants")
    c.eq(a.X, b.X, "generators")
    c.true(a.is_scalar() == b.is_scalar(), "scalar")
    f = (1,) + S[1:] if not any(S) else (1,) + (0,) * (len(S) - 1)
    p, q = [x.S for x in cls(S) * cls(f)], [x.S for x in b * SUN(f)]
    c.true(p == q, "labels of the product")
    if a.dim <= 6:
        o = c.choice("o", q)
        c.eq(cls.clebsch_gordan(a, cls(f), cls(o)), SUN.clebsch_gordan(b, SUN(f), SUN(o)), "coefficients")


@harness(None, "all parities")
def parity(c):
    """Z2 is the inversion of O(3) on scalars"""
    L = c.mod("lie_nn.irreps")
    p = c.choice("p", [1, -1])
    c.eq(L.Z2(p).H, L.O3(0, p).H, "inversion")


@harness(lambda t: [{"n": n} for n in ((1, 2, 3, 4) if t == "quick" else (1, 2, 3, 4, 5, 6))][::-1], "up to 4 / 6 points")
def permutations(c, n):
    """the natural representation is the trivial one plus the standard one (for more than one point); sign against trivial"""
    F = c.mod("lie_nn.finite")
    nat, one = F.Sn_natural(n), F.Sn_trivial(n)
    if not nat.H.shape[0]:
        return
    c.true(intertwiners(c, mats(nat.H), mats(one.H)) == 1, "one trivial part")
    if n > 1:
        std = F.Sn_standard(n)
        c.true(std.dim == n - 1, "dimension of the standard representation")
        c.true(intertwiners(c, mats(nat.H), mats(std.H)) == 1, "one standard part")
        c.true(intertwiners(c, mats(std.H), mats(one.H)) == 0 if n > 2 else True, "standard is not trivial")
