"""Clebsch-Gordan coefficients of rotation groups are intertwiners."""
from sx.h import harness
from checks.common import check_intertwiner, check_normalised_paths


def prod_labels(a, b, step):
    return list(range(abs(a - b), a + b + 1, step))


def check_cg(c, fam, r1, r2, r3, want, exact_paths=None):
    np = c.np
    cls = type(r3)
    cg = cls.clebsch_gordan(r1, r2, r3)
    c.true(cg.ndim == 4, "four indices")
    z = cg.shape[0]
    c.shape(cg, (z, r1.dim, r2.dim, r3.dim), "shape (paths, d1, d2, d3)")
    c.true((z > 0) == want, "a path exactly when the third irrep is listed")
    listed = any(r == r3 for r in r1 * r2)
    c.true(listed == want, "listed by the product")
    if exact_paths is not None and want:
        c.true(z == exact_paths, "number of paths")
    if z == 0:
        return
    c.eq(np.imag(cg), np.zeros(cg.shape), "real coefficients")
    check_intertwiner(c, cg, r1.X, r2.X, r3.X, r1.H, r2.H, r3.H)
    check_normalised_paths(c, cg)


def pairs(n, thin=0, wide=0):
    """all pairs up to n, and those with one label at most thin and the other up to wide"""
    w = max(n, wide)
    ps = [(a, b) for a in range(w + 1) for b in range(w + 1) if max(a, b) <= n or min(a, b) <= thin]
    return [{"a": a, "b": b} for a, b in sorted(ps, key=lambda p: -(p[0] + 1) * (p[1] + 1) * (p[0] + p[1] + 1))]


@harness(lambda t: pairs(6, 1, 11) if t == "quick" else pairs(9, 2, 16), "labels 2j1, 2j2 <= 6 / 9, and one label <= 1 / 2 with the other <= 11 / 16; 2j3 <= 2j1 + 2j2 + 2")
def su2(c, a, b):
    L = c.mod("lie_nn.irreps")
    k = c.pick("j3", 0, a + b + 2)
    check_cg(c, "SU2", L.SU2(a), L.SU2(b), L.SU2(k), k in prod_labels(a, b, 2), 1)


@harness(lambda t: pairs(4, 1, 6) if t == "quick" else pairs(6, 1, 9), "l1, l2 <= 4 / 6, and one <= 1 with the other <= 6 / 9; l3 <= l1 + l2 + 1")
def so3(c, a, b):
    L = c.mod("lie_nn.irreps")
    k = c.pick("l3", 0, a + b + 1)
    check_cg(c, "SO3", L.SO3(a), L.SO3(b), L.SO3(k), k in prod_labels(a, b, 1), 1)


@harness(lambda t: pairs(3, 1, 4) if t == "quick" else pairs(4, 1, 6), "l1, l2 <= 3 / 4, and one <= 1 with the other <= 4 / 6; l3 <= l1 + l2 + 1, all parities")
def o3(c, a, b):
    L = c.mod("lie_nn.irreps")
    k = c.pick("l3", 0, a + b + 1)
    p1, p2, p3 = c.choice("p1", [1, -1]), c.choice("p2", [1, -1]), c.choice("p3", [1, -1])
    check_cg(c, "O3", L.O3(a, p1), L.O3(b, p2), L.O3(k, p3), k in prod_labels(a, b, 1) and p1 * p2 == p3, 1)


@harness(lambda t: pairs(2, 1, 3) if t == "quick" else pairs(3, 1, 4), "2j1, 2j2 <= 2 / 3, and one <= 1 with the other <= 3 / 4 (real form), 2j3 <= min(2j1 + 2j2 + 1, 5)", real_limit=120)
def su2_real(c, a, b):
    L = c.mod("lie_nn.irreps")
    k = c.pick("j3", 0, min(a + b + 1, 5))
    check_cg(c, "SU2Real", L.SU2Real(a / 2), L.SU2Real(b / 2), L.SU2Real(k / 2), k in prod_labels(a, b, 2))


@harness(None, "all parities")
def z2(c):
    L = c.mod("lie_nn.irreps")
    p1, p2, p3 = c.choice("p1", [1, -1]), c.choice("p2", [1, -1]), c.choice("p3", [1, -1])
    check_cg(c, "Z2", L.Z2(p1), L.Z2(p2), L.Z2(p3), p1 * p2 == p3, 1)


LARGE = [("SO3", 10, 10, 20), ("SU2", 40, 30, 20), ("SU2", 24, 24, 24), ("SU2", 60, 2, 60), ("SU2", 100, 1, 99), ("SO3", 20, 20, 0), ("SO3", 30, 1, 30), ("SU2", 20, 1, 21), ("SU2", 20, 20, 0),
         ("SU2", 9, 9, 18), ("SU2", 10, 10, 4), ("SU2", 12, 7, 9), ("SU2", 16, 16, 2), ("SO3", 5, 5, 0), ("SO3", 9, 9, 0), ("SO3", 12, 1, 12), ("SO3", 5, 5, 3), ("SO3", 6, 5, 10), ("SO3", 7, 3, 6), ("SO3", 10, 9, 1),
         ("O3", 8, 8, 0), ("O3", 6, 5, 2), ("O3", 7, 7, 7), ("SO3", 8, 8, 8), ("SO3", 7, 7, 14), ("SO3", 12, 12, 1), ("SU2", 20, 10, 20), ("SU2", 14, 14, 14)]
LARGE_T = [("SO3", 15, 15, 15), ("SO3", 12, 12, 24), ("SO3", 16, 2, 18), ("SU2", 150, 1, 151), ("SU2", 60, 60, 4), ("SU2", 30, 30, 60), ("O3", 12, 11, 10)] + LARGE


@harness(lambda t: [dict(zip(("fam", "a", "b", "k"), x)) for x in (LARGE if t == "quick" else LARGE_T)], "single triples with larger labels, 2j up to 100 (150), l up to 30", limit=120)
def large(c, fam, a, b, k):
    K = getattr(c.mod("lie_nn.irreps"), fam)
    if fam == "O3":
        r = K(a, -1), K(b, 1), K(k, -1)
    else:
        r = K(a), K(b), K(k)
    check_cg(c, fam, *r, True, 1)
