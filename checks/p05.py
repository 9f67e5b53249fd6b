"""Clebsch-Gordan coefficients of SL(2,C) and SO(1,3) are intertwiners."""
from sx.h import harness
from checks.common import check_intertwiner, stack_cg


def labels(s, step=1):
    return [(l, t - l) for t in range(0, s + 1, step) for l in range(t + 1)]


def listed(a, b):
    return [(l, k) for l in range(abs(a[0] - b[0]), a[0] + b[0] + 1, 2) for k in range(abs(a[1] - b[1]), a[1] + b[1] + 1, 2)]


def tasks(s, step, cap):
    out = []
    for a in labels(s, step):
        for b in labels(s, step):
            d = (a[0] + 1) * (a[1] + 1) * (b[0] + 1) * (b[1] + 1)
            if d <= cap:
                out.append((d, {"a": list(a), "b": list(b)}))
    return [x for _, x in sorted(out, key=lambda y: -y[0])]


def check_pair(c, cls, a, b):
    np = c.np
    r1, r2 = cls(*a), cls(*b)
    want = listed(a, b)
    cgs = []
    for l, k in want:
        r3 = cls(l, k)
        cg = cls.clebsch_gordan(r1, r2, r3)
        c.true(cg.ndim == 4 and tuple(cg.shape) == (1, r1.dim, r2.dim, r3.dim), "exactly one path, shape (1, d1, d2, d3)")
        check_intertwiner(c, cg, r1.X, r2.X, r3.X)
        cgs.append(cg)
    M = stack_cg(c, cgs)
    n = r1.dim * r2.dim
    c.shape(M, (n, n), "stacked coefficients square")
    c.true(c.rank(M) == n, "invertible change of basis")
    # labels outside the product: none
    l = c.int("l", 0, a[0] + b[0] + 1)
    k = c.int("k", 0, a[1] + b[1] + 1)
    if cls.__name__ == "SO13":
        c.assume((l + k) % 2 == 0)
        c.assume(l + k <= 4)
    l, k = c.num(l), c.num(k)
    if (l, k) not in want:
        r3 = cls(l, k)
        cg = cls.clebsch_gordan(r1, r2, r3)
        c.shape(cg, (0, r1.dim, r2.dim, r3.dim), "no path when not listed")


LONG = [((4, 0), (1, 0)), ((0, 5), (0, 1)), ((3, 0), (0, 2)), ((1, 0), (3, 1)), ((0, 1), (3, 1)), ((3, 0), (3, 0)), ((0, 3), (0, 2)), ((6, 0), (0, 1)), ((1, 1), (0, 3)), ((0, 0), (3, 2))]
LONGEVEN = [((3, 1), (0, 0)), ((0, 0), (4, 0)), ((2, 0), (0, 4))]


@harness(lambda t: [{"a": list(a), "b": list(b)} for a, b in LONG], "pairs with one larger label (entries <= 6)")
def sl2c_long(c, a, b):
    check_pair(c, c.mod("lie_nn.irreps").SL2C, tuple(a), tuple(b))


@harness(lambda t: [{"a": list(a), "b": list(b)} for a, b in (LONGEVEN if t != "quick" else LONGEVEN[:2])], "pairs with one larger label (entries <= 4)", real_limit=120)
def so13_long(c, a, b):
    check_pair(c, c.mod("lie_nn.irreps").SO13, tuple(a), tuple(b))


@harness(lambda t: tasks(2, 1, 12) if t == "quick" else tasks(3, 1, 30), "l + k <= 2, d1 d2 <= 12 (quick); l + k <= 3, d1 d2 <= 30 (thorough)")
def sl2c(c, a, b):
    check_pair(c, c.mod("lie_nn.irreps").SL2C, tuple(a), tuple(b))


@harness(lambda t: tasks(2, 2, 12) if t == "quick" else tasks(2, 2, 16), "l + k <= 2, d1 d2 <= 12 / 16", real_limit=120)
def so13(c, a, b):
    check_pair(c, c.mod("lie_nn.irreps").SO13, tuple(a), tuple(b))


BIG = [("SL2C", (4, 3), (2, 2)), ("SL2C", (7, 0), (7, 1)), ("SL2C", (2, 3), (3, 3)), ("SL2C", (9, 0), (0, 9)), ("SL2C", (1, 8), (2, 1)), ("SO13", (4, 0), (0, 2)), ("SO13", (1, 1), (2, 2))]
BIG_T = BIG + [("SO13", (2, 2), (1, 1)), ("SO13", (3, 1), (1, 1)), ("SO13", (3, 3), (0, 0))]


def big_tasks(tier):
    out = []
    for f, a, b in BIG if tier == "quick" else BIG_T:
        w = listed(a, b)
        for k in (w if tier != "quick" else [w[0], w[len(w) // 2]] if f == "SO13" else [w[0], w[-1], w[len(w) // 2]]):
            t = {"fam": f, "a": list(a), "b": list(b), "k": list(k)}
            if t not in out:
                out.append(t)
    return out


@harness(big_tasks, "single triples with larger labels (entries <= 9)", limit=140)
def large(c, fam, a, b, k):
    cls = getattr(c.mod("lie_nn.irreps"), fam)
    r1, r2, r3 = cls(*a), cls(*b), cls(*k)
    cg = cls.clebsch_gordan(r1, r2, r3)
    c.true(cg.ndim == 4 and tuple(cg.shape) == (1, r1.dim, r2.dim, r3.dim), "exactly one path, shape (1, d1, d2, d3)")
    check_intertwiner(c, cg, r1.X, r2.X, r3.X)
    M = stack_cg(c, [cg])
    c.true(c.rank(M) == r3.dim, "a path of full rank")
