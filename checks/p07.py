"""Products of irreps list the right labels."""
from sx.h import harness


def check_list(c, got, want, d1, d2, keys, mults=None):
    """got: irreps; want: list of label tuples (symbolic entries allowed)"""
    c.true(len(got) == len(want), "number of listed labels")
    c.true(c.And(*[c.Or(*[c.And(*[x == y for x, y in zip(keys(g), w)]) for g in got]) for w in want]), "every allowed label is listed")
    c.true(c.And(*[c.Or(*[c.And(*[x == y for x, y in zip(keys(g), w)]) for w in want]) for g in got]), "only allowed labels are listed")
    s = 0
    for i, g in enumerate(got):
        m = 1 if mults is None else mults[i]
        s = s + m * g.dim
    c.true(s == d1 * d2, "dimensions add up")


def same_set(c, x, y, keys, label):
    x, y = list(x), list(y)
    c.true(len(x) == len(y), label)
    for p, q in ((x, y), (y, x)):
        for g in p:
            c.true(c.Or(*[c.And(*[u == v for u, v in zip(keys(g), keys(h))]) for h in q]), label)


def triangle(c, a, b, n, step):
    """labels of the product when the second label is n <= or > a: list of linear forms (forks on the order)"""
    if c.decide(a >= n):
        return [a - n + step * i for i in range((2 * n) // step + 1)]
    a0 = c.num(a)
    return list(range(n - a0, n + a0 + 1, step))


B = {"quick": 12, "thorough": 24}


def ns(t):
    return [{"n": n} for n in range(B[t] + 1)][::-1]


def one_family(c, mk, keys, a, n, step, valid):
    r1, r2 = mk(a), mk(n)
    got = list(r1 * r2)
    for g in got:
        c.true(type(g) is type(r1), "same family")
        c.true(valid(g), "valid label")
    want = [(x,) for x in triangle(c, a, None, n, step)]
    check_list(c, got, want, r1.dim, r2.dim, keys)
    same_set(c, got, r2 * r1, keys, "order of the factors")
    one = mk(0)
    same_set(c, r1 * one, [r1], keys, "trivial irrep neutral")
    same_set(c, one * r1, [r1], keys, "trivial irrep neutral")


@harness(ns, "one label any integer >= 0 (unbounded), the other <= 12 / 24")
def su2(c, n):
    L = c.mod("lie_nn.irreps")
    a = c.int("a", 0)
    one_family(c, L.SU2, lambda r: (r.j,), a, n, 2, lambda r: r.j >= 0)


@harness(ns, "one label any integer >= 0 (unbounded), the other <= 12 / 24")
def so3(c, n):
    L = c.mod("lie_nn.irreps")
    a = c.int("a", 0)
    one_family(c, L.SO3, lambda r: (r.l,), a, n, 2 // 2, lambda r: r.l >= 0)


@harness(lambda t: ns(t), "one label any integer >= 0, the other <= 12 / 24, all parities")
def o3(c, n):
    L = c.mod("lie_nn.irreps")
    a = c.int("a", 0)
    p1, p2 = c.choice("p1", [1, -1]), c.choice("p2", [1, -1])
    r1, r2 = L.O3(a, p1), L.O3(n, p2)
    keys = lambda r: (r.l, r.p)
    got = list(r1 * r2)
    check_list(c, got, [(l, p1 * p2) for l in triangle(c, a, None, n, 1)], r1.dim, r2.dim, keys)
    same_set(c, got, r2 * r1, keys, "order of the factors")
    same_set(c, r1 * L.O3(0, 1), [r1], keys, "trivial irrep neutral")
    same_set(c, L.O3(0, 1) * r1, [r1], keys, "trivial irrep neutral")


@harness(None, "all parities")
def z2(c):
    L = c.mod("lie_nn.irreps")
    p1, p2 = c.choice("p1", [1, -1]), c.choice("p2", [1, -1])
    keys = lambda r: (r.p,)
    got = list(L.Z2(p1) * L.Z2(p2))
    check_list(c, got, [(p1 * p2,)], 1, 1, keys)


@harness(lambda t: [{"a": a, "b": b} for a in range(6 if t == "quick" else 11) for b in range(6 if t == "quick" else 11)], "2j1, 2j2 <= 5 / 10")
def su2_real(c, a, b):
    """labels are floats in halves; a product with a path multiplicity counts each label that often"""
    L = c.mod("lie_nn.irreps")
    a, b = c.pick("a", a, a), c.pick("b", b, b)
    r1, r2 = L.SU2Real(a / 2), L.SU2Real(b / 2)
    keys = lambda r: (2 * r.j,)
    got = list(r1 * r2)
    want = [(x,) for x in range(abs(a - b), a + b + 1, 2)]
    # commuting algebra of a half-integer irrep is the quaternions, of an integer one the reals
    mult = []
    for g in got:
        n = (a % 2) * 2 + (b % 2)
        t = c.num(2 * g.j) % 2
        c.true(t == (a + b) % 2, "integer and half-integer labels")
        # complex multiplicity of the complexified irreps, divided by the copies in the real irrep
        m = (2 if a % 2 else 1) * (2 if b % 2 else 1)
        mult.append(m // (2 if t else 1))
    check_list(c, got, want, r1.dim, r2.dim, keys, mult)
    same_set(c, got, r2 * r1, keys, "order of the factors")
    one = L.SU2Real(0)
    same_set(c, r1 * one, [r1], keys, "trivial irrep neutral")
    same_set(c, one * r1, [r1], keys, "trivial irrep neutral")


def lk(t):
    n = 3 if t == "quick" else 5
    return [{"l2": l, "k2": k} for l in range(n + 1) for k in range(n + 1)][::-1]


@harness(lk, "one label any pair of integers >= 0 (unbounded), the other <= 3 / 5 each")
def sl2c(c, l2, k2):
    L = c.mod("lie_nn.irreps")
    l, k = c.int("l", 0), c.int("k", 0)
    r1, r2 = L.SL2C(l, k), L.SL2C(l2, k2)
    keys = lambda r: (r.l, r.k)
    got = list(r1 * r2)
    ls, ks = triangle(c, l, None, l2, 2), triangle(c, k, None, k2, 2)
    check_list(c, got, [(x, y) for x in ls for y in ks], r1.dim, r2.dim, keys)
    same_set(c, got, r2 * r1, keys, "order of the factors")
    one = L.SL2C(0, 0)
    same_set(c, r1 * one, [r1], keys, "trivial irrep neutral")
    same_set(c, one * r1, [r1], keys, "trivial irrep neutral")


@harness(lambda t: [x for x in lk(t) if (x["l2"] + x["k2"]) % 2 == 0], "one label any valid pair (unbounded), the other <= 3 / 5 each")
def so13(c, l2, k2):
    L = c.mod("lie_nn.irreps")
    l, h = c.int("l", 0), c.int("h")
    k = 2 * h - l
    c.assume(k >= 0)
    r1, r2 = L.SO13(l, k), L.SO13(l2, k2)
    keys = lambda r: (r.l, r.k)
    got = list(r1 * r2)
    for g in got:
        c.true((g.l + g.k) % 2 == 0, "valid label")
    ls, ks = triangle(c, l, None, l2, 2), triangle(c, k, None, k2, 2)
    check_list(c, got, [(x, y) for x in ls for y in ks], r1.dim, r2.dim, keys)
    same_set(c, got, r2 * r1, keys, "order of the factors")
    one = L.SO13(0, 0)
    same_set(c, r1 * one, [r1], keys, "trivial irrep neutral")
    same_set(c, one * r1, [r1], keys, "trivial irrep neutral")


@harness(lambda t: [{"m": m, "n": n} for m in range(3 if t == "quick" else 5) for n in range(3 if t == "quick" else 5)],
         "SU2 x O3 and SO13 x Z2 x SU2 labels, one factor with any labels, the other <= 2 / 4")
def products(c, m, n):
    L, lie = c.mod("lie_nn.irreps"), c.lie
    a, b = c.int("a", 0), c.int("b", 0)
    p1, p2 = c.choice("p1", [1, -1]), c.choice("p2", [1, -1])
    r1 = lie.group_product(L.SU2(a), L.O3(b, p1))
    r2 = lie.group_product(L.SU2(m), L.O3(n, p2))
    keys = lambda r: (r.rep1.j, r.rep2.l, r.rep2.p)
    got = list(r1 * r2)
    want = [(x, y, p1 * p2) for x in triangle(c, a, None, m, 2) for y in triangle(c, b, None, n, 1)]
    check_list(c, got, want, r1.dim, r2.dim, keys)
    same_set(c, got, r2 * r1, keys, "order of the factors")
    one = lie.group_product(L.SU2(0), L.O3(0, 1))
    same_set(c, r1 * one, [r1], keys, "trivial irrep neutral")
    t = lie.group_product(L.SO3(a), L.Z2(p1), L.SU2(b)) * lie.group_product(L.SO3(m), L.Z2(p2), L.SU2(n))
    t = list(t)
    keys = lambda r: (r.rep1.rep1.l, r.rep1.rep2.p, r.rep2.j)
    want = [(x, p1 * p2, y) for x in triangle(c, a, None, m, 1) for y in triangle(c, b, None, n, 2)]
    check_list(c, t, want, (2 * a + 1), (b + 1) * (2 * m + 1) * (n + 1), keys)


LAZY = ["SL2C", "SO13", "SU3", "SU2_", "SU2Real"]


@harness(lambda t: [{"f": f, "first": g, "n": n} for f in LAZY for g in ("SU2", "SO3", "O3", "Z2", "SL2C") for n in ((1, 2) if t == "quick" else (1, 2, 3))],
         "products of a tabulated family with one whose products may be listed lazily, in both orders and nested; one label any integer, the others picked from small ones")
def mixed_products(c, f, first, n):
    """the product of pairs of labels is the set of pairs of products, each once"""
    L, lie = c.mod("lie_nn.irreps"), c.lie
    small = {"SL2C": [(1, 0), (1, 1), (2, 1)], "SO13": [(1, 1), (2, 0), (0, 0)], "SU3": [((1, 0, 0),), ((2, 1, 0),), ((1, 1, 0),)], "SU2_": [((1, 0),), ((2, 0),), ((0, 0),)], "SU2Real": [(0.5,), (1.0,), (0.0,)]}[f]
    F = getattr(L, f)
    s1, s2 = F(*c.choice("s1", small)), F(*c.choice("s2", small))
    a = c.int("a", 0)
    if first == "SU2":
        x1, x2 = L.SU2(a), L.SU2(n)
    elif first == "SO3":
        x1, x2 = L.SO3(a), L.SO3(n)
    elif first == "O3":
        x1, x2 = L.O3(a, -1), L.O3(n, c.choice("p", [1, -1]))
    elif first == "Z2":
        x1, x2 = L.Z2(-1), L.Z2(c.choice("p", [1, -1]))
    else:
        x1, x2 = L.SL2C(n, a), L.SL2C(1, n)
    ka = {"SU2": lambda r: (r.j,), "SO3": lambda r: (r.l,), "O3": lambda r: (r.l, r.p), "Z2": lambda r: (r.p,), "SL2C": lambda r: (r.l, r.k)}[first]
    ks = {"SL2C": lambda r: (r.l, r.k), "SO13": lambda r: (r.l, r.k), "SU3": lambda r: tuple(r.S), "SU2_": lambda r: tuple(r.S), "SU2Real": lambda r: (2 * r.j,)}[f]
    xs, ss = [ka(r) for r in x1 * x2], [ks(r) for r in s1 * s2]
    for r1, r2, keys, want in (
        (lie.group_product(x1, s1), lie.group_product(x2, s2), lambda r: ka(r.rep1) + ks(r.rep2), [x + s for x in xs for s in ss]),
        (lie.group_product(s1, x1), lie.group_product(s2, x2), lambda r: ks(r.rep1) + ka(r.rep2), [s + x for x in xs for s in ss]),
        (lie.group_product(x1, s1, L.Z2(-1)), lie.group_product(x2, s2, L.Z2(-1)), lambda r: ka(r.rep1.rep1) + ks(r.rep1.rep2) + (r.rep2.p,), [x + s + (1,) for x in xs for s in ss]),
    ):
        got = list(r1 * r2)
        c.true(len(got) == len(want), "as many labels as pairs")
        c.true(c.And(*[c.Or(*[c.And(*[u == v for u, v in zip(keys(g), w)]) for g in got]) for w in want]), "every pair is listed")
