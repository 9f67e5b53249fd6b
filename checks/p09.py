"""Irrep labels are totally ordered and enumerated completely."""
from sx.h import harness

FAMS = ["SU2", "SU2Real", "SO3", "O3", "SL2C", "SO13", "Z2", "SU2_", "SU3", "SU4"]


def build(c, L, fam, n):
    """an arbitrary irrep of the family: constructor arguments from free integers"""
    i = lambda s, *b: c.int(f"{s}{n}", *b)
    if fam == "SU2":
        a = i("j", 0)
        return L.SU2(a), (a,)
    if fam == "SU2Real":
        a = c.pick(f"tj{n}", 0, 7)
        return L.SU2Real(a / 2), (a,)
    if fam == "SO3":
        a = i("l", 0)
        return L.SO3(a), (a,)
    if fam == "O3":
        a, p = i("l", 0), c.choice(f"p{n}", [1, -1])
        return L.O3(a, p), (a, p)
    if fam == "SL2C":
        a, b = i("l", 0), i("k", 0)
        return L.SL2C(a, b), (a, b)
    if fam == "SO13":
        a, h = i("l", 0), i("h")
        c.assume(2 * h - a >= 0)
        return L.SO13(a, 2 * h - a), (a, 2 * h - a)
    if fam == "Z2":
        p = c.choice(f"p{n}", [1, -1])
        return L.Z2(p), (p,)
    N = {"SU2_": 2, "SU3": 3, "SU4": 4}[fam]
    S = [0]
    for m in range(N - 1):
        S.append(S[-1] + i(f"d{m}_", 0))
    S = tuple(S[::-1])
    return getattr(L, fam)(S), S


def lt(c, a, b):
    return c.decide(a < b)


@harness(lambda t: [{"fam": f} for f in FAMS], "three arbitrary labels (unbounded integers; SU2Real 2j <= 7)")
def order(c, fam):
    L = c.mod("lie_nn.irreps")
    x, kx = build(c, L, fam, 0)
    y, ky = build(c, L, fam, 1)
    z, kz = build(c, L, fam, 2)
    same = c.decide(c.And(*[u == v for u, v in zip(kx, ky)]))
    xy, yx = lt(c, x, y), lt(c, y, x)
    c.true(c.decide(x == y) == same, "equality is equality of labels")
    c.true(xy + yx + same == 1, "exactly one of <, ==, >")
    if same:
        c.true(hash(x) == hash(y), "equal labels have equal hashes")
    if xy and lt(c, y, z):
        c.true(lt(c, x, z), "transitive")
    c.true(not lt(c, x, x), "irreflexive")


def key(r):
    t = type(r).__name__
    return {"SU2": lambda: (r.j,), "SU2Real": lambda: (round(2 * r.j),), "SO3": lambda: (r.l,), "O3": lambda: (r.l, r.p), "SL2C": lambda: (r.l, r.k),
            "SO13": lambda: (r.l, r.k), "Z2": lambda: (r.p,)}.get(t, lambda: r.S)()


def size(fam, k):
    """number of labels up to this one in any admissible enumeration: an upper bound for how far to read"""
    return {"SU2": lambda: k[0] + 1, "SU2Real": lambda: k[0] + 1, "SO3": lambda: k[0] + 1, "O3": lambda: 2 * (k[0] + 1),
            "SL2C": lambda: (k[0] + k[1] + 1) * (k[0] + k[1] + 2) // 2, "SO13": lambda: (k[0] + k[1] + 1) * (k[0] + k[1] + 2) // 2,
            "Z2": lambda: 2}.get(fam, lambda: (k[0] + 1) ** (len(k) - 1))()


def prefix(c, L, fam, n):
    out = []
    for r in getattr(L, fam).iterator():
        out.append(r)
        if len(out) >= n:
            break
    return out


@harness(lambda t: [{"fam": f, "n": (140 if t == "quick" else 300) if f != "Z2" else 5} for f in FAMS], "first 140 / 300 labels of every family")
def enumeration(c, fam, n):
    L = c.mod("lie_nn.irreps")
    out = prefix(c, L, fam, n)
    if fam == "Z2":
        c.true(len(out) == 2, "two labels")
    else:
        c.true(len(out) == n, "endless")
    t = getattr(L, fam).create_trivial()
    c.true(key(out[0]) == key(t) and type(out[0]) is type(t) is getattr(L, fam), "the first one is the trivial irrep")
    c.true(t.dim == 1, "trivial irrep is one-dimensional")
    i = c.pick("i", 0, len(out) - 2)
    c.true(out[i] < out[i + 1], "strictly increasing")
    c.true(not (out[i + 1] < out[i]), "strictly increasing")
    c.true(key(out[i]) not in [key(x) for x in out[:i]], "no repetition")


@harness(lambda t: [{"fam": f, "b": (10 if t == "quick" else 14) if f != "SU4" else (6 if t == "quick" else 8)} for f in FAMS], "any label with entries <= 10 / 14 (SU4: 6 / 8) is reached")
def reach(c, fam, b):
    L = c.mod("lie_nn.irreps")
    u, v, w = c.pick("u", 0, b), c.pick("v", 0, b), c.pick("w", 0, b if fam == "SU4" else 0)
    if fam in ("SU2", "SU2Real", "SO3", "SU2_"):
        c.assume(v == 0)
    if fam == "Z2":
        c.assume(c.And(u == 0, v <= 1))
    if fam == "O3":
        c.assume(v <= 1)
    if fam == "SO13":
        c.assume((u + v) % 2 == 0)
    if fam == "SU3":
        c.assume(v <= u)
    if fam == "SU4":
        c.assume(c.And(v <= u, w <= v))
    k = {"O3": (u, 1 - 2 * v), "SL2C": (u, v), "SO13": (u, v), "Z2": (1 - 2 * v,), "SU3": (u, v, 0), "SU4": (u, v, w, 0), "SU2_": (u, 0)}.get(fam, (u,))
    c.true(k in [key(r) for r in prefix(c, L, fam, size(fam, k) + 4)], "every valid label is reached")


@harness(lambda t: [{"n": 0}, {"n": 1}], "product labels over SU2 x SO3 and SU2 x Z2 x SO3, unbounded integers")
def product_order(c, n):
    L, lie = c.mod("lie_nn.irreps"), c.lie
    def mk(i):
        a, b = c.int(f"a{i}", 0), c.int(f"b{i}", 0)
        if n == 0:
            return lie.group_product(L.SU2(a), L.SO3(b)), (a, b)
        p = c.choice(f"p{i}", [1, -1])
        return lie.group_product(L.SU2(a), L.Z2(p), L.SO3(b)), (a, p, b)
    (x, kx), (y, ky) = mk(0), mk(1)
    same = c.decide(c.And(*[u == v for u, v in zip(kx, ky)]))
    xy, yx = lt(c, x, y), lt(c, y, x)
    c.true(c.decide(x == y) == same, "equality is equality of labels")
    c.true(xy + yx + same == 1, "exactly one of <, ==, >")
    if n == 0:
        z, kz = mk(2)
        if xy and lt(c, y, z):
            c.true(lt(c, x, z), "transitive")
