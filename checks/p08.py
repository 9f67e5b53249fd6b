"""SU(N) products decompose by the Littlewood-Richardson rule."""
from sx.h import harness
from checks.p03 import weyl_dim, pick_weight
from checks.p06 import lr_product, lab, weights


def sym_dim(c, S):
    """numerator of the Weyl formula (a polynomial) and its constant denominator"""
    num, den = 1, 1
    for i in range(len(S)):
        for j in range(i + 1, len(S)):
            num = num * (S[i] - S[j] + (j - i))
            den = den * (j - i)
    return num, den


def small(tier):
    q = [(2, 12, 13), (3, 3, 15), (4, 1, 6), (5, 1, 5)]
    th = [(2, 16, 17), (3, 4, 30), (4, 2, 20), (5, 1, 10)]
    out = []
    for N, top, cap in (q if tier == "quick" else th):
        for a in lab(N, top):
            d = weyl_dim(a)
            if d <= cap:
                out.append((d * N ** 3, {"a": list(a)}))
    return [x for _, x in sorted(out, key=lambda y: -y[0])]


@harness(small, "first weight: dimension <= 13/17 (SU(2)), 15/30 (SU(3)), 6/20 (SU(4)), 5/10 (SU(5)); second weight: any dominant weight (unbounded integers)")
def walk(c, a):
    """the pattern walk against an unbounded second weight, multiplicities included"""
    mul_rep = c.mod("lie_nn._src.irreps.sun").mul_rep
    a = tuple(a)
    n = len(a)
    S = [0]
    for i in range(n - 1):
        S.append(S[-1] + c.int(f"dynkin{i}", 0))
    S = tuple(S[::-1])
    got = list(mul_rep(a, S))
    num, den = 0, 1
    for g in got:
        c.true(len(g) == n, "same N")
        c.true(c.And(*[g[i] >= g[i + 1] for i in range(n - 1)]), "dominant")
        c.true(g[-1] == 0, "normal form")
        m, den = sym_dim(c, g)
        num = num + m
    m, den2 = sym_dim(c, S)
    c.true(num == m * weyl_dim(a), "dimensions add up with multiplicity")
    c.true(c.Or(*[c.And(*[g[i] == S[i] + a[i] for i in range(n)]) for g in got]), "sum of the highest weights listed")
    # Brauer: every listed weight is S + a weight of the first factor
    ws = sorted(set(weights(a)))
    for g in got:
        c.true(c.Or(*[c.And(*[g[i] == S[i] + w[i] - S[n - 1] - w[n - 1] for i in range(n)]) for w in ws]), "second weight plus a weight of the first")


def firsts(tier):
    out = []
    for N, top, cap in ([(1, 0, 4), (2, 8, 81), (3, 3, 150), (4, 1, 40), (5, 1, 60)] if tier == "quick" else [(1, 0, 4), (2, 12, 200), (3, 4, 600), (4, 2, 400), (5, 1, 150)]):
        for a in (lab(N, top) if N > 1 else [(0,)]):
            if weyl_dim(a) <= cap:
                out.append({"a": list(a), "top": top, "cap": cap})
    return out[::-1]


@harness(firsts, "SU(2) entries <= 8/12, SU(3) <= 3/4, SU(4) <= 1/2, SU(5) <= 1, d1 d2 <= 150/600")
def product(c, a, top, cap):
    """the product of two irreps against Brauer's formula"""
    SUN = c.mod("lie_nn._src.irreps.sun").SUN
    a = tuple(a)
    b = c.choice("b", [b for b in (lab(len(a), top) if len(a) > 1 else [(0,)]) if weyl_dim(a) * weyl_dim(b) <= cap])
    r1, r2 = SUN(a), SUN(b)
    got = list(r1 * r2)
    want = lr_product(a, b)
    c.true([g.S for g in got] == sorted(want), "the irreps of the product, in increasing order, each once")
    c.true(all(isinstance(g, SUN) for g in got), "irreps of the same family")
    c.true([g.S for g in r2 * r1] == [g.S for g in got], "order of the factors")
    c.true(sum(want[g.S] * g.dim for g in got) == r1.dim * r2.dim, "dimensions add up with multiplicity")
    one = SUN((0,) * len(a))
    c.true([g.S for g in r1 * one] == [a] and [g.S for g in one * r1] == [a], "trivial irrep neutral")


def larger(a, top, first):
    return [b for b in lab(len(a), top) if b[0] == first and weyl_dim(b) > weyl_dim(a)]


def thin(tier):
    out = []
    for N, top, cap in ([(3, 7, 15), (4, 4, 6), (5, 2, 5)] if tier == "quick" else [(3, 9, 27), (4, 5, 20), (5, 3, 10)]):
        for a in lab(N, 4):
            if 1 < weyl_dim(a) <= cap:
                out += [{"a": list(a), "top": top, "first": f} for f in range(2, top + 1) if larger(a, top, f)]
    return out[::-1]


@harness(thin, "a small irrep (dimension <= 15/27 for SU(3), 6/20 for SU(4), 5/10 for SU(5)) times any irrep with entries <= 7/9, 4/5, 2/3")
def uneven(c, a, top, first):
    """small times large, where the listed irreps differ a lot in size"""
    SUN = c.mod("lie_nn._src.irreps.sun").SUN
    a = tuple(a)
    b = c.choice("b", larger(a, top, first))
    got = list(SUN(a) * SUN(b))
    want = lr_product(a, b)
    c.true([g.S for g in got] == sorted(want), "the irreps of the product, in increasing order, each once")
    c.true(all(x < y for x, y in zip(got, got[1:])), "in increasing order")
    c.true(sum(want[g.S] * g.dim for g in got) == weyl_dim(a) * weyl_dim(b), "dimensions add up with multiplicity")


@harness(lambda t: [{"N": n} for n in ((1, 2, 3, 4, 5) if t == "quick" else (6, 5, 4, 3, 2, 1))], "N <= 5 / 6, any dominant weight (unbounded integers)")
def dim(c, N):
    """the declared dimension is the Weyl dimension"""
    SUN = c.mod("lie_nn._src.irreps.sun").SUN
    S = [0]
    for i in range(N - 1):
        S.append(S[-1] + c.int(f"dynkin{i}", 0))
    S = tuple(S[::-1])
    num, den = sym_dim(c, S)
    c.true(SUN(S).dim * den == num, "Weyl dimension")
