"""Clebsch-Gordan coefficients of SU(N) are complete intertwiners."""
from sx.h import harness
from checks.common import check_intertwiner, stack_cg
from checks.p03 import weyl_dim


def lr_product(S1, S2):
    """multiplicities of the product, from the weights of the first factor (Brauer / Klimyk)"""
    n = len(S1)
    out = {}
    rho = tuple(range(n - 1, -1, -1))
    for w in weights(S1):
        v = [S2[i] + w[i] + rho[i] for i in range(n)]
        if len(set(v)) < n:
            continue
        p = sorted(range(n), key=lambda i: -v[i])
        sg = 1
        for i in range(n):
            for j in range(i + 1, n):
                if p[i] > p[j]:
                    sg = -sg
        v = [v[i] for i in p]
        t = tuple(v[i] - rho[i] for i in range(n))
        t = tuple(x - t[-1] for x in t)
        out[t] = out.get(t, 0) + sg
    return {k: m for k, m in out.items() if m}


def weights(S):
    """weights (contents) of the semistandard tableaux of shape S, with repetition"""
    n = len(S)
    if n == 1:
        return [(S[0],)]
    out = []

    def rows(i, acc):
        if i == n - 1:
            last = sum(S) - sum(acc)
            out.extend(w + (last,) for w in weights(tuple(acc)))
            return
        for x in range(S[i + 1], S[i] + 1):
            rows(i + 1, acc + [x])
    rows(0, [])
    return out


def lab(N, top):
    if N == 1:
        return [()]
    out = []

    def rec(pre):
        if len(pre) == N - 1:
            out.append(tuple(pre) + (0,))
            return
        for x in range((pre[-1] if pre else top) + 1):
            rec(pre + [x])
    rec([])
    return out


def tasks(tier):
    out = []
    for N, top, cap in ([(2, 3, 16), (3, 2, 24), (4, 1, 24), (5, 1, 25)] if tier == "quick" else [(2, 5, 36), (3, 2, 64), (4, 2, 60)]):
        for a in lab(N, top):
            for b in lab(N, top):
                d = weyl_dim(a) * weyl_dim(b)
                if d <= cap:
                    out.append((d, {"a": list(a), "b": list(b)}))
    return [x for _, x in sorted(out, key=lambda y: -y[0])]


@harness(tasks, "SU(2) entries <= 3/5, SU(3) <= 2, SU(4) <= 1/2, SU(5) <= 1, d1 d2 <= 24 (quick) / 64 (thorough); third irrep: every listed one and every label with entries <= sum of the tops",
         real_limit=200)
def cg(c, a, b):
    np = c.np
    a, b = tuple(a), tuple(b)
    SUN = c.mod("lie_nn._src.irreps.sun").SUN
    r1, r2 = SUN(a), SUN(b)
    want = lr_product(a, b)
    n = r1.dim * r2.dim
    X1, X2 = r1.X, r2.X
    cgs = []
    for s in sorted(want):
        r3 = SUN(s)
        g = SUN.clebsch_gordan(r1, r2, r3)
        c.shape(g, (want[s], r1.dim, r2.dim, r3.dim), "as many paths as the multiplicity")
        c.eq(np.imag(g), np.zeros(g.shape), "real coefficients")
        check_intertwiner(c, g, X1, X2, r3.X)
        cgs.append(g)
    M = stack_cg(c, cgs)
    c.shape(M, (n, n), "stacked coefficients square")
    c.eq(M @ M.T, np.eye(n), "stacked coefficients orthogonal")


def small(tier):
    return [t for t in tasks(tier) if weyl_dim(t["a"]) * weyl_dim(t["b"]) <= (12 if tier == "quick" else 18)]


@harness(small, "d1 d2 <= 12/18; third irrep with entries <= sum of the tops, not listed", real_limit=120)
def absent(c, a, b):
    a, b = tuple(a), tuple(b)
    SUN = c.mod("lie_nn._src.irreps.sun").SUN
    N = len(a)
    top = a[0] + b[0]
    S = []
    for i in range(N - 1):
        S.append(c.pick(f"s{i}", 0, S[-1] if S else top))
    S = tuple(S) + (0,)
    c.assume(weyl_dim(S) <= 30)
    if S in lr_product(a, b):
        return
    g = SUN.clebsch_gordan(SUN(a), SUN(b), SUN(S))
    c.shape(g, (0, weyl_dim(a), weyl_dim(b), weyl_dim(S)), "no path when not in the product")


@harness(lambda t: [x for x in tasks(t) if weyl_dim(x["a"]) * weyl_dim(x["b"]) <= (16 if t == "quick" else 36)], "same pairs, d1 d2 <= 16/36", real_limit=200)
def product(c, a, b):
    """the reduced product acts like the Kronecker sum"""
    np = c.np
    a, b = tuple(a), tuple(b)
    SUN = c.mod("lie_nn._src.irreps.sun").SUN
    lie = c.lie
    r1, r2 = SUN(a), SUN(b)
    t = lie.tensor_product(r1, r2)
    want = lr_product(a, b)
    c.true({m.rep.S: m.mul for m in t.irreps} == want and len(t.irreps) == len(want), "multiplicities of the product")
    X1, X2 = r1.X, r2.X
    X = t.X
    I1, I2 = np.eye(r1.dim), np.eye(r2.dim)
    for l in range(X.shape[0]):
        c.eq(X[l], np.kron(X1[l], I2) + np.kron(I1, X2[l]), "acts as the Kronecker sum")


LARGE = [((7, 0), (5, 0)), ((10, 0), (10, 0)), ((4, 0, 0), (1, 0, 0)), ((3, 1, 0), (1, 1, 0)), ((2, 1, 0), (2, 1, 0)), ((3, 0, 0), (3, 3, 0)), ((2, 1, 0), (3, 1, 0)), ((2, 0, 0, 0), (1, 1, 0, 0))]
LARGE_T = [((5, 0, 0), (5, 5, 0)), ((2, 1, 1, 0), (2, 1, 1, 0)), ((1, 1, 0, 0, 0, 0), (1, 0, 0, 0, 0, 0)), ((20, 0), (15, 0)), ((2, 0, 0, 0, 0), (1, 0, 0, 0, 0)), ((4, 2, 0), (2, 1, 0))] + LARGE


def large_tasks(tier):
    return [{"a": list(a), "b": list(b), "k": list(s)} for a, b in (LARGE if tier == "quick" else LARGE_T) for s in sorted(lr_product(a, b))]


@harness(large_tasks, "single triples with larger weights", limit=140)
def large(c, a, b, k):
    SUN = c.mod("lie_nn._src.irreps.sun").SUN
    a, b, k = tuple(a), tuple(b), tuple(k)
    r1, r2, r3 = SUN(a), SUN(b), SUN(k)
    m = lr_product(a, b)[k]
    g = SUN.clebsch_gordan(r1, r2, r3)
    c.shape(g, (m, r1.dim, r2.dim, r3.dim), "as many paths as the multiplicity")
    c.eq(c.np.imag(g), c.np.zeros(g.shape), "real coefficients")
    check_intertwiner(c, g, r1.X, r2.X, r3.X)
    M = stack_cg(c, [g])
    c.eq(M @ M.T, c.np.eye(M.shape[0]), "coefficients orthonormal")
