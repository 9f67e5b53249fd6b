"""Root systems, fundamental weights, Weyl dimensions, so(n) generators."""
from sx.h import harness


def U(c):
    return c.mod("lie_nn._src.lie_algebra_utils")


def cartan(t, n):
    """the standard Cartan matrix a_ij = <coroot i, root j>"""
    C = [[2 if i == j else (-1 if abs(i - j) == 1 else 0) for j in range(n)] for i in range(n)]
    if t == "B" and n > 1:
        C[n - 1][n - 2] = -2      # the last root is short: its coroot pairs to -2
    if t == "C" and n > 1:
        C[n - 2][n - 1] = -2      # the last root is long
    if t == "D":
        C[n - 1][n - 2] = C[n - 2][n - 1] = 0
        if n >= 3:
            C[n - 1][n - 3] = C[n - 3][n - 1] = -1
    return C


def positive(C):
    """positive roots in simple-root coordinates, generated by reflections from a Cartan matrix"""
    n = len(C)
    roots = [tuple(int(i == j) for j in range(n)) for i in range(n)]
    for r in roots:
        for i in range(n):
            k = sum(C[i][j] * r[j] for j in range(n))
            s = tuple(x - (k if j == i else 0) for j, x in enumerate(r))
            if min(s) >= 0 and s not in roots:
                roots.append(s)
    return roots


def transpose(C):
    return [list(x) for x in zip(*C)]


def types(q, th):
    def f(tier):
        m = q if tier == "quick" else th
        return [{"t": t, "n": n} for n in range(m, 0, -1) for t in "ABCD" if n <= m and (n >= 2 or t == "A")]
    return f


@harness(types(10, 12), "ranks up to 10 / 12", limit=200)
def roots(c, t, n):
    np = c.np
    S = U(c).structure_algebra(t, n)
    a, P, W = S["SimpleRoots"], S["PositiveRoots"], S["FundamentalWeights"]
    C = cartan(t, n)
    c.true(len(a) == n and len(W) == n, "rank many simple roots and fundamental weights")
    c.eq(S["CartanMatrix"], np.array([[float(x) for x in r] for r in C]), "Cartan matrix")
    for i in range(n):
        for j in range(n):
            c.true(2 * (W[i] @ a[j]) == (a[j] @ a[j]) * int(i == j), "fundamental weights are dual to the coroots")
            c.true(2 * (a[i] @ a[j]) == C[i][j] * (a[i] @ a[i]), "inner products of simple roots")
    ref = positive(C)
    c.true(len(P) == len(ref), "number of positive roots")
    for r in ref:
        v = sum(r[i] * a[i] for i in range(n))
        c.true(c.Or(*[c.And(*[p[k] == v[k] for k in range(len(v))]) for p in P]), "every positive root is listed")
    rho = S["WeylVector"]
    c.eq(rho, sum(W[i] for i in range(n)), "Weyl vector is the sum of the fundamental weights")
    c.true(S["CoxeterNumber"] * n == 2 * len(ref), "Coxeter number")
    if n >= 3 or t in "AC":
        top = max(ref, key=sum)
        c.eq(S["MaximalRoots"], sum(top[i] * a[i] for i in range(n)), "highest root")


@harness(types(3, 5), "every integer vector (unbounded entries), ranks up to 3 / 5", limit=250, oblig_ms=30000)
def membership(c, t, n):
    """a vector of the lattice is listed exactly when it is a root (by length) and a non-negative combination of simple roots"""
    S = U(c).structure_algebra(t, n)
    P = S["PositiveRoots"]
    d = n + 1 if t == "A" else n
    v = [c.int(f"v{i}", -3, 3) for i in range(d)]
    sq = sum(x * x for x in v)
    s = [sum(v[:k + 1]) for k in range(d)]
    if t == "A":
        root = c.And(sq == 2, s[-1] == 0)
        pos = c.And(*[x >= 0 for x in s])
    elif t == "B":
        root = c.Or(sq == 1, sq == 2)
        pos = c.And(*[x >= 0 for x in s])
    elif t == "C":
        root = c.Or(sq == 2, c.And(sq == 4, *[c.Or(x == 0, x == 2, x == -2) for x in v]))
        pos = c.And(*[x >= 0 for x in s])
    else:
        root = sq == 2
        # v = sum m_i a_i with m_1..m_{n-2} partial sums, the last two from (s_{n-2} -+ v_n) / 2
        pos = c.And(*[x >= 0 for x in s[:n - 2]], s[n - 2] - v[n - 1] >= 0, s[n - 2] + v[n - 1] >= 0)
    listed = c.Or(*[c.And(*[p[k] == v[k] for k in range(d)]) for p in P])
    c.true(c.Or(c.Not(listed), c.And(root, pos)), "only positive roots are listed")
    c.true(c.Or(listed, c.Not(c.And(root, pos))), "all positive roots are listed")


def labels(c, n):
    return [c.int(f"a{i}", 0) for i in range(n)]


def closed_dim(c, C, a):
    """product over the positive coroots of sum c_k (a_k + 1) / sum c_k: (numerator, denominator)"""
    num, den = 1, 1
    for r in positive(transpose(C)):
        num = num * sum(x * (y + 1) for x, y in zip(r, a))
        den = den * sum(r)
    return num, den


@harness(types(4, 5), "all dominant weights (Dynkin labels unbounded), ranks up to 4 / 5", limit=200)
def weyl(c, t, n):
    np = c.np
    S = U(c).structure_algebra(t, n)
    W = S["FundamentalWeights"]
    a = labels(c, n)
    if not c.sym:
        c.assume(all(x < 1000 for x in a))
    w = sum(a[i] * W[i] for i in range(n))
    d = U(c).weyl_dim(w, S["PositiveRoots"], S["WeylVector"])
    num, den = closed_dim(c, cartan(t, n), a)
    c.eq(d / (1.0 if c.sym else max(1.0, float(d))), c.q(1) * num / den / (1 if c.sym else max(1.0, float(d))), "dimension of every dominant weight")


@harness(types(5, 7), "fundamental, adjoint and other small weights", limit=100)
def known_dims(c, t, n):
    """textbook dimensions: defining representation, adjoint, trivial"""
    S = U(c).structure_algebra(t, n)
    W, P, rho = S["FundamentalWeights"], S["PositiveRoots"], S["WeylVector"]
    dim = lambda w: U(c).weyl_dim(w, P, rho)
    N = {"A": n + 1, "B": 2 * n + 1, "C": 2 * n, "D": 2 * n}[t]
    if not (t == "B" and n == 1) and not (t == "D" and n < 3) and not (t == "B" and n < 2):
        c.eq(dim(W[0]), c.q(N), "defining representation")
        c.eq(dim(S["MaximalRoots"]), c.q(n + 2 * len(P)), "adjoint representation")
    c.eq(dim(0.0 * rho), c.q(1), "trivial representation")
    if t in "BD" and n >= (2 if t == "B" else 3):
        c.eq(dim(W[n - 1]), c.q(2 ** (n if t == "B" else n - 1)), "spin representation")


@harness(lambda t: [{"n": n} for n in ((2, 3) if t == "quick" else (2, 3, 4))], "all labels (unbounded) of sp(2n), ranks 2 to 3 / 4", limit=200)
def spn_dim(c, n):
    m = c.mod("lie_nn._src.irreps.spn")
    a = labels(c, n)
    r = m.SPN(S=tuple(a))
    num, den = closed_dim(c, cartan("C", n), a)
    if not c.sym:
        c.assume(num < 2 ** 50)
    c.true(r.dim * den == num, "dimension of every irrep of sp(2n)")
    z = c.decide(r.is_scalar())
    c.true(c.And(*[x == 0 for x in a]) if z else c.Or(*[x != 0 for x in a]), "is_scalar")


@harness(lambda t: [{"n": n} for n in (range(3, 9) if t == "quick" else range(3, 13))][::-1], "n <= 8 / 12", limit=200)
def son_adjoint(c, n):
    np = c.np
    r = c.mod("lie_nn._src.irreps.son").SON_adjoint(n)
    X = r.continuous_generators()
    h = n // 2
    Q = np.zeros((n, n))
    for i in range(h):
        Q[i, h + i] = 1.0
        Q[h + i, i] = 1.0
    if n % 2:
        Q[n - 1, n - 1] = 1.0
    v, w = c.arr("v", (n,)), c.arr("w", (n,))
    c.true(X.shape[1:] == (n, n), "shape")
    for x in X:
        c.eq((x @ v) @ Q @ w + v @ Q @ (x @ w), c.q(0), "the quadratic form is preserved")
    c.true(c.rank(np.reshape(X, (X.shape[0], n * n))) == n * (n - 1) // 2, "the generators span so(n)")
    c.true(r.dim == n, "dimension")
    c.shape(r.discrete_generators(), (0, n, n), "no discrete generator")


@harness(lambda t: [{"n": n, "top": k} for n, k in (((2, 6), (3, 3), (4, 1)) if t == "quick" else ((2, 9), (3, 4), (4, 2), (5, 1)))], "all labels up to the bound, each also run in machine arithmetic", limit=200, max_replays=400)
def spn_dim_machine(c, n, top):
    m = c.mod("lie_nn._src.irreps.spn")
    a = [c.pick(f"a{i}", 0, top) for i in range(n)]
    num, den = closed_dim(c, cartan("C", n), a)
    c.true(m.SPN(S=tuple(a)).dim == num // den, "dimension of the irrep of sp(2n)")
    c.true(num % den == 0, "the closed form is an integer")
