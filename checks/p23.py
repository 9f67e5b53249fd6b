"""Finite groups: S_n representations and regular representations."""
import itertools
from sx.h import harness


def compose(p, q):
    return tuple(p[q[i]] for i in range(len(p)))


def parse(gens):
    """all products of permutations, as a table (identity first)"""
    n = len(gens[0])
    el = [tuple(range(n))]
    for p in el:
        for g in gens:
            q = compose(g, p)
            if q not in el:
                el.append(q)
    return [[el.index(compose(a, b)) for b in el] for a in el]


def cyc(n, *cs):
    p = list(range(n))
    for cy in cs:
        for i, x in enumerate(cy):
            p[x] = cy[(i + 1) % len(cy)]
    return tuple(p)


GROUPS = {
    "Z1": [(0,)], "Z2": [cyc(2, (0, 1))], "Z3": [cyc(3, (0, 1, 2))], "Z4": [cyc(4, (0, 1, 2, 3))],
    "V4": [cyc(4, (0, 1)), cyc(4, (2, 3))], "Z5": [cyc(5, (0, 1, 2, 3, 4))], "Z6": [cyc(5, (0, 1), (2, 3, 4))],
    "S3": [cyc(3, (0, 1)), cyc(3, (0, 1, 2))], "Z7": [cyc(7, tuple(range(7)))], "Z8": [cyc(8, tuple(range(8)))],
    "Z4xZ2": [cyc(6, (0, 1, 2, 3)), cyc(6, (4, 5))], "Z2^3": [cyc(6, (0, 1)), cyc(6, (2, 3)), cyc(6, (4, 5))],
    "D4": [cyc(4, (0, 1, 2, 3)), cyc(4, (0, 2))], "Q8": [cyc(8, (0, 1, 2, 3), (4, 5, 6, 7)), cyc(8, (0, 4, 2, 6), (1, 7, 3, 5))],
    "A4": [cyc(4, (0, 1, 2)), cyc(4, (0, 1), (2, 3))], "D5": [cyc(5, (0, 1, 2, 3, 4)), cyc(5, (1, 4), (2, 3))],
}


def labels(c, n, full):
    """a relabelling of n points: any permutation (small n) or any transposition of two points"""
    if full:
        rest, out = list(range(n)), []
        for i in range(n):
            out.append(rest.pop(c.pick(f"l{i}", 0, len(rest) - 1)))
        return out
    i = c.pick("i", 0, n - 1)
    j = c.pick("j", i, n - 1)
    out = list(range(n))
    out[i], out[j] = out[j], out[i]
    return out


@harness(lambda t: [{"g": g, "full": len(parse(GROUPS[g])) <= (4 if t == "quick" else 5)} for g in GROUPS if len(parse(GROUPS[g])) <= (8 if t == "quick" else 12)][::-1],
         "every group of order <= 8 (and A4, D5 in thorough), every labelling of the elements for orders <= 4 / 5, every exchange of two labels above; every vector", limit=250, max_replays=6, max_paths=2000)
def regular(c, g, full):
    np = c.np
    T = parse(GROUPS[g])
    n = len(T)
    s = labels(c, n, full)
    table = np.zeros((n, n), dtype=int)
    for a in range(n):
        for b in range(n):
            table[s[a], s[b]] = s[T[a][b]]
    keep = c.snapshot(table)
    D = c.util.regular_representation(table)
    c.shape(D, (n, n, n), "shape")
    c.eq(D[s[0]], np.eye(n), "the identity is represented by the identity matrix")
    v = c.arr("v", (n,))
    for a in range(n):
        out = D[a] @ v
        for b in range(n):
            c.true(out[c.num(table[a, b])] == v[b], "left multiplication of basis vectors")
    for a in range(n):
        for b in range(n):
            c.eq(D[a] @ D[b], D[c.num(table[a, b])], "multiplies as the table does")
    c.eq(table, keep, "table not modified")


@harness(lambda t: [{"n": n} for n in ((2, 3) if t == "quick" else (2, 3))], "every map (a, b) -> table[a, b] of 2 elements, every table of 3 elements with latin rows", limit=200, max_replays=6, max_paths=3000)
def magma(c, n):
    """the defining equation D(g) e_h = e_gh does not need associativity"""
    np = c.np
    table = np.zeros((n, n), dtype=int)
    for a in range(n):
        used = []
        for b in range(n):
            x = c.pick(f"t{a}{b}", 0, n - 1)
            if n > 2:
                c.assume(x not in used)
            used.append(x)
            table[a, b] = x
    D = c.util.regular_representation(table)
    I = np.eye(n)
    for a in range(n):
        for b in range(n):
            c.eq(D[a] @ I[b], I[c.num(table[a, b])], "D(g) e_h = e_gh")


def power(np, h, k):
    r = np.eye(h.shape[0])
    for _ in range(k):
        r = r @ h
    return r


def presentation(c, np, H, n, label):
    """relations of S_n in the transposition t = (0 1) and the cycle s: i -> i + 1 (n >= 3)"""
    d = H.shape[1]
    I = np.eye(d)
    t = H[0]
    c.eq(t @ t, I, label + "t^2 = 1")
    if n < 3:
        return
    s = H[1]
    si = power(np, s, n - 1)
    c.eq(si @ s, I, label + "s^n = 1")
    c.eq(power(np, s @ t, n - 1), I, label + "(s t)^(n-1) = 1")
    u = si @ t @ s
    c.eq(power(np, t @ u, 3), I, label + "(t s^-1 t s)^3 = 1")
    for j in range(2, n - 1):
        sj, sij = power(np, s, j), power(np, si, j)
        w = t @ sij @ t @ sj
        c.eq(w @ w, I, label + "distant transpositions commute")


N = lambda q, th: (lambda t: [{"n": n} for n in range(1, (q if t == "quick" else th) + 1)][::-1])


@harness(N(9, 16), "n <= 9 / 16, every vector", limit=200)
def natural(c, n):
    np = c.np
    r = c.mod("lie_nn.finite").Sn_natural(n)
    X, H, A = r.X, r.H, r.A
    nH = 0 if n == 1 else 1 if n == 2 else 2
    c.true(r.dim == n, "dimension")
    c.shape(X, (0, n, n), "no continuous generator")
    c.shape(A, (0, 0, 0), "empty algebra")
    c.shape(H, (nH, n, n), "discrete generators")
    if n == 1:
        return
    v = c.arr("v", (n,))
    out = H[0] @ v
    for i in range(n):
        c.true(out[{0: 1, 1: 0}.get(i, i)] == v[i], "transposition permutes the coordinates")
    if n > 2:
        out = H[1] @ v
        for i in range(n):
            c.true(out[(i + 1) % n] == v[i], "cycle moves coordinate i to i + 1")
    presentation(c, np, H, n, "natural: ")


@harness(N(9, 16), "n <= 9 / 16, every vector", limit=200)
def standard(c, n):
    np = c.np
    fin = c.mod("lie_nn.finite")
    if n == 1:
        c.raises("there is no standard representation of S_1", lambda: fin.Sn_standard(1))
        return
    r = fin.Sn_standard(n)
    X, H, A = r.X, r.H, r.A
    d = n - 1
    c.true(r.dim == d, "dimension")
    c.shape(X, (0, d, d), "no continuous generator")
    c.shape(A, (0, 0, 0), "empty algebra")
    nat = fin.Sn_natural(n).H
    c.shape(H, (len(nat), d, d), "discrete generators")
    presentation(c, np, H, n, "standard: ")
    v = c.arr("v", (d,))
    B = np.zeros((n, d))
    for i in range(d):
        B[0, i], B[i + 1, i] = -1.0, 1.0
    for k in range(len(nat)):
        c.eq(B @ (H[k] @ v), nat[k] @ (B @ v), "restriction of the natural representation in the basis e_i - e_0")


@harness(N(9, 16), "n <= 9 / 16", limit=100)
def trivial(c, n):
    np = c.np
    fin = c.mod("lie_nn.finite")
    r = fin.Sn_trivial(n)
    nat = fin.Sn_natural(n)
    c.shape(r.X, (0, 1, 1), "no continuous generator")
    c.shape(r.A, (0, 0, 0), "empty algebra")
    c.shape(r.H, (len(nat.H), 1, 1), "as many discrete generators as the natural representation")
    c.eq(r.H, np.ones((len(nat.H), 1, 1)), "all ones")
    c.true(r.dim == 1, "dimension")


@harness(lambda t: [{"n": n, "L": L} for n, L in (((3, 3), (4, 3)) if t == "quick" else ((3, 5), (4, 5), (5, 4)))], "all words of the stated length in the generators", limit=200, max_replays=10, max_paths=3000)
def words(c, n, L):
    """exp_map of words: the matrix of a word is the permutation matrix of the composed permutation; the standard representation is its restriction"""
    np = c.np
    fin = c.mod("lie_nn.finite")
    nat, std = fin.Sn_natural(n), fin.Sn_standard(n)
    g = [(1, 0) + tuple(range(2, n)), tuple((i + 1) % n for i in range(n))]
    p = tuple(range(n))
    M, S = np.eye(n), np.eye(n - 1)
    for i in range(L):
        a, k = c.pick(f"a{i}", 0, 1), c.pick(f"k{i}", 0, 2)
        e = [0, 0]
        e[a] = k
        M = M @ nat.exp_map(np.zeros(0), np.array(e))
        S = S @ std.exp_map(np.zeros(0), np.array(e))
        for _ in range(k):
            p = compose(p, g[a])
    v = c.arr("v", (n,))
    out = M @ v
    for i in range(n):
        c.true(out[p[i]] == v[i], "word acts as the composed permutation")
    B = np.zeros((n, n - 1))
    for i in range(n - 1):
        B[0, i], B[i + 1, i] = -1.0, 1.0
    c.eq(B @ S, M @ B, "standard representation of the word")


@harness(lambda t: [{"n": n} for n in ((2, 3, 4) if t == "quick" else (2, 3, 4, 5, 6))], "natural, standard, trivial and sign-like products for n <= 4 / 6", limit=200)
def operations(c, n):
    """tensor products, direct sums and Clebsch-Gordan coefficients of the S_n representations stay representations of S_n"""
    lie, np = c.lie, c.np
    fin = c.mod("lie_nn.finite")
    nat, std, tri = fin.Sn_natural(n), fin.Sn_standard(n), fin.Sn_trivial(n)
    for a, b in ((nat, std), (std, std), (std, tri), (tri, nat)):
        t = lie.tensor_product(a, b)
        for k in range(len(nat.H)):
            c.eq(t.H[k], np.kron(a.H[k], b.H[k]), "tensor product")
        presentation(c, np, t.H, n, "product: ")
    s = lie.direct_sum(tri, std)
    presentation(c, np, s.H, n, "sum: ")
    B = lie.infer_change_of_basis(nat, s)
    c.true(B.shape[0] == 2, "natural = trivial + standard")
