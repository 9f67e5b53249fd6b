"""Reduced representations act as Q (direct sum of m_i copies of irrep i) Q^-1."""
from sx.h import harness
from checks.common import sym_algebra, sym_rep, same_rep, other_algebras, PATTERNS, near_algebras
from checks.p12 import irreps, symQ
from checks.p14 import general


def blocks(c, mats):
    """block-diagonal matrix by its entrywise definition"""
    np = c.np
    d = sum(m.shape[0] for m in mats)
    out = np.zeros((d, d), dtype=complex)
    s = 0
    for m in mats:
        k = m.shape[0]
        for i in range(k):
            for j in range(k):
                out[s + i, s + j] = m[i, j]
        s += k
    return out


def expand(terms):
    """[(m, X, H)] -> lists of block-diagonal matrices"""
    return [x for m, r in terms for x in [r] * m]


def check(c, rep, terms, Q, A, n, nH, label=""):
    """terms: [(mul, (X, H, dim))]"""
    np = c.np
    d = sum(m * r[2] for m, r in terms)
    c.true(rep.dim == d, label + "dimension")
    c.eq(rep.algebra(), A, label + "algebra")
    c.true(rep.lie_dim == n, label + "number of continuous generators")
    X, H = rep.X, rep.H
    c.shape(X, (n, d, d), label + "shape of the continuous generators")
    c.shape(H, (nH, d, d), label + "shape of the discrete generators")
    for which, got, cnt in ((0, X, n), (1, H, nH)):
        for i in range(cnt):
            b = blocks(c, [r[which][i] for r in expand(terms)])
            if Q is None:
                c.eq(got[i], b, label + ("continuous", "discrete")[which] + " generators")
            else:
                c.eq(got[i] @ Q, Q @ b, label + ("continuous", "discrete")[which] + " generators")


def wrap(c, form, m, r):
    if form == 0:
        return r if m == 1 else (m, r)
    return (m, r) if form == 1 else c.lie.MulIrrep(m, r)


def shp(t):
    """(n, nH, dims, Q kind): free irreps of the given dimensions"""
    q = [(1, 1, (1, 2), "none"), (2, 1, (2, 1), "real"), (0, 2, (1, 1, 1), "real"), (2, 0, (2,), "complex"), (3, 1, (1, 1), "complex"), (0, 1, (2, 1), "none"), (1, 0, (1, 2), "real"), (0, 0, (2,), "real"), (1, 1, (1, 1, 1), "none")]
    th = q + [(2, 2, (2, 2), "real"), (1, 1, (3, 1), "real"), (3, 2, (2, 1, 1), "none"), (1, 2, (1, 2, 1), "complex")]
    return [dict(zip(("n", "nH", "dims", "qk"), s)) for s in (q if t == "quick" else th)][::-1]


@harness(lambda t: [dict(s, form=f) for s in shp(t) for f in (0, 1, 2)], "1..3 terms with multiplicities 0..3 / 0..2 of arbitrary matrices of dimension <= 2 / 3, given as bare representations, pairs or multiples; Q free (general 2x2, P L U above)", limit=250, max_paths=80)
def formula(c, n, nH, dims, qk, form):
    lie = c.lie
    A = sym_algebra(c, n)
    gens = [sym_rep(c, f"r{i}", A.copy(), d, nH, "complex" if i == 0 else "real") for i, d in enumerate(dims)]
    muls = [c.pick(f"m{i}", 0, 3 if len(dims) == 1 else 2 if len(dims) == 2 else 1) for i in range(len(dims))]
    d = sum(m * k for m, k in zip(muls, dims))
    if qk == "none":
        Q = None
    elif d == 0:
        Q = c.np.zeros((0, 0))
    elif d == 2 and qk == "real":
        Q = general(c, "q", 2, "real")
    else:
        Q = symQ(c, "q", d, qk, d // 2)
    rep = lie.ReducedRep.from_irreps([wrap(c, form, m, g) for m, g in zip(muls, gens)], Q)
    c.true(len(rep.irreps) == len(dims) and all(isinstance(x, lie.MulIrrep) and x.mul == m for x, m in zip(rep.irreps, muls)), "terms kept in order")
    check(c, rep, [(m, (g.X, g.H, g.dim)) for m, g in zip(muls, gens)], Q, A, n, nH)


@harness(lambda t: [{"n": n, "nH": h, "d": d, "kind": k} for n, h, d, k in ((0, 1, 2, "real"), (1, 0, 2, "complex"), (2, 2, 2, "real"), (3, 1, 1, "complex"), (0, 0, 1, "real"), (1, 1, 3, "real"))], "multiples 0..4 of arbitrary matrices of dimension <= 3")
def multiple(c, n, nH, d, kind):
    A = sym_algebra(c, n)
    g = sym_rep(c, "a", A, d, nH, kind)
    m = c.pick("m", 0, 4)
    r = c.lie.MulIrrep(m, g)
    check(c, r, [(m, (g.X, g.H, d))], None, A, n, nH)


@harness(lambda t: [{"fam": f, "qk": q} for f in ("su2", "so3", "o3", "z2", "su2real", "sl2c", "sun2", "su3", "prod", "prod3") for q in ("none", "real")], "sums of two library irreps with multiplicities 0..2, Q = P L U with free entries", limit=200)
def library(c, fam, qk):
    lie = c.lie
    rs = irreps(c, fam)
    a, b = rs[-1], rs[0]
    m = c.pick("m", 0, 2 if a.dim < 4 else 1)
    k = c.pick("k", 0, 2)
    form = c.pick("form", 0, 2)
    d = m * a.dim + k * b.dim
    Q = None if qk == "none" or d == 0 else symQ(c, "q", d, qk, d // 2)
    rep = lie.ReducedRep.from_irreps([wrap(c, form, m, a), wrap(c, form, k, b)], Q)
    check(c, rep, [(m, (a.X, a.H, a.dim)), (k, (b.X, b.H, b.dim))], Q, a.A, a.A.shape[0], a.H.shape[0])


@harness(lambda t: [{"n": n} for n in (2, 3, 4)], "terms that are S_n representations or multiples of them", limit=100)
def finite(c, n):
    lie = c.lie
    f = c.mod("lie_nn.finite")
    rs = [f.Sn_standard(n), f.Sn_trivial(n), f.Sn_natural(n)]
    ms = [c.pick(f"m{i}", 0, 2) for i in range(2)] + [1]
    d = sum(m * r.dim for m, r in zip(ms, rs))
    Q = symQ(c, "q", d, "real", 1)
    rep = lie.ReducedRep.from_irreps([lie.MulIrrep(ms[0], rs[0]), (ms[1], rs[1]), rs[2]], Q)
    check(c, rep, [(m, (r.X, r.H, r.dim)) for m, r in zip(ms, rs)], Q, rs[0].A, 0, rs[0].H.shape[0])


@harness(lambda t: [{"text": s, "fam": f, "terms": ts} for s, f, ts in
                    [("2x1 + 0", "SU2", [(2, (1,)), (1, (0,))]), ("1e + 2x0o+1o", "O3", [(1, (1, 1)), (2, (0, -1)), (1, (1, -1))]), ("(1,0)+ 3x(0,0)", "SL2C", [(1, (1, 0)), (3, (0, 0))]), ("0x1+2x0", "SO3", [(0, (1,)), (2, (0,))])]],
         "text forms with a free change of basis")
def from_text(c, text, fam, terms):
    lie = c.lie
    cls = getattr(c.mod("lie_nn.irreps"), fam)
    rs = [(m, cls(*a)) for m, a in terms]
    d = sum(m * r.dim for m, r in rs)
    Q = symQ(c, "q", d, "real", 1)
    rep = lie.ReducedRep.from_string(text, cls, Q)
    check(c, rep, [(m, (r.X, r.H, r.dim)) for m, r in rs], Q, rs[0][1].A, rs[0][1].A.shape[0], rs[0][1].H.shape[0])


@harness(lambda t: [{"n1": a, "n2": b} for a in range(4) for b in range(4) if a != b], "zero structure constants of different sizes 0..3")
def other_dimension(c, n1, n2):
    np, lie = c.np, c.lie
    r1, r2 = sym_rep(c, "a", np.zeros((n1, n1, n1)), 2, 1), sym_rep(c, "b", np.zeros((n2, n2, n2)), 1, 1)
    form = c.pick("form", 0, 2)
    c.raises("algebras of different dimension refused", lambda: lie.ReducedRep.from_irreps([wrap(c, form, 2, r1), wrap(c, form, 1, r2)]))


@harness(lambda t: [{"n": n, "pos": p, "i": i, "j": j, "k": k} for n, p in ((1, 1), (2, 1), (2, 2), (3, 2)) for i in range(n) for j in range(n) for k in range(n)][:: 1 if t == "thorough" else 3],
         "three terms one of which differs in one structure constant by at least 1/100 (entries <= 10)")
def other_constants(c, n, pos, i, j, k):
    np, lie = c.np, c.lie
    A = np.zeros((n, n, n))
    for q in np.ndindex(n, n, n):
        x = c.real("A_%d_%d_%d" % q)
        c.assume(c.And(x <= 10, x >= -10))
        A[q] = x
    B = A.copy()
    y = c.real("y")
    c.assume(c.Or(y - A[i, j, k] >= c.q(1, 100), A[i, j, k] - y >= c.q(1, 100)))
    c.assume(c.And(y <= 10, y >= -10))
    B[i, j, k] = y
    m = c.pick("m", 0, 1)
    where = c.choice("where", [(0,), (pos,)])
    reps = [sym_rep(c, f"r{p}", B if p == pos else A, 1, 1) for p in range(3)]
    c.raises("terms of different algebras refused", lambda: lie.ReducedRep.from_irreps([(m if p in where else 1, r) for p, r in enumerate(reps)]))


@harness(None, "Q of any shape up to 4x4 for a representation of dimension 0..3 (two terms)")
def wrong_shape(c):
    np, lie = c.np, c.lie
    m1, m2 = c.pick("m1", 0, 1), c.pick("m2", 0, 2)
    s1, s2 = c.pick("s1", 0, 4), c.pick("s2", 0, 4)
    Q = c.arr("q", (s1, s2))
    A = np.zeros((1, 1, 1))
    terms = [(m1, sym_rep(c, "a", A, 1, 0)), (m2, sym_rep(c, "b", A, 1, 1))]
    d = m1 + m2
    if (s1, s2) == (d, d):
        r = lie.ReducedRep.from_irreps(terms, Q)
        c.eq(r.Q, Q, "change of basis kept")
    else:
        c.raises("Q of the wrong shape refused", lambda: lie.ReducedRep.from_irreps(terms, Q))


@harness(None, "any negative multiplicity")
def negative(c):
    np, lie = c.np, c.lie
    m = c.int("m", None, -1)
    A = np.zeros((1, 1, 1))
    r = sym_rep(c, "a", A, 1, 0)
    c.raises("negative multiplicity refused", lambda: lie.ReducedRep.from_irreps([(1, r), (m, r)]))
    c.raises("negative multiplicity refused", lambda: lie.ReducedRep.from_irreps([lie.MulIrrep(m, r)]))


@harness(lambda t: [{"n": n, "pattern": p} for n in (2, 3) for p in PATTERNS], "structure constants of 2 or 3 generators (entries <= 10) that differ by at least 1/100 in the given pattern: two opposite changes, one value moved to another entry, sign, order of the indices, names of the generators")
def other_pattern(c, n, pattern):
    lie = c.lie
    A, B = other_algebras(c, n, pattern)
    r1, r2 = sym_rep(c, "a", A, 1, 0), sym_rep(c, "b", B, 1, 0)
    c.raises("terms of different algebras refused", lambda: lie.ReducedRep.from_irreps([(2, r1), r1, (1, r2)]))
    c.raises("terms of different algebras refused", lambda: lie.ReducedRep.from_irreps([r2, (1, r1)]))


@harness(lambda t: [{"n": n, "nH": h, "dims": ds, "muls": ms, "qk": q} for n, h, ds, ms, q in
                    [(1, 1, (2, 1, 2, 1, 1, 2), (1, 3, 0, 2, 4, 1), "none"), (5, 4, (1, 2, 1), (2, 3, 5), "none"), (1, 0, (1, 2, 3, 1), (3, 1, 1, 2), "real"), (0, 5, (1, 1), (7, 6), "real"), (2, 0, (1,), (13,), "none"), (1, 1, (5, 4), (1, 2), "real")]],
         "longer sums (up to 6 terms, multiplicities up to 13, dimension up to 17), more generators (5 continuous, 5 discrete), terms that come again later", limit=200)
def wide(c, n, nH, dims, muls, qk):
    lie, np = c.lie, c.np
    A = sym_algebra(c, n)
    gens = {}
    for i, d in enumerate(dims):
        if d not in gens:
            gens[d] = sym_rep(c, f"r{d}", A.copy(), d, nH, "real")
    form = c.pick("form", 0, 2)
    d = sum(m * k for m, k in zip(muls, dims))
    Q = None
    if qk == "real":
        Q = np.eye(d)
        Q[d - 1, 0] = c.real("q0")
        Q[0, d // 2] = c.real("q1")
        Q = np.concatenate([Q[d // 2:], Q[:d // 2]], axis=0)
    ts = [(m, gens[k]) for m, k in zip(muls, dims)]
    rep = lie.ReducedRep.from_irreps([wrap(c, form, m, g) for m, g in ts], Q)
    c.true(len(rep.irreps) == len(dims) and all(x.mul == m for x, m in zip(rep.irreps, muls)), "terms kept in order")
    check(c, rep, [(m, (g.X, g.H, g.dim)) for m, g in ts], Q, A, n, nH)


@harness(lambda t: [{"k": k} for k in (3, 4)], "so(3) constants against the same with one entry changed by 1 to 2 times 10^-k")
def near_algebra(c, k):
    np, lie = c.np, c.lie
    A, B = near_algebras(c, k)
    pos = c.pick("pos", 1, 2)
    reps = [sym_rep(c, f"r{p}", B if p == pos else A, 1, 1) for p in range(3)]
    c.raises("terms of different algebras refused", lambda: lie.ReducedRep.from_irreps(reps))
