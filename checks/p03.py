"""SU(N) irreps realise su(N)."""
from sx.h import harness
from checks.common import check_relations, check_rep_shape, comm


def weyl_dim(S):
    from fractions import Fraction
    d = Fraction(1)
    for i in range(len(S)):
        for j in range(i + 1, len(S)):
            d *= 1 + Fraction(S[i] - S[j], j - i)
    return int(d)


def pick_weight(c, N, top, name="S"):
    S = [top]
    for i in range(1, N - 1):
        S.append(c.pick(f"{name}{i}", 0, S[-1]))
    if N > 1:
        S.append(0)
    return tuple(S)


def tasks(tier):
    q = [(2, t) for t in range(9)] + [(3, t) for t in range(5)] + [(4, 1), (4, 0), (5, 1)]
    th = [(2, t) for t in range(16)] + [(3, t) for t in range(7)] + [(4, t) for t in range(4)] + [(5, 1), (5, 2), (6, 1)]
    return [{"N": n, "top": t} for n, t in sorted(q if tier == "quick" else th, key=lambda x: -x[0] * x[1])]


@harness(tasks, "SU(2) top weight <= 8/15, SU(3) <= 4/6, SU(4) <= 1/3, SU(5) <= 1/2, SU(6) <= 1 (thorough)")
def generators(c, N, top):
    S = pick_weight(c, N, top)
    L = c.mod("lie_nn._src.irreps.sun")
    rep = L.SUN(S)
    X, H, A = check_rep_shape(c, rep, weyl_dim(S), N * N - 1, 0)
    fund = L.SUN((1,) + (0,) * (N - 1))
    c.eq(A, fund.algebra(), "algebra depends on N only")
    c.true(c.is_real_dtype(A), "real structure constants")
    c.eq(c.np.conj(c.np.swapaxes(X, 1, 2)), -X, "anti-Hermitian")
    check_relations(c, X, A)
    if top:
        # quadratic Casimir of the basis dual under the fundamental trace form separates the labels
        c.true(c.rank(X.reshape(N * N - 1, -1)) == N * N - 1, "generators independent")


@harness(lambda t: [x for x in tasks(t) if x["N"] > 1], "same weights")
def ladder(c, N, top):
    np = c.np
    S = pick_weight(c, N, top)
    L = c.mod("lie_nn._src.irreps.sun")
    Jp, Jm, Jz = L.upper_ladder_matrices(S), L.lower_ladder_matrices(S), L.Jz_matrices(S)
    d = weyl_dim(S)
    for M, nm in ((Jp, "Jp"), (Jm, "Jm"), (Jz, "Jz")):
        c.shape(M, (N - 1, d, d), "shape " + nm)
    c.eq(np.conj(np.swapaxes(Jp, 1, 2)), Jm, "raising and lowering operators mutually adjoint")
    for l in range(N - 1):
        c.eq(comm(Jp[l], Jm[l]), 2 * Jz[l], "SU(2) relation on a node")
        for m in range(N - 1):
            a = {0: c.q(1), 1: c.q(-1, 2)}.get(abs(l - m), c.q(0))
            c.eq(comm(Jz[m], Jp[l]), a * Jp[l], "raising shifts by a simple root")
            c.eq(comm(Jz[m], Jm[l]), -a * Jm[l], "lowering shifts by a simple root")
            if m != l:
                c.eq(comm(Jp[l], Jm[m]), np.zeros((d, d)), "different nodes commute")
    # highest weight: Jz of the last state is half the Dynkin labels
    for l in range(N - 1):
        c.eq(Jz[l][d - 1, d - 1], c.q(S[N - 2 - l] - S[N - 1 - l], 2), "highest weight")


@harness(lambda t: [{"N": 2}, {"N": 3}], "patterns of any size with N = 2, 3 rows (unbounded integers)", oblig_ms=60000, branch_ms=30000, limit=250)
def coefficients(c, N):
    """<M+e|J+|M>^2 = <M|J-|M+e>^2 for an arbitrary pattern and position"""
    L = c.mod("lie_nn._src.irreps.sun")
    k = c.pick("k", 1, N - 1)
    l = c.pick("l", 0, N - k - 1)
    M = tuple(tuple(c.int(f"m{i}_{j}") for j in range(N - i)) for i in range(N))
    M2 = tuple(tuple(M[i][j] + 1 if (i, j) == (k, l) else M[i][j] for j in range(N - i)) for i in range(N))
    for P in (M, M2):
        for i in range(N - 1):
            for j in range(N - 1 - i):
                c.assume(P[i][j] >= P[i + 1][j])
                c.assume(P[i + 1][j] >= P[i][j + 1])
    c.assume(M[0][N - 1] == 0)
    up = L.compute_coeff_upper(M, k, l)
    lo = L.compute_coeff_lower(M2, k, l)
    c.eq(up * up, lo * lo, "upper and lower coefficients agree")


LARGE = [(20, 0), (33, 0), (8, 0, 0), (6, 3, 0), (10, 0, 0), (7, 7, 0), (2, 1, 0, 0), (2, 1, 1, 0), (3, 0, 0, 0), (2, 2, 0, 0), (2, 0, 0, 0, 0), (1, 1, 1, 1, 0, 0), (1, 1, 0, 0, 0, 0)]
LARGE_T = [(60, 0), (12, 0, 0), (9, 4, 0), (8, 4, 0), (4, 2, 1, 0), (3, 2, 1, 0), (5, 0, 0, 0), (2, 1, 0, 0, 0), (2, 1, 1, 1, 0), (3, 0, 0, 0, 0), (2, 0, 0, 0, 0, 0), (1, 0, 0, 0, 0, 0, 0)] + LARGE


@harness(lambda t: [{"S": list(s)} for s in (LARGE if t == "quick" else LARGE_T)], "single larger weights: SU(2) <= 33 (60), SU(3) <= 10 (12), SU(4) <= 3 (5), SU(5) <= 2 (3), SU(6), SU(7)", limit=140)
def large(c, S):
    np = c.np
    S = tuple(S)
    N = len(S)
    L = c.mod("lie_nn._src.irreps.sun")
    X, H, A = check_rep_shape(c, L.SUN(S), weyl_dim(S), N * N - 1, 0)
    c.eq(A, L.SUN((1,) + (0,) * (N - 1)).algebra(), "algebra depends on N only")
    c.eq(np.conj(np.swapaxes(X, 1, 2)), -X, "anti-Hermitian")
    check_relations(c, X, A)
