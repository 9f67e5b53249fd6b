"""Gelfand-Tsetlin patterns: enumeration, dimension, ranking."""
import itertools
from math import factorial
from sx.h import harness


def M_(c):
    return c.mod("lie_nn._src.irreps.sun")


def weyl(S):
    """numerator and denominator of the Weyl dimension formula"""
    num, den = 1, 1
    for i in range(len(S)):
        for j in range(i + 1, len(S)):
            num = num * (S[i] - S[j] + (j - i))
            den = den * (j - i)
    return num, den


def wdim(S):
    num, den = weyl(S)
    return num // den


def weights(n, top, cap, base=0):
    out = []
    for S in itertools.combinations_with_replacement(range(top, -1, -1), n - 1):
        S = tuple(x + base for x in S) + (base,)
        if wdim(S) <= cap:
            out.append(S)
    return out


def ws(tier):
    q = weights(1, 3, 9) + [(2,)] + weights(2, 6, 9) + weights(2, 2, 9, 2) + weights(3, 3, 27) + weights(3, 2, 8, 1) + weights(4, 2, 20) + weights(5, 1, 10)
    th = q + weights(2, 12, 20) + weights(3, 6, 64) + weights(4, 3, 64) + weights(5, 2, 50) + weights(6, 1, 20) + weights(4, 1, 20, 1)
    return sorted(set(q if tier == "quick" else th), key=lambda S: -wdim(S))


def cfgs(tier):
    return [{"S": list(S)} for S in ws(tier)]


def interlacing(c, M):
    """all inequalities of a pattern (rows of decreasing length), as one formula"""
    return c.And(*[b for k in range(1, len(M)) for j in range(len(M[k])) for b in (M[k - 1][j] >= M[k][j], M[k][j] >= M[k - 1][j + 1])]) if len(M) > 1 else True


def same(c, a, b):
    return c.And(*[x == y for r, s in zip(a, b) for x, y in zip(r, s)])


def sym_pattern(c, S):
    rows = [tuple(S)]
    for k in range(1, len(S)):
        rows.append(tuple(c.int(f"m{k}_{j}") for j in range(len(S) - k)))
    return tuple(rows)


@harness(cfgs, "every integer pattern below the listed weights (entries unbounded integers): it is listed exactly when it interlaces, once, and its position is right", limit=200, max_replays=8)
def enumeration(c, S):
    m = M_(c)
    S = tuple(S)
    Ms = list(m.S_to_Ms(S))
    c.true(len(Ms) == wdim(S), "number of patterns")
    c.true(m.dim(S) == len(Ms), "declared dimension")
    c.true(all(len(x) == len(S) and [len(r) for r in x] == list(range(len(S), 0, -1)) and x[0] == S for x in Ms), "form of the patterns")
    c.true(len(set(Ms)) == len(Ms), "no pattern is listed twice")
    c.true(Ms[-1] == tuple(S[:len(S) - k] for k in range(len(S))), "the last pattern is the highest-weight state")
    if len(S) == 1:
        return
    X = sym_pattern(c, S)
    listed = c.Or(*[same(c, X, y) for y in Ms])
    inter = interlacing(c, X)
    c.true(c.Or(c.Not(inter), listed), "every interlacing pattern is listed")
    c.true(c.Or(c.Not(listed), inter), "every listed pattern interlaces")


@harness(cfgs, "every position below the dimension (symbolic) of the listed weights", limit=200, max_replays=8)
def position(c, S):
    m = M_(c)
    S = tuple(S)
    Ms = list(m.S_to_Ms(S))
    k = c.int("k", 0, len(Ms) - 1)
    X = m.index_to_M(S, k)
    c.true(len(X) == len(S), "pattern returned")
    i = m.M_to_index(X)
    c.true(i == k, "index of the pattern of an index")
    c.true(X == Ms[c.num(k)], "position is the enumeration order")


@harness(lambda t: [x for x in cfgs(t) if len(x["S"]) > 1 and wdim(x["S"]) <= (20 if t == "quick" else 40)], "every interlacing pattern (symbolic) of the listed weights", limit=200, max_replays=8)
def pattern(c, S):
    m = M_(c)
    S = tuple(S)
    X = sym_pattern(c, S)
    c.assume(interlacing(c, X))
    k = m.M_to_index(X)
    c.true(c.And(k >= 0, k < wdim(S)), "index in range")
    Y = m.index_to_M(S, k)
    c.true(same(c, X, Y), "pattern of the index of a pattern")


@harness(lambda t: [{"n": n, "base": b} for n in (1, 2, 3, 4) for b in (0, 1)] + ([{"n": 5, "base": 0}] if t == "thorough" else []), "patterns of up to 4 (5) rows with unbounded integer entries", limit=200, max_replays=8)
def validity(c, n, base):
    m = M_(c)
    S = tuple(c.int(f"s{i}") for i in range(n))
    X = sym_pattern(c, S)
    nonneg = c.And(*[x >= 0 for r in X for x in r])
    if base == 0:
        c.assume(nonneg)
    ok = bool(m.is_valid_M(X))
    ref = interlacing(c, X)
    # negative entries never occur in a normalised weight; they are refused
    ref = c.And(ref, c.Or(*[nonneg]) if n > 1 else True)
    c.true(ref if ok else c.Not(ref), "is_valid_M decides")
    if n > 0:
        dec = c.And(*[S[i] >= S[i + 1] for i in range(n - 1)]) if n > 1 else True
        v = bool(m._is_valid_S(S))
        c.true(dec if v else c.Not(dec), "_is_valid_S decides")


@harness(lambda t: [{"n": n} for n in ((2, 3, 4) if t == "quick" else (2, 3, 4, 5))], "any dominant weight of up to 4 (5) rows (unbounded integers)", limit=200, max_replays=8)
def dimension(c, n):
    m = M_(c)
    S = [c.int("b", 0)]
    for i in range(n - 1):
        S.append(S[-1] + c.int(f"dynkin{i}", 0))
    S = tuple(S[::-1])
    num, den = weyl(S)
    c.true(m.dim(S) * den == num, "Weyl dimension")


@harness(lambda t: [{"n": n, "top": top, "first": f} for n, top in ((2, 40), (3, 12), (4, 5), (5, 3), (6, 2)) for f in range(top + 1)] if t == "quick" else [{"n": n, "top": top, "first": f} for n, top in ((2, 99), (3, 25), (4, 9), (5, 4), (6, 3), (7, 2)) for f in range(top + 1)],
         "machine arithmetic: Dynkin labels up to 40 / 12 / 5 / 3 / 2 for N = 2..6 (more in thorough)", max_replays=2, limit=200)
def dimension_machine(c, n, top, first):
    m = M_(c)
    S = [0]
    for i in range(n - 1):
        S.append(S[-1] + (first if i == 0 else c.pick(f"dynkin{i}", 0, top)))
    S = tuple(S[::-1])
    c.true(m.dim(S) == wdim(S), "Weyl dimension")
    c.true(type(m.dim(S)) is int, "an integer")


@harness(lambda t: [{"n": n, "top": 3 if n < 4 else 2} for n in ((2, 3) if t == "quick" else (2, 3, 4))], "next rows of weights with symbolic entries up to the stated size", limit=200, max_replays=8)
def rows(c, n, top):
    m = M_(c)
    S = tuple(c.pick(f"s{i}", 0, top) for i in range(n))
    dec = all(S[i] >= S[i + 1] for i in range(n - 1))
    if not dec:
        c.raises("weight that is not dominant refused", lambda: list(m.S_to_Ss(S)))
        return
    R = list(m.S_to_Ss(S))
    X = tuple(c.int(f"x{j}") for j in range(n - 1))
    inter = c.And(*[b for j in range(n - 1) for b in (S[j] >= X[j], X[j] >= S[j + 1])])
    listed = c.Or(*[same(c, [X], [r]) for r in R])
    c.true(c.Or(c.And(inter, listed), c.And(c.Not(inter), c.Not(listed))), "rows are the interlacing ones")
    c.true(len(set(R)) == len(R), "no row twice")
    c.true(R == sorted(R), "rows in increasing order")
