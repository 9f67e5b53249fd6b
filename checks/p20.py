"""Permutations: composition, inverse, numbering, cycles, sign, generated groups."""
import itertools
from math import factorial
from sx.h import harness


def P(c):
    return c.mod("lie_nn._src.discrete_groups.perm")


def sym_perm(c, name, n):
    """an arbitrary permutation of n points, entry by entry (the solver picks the values)"""
    rest, out = list(range(n)), []
    for i in range(n):
        out.append(rest.pop(c.pick(f"{name}{i}", 0, len(rest) - 1)))
    return tuple(out)


def parity(p):
    s = 1
    for i in range(len(p)):
        for j in range(i):
            if p[j] > p[i]:
                s = -s
    return s


def sizes(q, t):
    return lambda tier: [{"n": n} for n in range(0, (q if tier == "quick" else t) + 1)][::-1]


@harness(sizes(4, 6), "all permutations of up to 4 / 6 points", max_replays=30)
def single(c, n):
    m = P(c)
    p = sym_perm(c, "p", n)
    e = m.identity(n)
    c.true(e == tuple(range(n)), "identity")
    c.true(m.is_perm(p), "recognised as a permutation")
    c.true(m.compose(e, p) == p and m.compose(p, e) == p, "identity is neutral")
    q = m.inverse(p)
    c.true(all(q[p[i]] == i for i in range(n)) and len(q) == n, "inverse by definition")
    c.true(m.compose(p, q) == e and m.compose(q, p) == e, "inverse by composition")
    k = m.to_int(p)
    c.true(0 <= k < factorial(n), "number in range")
    c.true(m.from_int(k, n) == p, "from_int inverts to_int")
    cyc = m.to_cycles(p)
    c.true(sorted(x for y in cyc for x in y) == [i for i in range(n) if p[i] != i], "cycles cover the moved points once")
    c.true(all(p[y[i]] == y[(i + 1) % len(y)] for y in cyc for i in range(len(y))), "cycles follow the permutation")
    c.true(all(len(y) >= 2 and y[0] == min(y) for y in cyc), "cycles are in normal form")
    c.true(m.sign(p) == parity(p), "sign is the inversion parity")
    c.true(c.util.permutation_sign(p) == parity(p), "permutation_sign is the inversion parity")
    c.true(m.sign(q) == m.sign(p), "inverse has the same sign")


@harness(lambda t: [{"n": n, "i": i} for n in ((5, 6) if t == "quick" else (7,)) for i in range(n)], "all permutations of 5, 6 / 7 points, by first entry", max_replays=3)
def signs(c, n, i):
    m = P(c)
    p = (i,) + tuple(x + (x >= i) for x in sym_perm(c, "p", n - 1))
    c.true(c.util.permutation_sign(p) == parity(p), "permutation_sign is the inversion parity")
    c.true(m.sign(p) == parity(p), "sign is the inversion parity")
    q = m.inverse(p)
    c.true(all(q[p[k]] == k for k in range(n)), "inverse by definition")
    cyc = m.to_cycles(p)
    c.true(sorted(x for y in cyc for x in y) == [k for k in range(n) if p[k] != k], "cycles cover the moved points once")
    c.true(all(p[y[k]] == y[(k + 1) % len(y)] for y in cyc for k in range(len(y))), "cycles follow the permutation")


@harness(sizes(3, 4), "all pairs of permutations of up to 3 / 4 points", max_replays=30)
def pair(c, n):
    m = P(c)
    p, q = sym_perm(c, "p", n), sym_perm(c, "q", n)
    r = m.compose(p, q)
    c.true(len(r) == n and all(r[i] == p[q[i]] for i in range(n)), "right factor first")
    c.true(m.sign(r) == m.sign(p) * m.sign(q), "sign is multiplicative")
    c.true(c.util.permutation_sign(r) == c.util.permutation_sign(p) * c.util.permutation_sign(q), "permutation_sign is multiplicative")
    c.true(m.inverse(r) == m.compose(m.inverse(q), m.inverse(p)), "inverse of a product")
    c.true((m.to_int(p) == m.to_int(q)) == (p == q), "numbering is injective")


@harness(sizes(3, 3), "all triples of permutations of up to 3 points", max_replays=20)
def triple(c, n):
    m = P(c)
    p, q, r = (sym_perm(c, x, n) for x in "pqr")
    c.true(m.compose(m.compose(p, q), r) == m.compose(p, m.compose(q, r)), "associative")


@harness(lambda t: [{"n": n} for n in range(0, 6)][::-1] if t == "quick" else [{"n": n} for n in range(0, 7)][::-1], "all numbers below n! for n <= 5 / 6 (one symbolic number per residue)", max_replays=30)
def numbering(c, n):
    m = P(c)
    k = c.pick("k", 0, factorial(n) - 1)
    p = m.from_int(k, n)
    c.true(sorted(p) == list(range(n)), "a permutation")
    c.true(m.to_int(p) == k, "to_int inverts from_int")


@harness(lambda t: [{"n": n, "bad": b} for n in (1, 2, 3) for b in ("range", "repeat")], "words of up to 3 letters that are not permutations")
def not_perm(c, n, bad):
    m = P(c)
    w = tuple(c.pick(f"w{i}", -1 if bad == "range" else 0, n) for i in range(n))
    c.true(m.is_perm(w) == (sorted(w) == list(range(n))), "is_perm decides")


def closure(gens, n):
    """smallest set with the identity closed under products (finite: also under inverses)"""
    g = {tuple(range(n))} | set(gens)
    while True:
        h = g | {tuple(a[i] for i in b) for a in g for b in g}
        if h == g:
            return g
        g = h


@harness(lambda t: [{"n": n, "k": k} for n in (1, 2, 3) for k in (1, 2)] + ([{"n": 4, "k": 1}, {"n": 4, "k": 2}, {"n": 3, "k": 3}] if t == "thorough" else [{"n": 4, "k": 1}]),
         "all sets of up to 2 (3) generators on up to 4 points", max_replays=30, limit=250)
def germinate(c, n, k):
    m = P(c)
    gens = {sym_perm(c, f"g{i}", n) for i in range(k)}
    before = set(gens)
    G = m.germinate(gens)
    c.true(gens == before, "generators untouched")
    c.true(set(G) == closure(gens, n), "smallest group that contains the generators")
    c.true(m.is_group(G), "recognised as a group")
    # a subset is a group exactly when it is closed
    c.true(m.is_group(gens) == (closure(gens, n) == gens), "is_group decides")


@harness(lambda t: [{"n": n, "kind": k} for n in (1, 2, 3, 4) + ((5,) if t == "thorough" else ()) for k in ("self", "inverse", "powers", "drop")],
         "for every permutation p of up to 4 / 5 points: the sets {1, p}, {1, p, p^-1}, all powers of p, and all powers but one", max_replays=30)
def decides(c, n, kind):
    """is_group on sets that are nearly groups"""
    m = P(c)
    p = sym_perm(c, "p", n)
    e = tuple(range(n))
    inv = tuple(p.index(i) for i in range(n))
    G = closure({p}, n)
    if kind == "self":
        S = {e, p}
    elif kind == "inverse":
        S = {e, p, inv}
    elif kind == "powers":
        S = set(G)
    else:
        S = set(G) - {sorted(G)[c.pick("out", 0, len(G) - 1)]}
    if S:
        keep = set(S)
        c.true(bool(m.is_group(S)) == (closure(S, n) == S), "is_group decides")
        c.true(S == keep, "operand untouched")


@harness(sizes(4, 5), "whole symmetric groups")
def whole(c, n):
    m = P(c)
    G = m.group(n)
    c.true(set(G) == set(itertools.permutations(range(n))), "all permutations")
    if n < 5:
        c.true(m.is_group(G), "is a group")


@harness(lambda t: [{"seed": s} for s in range(4 if t == "quick" else 20)], "random permutations drawn by the library (the draw is arbitrary)", max_replays=3)
def rand(c, seed):
    m = P(c)
    n = 1 + seed % 5
    p = m.rand(n)
    c.true(sorted(p) == list(range(n)), "a permutation")


@harness(lambda t: [{"n": n, "k": k} for n, k in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2))] + ([{"n": 4, "k": 1}, {"n": 4, "k": 2}] if t == "thorough" else [{"n": 4, "k": 1}]),
         "all formulas of up to 4 indices with one or two signed equalities", max_replays=30, limit=250)
def formula(c, n, k):
    rtp = c.mod("lie_nn._src.reduced_tensor_product")
    letters = "ikaz"[:n]
    gens, parts = set(), [letters]
    for i in range(k):
        p = sym_perm(c, f"g{i}", n)
        s = c.choice(f"s{i}", [1, -1])
        parts.append(("-" if s < 0 else "") + "".join(letters[j] for j in p))
        # T[x] = s T[x o p]:  the word at position m is letter p[m]
        gens.add((s, p))
    f0, G = rtp.germinate_perm_repr("=".join(parts))
    c.true(f0 == letters, "first word")
    ref = {(1, tuple(range(n)))} | gens
    while True:
        h = ref | {(a * b, tuple(p[i] for i in q)) for a, p in ref for b, q in ref}
        if h == ref:
            break
        ref = h
    G = set(G)
    inv = {(s, tuple(p.index(i) for i in range(n))) for s, p in ref}
    c.true(inv == ref, "reference is closed under inverses")
    c.true(G == ref, "smallest signed group that contains the formula")


@harness(lambda t: [{"f": f} for f in ("ij=ik", "ij=ijk", "ii=ii", "ij=i", "-ij=ji")], "malformed formulas")
def malformed(c, f):
    rtp = c.mod("lie_nn._src.reduced_tensor_product")
    c.raises("malformed formula refused", lambda: rtp.germinate_perm_repr(f))


def big_perm(c, name, n):
    """a permutation of many points: a rotation, a reflection, products of cycles, times the exchange of two points (all picked)"""
    k = c.pick(name + "k", 0, 4)
    p = [tuple((i + 3) % n for i in range(n)), tuple(n - 1 - i for i in range(n)), tuple(range(n)), tuple(list(range(1, n // 2)) + [0] + list(range(n // 2 + 1, n)) + [n // 2]), tuple((i + (1 if i % 2 == 0 else -1)) if (i ^ 1) < n else i for i in range(n))][k]
    a, b = c.pick(name + "a", 0, 1) * (n - 1), c.pick(name + "b", n // 2, n // 2 + 1)
    p = list(p)
    p[a], p[b] = p[b], p[a]
    return tuple(p)


@harness(lambda t: [{"n": n} for n in ((8, 11, 17) if t == "quick" else (8, 9, 10, 11, 12, 17, 30))], "permutations of 8 to 17 (30) points: rotations, reflections, products of cycles, times an exchange of two points, and their products", max_replays=6)
def large(c, n):
    m = P(c)
    p, q = big_perm(c, "p", n), big_perm(c, "q", n)
    r = m.compose(p, q)
    e = m.identity(n)
    c.true(all(r[i] == p[q[i]] for i in range(n)), "right factor first")
    s = m.inverse(p)
    c.true(all(s[p[i]] == i for i in range(n)), "inverse by definition")
    c.true(m.is_perm(p) and not m.is_perm(p[:-1] + p[:1]), "is_perm decides")
    for x in (p, r):
        c.true(m.sign(x) == parity(x) and c.util.permutation_sign(x) == parity(x), "sign is the inversion parity")
        k = m.to_int(x)
        c.true(0 <= k < factorial(n) and m.from_int(k, n) == x, "from_int inverts to_int")
        cyc = m.to_cycles(x)
        c.true(sorted(z for y in cyc for z in y) == [k for k in range(n) if x[k] != k], "cycles cover the moved points once")
        c.true(all(x[y[k]] == y[(k + 1) % len(y)] and y[0] == min(y) for y in cyc for k in range(len(y))), "cycles follow the permutation")
    if n <= 12:
        t, o = p, 1
        while t != e and o < 200:
            t, o = tuple(p[i] for i in t), o + 1
        G = m.germinate({p})
        c.true(len(G) == o and all(x in G for x in (e, p, s)), "the group of one generator has its order")
        c.true(m.is_group(G), "recognised as a group")
        if o > 2:
            c.true(not m.is_group(set(G) - {s}), "not a group without one element")


@harness(lambda t: [{"n": n, "kind": k} for n in ((5, 8) if t == "quick" else (5, 6, 8, 11)) for k in ("cycle", "dihedral", "swaps", "blocks")], "signed formulas of 5 to 8 (11) indices: cyclic, dihedral, exchanges of neighbours in pairs, exchange of two halves; any signs", max_replays=8, limit=150)
def formula_large(c, n, kind):
    rtp = c.mod("lie_nn._src.reduced_tensor_product")
    letters = "zbxdefghijkl"[:n]
    h = n // 2
    perms = {"cycle": [tuple((i + 1) % n for i in range(n))], "dihedral": [tuple((i + 1) % n for i in range(n)), tuple(n - 1 - i for i in range(n))],
             "swaps": [tuple((j ^ 1) if j // 2 == i else j for j in range(n)) for i in range(min(h, 3))], "blocks": [tuple((i + h) % (2 * h) if i < 2 * h else i for i in range(n))]}[kind]
    gens, parts = set(), [letters]
    for i, p in enumerate(perms):
        s = c.choice(f"s{i}", [1, -1])
        parts.append(("-" if s < 0 else "") + "".join(letters[j] for j in p))
        gens.add((s, p))
    f0, G = rtp.germinate_perm_repr("=".join(parts))
    c.true(f0 == letters, "first word")
    ref = {(1, tuple(range(n)))} | gens
    while True:
        k = ref | {(a * b, tuple(p[i] for i in q)) for a, p in ref for b, q in ref}
        if k == ref:
            break
        ref = k
    c.true(set(G) == ref, "smallest signed group that contains the formula")
