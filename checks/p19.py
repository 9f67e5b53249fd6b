"""Reduced tensor-product bases: equivariance, index symmetries, completeness."""
import itertools
from math import factorial
from sx.h import harness


def terms(formula):
    out = []
    for t in formula.split("="):
        out.append((-1, t[1:]) if t.startswith("-") else (1, t))
    return out


def closure(gens):
    g = set(gens)
    while True:
        n = {(s1 * s2, tuple(p1[i] for i in p2)) for s1, p1 in g for s2, p2 in g} | g
        if n == g:
            return g
        g = n


def count(formula, dims):
    """number of independent tensors of that symmetry (Burnside with signs)"""
    f0 = terms(formula)[0][1]
    G = closure({(s, tuple(f0.index(ch) for ch in f)) for s, f in terms(formula)})
    tot = 0
    for s, p in G:
        seen, n = set(), s
        for i in range(len(p)):
            if i not in seen:
                j = i
                while j not in seen:
                    seen.add(j)
                    j = p[j]
                n *= dims[i]
        tot += n
    assert tot % len(G) == 0
    return tot // len(G)


def check_symmetry(c, T, formula):
    np = c.np
    f0 = terms(formula)[0][1]
    for s, f in terms(formula)[1:]:
        pos = [f0.index(ch) for ch in f]
        axes = [0] * len(pos)
        for m, q in enumerate(pos):
            axes[q] = m
        c.eq(T, s * np.transpose(T, tuple(axes) + (len(pos),)), "index symmetry " + ("-" if s < 0 else "") + f0 + "=" + f)


def act(c, M, T, axis):
    """transform one input: the array is contracted with M v instead of v"""
    np = c.np
    return np.moveaxis(np.tensordot(M, T, axes=(0, axis)), 0, axis)


def check_basis(c, out, reps, formula):
    np = c.np
    n = len(reps)
    T = out.array
    dims = [r.dim for r in reps]
    dout = T.shape[-1]
    c.shape(T, tuple(dims) + (dout,), "shape")
    c.true(out.rep.dim == dout, "dimension of the output representation")
    # the list holds the same numbers, one array per multiple
    c.true(len(out.list) == len(out.rep.irreps), "one array per multiple")
    k = 0
    for mi, x in zip(out.rep.irreps, out.list):
        c.shape(x, tuple(dims) + (mi.mul, mi.rep.dim), "shape of a listed array")
        c.eq(np.reshape(x, tuple(dims) + (mi.mul * mi.rep.dim,)), T[..., k:k + mi.mul * mi.rep.dim], "list and array agree")
        k += mi.mul * mi.rep.dim
    c.true(k == dout, "list and array have the same size")
    Xs, Hs = [r.X for r in reps], [r.H for r in reps]
    if dout:
        Xo, Ho = out.rep.X, out.rep.H
        c.true(Xo.shape[0] == Xs[0].shape[0] and Ho.shape[0] == Hs[0].shape[0], "group of the output representation")
        for a in range(Xs[0].shape[0]):
            rhs = np.zeros(T.shape)
            for i in range(n):
                rhs = rhs + act(c, Xs[i][a], T, i)
            c.eq(np.tensordot(T, Xo[a], axes=(n, 1)), rhs, "equivariance (continuous)")
        for a in range(Hs[0].shape[0]):
            rhs = T
            for i in range(n):
                rhs = act(c, Hs[i][a], rhs, i)
            c.eq(np.tensordot(T, Ho[a], axes=(n, 1)), rhs, "equivariance (discrete)")
        check_symmetry(c, T, formula)
        tot = 1
        for d in dims:
            tot *= d
        c.true(c.rank(np.reshape(T, (tot, dout))) == dout, "independent columns")
    c.true(dout == count(formula, dims), "number of columns")


def build(c, spec):
    """SO3:1, SO3:0+1, O3:1o+0e, SU2:1, SU3:(1,0,0), Z2:o, with @real / @complex / @sym for a change of basis"""
    L, lie, np = c.mod("lie_nn.irreps"), c.lie, c.np
    q = None
    if "@" in spec:
        spec, q = spec.split("@")
    fam, s = spec.split(":")
    cls = None if fam == "Prod" else getattr(L, fam)
    mk = (lambda t: lie.group_product(L.SO3(int(t[0])), L.Z2(1 if t[1] == "e" else -1))) if fam == "Prod" else cls.from_string if hasattr(cls, "from_string") and fam != "SU2Real" else lambda t: cls(float(t))
    ts = []
    for t in s.split("+"):
        m, r = t.split("x") if "x" in t else (None, t)
        ts.append((m, mk(r)))
    if len(ts) == 1 and ts[0][0] is None and q is None:
        return ts[0][1]
    if len(ts) == 1 and q is None:
        return lie.MulIrrep(int(ts[0][0]), ts[0][1])
    irs = [(int(m or 1), r) for m, r in ts]
    d = sum(m * r.dim for m, r in irs)
    Q = None
    if q:
        vals = [2, -1, c.q(1, 2), 1, 3, -2, 1, 1]
        Q = np.eye(d, dtype=complex if q == "complex" else float)
        it = itertools.cycle(vals)
        for i in range(d):
            for j in range(d):
                if j > i and q in ("real", "complex"):
                    Q[i, j] = next(it) * (c.j if q == "complex" and (i + j) % 2 else 1)
                if q == "sym" and j == i + 1:
                    Q[i, j] = c.real(f"q{i}{j}")
        if q == "mix":
            Q[0, 1] = 2
        if q == "real" and d > 1:
            Q[d - 1, 0] = 1
    return lie.ReducedRep.from_irreps(irs, Q)


def two(t):
    q = ["SO3:1", "SO3:2", "SO3:0+1", "O3:1o", "O3:1o+0o", "SU2:1", "SU2:2", "SU2:1+0", "Z2:o", "Z2:2xo", "SU3:(1,0,0)", "SL2C:(0,1)", "SO3:2x1", "SO3:0+1@mix", "SU2:0+1@complex", "SO3:1@real", "O3:2e", "SU2Real:0.5", "SO3:0x1", "O3:0x1o+0e+0x0o"]
    th = q + ["SU2:3", "SO3:3", "SU3:(1,1,0)", "SL2C:(1,1)", "SU2Real:0+0.5", "SU2Real:1.5", "SO3:0x1+0x0", "SO3:1+0+1", "O3:1o+1e", "SU2_:(2,0)", "Z2:o+2xe", "SO3:2+0@mix", "SU4:(1,0,0,0)", "SU3:(2,0,0)"]
    return [{"spec": s} for s in (q if t == "quick" else th)][::-1]


@harness(two, "ij=ji, ij=-ji, no symmetry and the contradictory ij=-ij over the listed representations", limit=200)
def pairs(c, spec):
    r = build(c, spec)
    f = c.choice("formula", ["ij=ji", "ij=-ji", "ij", "ij=-ij"])
    out = c.lie.reduced_tensor_product_basis(f, i=r) if f in ("ij=ji", "ij=-ji") else c.lie.reduced_tensor_product_basis(f, i=r, j=r)
    check_basis(c, out, [r, r], f)


F3 = ["ijk=jik=ikj", "ijk=-jik=-ikj", "ijk=jik", "ijk=-ikj", "ijk=jki", "ijk=kji", "ijk=-kji", "ijk=jik=-ikj", "ijk"]


def three(t):
    q = [("SU2:1", f) for f in F3] + [("Z2:o", f) for f in F3[:4]] + [("Z2:o+e", f) for f in F3[:6]] + [("SO3:1", f) for f in ("ijk=jik=ikj", "ijk=-jik=-ikj", "ijk=jki", "ijk=-kji")] + [("O3:1o", "ijk=jik"), ("SO3:0+1", "ijk=jik=ikj"), ("SU3:(1,0,0)", "ijk=-jik=-ikj"), ("SU2:0+1@complex", "ijk=jki"), ("SU2Real:0.5", "ijk=jik"), ("SU2Real:0.5", "ijk=-jik=-ikj"), ("SO3:0x1", "ijk=jki")]
    th = q + [("SO3:1", f) for f in F3] + [("SU2:0+1", f) for f in F3] + [("SO3:0+1", f) for f in F3] + [("SU2:2", f) for f in F3[:6]] + [("O3:1o+0e", f) for f in F3[:4]] + [("SU3:(1,0,0)", f) for f in F3] + [("SO3:0+1@mix", f) for f in F3[:3]] + [("SL2C:(1,0)", f) for f in F3] + [("SO3:2", f) for f in F3[:2]] + [("SU2Real:0.5", f) for f in F3] + [("SU2Real:0+0.5", "ijk=jik=ikj")]
    seen, out = set(), []
    for s, f in (q if t == "quick" else th):
        if (s, f) not in seen:
            seen.add((s, f))
            out.append({"spec": s, "f": f})
    return out[::-1]


@harness(three, "nine formulas of three indices over the listed representations", limit=250)
def triples(c, spec, f):
    r = build(c, spec)
    kw = {"i": r}
    if f in ("ijk=jik",):
        kw["k"] = r
    if f in ("ijk=-ikj",):
        kw["j"] = r
    if f in ("ijk=kji", "ijk=-kji"):
        kw["j"] = r
    if f == "ijk":
        kw["j"] = kw["k"] = r
    check_basis(c, c.lie.reduced_tensor_product_basis(f, **kw), [r] * 3, f)


def mix(t):
    q = [("ijk=jik", "SU2:1", "SU2:2"), ("ijk=-kji", "SU2:1", "SU2:2"), ("ijk=-jik", "SO3:1", "SO3:0+1"), ("kij=kji", "O3:1o", "O3:0o"), ("abc=-acb", "SU2:2", "SU2:1+0"), ("ijk=ikj", "Z2:o", "Z2:o+e"), ("ijk=jik", "SU2Real:0.5", "SU2Real:1"), ("ijk=-jik", "SU2Real:1", "SU2Real:0.5"), ("ijk=kji", "SO3:1", "SO3:0x2")]
    th = q + [("ijk=-jik", "SO3:1", "SO3:2"), ("ijk=kji", "SU3:(1,0,0)", "SU3:(1,1,0)"), ("ijk=jik", "O3:1o", "O3:1e"), ("ijk=jik", "SO3:0+1@mix", "SO3:1@real"), ("ijk=-ikj", "SL2C:(1,0)", "SL2C:(0,1)")]
    return [dict(zip(("f", "s1", "s2"), x)) for x in (q if t == "quick" else th)]


@harness(mix, "formulas exchanging two of three indices, the third with another representation", limit=250)
def mixed(c, f, s1, s2):
    r1, r2 = build(c, s1), build(c, s2)
    f0, f1 = [t[1] for t in terms(f)]
    kw, reps = {}, []
    for a, b in zip(f0, f1):
        kw[a] = r1 if a != b else r2
        reps.append(kw[a])
    first = next(a for a, b in zip(f0, f1) if a != b)
    kw = {k: v for k, v in kw.items() if v is r2 or k == first}
    check_basis(c, c.lie.reduced_tensor_product_basis(f, **kw), reps, f)


def four(t):
    q = [("SU2:1", "ijkl=jikl=ijlk"), ("SU2:1", "ijkl=-jikl=-ijlk=klij"), ("SU2:1", "ijkl=jkli"), ("Z2:o+e", "ijkl=jikl=klij"), ("SU2:1", "ijkl=-jkli")]
    th = q + [("SU2:1", "ijkl=jikl=jkli"), ("SU2:1", "ijkl=-jikl=-jkli"), ("SO3:1", "ijkl=-jikl=-ijlk=klij"), ("SO3:1", "ijkl=jikl=jkli"), ("SU2:1", "ijkl"), ("SU2:1", "ijkl=klij"), ("SU2:1", "ijkl=-lkji")]
    return [{"spec": s, "f": f} for s, f in (q if t == "quick" else th)][::-1]


@harness(four, "formulas of four indices", limit=300)
def quadruples(c, spec, f):
    r = build(c, spec)
    orb = {"ijkl=jikl=ijlk": "ik", "ijkl": "ijkl", "ijkl=klij": "ij", "ijkl=-lkji": "ij"}.get(f, "i")
    check_basis(c, c.lie.reduced_tensor_product_basis(f, **{i: r for i in orb}), [r] * 4, f)


def lists(t):
    q = [["SU2:1"], ["SO3:1", "SO3:1"], ["SU2:1", "SU2:2"], ["O3:1o", "O3:0o+1e"], ["SU2:0+1@sym", "SU2:1"], ["SO3:0+1@sym", "SO3:1@sym2"], ["Z2:o+e@sym", "Z2:o", "Z2:2xo"], ["SU2:1", "SU2:1", "SU2:1"], ["SU3:(1,0,0)", "SU3:(1,1,0)"], ["SL2C:(1,0)", "SL2C:(0,1)"], ["SO3:0", "SO3:0+1", "SO3:1"],
         ["SU2:2+0@complex", "SU2:1+1"], ["SU2:0+1@sym"], ["SO3:1+0"], ["SU2Real:0.5", "SU2Real:0"], ["SU2Real:1", "SU2Real:0.5"], ["SU2Real:0.5+0@real", "SU2Real:0.5"], ["SO3:1", "SO3:0x1+0x0"], ["SO3:0x1"]]
    th = q + [["SO3:1", "SO3:1", "SO3:2"], ["SU2:1", "SU2:1", "SU2:1", "SU2:1"], ["SU3:(2,1,0)", "SU3:(1,0,0)"], ["SU2:2", "SU2:1+0", "SU2:1"], ["O3:2e", "O3:1o", "O3:1e"], ["SO13:(1,1)", "SO13:(1,1)"], ["SO13:(2,0)", "SO13:(1,1)"], ["SL2C:(1,1)", "SL2C:(1,0)"], ["SU2:0+1@sym", "SU2:1", "SU2:1"], ["SU2Real:0.5"] * 3, ["SU2Real:1.5", "SU2Real:1"], ["SU2Real:0.5", "SU2Real:1", "SU2Real:0.5"], ["O3:0x1o+1e", "O3:1o", "O3:0x0o+0e"]]
    return [{"specs": s} for s in (q if t == "quick" else th)][::-1]


@harness(lists, "lists of one to four representations without symmetry, some in a free basis", limit=250)
def listed(c, specs):
    reps = []
    for s in specs:
        reps.append(build(c, s.replace("@sym2", "@real")))
    form = "ijkl"[:len(reps)]
    check_basis(c, c.lie.reduced_tensor_product_basis(reps), reps, form)


def powers(t):
    q = [("SO3:1", 1), ("SO3:1", 2), ("SO3:1", 3), ("SU2:1", 3), ("SU2:1", 4), ("O3:1o+0e", 2), ("SO3:0+1", 3), ("Z2:o+e", 3), ("SU3:(1,0,0)", 2), ("SU2:0+1@complex", 2), ("O3:2x0o", 3), ("SU2:2", 2)]
    th = q + [("SO3:1", 4), ("SU2:2", 3), ("SU2:0+1", 4), ("SO3:2", 3), ("O3:1o+0e", 3), ("SU3:(1,0,0)", 3), ("SU3:(2,1,0)", 2), ("SL2C:(1,1)", 2), ("SU2:1", 5), ("SO3:0+1+2", 2), ("SO3:0+1@mix", 3), ("Z2:o+e", 4)]
    return [{"spec": s, "n": n} for s, n in (q if t == "quick" else th)][::-1]


@harness(powers, "symmetric powers up to 4 (5)", limit=300)
def symmetric(c, spec, n):
    r = build(c, spec)
    out = c.lie.reduced_symmetric_tensor_product_basis(r, n)
    ind = "ijklm"[:n]
    f = "=".join([ind] + [ind[:k] + ind[k + 1] + ind[k] + ind[k + 2:] for k in range(n - 1)])
    check_basis(c, out, [r] * n, f)


def givens(t):
    q = [("ij=ji", "SO3:1"), ("ij=-ji", "SU2:0+1"), ("ij=ji", "Z2:2xo"), ("ij=-ji", "SO3:0+1@mix"), ("ijk=jki", "SU2:1"), ("ijk=kji", "Z2:o+e")]
    th = q + [("ijk=-jik=-ikj", "SO3:1"), ("ij=ji", "SU3:(1,0,0)"), ("ij=ji", "Prod:0o+1e"), ("ijk=jik=ikj", "SU2:0+1")]
    return [{"f": f, "spec": s} for f, s in (q if t == "quick" else th)]


@harness(givens, "a representation given for every index, built separately for each of them; a different one for an exchanged index is refused", limit=200)
def given(c, f, spec):
    f0 = terms(f)[0][1]
    reps = [build(c, spec) for _ in f0]
    if not c.pick("different", 0, 1):
        check_basis(c, c.lie.reduced_tensor_product_basis(f, **dict(zip(f0, reps))), reps, f)
        return
    fam = spec.split(":")[0]
    kind = c.choice("kind", ["multiple", "twice", "basis"])
    kw = dict(zip(f0, reps))
    r = reps[0]
    if kind == "multiple":
        other = c.lie.ReducedRep.from_irreps([(1, ir) if not isinstance(ir, c.lie.MulIrrep) else ir for ir in (r.irreps if isinstance(r, c.lie.ReducedRep) else [r])] * 2)
    elif kind == "twice":
        other = c.lie.MulIrrep(3, r.irreps[0].rep if isinstance(r, c.lie.ReducedRep) else r.rep if isinstance(r, c.lie.MulIrrep) else r)
    else:
        Q = c.np.eye(r.dim)
        if r.dim < 2:
            return
        Q[0, 1] = 1
        other = c.lie.ReducedRep.from_irreps(r.irreps if isinstance(r, c.lie.ReducedRep) else [r], Q)
    first = next(a for a, b in zip(f0, terms(f)[1][1]) if a != b)
    kw[first] = other
    c.raises("an exchanged index with another representation is refused", lambda: c.lie.reduced_tensor_product_basis(f, **kw))


def manies(t):
    """lists longer than eight indices (scalars keep the number of tensors small)"""
    q = [(["SL2C:(0,0)"] * 5 + ["SL2C:(1,0)"] * 3 + ["SL2C:(0,1)"], None), (["Z2:e"] * 9 + ["Z2:o"] + ["Z2:o+e"], None), (["SU2:0"] * 5 + ["SU2:2", "SU2:1", "SU2:1", "SU2:2"], None),
         (["SU2:0"] * 5 + ["SU2:1"] * 4, "abcdefghi=abcdefgih"), (["SU2:0"] * 5 + ["SU2:1", "SU2:2", "SU2:1", "SU2:1"], "abcdefghi=-abcdefgih"),
         (["SU2:1"] + ["SU2:0"] * 7 + ["SU2:1"] + ["SU2:0"] * 7 + ["SU2:1"], "abcdefghijklmnopq=qbcdefghijklmnopa=ibcdefghajklmnopq")]
    th = q + [(["SL2C:(0,0)"] * 4 + ["SL2C:(1,0)"] * 4 + ["SL2C:(0,1)"], None), (["SU2:0"] * 5 + ["SU2:1", "SU2:2", "SU2:1", "SU2:2"], "abcdefghi=abcdehgfi"),
              (["SU2:0"] * 5 + ["SU2:2", "SU2:1", "SU2:1", "SU2:2"], "abcdefghi=-abcdeighf"), (["O3:0o"] * 5 + ["O3:1o", "O3:1e", "O3:0o", "O3:1o"], None)]
    return [{"specs": s, "f": f} for s, f in (q if t == "quick" else th)]


@harness(manies, "nine to seventeen indices, most of them scalars, with and without index symmetry", limit=250)
def many(c, specs, f):
    reps = [build(c, s) for s in specs]
    if f is None:
        check_basis(c, c.lie.reduced_tensor_product_basis(reps), reps, "abcdefghijklmnopqrstuvwxyz"[:len(reps)])
        return
    check_basis(c, c.lie.reduced_tensor_product_basis(f, **dict(zip(f.split("=")[0], reps))), reps, f)


@harness(lambda t: [{"spec": s} for s in ("SO3:1", "SU2:0+1", "Z2:2xo", "SO3:0+1@real", "SO3:0x1", "SU2Real:0.5")], "one index: no symmetry, the trivial one and the contradictory one")
def single(c, spec):
    r = build(c, spec)
    f = c.choice("formula", ["i", "i=i", "i=-i"])
    check_basis(c, c.lie.reduced_tensor_product_basis(f, i=r), [r], f)
