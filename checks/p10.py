"""Text notation of representations."""
from sx.h import harness

FAMS = ["SU2", "SO3", "O3", "Z2", "SL2C", "SO13", "SU2_", "SU3", "SU4", "SUN5"]
SP = ["", " ", "  "]


def term(c, L, fam, n, digits):
    """(text, label tuple, dim) of an arbitrary irrep"""
    num = lambda s: c.numeral(f"{s}{n}", digits)
    if fam in ("SU2", "SO3"):
        t, v = num("j")
        return t, (v,), (v + 1 if fam == "SU2" else 2 * v + 1)
    if fam == "O3":
        t, v = num("l")
        p = c.choice(f"p{n}", [1, -1])
        return t + ("e" if p == 1 else "o"), (v, p), 2 * v + 1
    if fam == "Z2":
        p = c.choice(f"p{n}", [1, -1])
        return ("e" if p == 1 else "o"), (p,), 1
    if fam in ("SL2C", "SO13"):
        t, v = num("l")
        u, w = num("k")
        if fam == "SO13":
            c.assume((v + w) % 2 == 0)
        return f"({t},{u})", (v, w), (v + 1) * (w + 1)
    N = {"SU2_": 2, "SU3": 3, "SU4": 4, "SUN5": 5}[fam]
    ts, vs = [], []
    for i in range(N - 1):
        t, v = num(f"s{i}_")
        ts.append(t)
        vs.append(v)
        if i:
            c.assume(vs[i - 1] >= v)
    vs.append(0)
    d, q = 1, 1
    for i in range(N):
        for j in range(i + 1, N):
            d = d * (vs[i] - vs[j] + (j - i))
            q = q * (j - i)
    return "(" + ",".join(ts + ["0"]) + ")", tuple(vs), (d, q)


def key(r):
    return r.S if hasattr(r, "S") else tuple(getattr(r, k) for k in ("j", "l", "k", "p") if hasattr(r, k))


def cls(c, L, fam):
    return c.mod("lie_nn._src.irreps.sun").SUN if fam == "SUN5" else getattr(L, fam)


def same_dim(c, got, dim, mul, label):
    if isinstance(dim, tuple):
        c.true(got * dim[1] == mul * dim[0], label)
    else:
        c.true(got == mul * dim, label)


def same_key(c, r, k, label):
    g = key(r)
    c.true(len(g) == len(k) and c.And(*[x == y for x, y in zip(g, k)]), label)


def fams(t):
    return [{"fam": f, "digits": d} for f in FAMS for d in ((1, 2, 4) if t == "quick" else (1, 2, 3, 4, 5, 7)) if not (f == "Z2" and d > 1 or f == "SUN5" and d > 1 or f in ("SU3", "SU4") and d > 2)]


@harness(fams, "every numeral of 1, 2 or 4 digits or more (thorough: also 3, 5 and 7; the first character of a numeral of several digits stands for any number), 0 to 2 spaces on both sides")
def irrep(c, fam, digits):
    L = c.mod("lie_nn.irreps")
    K = cls(c, L, fam)
    text, k, dim = term(c, L, fam, 0, digits)
    r = K.from_string(c.choice("a", SP) + text + c.choice("b", SP))
    c.true(type(r) is K, "family")
    same_key(c, r, k, "label as written")
    same_dim(c, r.dim, dim, 1, "dimension")


@harness(fams, "multiplicity of 1, 2, 3 or 4 digits or more (thorough: also 6); label numerals as above; spaces around the term")
def multiple(c, fam, digits):
    L, lie = c.mod("lie_nn.irreps"), c.lie
    K = cls(c, L, fam)
    text, k, dim = term(c, L, fam, 0, digits)
    nd = c.choice("nd", [0, 1, 2, 3, 4] if digits < 5 else [0, 1, 6])
    mt, m = c.numeral("m", nd) if nd else ("", 1)
    r = lie.MulIrrep.from_string(c.choice("a", SP) + (mt + "x" if nd else "") + text + c.choice("b", SP), K)
    c.true(type(r) is lie.MulIrrep and type(r.rep) is K, "family")
    c.true(r.mul == m, "multiplicity as written")
    same_key(c, r.rep, k, "label as written")
    same_dim(c, r.dim, dim, m, "dimension")


@harness(lambda t: [{"fam": f, "terms": n} for f in FAMS for n in ((1, 2, 3) if t == "quick" else (1, 2, 3, 4, 5)) if not (n > 2 and f in ("SU4", "SUN5"))],
         "1 to 3 (5) terms, each with or without multiplicity, numerals of at least 2 digits or of one digit, spaces around the terms or not")
def reduced(c, fam, terms):
    L, lie = c.mod("lie_nn.irreps"), c.lie
    K = cls(c, L, fam)
    out, text = [], []
    sp = c.choice("sp", ["", " "])
    digits = c.pick("digits", 1, 2) if fam in ("SU2", "SO3", "O3") else 1
    for n in range(terms):
        t, k, dim = term(c, L, fam, n, digits)
        if c.pick(f"mul{n}", 0, 1):
            mt, m = c.numeral(f"m{n}", digits)
            t = mt + "x" + t
        else:
            m = 1
        out.append((k, m, dim))
        text.append(sp + t + sp)
    r = lie.ReducedRep.from_string("+".join(text), K)
    c.true(len(r.irreps) == terms, "number of terms")
    tot = 0
    for mi, (k, m, dim) in zip(r.irreps, out):
        c.true(type(mi) is lie.MulIrrep and type(mi.rep) is K, "family")
        c.true(mi.mul == m, "multiplicity as written, in order")
        same_key(c, mi.rep, k, "label as written, in order")
        same_dim(c, mi.dim, dim, m, "dimension of the term")
        tot = tot + mi.dim
    c.true(r.dim == tot, "dimension is the sum over the terms")
    c.true(r.Q is None, "no change of basis")
    c.eq(r.algebra(), r.irreps[0].rep.algebra(), "algebra of the family")
