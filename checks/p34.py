"""Only valid labels make an irrep."""
from sx.h import harness

SP = ["", " "]


def built(c, fn, valid, label):
    """fn succeeds exactly when `valid`; returns what it built"""
    ok, r = c.attempt(fn)
    v = c.decide(valid)
    if v and not ok:
        c.fail(label, f"a valid label was refused: {type(r).__name__}")
    if ok and not v:
        c.fail(label, "an invalid label was accepted")
    c.true(ok == v, label)
    return r if ok else None


@harness(lambda t: [{"fam": f} for f in ("SU2", "SO3", "O3", "Z2", "SL2C", "SO13")], "every integer label, unbounded")
def integer(c, fam):
    K = getattr(c.mod("lie_nn.irreps"), fam)
    x, y = c.int("x"), c.int("y")
    if fam in ("SU2", "SO3"):
        r = built(c, lambda: K(x), x >= 0, "non-negative integer")
        if r is not None:
            c.true((r.j if fam == "SU2" else r.l) == x, "label kept")
    elif fam == "O3":
        r = built(c, lambda: K(x, y), c.And(x >= 0, c.Or(y == 1, y == -1)), "non-negative integer and a parity")
        if r is not None:
            c.true(c.And(r.l == x, r.p == y), "label kept")
    elif fam == "Z2":
        r = built(c, lambda: K(y), c.Or(y == 1, y == -1), "parity")
        if r is not None:
            c.true(r.p == y, "label kept")
    else:
        even = (x + y) % 2 == 0 if fam == "SO13" else True
        r = built(c, lambda: K(x, y), c.And(x >= 0, y >= 0, even), "two non-negative integers" + (" of even sum" if fam == "SO13" else ""))
        if r is not None:
            c.true(c.And(r.l == x, r.k == y), "label kept")


def sun(t):
    top = 4 if t == "quick" else 6
    return [{"fam": "SUN", "n": n} for n in range(0, top + 4)] + [{"fam": f, "n": n} for f in ("SU2_", "SU3", "SU4") for n in range(0, top + 1)]


@harness(sun, "tuples of 0 to 4 (6) integers, each unbounded; for SUN of any n, 0 to 7 (9)")
def weights(c, fam, n):
    K = c.mod("lie_nn._src.irreps.sun").SUN if fam == "SUN" else getattr(c.mod("lie_nn.irreps"), fam)
    S = tuple(c.int(f"s{i}") for i in range(n))
    size = {"SUN": n > 0, "SU2_": n == 2, "SU3": n == 3, "SU4": n == 4}[fam]
    valid = c.And(*[a >= b for a, b in zip(S, S[1:])], S[-1] == 0) if size else False
    r = built(c, lambda: K(S), valid, "non-increasing, ending in 0, of the right length")
    if r is not None:
        c.true(len(r.S) == n and c.And(*[a == b for a, b in zip(r.S, S)]), "label kept")


@harness(lambda t: [{"fam": f} for f in ("SU2", "SO3", "O3", "SL2C", "SO13")], "the fractions listed, in the first or the second place")
def not_integer(c, fam):
    K = getattr(c.mod("lie_nn.irreps"), fam)
    bad = c.choice("bad", [0.5, 1.5, -0.5, 1.25, 7.999999999])
    two = {"O3": [1], "SL2C": [1, 0, 2], "SO13": [1, 0]}.get(fam)
    if two is None:
        c.raises("a fraction is refused", lambda: K(bad))
    else:
        c.raises("a fraction is refused", lambda: K(bad, c.choice("other", two)))
        if fam != "O3":
            c.raises("a fraction is refused", lambda: K(c.choice("other", two), bad))


@harness(lambda t: [{}], "whole numbers and halves between -6 and 6, quarters and near-halves; as int or float")
def real_spin(c):
    K = c.mod("lie_nn.irreps").SU2Real
    n = c.pick("quarters", -24, 24)
    j = n / 4
    kind = c.choice("kind", ["float", "int", "near"])
    if kind == "int":
        c.assume(n % 4 == 0)
        j = n // 4
    if kind == "near":
        j = j + 1e-9
    r = built(c, lambda: K(j), n >= 0 and n % 2 == 0 and kind != "near", "non-negative integer or half-integer")
    if r is not None:
        c.true(r.j == j, "label kept")
        c.true(r.dim == (n // 2 + 1 if n % 4 == 0 else 2 * (n // 2 + 1)), "dimension")


@harness(lambda t: [{"fam": f, "digits": d} for f in ("SU2", "SO3", "O3", "SL2C", "SO13", "SU2_", "SU3", "SU4", "SUN") for d in ((1, 2) if t == "quick" else (1, 2, 3)) if not (f in ("SU3", "SU4", "SUN") and d > 1)],
         "every numeral of 1 or 2 (thorough: 3) digits or more in every place of the text; negative numbers; wrong parity letters; too few or too many numbers")
def text(c, fam, digits):
    K = c.mod("lie_nn._src.irreps.sun").SUN if fam == "SUN" else getattr(c.mod("lie_nn.irreps"), fam)
    a, b = c.choice("a", SP), c.choice("b", SP)
    neg = c.choice("neg", ["", "-"])
    if fam in ("SU2", "SO3", "O3"):
        t, v = c.numeral("v", digits)
        p = c.choice("p", ["e", "o", "x", ""]) if fam == "O3" else ""
        c.assume(neg == "" or v > 0)
        built(c, lambda: K.from_string(a + neg + t + p + b), neg == "" and (fam != "O3" or p in ("e", "o")), "text of a valid label")
    elif fam in ("SL2C", "SO13"):
        (t, v), (u, w) = c.numeral("v", digits), c.numeral("w", digits)
        c.assume(neg == "" or w > 0)
        even = (v + w) % 2 == 0 if fam == "SO13" else True
        built(c, lambda: K.from_string(f"{a}({t},{neg}{u}){b}"), c.And(neg == "", even), "text of a valid label")
        c.raises("one number is refused", lambda: K.from_string(f"({t})"))
    else:
        N = {"SU2_": 2, "SU3": 3, "SU4": 4, "SUN": 0}[fam]
        n = c.pick("n", 1, 4)
        ts, vs = zip(*[c.numeral(f"v{i}", digits) for i in range(n)])
        valid = c.And(*[x >= y for x, y in zip(vs, vs[1:])], vs[-1] == 0) if N in (0, n) else False
        if neg:
            valid = False
        built(c, lambda: K.from_string(f"{a}({neg}{','.join(ts)}){b}"), valid, "text of a valid label")


@harness(lambda t: [{}], "letters e, o and others")
def parity_text(c):
    K = c.mod("lie_nn.irreps").Z2
    s = c.choice("s", ["e", "o", "x", "", "1", "-1", "ee", "eo"])
    r = built(c, lambda: K.from_string(c.choice("a", SP) + s + c.choice("b", SP)), s in ("e", "o"), "text of a parity")
    if r is not None:
        c.true(r.p == (1 if s == "e" else -1), "label kept")
