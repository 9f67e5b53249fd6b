"""Rounding to rationals: limited denominators, integer ratios, square roots of rationals."""
from fractions import Fraction
from math import gcd
from sx.h import harness


def ints(c, xs):
    return c.np.array(list(xs)).astype(int) if not c.sym else c.const(c.np.array(list(xs)), "int")


def scalar(x):
    return int(x) if not hasattr(x, "t") else x


def best(c, n, d, a0, n1, d1, M, label):
    """n1 / d1 is an admissible fraction and no p / m with m <= M is closer to n / d, where a0 <= n / d <= a0 + 1
    (fractions outside that interval are farther than its ends, which are admissible)"""
    c.true(c.And(d1 >= 1, d1 <= M), label + ": denominator within the limit")
    m1 = c.num(d1)
    r = n1 - a0 * m1
    for p in (2, 3, 5, 7, 11, 13):
        if m1 % p == 0:
            c.true(c.Not(r % p == 0), label + ": normalised")
    x = n - a0 * d                       # 0 <= x / d <= 1
    e = r * d - x * m1
    e = e if c.decide(e >= 0) else -e
    far = []
    for m in range(1, M + 1):
        for p in range(0, m + 1):
            if gcd(p, m) == 1:
                w = p * d - x * m
                far.append(c.Or(w * m1 >= e * m, w * m1 <= -(e * m)))
    c.true(c.And(*far), label + ": no closer fraction")


def prefixes(M):
    """(a1..ak) with last denominator q_k <= M, with (p_k, p_{k-1}) for a0 = 0 and (q_k, q_{k-1})"""
    out = []

    def rec(a, p1, p0, q1, q0):
        out.append((tuple(a), p1, p0, q1, q0))
        x = 1
        while x * q1 + q0 <= M:
            rec(a + [x], x * p1 + p0, p1, x * q1 + q0, q1)
            x += 1
    rec([], 0, 1, 1, 0)
    return out


def groups(tier):
    ms = (1, 2, 3, 4, 5, 6) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12)
    out = []
    for M in sorted(ms, reverse=True):
        n = len(prefixes(M))
        step = 12
        out += [{"M": M, "lo": i, "hi": min(i + step, n)} for i in range(0, n, step)]
    return out


@harness(groups, "every fraction n/d whose reduced denominator exceeds the limit M (n, d unbounded): continued-fraction prefix with denominators <= M, unbounded integer part, symbolic tail u/v", limit=250, max_replays=12, oblig_ms=20000)
def limit_large(c, M, lo, hi):
    a, p1, p0, q1, q0 = prefixes(M)[c.pick("prefix", lo, hi - 1)]
    a0, v, w = c.int("a0"), c.int("v", 1), c.int("w", 0)
    x = -(-(M + 1 - q0) // q1)          # the next quotient leaves the limit
    u = w + x * v
    d = q1 * u + q0 * v
    n = a0 * d + p1 * u + p0 * v
    if len(a) == 0:
        n = a0 * d + v                   # 0 < v / u < 1
        c.assume(u > v)
    out = c.util.limit_denominator(ints(c, [n]), ints(c, [d]), M)
    n1, d1 = scalar(out[0][0]), scalar(out[1][0])
    best(c, n, d, a0, n1, d1, M, "closest")


@harness(lambda t: [{"M": M} for M in ((1, 2, 3, 6) if t == "quick" else (1, 2, 3, 6, 10, 20))], "every n (unbounded) over every denominator <= M", limit=200, max_replays=6)
def limit_small(c, M):
    d = c.pick("d", 1, M)
    r = c.pick("r", 0, d - 1)
    c.assume(gcd(r, d) == 1)
    n = c.int("q") * d + r
    out = c.util.limit_denominator(ints(c, [n]), ints(c, [d]), M)
    c.true(c.And(out[0][0] == n, out[1][0] == d), "a fraction within the limit is unchanged")


@harness(lambda t: [{"M": M, "D": D} for M, D in (((2, 5), (4, 7)) if t == "quick" else ((2, 5), (4, 7), (6, 11)))], "pairs of fractions (integer parts unbounded): elementwise results", limit=200, max_replays=6, max_paths=4000)
def limit_pairs(c, M, D):
    ns, ds = [], []
    for k in (0, 1):
        d = c.pick(f"d{k}", 1, D)
        r = c.pick(f"r{k}", 0, d - 1)
        c.assume(gcd(r, d) == 1)
        ns.append(c.int(f"q{k}") * d + r)
        ds.append(d)
    n, d = ints(c, ns), ints(c, ds)
    sn, sd = c.snapshot(n), c.snapshot(d)
    both = c.util.limit_denominator(n, d, M)
    for k in (0, 1):
        one = c.util.limit_denominator(ints(c, [ns[k]]), ints(c, [ds[k]]), M)
        c.true(c.And(both[0][k] == one[0][0], both[1][k] == one[1][0]), "elementwise")
    c.eq(n, sn, "numerators not modified")
    c.eq(d, sd, "denominators not modified")


@harness(lambda t: [{"B": 6 if t == "quick" else 12}], "every common factor (unbounded, either sign) times coprime numerators and denominators up to the bound", limit=200, max_replays=8, max_paths=4000)
def normalise(c, B):
    a = c.pick("a", -B, B)
    b = c.pick("b", 1, B)
    c.assume(gcd(a, b) == 1)
    g = c.int("g")
    c.assume(c.Not(g == 0))
    n, d = c.util.normalize_integer_ratio(ints(c, [g * a]), ints(c, [g * b]))
    c.true(c.And(n[0] == a, d[0] == b), "reduced with a positive denominator")


def mixed_values(tier):
    B = 8 if tier == "quick" else 16
    return sorted({Fraction(p, q) for q in range(1, B + 1) for p in range(0, 3 * B)})


@harness(lambda t: [{"md": md, "k": k, "cx": cx} for md in (4, 4096) for k in range(4) for cx in (False, True)], "±sqrt(p/q) with q within the limit, on both parts", limit=200, max_replays=40, max_paths=4000)
def rounding(c, md, k, cx):
    m = c.util
    fn = getattr(m, "__sx_orig_round__", m.round_to_sqrt_rational)
    vals = mixed_values("quick")[k::4]
    x = c.choice("x", vals)
    sgn = c.choice("sign", [1, -1])
    z = sgn * c.sqrt(c.q(x.numerator, x.denominator))
    if cx:
        y = vals[(3 * vals.index(x) + 1) % len(vals)]
        z = z + c.j * c.sqrt(c.q(y.numerator, y.denominator)) * c.choice("sign2", [1, -1])
    w = c.np.array([z, z])
    if not c.sym:
        w = w.astype(complex if cx else float)
    s = c.snapshot(w)
    out = fn(w, md) if md != 4096 else fn(w)
    c.eq(out, s, "square roots of rationals within the limit are kept")
    c.eq(w, s, "argument not modified")
    if not cx:
        c.true(c.is_real_dtype(out), "a real array stays real")
    out2 = fn(out, md)
    c.eq(out2, out, "rounding twice changes nothing")


WIDE = [Fraction(1, 4096), Fraction(4095, 4096), Fraction(1, 4095), Fraction(999, 1000), Fraction(1, 3) + 100, Fraction(5, 7) + 1000,
        Fraction(10**6), Fraction(10**6) + Fraction(1, 2), Fraction(1, 4096 * 4096), Fraction(3, 4096 * 4095), Fraction(0), Fraction(1), Fraction(123457, 1000)]


@harness(lambda t: [{"cx": cx} for cx in (False, True)], "±sqrt(r) for listed rationals of very different sizes (denominator up to 4096 squared), default limit", limit=200, max_replays=60)
def sizes(c, cx):
    m = c.util
    fn = getattr(m, "__sx_orig_round__", m.round_to_sqrt_rational)
    x = c.choice("x", WIDE)
    z = c.choice("sign", [1, -1]) * c.sqrt(c.q(x.numerator, x.denominator))
    if cx:
        y = WIDE[(5 * WIDE.index(x) + 3) % len(WIDE)]
        z = z + c.j * c.sqrt(c.q(y.numerator, y.denominator))
    w = c.np.array([z])
    if not c.sym:
        w = w.astype(complex if cx else float)
    c.eq(fn(w), w, "square roots of rationals within the limit are kept")
    c.eq(fn(w[0]), w[0], "on a scalar")


@harness(lambda t: [{"M": M} for M in ((3, 10) if t == "quick" else (3, 10, 30))], "numbers between the admissible squares: the closest admissible square is returned", limit=200, max_replays=60)
def rounds_off(c, M):
    m = c.util
    fn = getattr(m, "__sx_orig_round__", m.round_to_sqrt_rational)
    L = M * M + 1
    q = c.pick("q", L + 1, L + (20 if M < 30 else 8))
    p = c.choice("p", [1, 2, 3, q // 2, q - 1, q + 1, 3 * q + 2, 7 * q - 1])
    f = Fraction(p, q)
    c.assume(f.denominator > L)
    g = f.limit_denominator(L)
    h = 2 * f - g
    c.assume(h.denominator > L)          # no tie
    s = c.choice("sign", [1, -1])
    w = c.np.array([s * c.sqrt(c.q(f.numerator, f.denominator))])
    c.eq(fn(w, M), c.np.array([s * c.sqrt(c.q(g.numerator, g.denominator))]), "square root of the closest admissible rational")


class ExactSympy:
    """the few entry points that build square roots of rationals, on exact numbers"""

    def __init__(self, c):
        q = lambda n, d=1: c.num(n) / c.num(d)
        self.Number = self.Integer = self.Rational = self.S = self.sympify = q
        self.sqrt = c.sqrt
        self.I = c.j
        self.Abs = abs


@harness(lambda t: [{"md": md, "k": k} for md in (4, 4096) for k in range(3)], "±sqrt(p/q) with q within the limit on the real part, the imaginary part or both, as symbolic expressions", limit=200, max_replays=40, max_paths=4000)
def symbolic_form(c, md, k):
    """the variant that returns a sympy expression has the same value"""
    m = c.util
    if c.sym:
        m.sp = ExactSympy(c)
    vals = mixed_values("quick")[k::3]
    x = c.choice("x", vals)
    kind = c.choice("kind", ["real", "imaginary", "both"])
    r = (c.choice("sign", [1, -1]) if kind != "imaginary" else 1) * c.sqrt(c.q(x.numerator, x.denominator))
    y = vals[(7 * vals.index(x) + 2) % len(vals)]
    i = (c.choice("sign2", [1, -1]) if kind != "real" else 1) * c.sqrt(c.q(y.numerator, y.denominator))
    z = r if kind == "real" else c.j * i if kind == "imaginary" else r + c.j * i
    if not c.sym:
        z = c.np.float64(z) if kind == "real" else c.np.complex128(z)
    out = m.round_to_sqrt_rational_sympy(z, md)
    if not c.sym:
        out = complex(out)
    c.eq(c.np.array([out]), c.np.array([z]), "same number")
