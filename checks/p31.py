"""Array combinators against their entrywise definitions."""
import itertools
from sx.h import harness


def at(a, axis, i):
    """slice i of the array along the axis, entry by entry"""
    nd = len(a.shape)
    ax = axis % nd
    return {k[:ax] + k[ax + 1:]: a[k] for k in itertools.product(*[range(s) for s in a.shape]) if k[ax] == i}


def entries(a):
    return {k: a[k] for k in itertools.product(*[range(s) for s in a.shape])}


def shapes(nd, sizes=(1, 2, 3)):
    return [tuple(sizes[(i * 2 + s) % 3] for i in range(nd)) for s in (0, 1)]


@harness(lambda t: [dict(nd=nd, kind=k, fun=f) for nd in ((1, 2, 3) if t == "quick" else (1, 2, 3, 4)) for k in ("real", "complex") for f in ("id", "sum", "outer")], "one operand of 1..3 (4) axes, every input axis -n..n-1, every output axis, three mapped functions", limit=200, max_paths=200, max_replays=60)
def vmap_one(c, nd, kind, fun):
    np = c.np
    shape = shapes(nd)[c.pick("s", 0, 1)]
    a = c.arr("a", shape, kind)
    ax = c.pick("in", -nd, nd - 1)
    f = {"id": lambda x: x, "sum": lambda x: np.sum(x) * (1.0 + 0 * x.reshape(-1)[:1]) if x.ndim else x, "outer": lambda x: np.stack([x, 2.0 * x])}[fun]
    got_nd = {"id": nd - 1, "sum": 1 if nd > 1 else 0, "outer": nd}[fun]
    out = c.pick("out", -got_nd - 1, got_nd)
    keep = c.snapshot(a)
    r = c.util.vmap(f, ax, out)(a)
    o = out % (got_nd + 1)
    n = shape[ax % nd]
    c.true(r.ndim == got_nd + 1 and r.shape[o] == n, "output axis")
    for i in range(n):
        x = np.array(list(at(a, ax, i).values())).reshape(tuple(s for k, s in enumerate(shape) if k != ax % nd))
        want = f(x)
        g = at(r, out, i)
        c.true(len(g) == int(np.prod(np.array(want.shape))) if want.ndim else len(g) == 1, "shape of the slices")
        for k in g:
            c.eq(g[k], want[k] if want.ndim else want, "slice of the result is the function of the slice")
    c.eq(a, keep, "operand not modified")


@harness(lambda t: [dict(n1=a, n2=b) for a in (0, 1, 2, 3) for b in (0, 1, 2, 3) if a + b], "two operands (0: not mapped, else the number of axes), every pair of input axes, output axes, axes given as a tuple or one number", limit=200, max_paths=200, max_replays=40)
def vmap_two(c, n1, n2):
    np = c.np
    N = 2
    def operand(name, nd):
        if nd == 0:
            return c.arr(name, (2,)), None, None
        ax = c.pick("in" + name, -nd, nd - 1)
        sh = [3 - k % 2 for k in range(nd)]
        sh[ax % nd] = N
        return c.arr(name, tuple(sh)), ax, tuple(s for k, s in enumerate(sh) if k != ax % nd)
    a, i1, s1 = operand("a", n1)
    b, i2, s2 = operand("b", n2)
    f = lambda x, y: np.stack([x.reshape(-1)[0] + 3.0 * y.reshape(-1)[-1], x.reshape(-1)[-1] - y.reshape(-1)[0]])
    out = c.pick("out", -2, 1)
    ins = (i1, i2) if not (i1 == i2 and c.pick("one", 0, 1)) else i1
    r = c.util.vmap(f, ins, out)(a, b)
    c.shape(r, (2, 2), "shape")
    for i in range(N):
        x = a if i1 is None else np.array(list(at(a, i1, i).values()))
        y = b if i2 is None else np.array(list(at(b, i2, i).values()))
        w = f(x, y)
        for k in range(2):
            c.eq(r[(i, k) if out % 2 == 0 else (k, i)], w[k], "slice of the result")


@harness(lambda t: [dict(nd=nd) for nd in (1, 2)], "functions returning tuples", limit=100)
def vmap_tuple(c, nd):
    np = c.np
    a = c.arr("a", (3, 2)[:nd], "complex")
    ax, out = c.pick("in", -nd, nd - 1), c.pick("out", -1, 0)
    r = c.util.vmap(lambda x: (np.sum(x), 2.0 * np.sum(x)), ax, out)(a)
    c.true(isinstance(r, tuple) and len(r) == 2, "a tuple")
    n = a.shape[ax % nd]
    for i in range(n):
        s = sum(at(a, ax, i).values())
        c.eq(r[0][i], s, "first")
        c.eq(r[1][i], 2.0 * s, "second")


@harness(lambda t: [dict(nd=nd) for nd in (1, 2, 3)], "functions returning a tuple of a slice, a stack of two slices and its first entry; every input axis and every output axis valid for all of them", limit=150, max_paths=100)
def vmap_tuple_axes(c, nd):
    np = c.np
    a = c.arr("a", (3, 2, 2)[:nd])
    ax = c.pick("in", -nd, nd - 1)
    lo = nd - 1
    out = c.pick("out", -lo - 1, lo)
    r = c.util.vmap(lambda x: (x, np.stack([x, 2.0 * x]), 3.0 * x), ax, out)(a)
    c.true(isinstance(r, tuple) and len(r) == 3, "a tuple")
    n = a.shape[ax % nd]
    for i in range(n):
        x = np.array(list(at(a, ax, i).values())).reshape(tuple(s for k, s in enumerate(a.shape) if k != ax % nd))
        for g, w in zip(r, (x, np.stack([x, 2.0 * x]), 3.0 * x)):
            o = out % (w.ndim + 1)
            c.true(g.ndim == w.ndim + 1 and g.shape[o] == n, "output axis")
            got = at(g, o, i)
            for k in got:
                c.eq(got[k], w[k] if w.ndim else w, "slice of each output")


@harness(lambda t: [dict(nd=k) for k in (1, 2, 3)], "an axis of length zero with a declared output shape of 0..2 axes", limit=100, max_paths=100)
def vmap_empty(c, nd):
    np = c.np
    ax = c.pick("in", -nd, nd - 1)
    sh = [2] * nd
    sh[ax % nd] = 0
    k = c.pick("k", 0, 2)
    os = (3, 4)[:k]
    out = c.pick("out", -k - 1, k)
    r = c.util.vmap(lambda x: x, ax, out, out_shape=os)(np.zeros(tuple(sh)))
    want = list(os)
    want.insert(out % (k + 1), 0)
    c.shape(r, tuple(want), "shape of the empty result")
    r = c.util.vmap(lambda x: np.zeros(os), ax, out, out_shape=os)(np.zeros(tuple(1 if s == 0 else s for s in sh)))
    want[out % (k + 1)] = 1
    c.shape(r, tuple(want), "same axes when not empty")


@harness(lambda t: [dict(n=n, kinds=k) for n in (1, 2, 3) + ((4,) if t == "thorough" else ()) for k in ("rrrr", "crcr", "cccc")], "one to three (four) matrices of shapes (1..2, 1..3)", limit=150, max_paths=100)
def kron(c, n, kinds):
    np = c.np
    ms = []
    for i in range(n):
        s = ((1, 2), (2, 1), (2, 2), (1, 1), (2, 3))[c.pick(f"s{i}", 0, 4 if n < 3 else 2)]
        ms.append(c.arr("abcd"[i], s, "complex" if kinds[i] == "c" else "real"))
    keep = [c.snapshot(m) for m in ms]
    r = c.util.kron(*ms)
    R, C = [m.shape[0] for m in ms], [m.shape[1] for m in ms]
    p = lambda xs: int(np.prod(np.array(xs)))
    c.shape(r, (p(R), p(C)), "shape")
    for I in itertools.product(*[range(x) for x in R]):
        for J in itertools.product(*[range(x) for x in C]):
            a = b = 0
            w = 1.0
            for k in range(n):
                a, b = a * R[k] + I[k], b * C[k] + J[k]
                w = w * ms[k][I[k], J[k]]
            c.eq(r[a, b], w, "product of the entries")
    for m, k in zip(ms, keep):
        c.eq(m, k, "operand not modified")


@harness(lambda t: [dict(n=n, kinds=k) for n in (1, 2, 3, 4) for k in ("rrrr", "crcr", "rcrr", "rrrc")], "one to four stacks of blocks of picked shapes, batch 0..2", limit=150, max_paths=300)
def block_diagonal(c, n, kinds):
    np = c.np
    z = c.pick("z", 0, 2)
    ms = []
    for i in range(n):
        s = ((1, 2), (2, 1), (0, 1), (2, 2), (1, 1))[c.pick(f"s{i}", 0, 4 if n < 3 else 2)]
        ms.append(c.arr("abcd"[i], (z,) + s, "complex" if kinds[i] == "c" else "real"))
    r = c.util.block_diagonal(ms)
    c.shape(r, (z, sum(m.shape[1] for m in ms), sum(m.shape[2] for m in ms)), "shape")
    c.true(c.is_real_dtype(r) == ("c" not in kinds[:n]), "complex exactly when a block is")
    x = y = 0
    want = np.zeros(r.shape, dtype=complex)
    for m in ms:
        for q in range(z):
            for i in range(m.shape[1]):
                for j in range(m.shape[2]):
                    want[q, x + i, y + j] = m[q, i, j]
        x, y = x + m.shape[1], y + m.shape[2]
    c.eq(r, want, "blocks on the diagonal, zeros elsewhere")


BATCH = [((), ()), ((2,), ()), ((), (2,)), ((2,), (2,)), ((1,), (2,)), ((2, 1), (3,)), ((0,), (1,)), ((2, 1), (1, 3))]


@harness(lambda t: [dict(n=n, kinds=k) for n in (1, 2, 3, 4) for k in ("rrrr", "rcrc", "cccc")], "one to four operands with picked block shapes and eight pairs of broadcast leading axes", limit=150, max_paths=150)
def direct_sum(c, n, kinds):
    np = c.np
    b = BATCH[c.pick("b", 0, len(BATCH) - 1)]
    ms = []
    for i in range(n):
        s = ((1, 2), (2, 1), (2, 2), (0, 1))[c.pick(f"s{i}", 0, 3 if n < 3 else 1)]
        ms.append(c.arr("abcd"[i], b[i % 2] + s, "complex" if kinds[i] == "c" else "real"))
    keep = [c.snapshot(m) for m in ms]
    r = c.util.direct_sum(*ms)
    lead = b[0]
    if n > 1:
        L = max(len(b[0]), len(b[1]))
        q = [(1,) * (L - len(s)) + s for s in b]
        lead = tuple(y if x == 1 else x for x, y in zip(*q))
    c.shape(r, lead + (sum(m.shape[-2] for m in ms), sum(m.shape[-1] for m in ms)), "shape")
    want = np.zeros(r.shape, dtype=complex)
    for z in itertools.product(*[range(s) for s in lead]):
        x = y = 0
        for m in ms:
            zz = z[len(z) - (m.ndim - 2):] if m.ndim > 2 else ()
            zz = tuple(0 if m.shape[k] == 1 else v for k, v in enumerate(zz))
            for i in range(m.shape[-2]):
                for j in range(m.shape[-1]):
                    want[z + (x + i, y + j)] = m[zz + (i, j)]
            x, y = x + m.shape[-2], y + m.shape[-1]
    c.eq(r, want, "blocks on the diagonal, zeros elsewhere")
    for m, k in zip(ms, keep):
        c.eq(m, k, "operand not modified")


@harness(lambda t: [dict(d=d, k1=a, k2=b) for d in (1, 2, 3) + ((4,) if t == "thorough" else ()) for a in ("real", "complex") for b in ("real", "complex")], "square matrices of dimension 1..3 (4)", limit=100)
def commutator(c, d, k1, k2):
    A, B = c.arr("a", (d, d), k1), c.arr("b", (d, d), k2)
    r = c.util.commutator(A, B)
    c.shape(r, (d, d), "shape")
    for i in range(d):
        for j in range(d):
            c.eq(r[i, j], sum(A[i, k] * B[k, j] - B[i, k] * A[k, j] for k in range(d)), "AB - BA")
    S, T = c.arr("s", (2, d, d), k1), c.arr("t", (2, d, d), k2)
    r = c.util.commutator(S, T)
    for q in range(2):
        c.eq(r[q], c.util.commutator(S[q], T[q]), "stacks")


@harness(lambda t: [dict(k=k) for k in (1, 2, 3, 4)], "products of up to 4 integers, reals; permutations of up to 4 items", limit=60)
def small(c, k):
    xs = [c.int(f"x{i}") for i in range(k)]
    p = 1
    for x in xs:
        p = p * x
    c.true(c.util.prod(xs) == p, "product of a list")
    c.true(c.util.prod([]) == 1, "empty product")
    perms = list(itertools.permutations(range(k)))
    s = perms[c.pick("p", 0, len(perms) - 1)]
    inv = sum(1 for i in range(k) for j in range(i) if s[j] > s[i])
    c.true(c.util.permutation_sign(s) == (-1) ** inv, "sign of a permutation")


@harness(None, "six matrices to kron, seven to direct_sum and block_diagonal, of mixed shapes, 6x6 commutators, vmap of three operands over an axis of length 6, products of up to 12 numbers", limit=120)
def many(c):
    np = c.np
    shapes = [(1, 2), (2, 1), (2, 2), (1, 1), (1, 3), (2, 1), (3, 2)]
    k = c.pick("k", 0, 2)
    shapes = shapes[k:] + shapes[:k]
    ms = [c.arr("abcdefg"[i], s, "complex" if i % 3 == 1 else "real") for i, s in enumerate(shapes)]
    r = c.util.kron(*ms[:6])
    n1 = n2 = 1
    for s in shapes[:6]:
        n1, n2 = n1 * s[0], n2 * s[1]
    c.shape(r, (n1, n2), "shape of the Kronecker product")
    for i, rows in enumerate(itertools.product(*[range(s[0]) for s in shapes[:6]])):
        for j, cols in enumerate(itertools.product(*[range(s[1]) for s in shapes[:6]])):
            if (3 * i + j) % 4 == 0:
                w = 1
                for m, x, y in zip(ms, rows, cols):
                    w = w * m[x, y]
                c.eq(r[i, j], w, "Kronecker product of six matrices")
    want = np.zeros((sum(s[0] for s in shapes), sum(s[1] for s in shapes)), dtype=complex)
    x = y = 0
    for m in ms:
        for i in range(m.shape[0]):
            for j in range(m.shape[1]):
                want[x + i, y + j] = m[i, j]
        x, y = x + m.shape[0], y + m.shape[1]
    r = c.util.direct_sum(*ms)
    c.shape(r, want.shape, "shape of the direct sum")
    c.eq(r, want, "direct sum of seven matrices")
    r = c.util.block_diagonal([m[None] for m in ms])
    c.shape(r, (1,) + want.shape, "shape of the block-diagonal matrix")
    c.eq(r[0], want, "block-diagonal matrix of seven blocks")
    A, B = c.arr("A", (6, 6)), c.arr("B", (6, 6))
    r = c.util.commutator(A, B)
    for i in range(6):
        for j in range(6):
            c.eq(r[i, j], sum(A[i, q] * B[q, j] - B[i, q] * A[q, j] for q in range(6)), "AB - BA")
    u, v, w = c.arr("u", (6, 2)), c.arr("v", (2, 6)), c.arr("w", (2,))
    f = c.util.vmap(lambda a, b, d: a * b + d, in_axes=(0, 1, None), out_axes=-1)
    r = f(u, v, w)
    c.shape(r, (2, 6), "shape of the mapped result")
    for i in range(2):
        for q in range(6):
            c.eq(r[i, q], u[q, i] * v[i, q] + w[i], "mapped over three operands")
    xs = [c.real(f"x{i}") for i in range(12)]
    p = 1
    for x in xs:
        p = p * x
    c.eq(c.util.prod(xs), p, "product of a list")
