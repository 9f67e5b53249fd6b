"""Clustering with a tolerance."""
from sx.h import harness


def d2(c, x, y):
    """squared distance of two elements (lists of entries)"""
    s = 0
    for a, b in zip(x, y):
        z = a - b
        s = s + z.real * z.real + z.imag * z.imag
    return s


def check(c, a, tol):
    np = c.np
    n = a.shape[0]
    xs = [[a[(i,) + k] for k in np.ndindex(*a.shape[1:])] for i in range(n)]
    near = {}
    for i in range(n):
        for j in range(i):
            q = d2(c, xs[i], xs[j])
            if c.sym:
                c.assume(c.Not(q == tol * tol))
            else:
                c.assume(abs(float(q) - tol * tol) > 1e-9)
            near[i, j] = near[j, i] = c.decide(q < tol * tol)
    leaders, owner, clash = [], [], False
    for i in range(n):
        own = [g for g, l in enumerate(leaders) if near[i, l]]
        if not own:
            own = [len(leaders)]
            leaders.append(i)
        owner.append(own[0])
    for i in range(n):
        if i not in leaders and sum(near[i, l] for l in leaders) > 1:
            clash = True
    keep = c.snapshot(a)
    ok, r = c.attempt(lambda: c.util.unique_with_tol(a, tol=tol), ValueError)
    c.true(ok == (not clash), "reported exactly when an element is close to two group leaders")
    c.eq(a, keep, "operand not modified")
    if not ok:
        return
    centers, inv = r
    c.shape(inv, (n,), "one group per element")
    c.shape(centers, (len(leaders),) + tuple(a.shape[1:]), "one centre per group")
    for i in range(n):
        c.true(int(inv[i]) == owner[i], "group of the earliest leader within the tolerance, numbered by first appearance")
    for g in range(len(leaders)):
        mem = [i for i in range(n) if owner[i] == g]
        for e, k in enumerate(np.ndindex(*a.shape[1:])):
            s = 0
            for i in mem:
                s = s + xs[i][e]
            c.eq(centers[(g,) + k] * len(mem), s + 0.0, "centre is the mean")


def tolerance(c):
    t = c.real("tol")
    c.assume(c.And(t > c.q(1, 100), t < 100))
    return t


@harness(lambda t: [dict(n=n, fix=f) for n in (1, 2, 3, 4) + ((5,) if t == "thorough" else ()) for f in (0, 1) if n < 4 or not f], "all real scalars, up to 4 (5) elements, any tolerance above 1/100 (or 1/4 exactly), no distance exactly equal to the tolerance", limit=250, max_paths=400, max_replays=60)
def scalars(c, n, fix):
    a = c.arr("a", (n,))
    if not c.sym:
        c.assume(abs(a).max() < 1e6)
    check(c, a, c.q(1, 4) if fix else tolerance(c))


@harness(lambda t: [dict(n=n, m=m, kind=k) for n, m in ((5, 1), (6, 1), (6, 2), (9, 3)) + (((12, 4), (10, 5)) if t == "thorough" else ()) for k in ("real", "complex")],
         "5 to 9 (12) elements in 1 to 3 (5) tight clusters, interleaved: the values of a cluster differ by up to 1/100, clusters are a unit or more apart; tolerance 1/4", limit=250, max_paths=60)
def many(c, n, m, kind):
    np = c.np
    step = c.real("step")
    c.assume(c.And(step >= c.q(1, 1), step <= 100))
    a = []
    for i in range(n):
        x = c.real(f"e{i}")
        c.assume(c.And(x >= 0, x <= c.q(1, 100)))
        v = step * (i * i % m) + x
        if kind == "complex":
            v = v + c.j * x / 2
        a.append(v)
    check(c, np.array(a), c.q(1, 4))


@harness(lambda t: [dict(n=n, m=m) for n, m in ((7, 7), (8, 6), (9, 8)) + (((12, 10),) if t == "thorough" else ())], "7 to 9 (12) eigenvalues, 6 to 8 (10) of them distinct and a unit or more apart", limit=250, max_paths=60)
def spectrum(c, n, m):
    np = c.np
    step = c.real("step")
    c.assume(c.And(step >= c.q(1, 1), step <= 100))
    where = [(3 * i) % m if m % 3 else i % m for i in range(n)]
    val = np.array([step * k + 0.0 for k in where])
    vec = c.arr("w", (2, n), "complex")
    r = c.util.eigenspaces(val, vec, epsilon=c.q(1, 4))
    c.true(len(r) == len(set(where)), "one space per distinct eigenvalue")
    order = list(dict.fromkeys(where))
    for (v, W), k in zip(r, order):
        g = [i for i in range(n) if where[i] == k]
        c.shape(W, (2, len(g)), "one column per eigenvector")
        c.eq(v * len(g), sum(val[i] for i in g) + 0.0, "mean eigenvalue")
        for q, i in enumerate(g):
            c.eq(W[:, q], vec[:, i], "the eigenvectors of the group")


@harness(lambda t: [dict(n=n, shape=s, kind=k, fix=f) for n, s, k in ([(1, (2,), "real"), (2, (2,), "real"), (3, (2,), "real"), (2, (), "complex"), (3, (), "complex"), (2, (1, 2), "real"), (2, (2,), "complex"), (2, (3,), "real"), (3, (1,), "real"), (2, (2, 2), "real")] + ([(4, (2,), "real"), (4, (), "complex"), (3, (3,), "real")] if t == "thorough" else [])) for f in (0, 1)],
         "all vectors, matrices and complex numbers of the stated shapes", limit=250, max_paths=400, max_replays=60)
def vectors(c, n, shape, kind, fix):
    a = c.arr("a", (n,) + tuple(shape), kind)
    if not c.sym:
        c.assume(abs(a).max() < 1e6)
    check(c, a, c.q(1, 4) if fix else tolerance(c))


@harness(lambda t: [dict(n=n, d=d) for n, d in ((1, 1), (2, 2), (3, 3), (3, 2)) + (((4, 4),) if t == "thorough" else ())], "eigenvalues by free numbers, one eigenvector per column", limit=250, max_paths=300)
def spaces(c, n, d):
    """the eigenvectors of an eigenvalue are the columns of its group"""
    np = c.np
    val, vec = c.arr("v", (n,)), c.arr("w", (d, n), "complex")
    if not c.sym:
        c.assume(abs(val).max() < 1e6)
    tol = c.q(1, 2)
    for i in range(n):
        for j in range(i):
            x = val[i] - val[j]
            c.assume(c.Or(x > 2 * tol, -x > 2 * tol, c.And(x < tol / 4, -x < tol / 4)))
    r = c.util.eigenspaces(val, vec, epsilon=tol)
    groups = []
    for i in range(n):
        for g in groups:
            if c.decide(c.And(val[i] - val[g[0]] < tol, val[g[0]] - val[i] < tol)):
                g.append(i)
                break
        else:
            groups.append([i])
    c.true(len(r) == len(groups), "one space per distinct eigenvalue")
    for (v, W), g in zip(r, groups):
        c.shape(W, (d, len(g)), "one column per eigenvector")
        c.eq(v * len(g), sum(val[i] for i in g) + 0.0, "mean eigenvalue")
        for k, i in enumerate(g):
            c.eq(W[:, k], vec[:, i], "the eigenvectors of the group")
