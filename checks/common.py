"""Helpers used by several harness files (work on symbolic and on real arrays alike)."""


def comm(a, b):
    return a @ b - b @ a


def lincomb(c, coefs, mats, dim):
    r = c.np.zeros((dim, dim))
    for a, m in zip(coefs, mats):
        r = r + a * m
    return r


def check_relations(c, X, A, label="commutation relation"):
    """[X_i, X_j] = A_ijk X_k for all i <= j, and A antisymmetric in its first two indices"""
    n, d = X.shape[0], X.shape[1]
    for i in range(n):
        for j in range(i, n):
            c.eq(comm(X[i], X[j]), lincomb(c, [A[i, j, k] for k in range(n)], X, d), label)
    if n:
        c.eq(A, -c.np.swapaxes(A, 0, 1), "algebra antisymmetric")


def check_rep_shape(c, rep, dim, lie, nH):
    X, H, A = rep.continuous_generators(), rep.discrete_generators(), rep.algebra()
    c.true(rep.dim == dim, "declared dimension")
    c.shape(X, (lie, dim, dim), "shape of the continuous generators")
    c.shape(H, (nH, dim, dim), "shape of the discrete generators")
    c.shape(A, (lie, lie, lie), "shape of the algebra")
    return X, H, A


def check_intertwiner(c, cg, X1, X2, X3, H1=None, H2=None, H3=None, label="intertwiner"):
    """sum_k cg[z,i,j,k] X3[l,k] = sum X1[i,a] ... in the convention of check_representation_triplet"""
    np = c.np
    if cg.shape[0] == 0:
        return
    for a in range(X1.shape[0]):
        left = np.einsum("zijk,lk->zijl", cg, X3[a])
        right = np.einsum("il,zijk->zljk", X1[a], cg) + np.einsum("jl,zijk->zilk", X2[a], cg)
        c.eq(left, right, label)
    if H1 is not None:
        for a in range(H1.shape[0]):
            left = np.einsum("zijk,lk->zijl", cg, H3[a])
            right = np.einsum("il,jm,zijk->zlmk", H1[a], H2[a], cg)
            c.eq(left, right, label + " (discrete)")


def check_orthonormal_paths(c, cg):
    """sum_ij cg[z,i,j,k] conj(cg[y,i,j,l]) = delta_zy delta_kl"""
    np = c.np
    z, d1, d2, d3 = cg.shape
    M = np.moveaxis(cg, 3, 1)
    M = M.reshape(z * d3, d1 * d2)
    c.eq(M @ np.conj(M.T), np.eye(z * d3), "paths orthonormal")


def check_normalised_paths(c, cg):
    """sum_ij cg[z,i,j,k] conj(cg[z,i,j,l]) = delta_kl, and different paths are orthogonal"""
    np = c.np
    z, d1, d2, d3 = cg.shape
    M = np.moveaxis(cg, 3, 1).reshape(z, d3, d1 * d2)
    for a in range(z):
        c.eq(M[a] @ np.conj(M[a].T), np.eye(d3), "path normalised")
    F = cg.reshape(z, d1 * d2 * d3)
    c.eq(F @ np.conj(F.T), d3 * np.eye(z), "distinct paths orthogonal")


def stack_cg(c, cgs):
    """coefficients of one pair stacked over the listed irreps as rows of a (d1 d2)-column matrix"""
    np = c.np
    rows = []
    for cg in cgs:
        z, d1, d2, d3 = cg.shape
        rows.append(np.moveaxis(cg, 3, 1).reshape(z * d3, d1 * d2))
    return np.concatenate(rows, axis=0)


def sym_algebra(c, n, name="A"):
    """antisymmetric real structure constants with free entries"""
    A = c.np.zeros((n, n, n))
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(n):
                x = c.real(f"{name}_{i}_{j}_{k}")
                A[i, j, k] = x
                A[j, i, k] = -x
    return A


def sym_rep(c, name, A, dim, nH, kind="real"):
    """a representation given by arbitrary matrices"""
    n = A.shape[0]
    return c.lie.GenericRep(A, c.arr(name + "X", (n, dim, dim), kind), c.arr(name + "H", (nH, dim, dim), kind))


def defect(X, A):
    """(i, j) -> [X_i, X_j] - A_ijk X_k"""
    n = X.shape[0]
    out = {}
    for i in range(n):
        for j in range(n):
            r = comm(X[i], X[j])
            for k in range(n):
                r = r - A[i, j, k] * X[k]
            out[i, j] = r
    return out


def kron2(c, a, b):
    """entrywise definition, first factor slow"""
    d1, d2 = a.shape[0], b.shape[0]
    out = c.np.zeros((d1 * d2, d1 * d2), dtype=complex)
    for i in range(d1):
        for j in range(d1):
            for k in range(d2):
                for l in range(d2):
                    out[i * d2 + k, j * d2 + l] = a[i, j] * b[k, l]
    return out


def block2(c, a, b):
    m, n = a.shape[0], b.shape[0]
    out = c.np.zeros((m + n, m + n), dtype=complex)
    out[:m, :m] = a
    out[m:, m:] = b
    return out


def same_rep(c, rep, A, Xs, Hs, dim, label=""):
    """generators, discrete generators, algebra and dimension as listed"""
    X, H = rep.X, rep.H
    c.shape(X, (len(Xs), dim, dim), label + "shape of the continuous generators")
    c.shape(H, (len(Hs), dim, dim), label + "shape of the discrete generators")
    c.true(rep.dim == dim, label + "dimension")
    c.eq(rep.A, A, label + "algebra")
    for i, x in enumerate(Xs):
        c.eq(X[i], x, label + "continuous generators")
    for i, h in enumerate(Hs):
        c.eq(H[i], h, label + "discrete generators")


PATTERNS = ["opposite", "negated", "rotated", "axes", "relabelled", "moved"]


def other_algebras(c, n, pattern):
    """two sets of structure constants (entries <= 10) that differ by at least 1/100 somewhere, in the given pattern"""
    np = c.np
    A = np.zeros((n, n, n))
    idx = list(np.ndindex(n, n, n))
    for q in idx:
        x = c.real("A_%d_%d_%d" % q)
        c.assume(c.And(x <= 10, x >= -10))
        A[q] = x
    B = A.copy()
    if pattern in ("opposite", "moved"):       # +t in one entry and -t in another one / one value moved to another entry
        p, q = idx[1], idx[-2] if n > 1 else idx[0]
        t = c.real("t") if pattern == "opposite" else A[p]
        B[p], B[q] = B[p] - t, B[q] + t
    elif pattern == "negated":
        B = -A
    elif pattern == "rotated":
        B = np.swapaxes(A, 0, 1)
    elif pattern == "axes":
        B = np.swapaxes(A, 1, 2)
    else:                                      # generators cyclically renamed
        for i, j, k in idx:
            B[(i + 1) % n, (j + 1) % n, (k + 1) % n] = A[i, j, k]
    c.assume(c.Or(*[c.Or(A[q] - B[q] >= c.q(1, 100), B[q] - A[q] >= c.q(1, 100)) for q in idx]))
    for q in idx:
        c.assume(c.And(B[q] <= 10, B[q] >= -10))
    return A, B


def tiny(c, k, name="e", m=1):
    """a free real number of either sign and size m to 2 m times 10^-k"""
    x = c.real(name)             # scaled: comparisons with very small constants would be read as exact
    c.assume(c.Or(c.And(x >= m, x <= 2 * m), c.And(x <= -m, x >= -2 * m)))
    return x / c.num(10**k)


def so3_constants(c):
    A = c.np.zeros((3, 3, 3))
    for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        A[i, j, k], A[j, i, k] = 1.0, -1.0
    return A


def near_algebras(c, k):
    """the constants of so(3), and the same with one of six entries changed by 1 to 2 times 10^-k"""
    A, B = so3_constants(c), so3_constants(c)
    at = c.choice("at", [(0, 1, 2), (2, 1, 0), (0, 0, 0), (2, 2, 1), (1, 0, 1), (0, 2, 2)])
    B[at] = B[at] + tiny(c, k)
    return A, B
