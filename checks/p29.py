"""Operations leave operands alone and repeat the same answer, whatever was called or modified in between."""
from sx.h import harness
from checks.common import sym_rep, sym_algebra
from checks.p12 import irreps


def is_arr(x):
    return hasattr(x, "shape") and hasattr(x, "ndim") and hasattr(x, "__setitem__")


def leaves(c, x, out=None, seen=None):
    """every array reachable from a result or operand, in a fixed order"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if is_arr(x):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            leaves(c, y, out, seen)
    elif isinstance(x, c.lie.Rep):
        if id(x) not in seen:
            seen.add(id(x))
            for k in sorted(vars(x)):
                leaves(c, vars(x)[k], out, seen)
    return out


def value(c, x):
    """comparable description: list of arrays, and a list of plain facts"""
    arrs, facts = [], []

    def go(x):
        if is_arr(x):
            arrs.append(c.snapshot(x))
        elif isinstance(x, c.lie.Rep):
            facts.append((type(x).__name__, x.dim, repr(x)))
            for g in (x.algebra(), x.continuous_generators(), x.discrete_generators()):
                arrs.append(c.snapshot(g))
            if isinstance(x, c.lie.ReducedRep):
                facts.append([(m.mul, repr(m.rep)) for m in x.irreps])
                if x.Q is not None:
                    arrs.append(c.snapshot(x.Q))
        elif isinstance(x, (list, tuple)):
            facts.append(len(x))
            for y in x:
                go(y)
        elif isinstance(x, (bool, str, int)) or x is None:
            facts.append(x)
        else:
            arrs.append(c.np.array([x]))
    go(x)
    return arrs, facts


def same(c, a, b, label):
    c.true(a[1] == b[1] and len(a[0]) == len(b[0]), label + " (kind)")
    for x, y in zip(a[0], b[0]):
        c.true(tuple(x.shape) == tuple(y.shape), label + " (shape)")
        c.eq(x, y, label)


def spoil(c, x):
    """overwrite every array of a result, and what its accessors return"""
    ls = leaves(c, x)
    if isinstance(x, c.lie.Rep):
        ls += [x.algebra(), x.continuous_generators(), x.discrete_generators()]
    for a in ls:
        if len(a.shape) and not 0 in a.shape:
            try:
                a[...] = a * 3 + 7
            except (ValueError, TypeError):
                pass                      # read-only: cannot be modified


def ops(c, fam):
    """name -> (function returning fresh equal operands, operation)"""
    np, lie, U = c.np, c.lie, c.util
    L = c.mod("lie_nn.irreps")
    o = {}
    if fam == "dense":
        M, V, W = c.arr("m", (2, 2)), c.arr("v", (2, 3)), c.arr("w", (1, 2), "complex")
        T = np.array([[1.0, 0.0], [0.0, 1.0]])
        T[0, 1] = c.real("t")
        s = c.snapshot
        o["gram_schmidt"] = lambda: [s(M)], U.gram_schmidt
        o["extend_basis"] = lambda: [s(W)], U.extend_basis
        o["extend_basis E"] = lambda: [s(V[:1])], lambda a: U.extend_basis(a, returns="E")
        o["kron"] = lambda: [s(M), s(W)], U.kron
        o["direct_sum"] = lambda: [s(M), s(W)], U.direct_sum
        o["block_diagonal"] = lambda: [[s(M)[None], s(W)[None]]], U.block_diagonal
        o["block_diagonal 1"] = lambda: [[s(M)[None]]], U.block_diagonal
        o["direct_sum 2"] = lambda: [s(M), s(M)], U.direct_sum
        o["commutator"] = lambda: [s(M), s(T)], U.commutator
        o["vmap"] = lambda: [s(V)], U.vmap(lambda x: 2.0 * x, 1, 0)
        o["vmap tuple"] = lambda: [s(V)], U.vmap(lambda x: (2.0 * x, x), 0, -1)
        o["nullspace"] = lambda: [s(T)], U.nullspace
        o["basis_intersection"] = lambda: [s(T), s(T[:1])], U.basis_intersection
        o["sign"] = lambda: [(2, 0, 1)], U.permutation_sign
        o["regular"] = lambda: [np.array([[0, 1], [1, 0]])], U.regular_representation
        o["round"] = lambda: [np.array([0.5, 0.25])], U.round_to_sqrt_rational
        o["unique"] = lambda: [np.array([0.5, 2.5, 0.5])], lambda a: U.unique_with_tol(a, tol=0.1)
    elif fam == "plain":
        A = sym_algebra(c, 2)
        r1, r2 = sym_rep(c, "a", A, 2, 1, "real"), sym_rep(c, "b", A, 1, 1, "complex")
        x = c.real("q")
        Q = np.array([[1.0, 0.0], [0.0, 1.0]])
        Q[0, 1] = x
        s = c.snapshot
        f = lambda r: lie.GenericRep(s(r.A), s(r.X), s(r.H))
        o["tensor_product"] = lambda: [f(r1), f(r2)], lie.tensor_product
        o["tensor_power"] = lambda: [f(r1)], lambda r: lie.tensor_power(r, 2)
        o["direct_sum"] = lambda: [f(r1), f(r2)], lie.direct_sum
        o["change_basis"] = lambda: [f(r1), s(Q)], lie.change_basis
        o["change_algebra"] = lambda: [f(r1), s(Q)], lie.change_algebra
        o["conjugate"] = lambda: [f(r2)], lie.conjugate
        o["group_product"] = lambda: [f(r1), f(r2)], lie.group_product
        o["infer"] = lambda: [f(r2), f(r2)], lie.infer_change_of_basis
        o["cg"] = lambda: [f(r2), f(r2), f(r2)], lie.clebsch_gordan
        o["trivial"] = lambda: [f(r1)], lambda r: r.create_trivial()
        o["from_rep"] = lambda: [f(r1)], lie.GenericRep.from_rep
        o["is_trivial"] = lambda: [f(r2)], lambda r: bool(r.is_trivial())
        o["algebra"] = lambda: [s(Q)[None]], lambda X: U.infer_algebra_from_generators(X)
        o["exp_map"] = lambda: [f(r2), np.zeros(2), [2]], lambda r, a, k: r.exp_map(a, k)
        o["unitary"] = lambda: [lie.GenericRep.from_rep(L.SU2(1))], lambda r: bool(lie.is_unitary(r))
    elif fam == "reduced":
        x = c.real("q")
        Q = np.array([[1.0, 0.0], [0.0, 1.0]])
        Q[0, 1] = x
        s = c.snapshot
        R = lambda: lie.ReducedRep.from_irreps([L.O3(0, 1), (1, L.O3(0, -1))], s(Q))
        N = lambda: lie.ReducedRep.from_irreps([L.O3(0, 1), (2, L.O3(0, -1))])
        o["tensor_product"] = lambda: [R(), N()], lie.tensor_product
        o["tensor_product mixed"] = lambda: [R(), L.O3(0, -1)], lie.tensor_product
        o["tensor_product mul"] = lambda: [lie.MulIrrep(2, L.O3(0, 1)), lie.MulIrrep(1, L.O3(0, -1))], lie.tensor_product
        o["tensor_power"] = lambda: [R()], lambda r: lie.tensor_power(r, 2)
        o["change_basis"] = lambda: [R(), s(Q)], lie.change_basis
        o["change_basis none"] = lambda: [lie.ReducedRep.from_irreps([(2, L.O3(0, -1))]), s(Q)], lie.change_basis
        o["direct_sum"] = lambda: [R(), N()], lie.direct_sum
        o["conjugate"] = lambda: [R()], lie.conjugate
        o["reduce"] = lambda: [R()], lie.reduce
        o["reduce mul"] = lambda: [lie.MulIrrep(2, L.O3(0, 1))], lie.reduce
        o["trivial"] = lambda: [R()], lambda r: r.create_trivial()
        o["basis"] = lambda: [R(), N()], lambda a, b: lie.reduced_tensor_product_basis([a, b])
        o["basis none"] = lambda: [N(), N()], lambda a, b: lie.reduced_tensor_product_basis([a, b])
        o["from_string"] = lambda: [], lambda: lie.ReducedRep.from_string("0e+2x0o", L.O3)
    elif fam == "irreps":
        o["SU2"] = lambda: [L.SU2(1)], lambda r: r
        o["SU2 2"] = lambda: [L.SU2(2)], lambda r: r
        o["SO3"] = lambda: [L.SO3(1)], lambda r: r
        o["O3"] = lambda: [L.O3(1, -1)], lambda r: r
        o["Z2"] = lambda: [L.Z2(-1)], lambda r: r
        o["SU2Real"] = lambda: [L.SU2Real(1)], lambda r: r
        o["SL2C"] = lambda: [L.SL2C(1, 0)], lambda r: r
        o["SO13"] = lambda: [L.SO13(1, 1)], lambda r: r
        o["SU3"] = lambda: [L.SU3((1, 0, 0))], lambda r: r
        o["prod"] = lambda: [lie.group_product(L.SU2(1), L.Z2(-1))], lambda r: r
        o["mul"] = lambda: [lie.MulIrrep(2, L.SU2(1))], lambda r: r
        o["cg SU2"] = lambda: [L.SU2(1), L.SU2(1), L.SU2(2)], lie.clebsch_gordan
        o["cg SO3"] = lambda: [L.SO3(1), L.SO3(1), L.SO3(1)], lie.clebsch_gordan
        o["cg O3"] = lambda: [L.O3(1, -1), L.O3(1, 1), L.O3(0, -1)], lie.clebsch_gordan
        o["cg SU3"] = lambda: [L.SU3((1, 0, 0)), L.SU3((1, 1, 0)), L.SU3((0, 0, 0))], lie.clebsch_gordan
        o["cg SL2C"] = lambda: [L.SL2C(1, 0), L.SL2C(1, 0), L.SL2C(0, 0)], lie.clebsch_gordan
        o["cg Z2"] = lambda: [L.Z2(-1), L.Z2(-1), L.Z2(1)], lie.clebsch_gordan
        o["tp SU2"] = lambda: [L.SU2(1), L.SU2(1)], lie.tensor_product
        o["tp SO3"] = lambda: [L.SO3(1), L.SO3(1)], lie.tensor_product
        o["mul SU2"] = lambda: [L.SU2(1), L.SU2(2)], lambda a, b: list(a * b)
        o["trivial"] = lambda: [L.SU3((1, 0, 0))], lambda r: r.create_trivial()
        o["iter"] = lambda: [], lambda: [x for x, _ in zip(L.SU2.iterator(), range(3))]
    elif fam == "perm":
        B = lie.reduced_tensor_product_basis
        o["ij=ji"] = lambda: [], lambda: B("ij=ji", i=L.SO3(1))
        o["ij=-ji"] = lambda: [], lambda: B("ij=-ji", i=L.SO3(1))
        o["ij=ji O3"] = lambda: [], lambda: B("ij=ji", i=L.O3(1, -1))
        o["ij=ji small"] = lambda: [], lambda: B("ij=ji", i=L.SU2(1))
        o["ij=-ji small"] = lambda: [], lambda: B("ij=-ji", i=L.SU2(1))
        o["ijk=jik"] = lambda: [], lambda: B("ijk=jik", i=L.SU2(1), k=L.SU2(1))
        o["ijk=jik=ikj"] = lambda: [], lambda: B("ijk=jik=ikj", i=L.SU2(1))
        o["sym"] = lambda: [L.SU2(1)], lambda r: lie.reduced_symmetric_tensor_product_basis(r, 2)
        o["sym3"] = lambda: [L.SU2(1)], lambda r: lie.reduced_symmetric_tensor_product_basis(r, 3)
        o["list"] = lambda: [[L.SU2(1), L.SU2(2)]], B
        o["one"] = lambda: [[lie.ReducedRep.from_irreps([L.SU2(1), L.SU2(0)])]], B
    elif fam == "finite":
        F = c.mod("lie_nn.finite")
        for n in (2, 3, 4):
            o[f"nat{n}"] = (lambda n: lambda: [F.Sn_natural(n)])(n), lambda r: r
            o[f"std{n}"] = (lambda n: lambda: [F.Sn_standard(n)])(n), lambda r: r
        o["tp"] = lambda: [F.Sn_standard(3), F.Sn_standard(3)], lie.tensor_product
        o["infer"] = lambda: [F.Sn_standard(3), F.Sn_standard(3)], lie.infer_change_of_basis
        o["cg"] = lambda: [F.Sn_standard(3), F.Sn_standard(3), F.Sn_standard(3)], lie.clebsch_gordan
        o["real"] = lambda: [L.SU2(2)], lie.make_explicitly_real
        o["is_real"] = lambda: [L.SU2(1)], lambda r: bool(lie.is_real(r))
        o["irreducible"] = lambda: [F.Sn_natural(3)], lambda r: bool(lie.is_irreducible(r))
    return o


NAMES = {"dense": ["gram_schmidt", "extend_basis", "extend_basis E", "kron", "direct_sum", "block_diagonal", "block_diagonal 1", "direct_sum 2", "commutator", "vmap", "vmap tuple", "nullspace", "basis_intersection", "sign", "regular", "round", "unique"],
         "plain": ["tensor_product", "tensor_power", "direct_sum", "change_basis", "change_algebra", "conjugate", "group_product", "infer", "cg", "trivial", "from_rep", "is_trivial", "algebra", "exp_map", "unitary"],
         "reduced": ["tensor_product", "tensor_product mixed", "tensor_product mul", "tensor_power", "change_basis", "change_basis none", "direct_sum", "conjugate", "reduce", "reduce mul", "trivial", "basis", "basis none", "from_string"],
         "irreps": ["SU2", "SU2 2", "SO3", "O3", "Z2", "SU2Real", "SL2C", "SO13", "SU3", "prod", "mul", "cg SU2", "cg SO3", "cg O3", "cg SU3", "cg SL2C", "cg Z2", "tp SU2", "tp SO3", "mul SU2", "trivial", "iter"],
         "perm": ["ij=ji", "ij=-ji", "ij=ji O3", "ij=ji small", "ij=-ji small", "ijk=jik", "ijk=jik=ikj", "sym", "sym3", "list", "one"],
         "finite": ["nat2", "nat3", "nat4", "std2", "std3", "std4", "tp", "infer", "cg", "real", "is_real", "irreducible"]}


def call(c, o, name):
    """run one operation on fresh operands: (result, its value), checking that the operands were left alone"""
    make, op = o[name]
    args = make()
    before = value(c, args)
    r = op(*args)
    v = value(c, r)
    same(c, value(c, args), before, "operands not modified")
    return r, v, args


@harness(lambda t: [{"fam": f, "name": n} for f in NAMES for n in NAMES[f]], "every listed operation followed by every other one of its group (or itself), all returned arrays overwritten after each call, then the first again; symbolic operand entries", limit=250, max_paths=120, max_replays=25)
def history(c, fam, name):
    o = ops(c, fam)
    other = c.choice("other", NAMES[fam])
    r1, v1, a1 = call(c, o, name)
    spoil(c, r1)
    r2, v2, _ = call(c, o, other)
    spoil(c, r2)
    r3, v3, _ = call(c, o, name)
    same(c, v3, v1, "same answer as the first time")


@harness(lambda t: [{"fam": f, "name": n} for f in NAMES for n in NAMES[f]], "the same operation three times on the same operands", limit=250)
def repeat(c, fam, name):
    o = ops(c, fam)
    make, op = o[name]
    args = make()
    before = value(c, args)
    v = value(c, op(*args))
    for _ in range(2):
        same(c, value(c, op(*args)), v, "same answer again")
    same(c, value(c, args), before, "operands not modified")
