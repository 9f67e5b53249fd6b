"""Writes /verif/properties.jsonl (source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
S = "lie_nn/_src/"
p("P01", "Rotation-group irreps realise their Lie algebra",
  "For every label of the SU(2), real SU(2), SO(3), O(3) and Z2 irreps, the generators are square matrices of exactly the declared dimension and satisfy [X_i, X_j] = A_ijk X_k with structure constants that do not depend on the label. SU(2) generators are anti-Hermitian, the real families return real antisymmetric generators, and the discrete generators are involutions (parity times the identity) that commute with the continuous ones.",
  ["inputs"], "every irrep label of the five families (label arithmetic unrolled up to the stated size), every element of the Lie algebra and every vector",
  "The tests look at the first seven labels of each family only; the construction uses square roots of label-dependent integers, which can be wrong at one matrix position for one label.",
  [S+"irreps/su2.py", S+"irreps/so3_real.py", S+"irreps/o3_real.py", S+"irreps/su2_real.py", S+"irreps/z2.py"],
  [("ladder construction", S+"irreps/su2.py SU2.continuous_generators"), ("real basis change", S+"irreps/so3_real.py change_basis_real_to_complex"), ("realification", S+"irreps/su2_real.py continuous_generators")],
  ["continuous_generators()", "discrete_generators()", "algebra()", "dim"])
p("P02", "Lorentz-type irreps realise their Lie algebra",
  "For every label of the SL(2,C) and SO(1,3) irreps the six generators have the declared dimension (l+1)(k+1) and satisfy [X_i, X_j] = A_ijk X_k with the structure constants the family declares, which do not depend on the label, and the two Casimir operators (J^2 and K^2 combined, and J.K) have the values of the label. SO(1,3) irreps with l = k are returned with real generators, and the four-vector representation satisfies the same SO(1,3) algebra and preserves the Minkowski metric.",
  ["inputs"], "every label (l, k) up to the stated size, every Lie-algebra element and vector",
  "The tests reach seven labels per family; larger (l, k) exercise other Clebsch-Gordan blocks and the choice of real basis.",
  [S+"irreps/sl2c.py", S+"irreps/so13.py"],
  [("Kronecker sum of two spin representations", S+"irreps/sl2c.py SL2C.continuous_generators"), ("explicit realification", S+"irreps/so13.py SO13.continuous_generators")],
  ["continuous_generators()", "algebra()", "dim", "four_vector()"])
p("P03", "SU(N) irreps realise su(N)",
  "For every dominant weight of SU(N), the N^2-1 generators are anti-Hermitian matrices of the declared dimension and satisfy [X_i, X_j] = A_ijk X_k with real structure constants that depend on N only. The raising and lowering operators they are built from are mutually adjoint, shift the weights by one simple root, and satisfy the SU(2) relations on each node.",
  ["inputs"], "every dominant weight with N <= 4 (and N = 5 for small weights) up to the stated size; the ladder-coefficient identities for arbitrary integer Gelfand-Tsetlin patterns",
  "Tests see seven labels of SU(2), SU(3) and SU(4); the coefficients are ratios of products over pattern entries, so an error can depend on a row or column that small weights never populate.",
  [S+"irreps/sun.py"],
  [("ladder coefficients", S+"irreps/sun.py compute_coeff_upper / compute_coeff_lower"), ("generators from nested commutators", S+"irreps/sun.py generators, E_basis"), ("structure constants", S+"irreps/sun.py algebra")],
  ["continuous_generators()", "algebra()", "dim"])
p("P04", "Clebsch-Gordan coefficients of rotation groups are intertwiners",
  "For every triple of irreps of SU(2), real SU(2), SO(3), O(3) or Z2 the coefficients have shape (paths, d1, d2, d3) and commute with the group action: mapping v1 and v2 through the coefficients and then acting with the third irrep equals acting with the first two first, for continuous and discrete generators. There is at least one path exactly when the third irrep is listed in the product of the first two (exactly one for the complex and SO(3)-type families). All coefficients are real, distinct paths are orthogonal, and contracting a path with itself over both inputs gives the identity on the third irrep.",
  ["inputs"], "all label triples up to the stated size, all vectors and Lie-algebra elements",
  "Tests cover triples among the first four labels; the closed formula sums factorials whose limits change branch with the labels, so wrong limits or phases appear only for larger spins.",
  [S+"irreps/su2.py", S+"irreps/so3_real.py", S+"irreps/o3_real.py", S+"irreps/su2_real.py", S+"irreps/z2.py", S+"clebsch_gordan.py"],
  [("Racah sum", S+"irreps/su2.py clebsch_gordanSU2coeffs"), ("real basis change", S+"irreps/so3_real.py SO3.clebsch_gordan"), ("parity rule", S+"irreps/o3_real.py O3.clebsch_gordan")],
  ["clebsch_gordan(rep1, rep2, rep3)"])
p("P05", "Clebsch-Gordan coefficients of SL(2,C) and SO(1,3) are intertwiners",
  "For every triple of SL(2,C) or SO(1,3) irreps the coefficients have shape (paths, d1, d2, d3), commute with the action of all six generators, and there is exactly one path when the third irrep is listed in the product of the first two and none otherwise. The coefficients of a pair, stacked over the listed irreps, form an invertible change of basis.",
  ["inputs"], "label triples up to the stated size, all vectors and Lie-algebra elements",
  "Tests cover triples among the first four labels, where one of the two chiral spins is mostly zero.",
  [S+"irreps/sl2c.py", S+"irreps/so13.py", S+"infer_change_of_basis.py", S+"util.py"],
  [("product of SU(2) couplings", S+"irreps/sl2c.py clebsch_gordansl2mat"), ("generic solver", S+"irreps/so13.py SO13.clebsch_gordan")],
  ["clebsch_gordan(rep1, rep2, rep3)"])
p("P06", "Clebsch-Gordan coefficients of SU(N) are complete intertwiners",
  "For every triple of SU(N) irreps the coefficients have shape (paths, d1, d2, d3), commute with the action of every generator, and the paths are orthonormal. The number of paths equals the multiplicity of the third irrep in the product of the first two, so that the coefficients of a pair, stacked over the listed irreps, are an orthogonal d1*d2 by d1*d2 matrix.",
  ["inputs"], "triples of dominant weights up to the stated size (including irreps with weight multiplicity and products with multiplicity above one), all vectors and Lie-algebra elements",
  "The first four labels the tests use are all multiplicity-free; the repository itself carries a TODO that tensor products of SU(3) and SU(4) are not consistent.",
  [S+"irreps/sun.py"],
  [("highest-weight constraint", S+"irreps/sun.py construct_highest_weight_constraint, clebsch_gordan_eldest"), ("descent by lowering operators", S+"irreps/sun.py clebsch_gordan_matrix")],
  ["clebsch_gordan(rep1, rep2, rep3)", "tensor_product(rep1, rep2)"])
p("P07", "Irrep products list the right labels for every pair of labels",
  "The product of two irreps of SU(2), real SU(2), SO(3), O(3), SL(2,C), SO(1,3), Z2 or of a direct product of such groups lists valid labels of the same family, each once, exactly those allowed by the angular-momentum (and parity) selection rule. The listed dimensions (with the path multiplicity) add up to the product of the two dimensions, the order of the factors does not change the set, and the trivial irrep is neutral.",
  ["inputs"], "all pairs of labels: one label unbounded, the other up to the stated bound",
  "Tests compare the rule with coefficients for the first four labels only.",
  [S+"irreps/su2.py", S+"irreps/su2_real.py", S+"irreps/so3_real.py", S+"irreps/o3_real.py", S+"irreps/sl2c.py", S+"irreps/so13.py", S+"irreps/z2.py", S+"group_product.py"],
  [("selection rules", "__mul__ of each irrep class")], ["rep1 * rep2", "dim"])
p("P08", "SU(N) products decompose by the Littlewood-Richardson rule",
  "The product of two SU(N) irreps lists only dominant weights of the same N in normal form (last entry 0), in increasing order and each once, contains the sum of the two highest weights, and does not depend on the order of the factors. Counted with multiplicity, the dimensions of the decomposition add up to the product of the dimensions, and the declared dimension of every irrep is the Weyl dimension.",
  ["inputs"], "all weights of the second factor (unbounded), first factor up to the stated size, N = 2, 3, 4",
  "Tests check the rule for four labels of each group against coefficients; boundary cases of the pattern walk need larger weights.",
  [S+"irreps/sun.py"], [("pattern walk", S+"irreps/sun.py mul_rep"), ("dimension", S+"irreps/sun.py dim")], ["rep1 * rep2", "dim"])
p("P09", "Irrep labels are totally ordered and enumerated completely",
  "In every tabulated family the comparison of labels is a strict total order compatible with equality and hashing. The enumeration of a family starts with the trivial irrep, is strictly increasing, repeats nothing and reaches every valid label.",
  ["inputs"], "all pairs and triples of labels (unbounded integers); enumeration up to the stated label size",
  "Tests compare ten consecutive labels; totality and transitivity quantify over all triples.",
  [S+"irrep.py", S+"irreps/o3_real.py", S+"irreps/sl2c.py", S+"irreps/so13.py", S+"irreps/sun.py", S+"irreps/su2.py", S+"irreps/z2.py", S+"group_product.py"],
  [("ordering", "__lt__ of each irrep class"), ("enumeration", "iterator of each irrep class")], ["<", "iterator()", "create_trivial()"])
p("P10", "Text notation of representations parses to exactly the labels written",
  "Parsing the text form of an irrep (SU(2), SO(3), O(3), SL(2,C), SO(1,3), SU(N), Z2), optionally preceded by a multiplicity 'Nx' and joined with '+', with or without spaces around terms, yields the representation with exactly those labels, multiplicities and order. The resulting dimension is the multiplicity-weighted sum of the irrep dimensions.",
  ["inputs"], "all label digits and multiplicities within the stated number of digits, all term counts up to 3, optional surrounding spaces",
  "Only one string is parsed by the tests ('0+1+2+0').",
  [S+"reduced_rep.py", S+"irreps/su2.py", S+"irreps/so3_real.py", S+"irreps/o3_real.py", S+"irreps/sl2c.py", S+"irreps/so13.py", S+"irreps/sun.py", S+"irreps/z2.py"],
  [("term splitting", S+"reduced_rep.py from_string"), ("label parsing", "from_string of each irrep class")], ["from_string"])
p("P11", "Tensor product of arbitrary representations",
  "For any two representations of the same group, given by arbitrary matrices, the tensor product has dimension d1*d2, keeps the structure constants, acts as X1 (x) 1 + 1 (x) X2 for continuous and H1 (x) H2 for discrete generators with the first factor as the slow index, and again satisfies the commutation relations. Operands with different algebras or different numbers of discrete generators are refused.",
  ["inputs"], "all real and complex matrix entries, dimensions and generator counts up to the stated size",
  "Tests compare two code paths on a few tabulated irreps, none of them with several discrete generators or with complex asymmetric entries.",
  [S+"tensor_product.py", S+"rep.py"], [("Kronecker sum", S+"tensor_product.py tensor_product(Rep, Rep)")], ["tensor_product"])
p("P12", "Tensor product of reduced representations equals the plain tensor product",
  "For irreps, multiples of irreps and reduced representations with any multiplicities, order of terms and change of basis, in every combination of argument kinds, the tensor product is returned in reduced form whose generators equal, entry by entry, the generators of the tensor product of the same operands taken as plain matrices. Its multiplicities and dimension match.",
  ["inputs"], "all combinations of operand kinds, multiplicities and small irreps within the stated bounds, symbolic invertible change-of-basis matrices",
  "Tests use one shape, (2,a)+b times (3,a) without change of basis, and continuous generators only.",
  [S+"tensor_product.py", S+"reduced_rep.py"],
  [("per-irrep coupling", S+"tensor_product.py"), ("multiplicity layout", S+"tensor_product.py tensor_product(MulIrrep, MulIrrep)"), ("block placement", S+"tensor_product.py tensor_product(ReducedRep, ReducedRep)")],
  ["tensor_product(...).X", ".H", ".irreps"])
p("P13", "Tensor powers are repeated tensor products",
  "The n-th tensor power of any representation has dimension d^n and its continuous and discrete generators equal those of the n-fold product; power one is the representation itself and power zero is the trivial one-dimensional representation of the same group. This holds for plain, reduced, tabulated and group-product representations.",
  ["inputs"], "all matrix entries (symbolic), n up to the stated bound",
  "Tests only check the returned type for n = 2.",
  [S+"tensor_product.py", S+"rep.py", S+"group_product.py"], [("square and multiply", S+"tensor_product.py tensor_power")], ["tensor_power"])
p("P14", "Basis and algebra changes, conjugates and direct sums follow their formulas",
  "For arbitrary representations, invertible Q and basis changes of the algebra: change of basis returns Q X Q^-1 (continuous and discrete) with the algebra unchanged, change of algebra returns X'_i = Q_ia X_a with the transformed structure constants, the conjugate is the entrywise complex conjugate, and the direct sum is block diagonal in operand order. Each result satisfies the commutation relations whenever its operands do, and successive basis changes compose as matrix products for every kind of representation.",
  ["inputs"], "all matrix entries and all invertible Q (symbolic) at the stated dimensions",
  "Tests use one fixed algebra change and random matrices for one irrep.",
  [S+"change_basis.py", S+"change_algebra.py", S+"conjugate.py", S+"direct_sum.py", S+"util.py"],
  [("conjugation by Q", S+"change_basis.py"), ("algebra change", S+"change_algebra.py"), ("block sum", S+"util.py direct_sum")], ["change_basis", "change_algebra", "conjugate", "direct_sum"])
p("P15", "Reduced representations act as Q (sum of m_i copies of irrep i) Q^-1",
  "A multiple of an irrep acts as that many diagonal copies, and a reduced representation as the block-diagonal sum of its terms in order, conjugated by its change-of-basis matrix, for continuous and discrete generators alike. Dimensions, the algebra, terms given as bare irreps, (multiplicity, irrep) pairs or multiples, zero multiplicities and purely discrete groups are all handled by that same formula; terms of different algebras and a Q of the wrong shape are refused.",
  ["inputs"], "all multiplicities and orders of terms within the stated bounds, symbolic Q and symbolic generator entries",
  "Tests build three reduced representations, without Q, without discrete-only groups and without zero multiplicities.",
  [S+"reduced_rep.py", S+"util.py"], [("block assembly", S+"reduced_rep.py continuous_generators / discrete_generators")], ["X", "H", "dim", "algebra()"])
p("P16", "Group products act by commuting Kronecker factors",
  "The product of representations of two or three groups has the block-diagonal algebra, the generators X1 (x) 1 followed by 1 (x) X2 and the discrete generators H1 (x) 1 followed by 1 (x) H2; generators of different factors commute and the algebra relations hold. For tabulated irreps the result is again an irrep whose dimension, generators, label product and Clebsch-Gordan coefficients are those of the factors combined, in the same index convention.",
  ["inputs"], "all matrix entries (symbolic, complex) and dimensions up to the stated size; pairs of tabulated families",
  "Tests use SO(3) x Z2 x Z2 and SU(2) x SU(2) with few labels.",
  [S+"group_product.py"], [("Kronecker embedding", S+"group_product.py")], ["group_product"])
p("P17", "Intertwiner search finds all and only the intertwiners",
  "For any two representations of the same group, every returned Q satisfies Q rho_1 = rho_2 Q for all continuous and discrete generators, the returned matrices are linearly independent, and every intertwiner is a combination of them. Without rounding they are orthogonal for the trace product with squared length the dimension of rho_2, so between unitary irreps they are unitary. The Clebsch-Gordan coefficients of arbitrary representations are likewise exactly a basis of the equivariant bilinear maps.",
  ["inputs"], "families of representations with symbolic entries and change-of-basis matrices at the stated dimensions; all candidate intertwiners (symbolic)",
  "Tests check soundness for one irrep in random bases; completeness quantifies over all matrices.",
  [S+"infer_change_of_basis.py", S+"util.py", S+"clebsch_gordan.py"],
  [("Sylvester system", S+"util.py infer_change_of_basis"), ("null space", S+"util.py nullspace"), ("index layout", S+"clebsch_gordan.py")], ["infer_change_of_basis", "clebsch_gordan"])
p("P18", "Orthonormal bases, null spaces and basis intersections are the right subspaces",
  "For every real or complex matrix: Gram-Schmidt returns orthonormal rows spanning the same row space, basis extension returns a complete orthonormal basis starting with that span (or just the added rows), the null space routines return an orthonormal basis of exactly the vectors annihilated by all given matrices, and basis intersection returns coefficient matrices whose products with the two bases span exactly the intersection. Empty results have the right shape.",
  ["inputs"], "all matrix entries (symbolic, real and complex) at the stated shapes and ranks, with every pivot either zero or above the tolerance",
  "Tests multiply one random 130x350 matrix; completeness, orthonormality, complex conjugation and degenerate ranks are not looked at.",
  [S+"util.py"], [("Gram-Schmidt", S+"util.py gram_schmidt, extend_basis"), ("kernel via A^H A", S+"util.py nullspace, sequential_nullspace"), ("intersection", S+"util.py basis_intersection")],
  ["util.gram_schmidt", "util.extend_basis", "util.nullspace", "util.sequential_nullspace", "util.basis_intersection"])
p("P19", "Symmetrised tensor-product bases are equivariant, symmetric and complete",
  "For any list of representations and any index-symmetry formula, the reduced basis array transforms in its output index by the returned representation when its input indices are transformed, obeys every signed index permutation of the formula, and has as many independent columns as there are tensors with that symmetry. The symmetric power is the special case of full permutation symmetry, and formulas that leave no tensor for some irrep are handled.",
  ["inputs"], "formulas with up to 3 (4) indices, small irreps and sums of irreps, all Lie-algebra elements and all symmetric tensors (symbolic)",
  "The only test checks equivariance of one symmetric cube of one SO(3) representation at one group element.",
  [S+"reduced_tensor_product.py", S+"discrete_groups/perm.py", S+"util.py"],
  [("pairwise reduction", S+"reduced_tensor_product.py reduce_basis_product"), ("permutation constraint", S+"reduced_tensor_product.py constrain_rotation_basis_by_permutation_basis"), ("tensor symmetries", S+"reduced_tensor_product.py reduce_permutation_base, reduce_permutation_matrix")],
  ["reduced_tensor_product_basis", "reduced_symmetric_tensor_product_basis"])
p("P20", "Permutation arithmetic obeys the group laws",
  "Composition, inverse and identity of permutations satisfy the group laws with composition meaning 'right factor first', the numbering of permutations is a bijection with 0..n!-1, the cycle decomposition reproduces the permutation, and the sign is multiplicative, equal to the inversion parity and consistent across the library. Closing a set of permutations, or a signed index formula, yields exactly the smallest group containing it with consistent signs.",
  ["inputs"], "all permutations of up to 4 (5) points, all pairs, all generator sets of bounded size",
  "No test exercises the permutation module.",
  [S+"discrete_groups/perm.py", S+"util.py", S+"reduced_tensor_product.py"],
  [("permutation routines", S+"discrete_groups/perm.py"), ("inversion parity", S+"util.py permutation_sign"), ("formula closure", S+"reduced_tensor_product.py germinate_perm_repr")], ["compose", "inverse", "from_int", "to_int", "sign", "germinate"])
p("P21", "Gelfand-Tsetlin basis states are numbered bijectively",
  "For every dominant weight the enumeration of basis patterns yields every valid interlacing pattern exactly once, their number is the declared dimension, and the two conversions between pattern and position are mutually inverse and agree with the enumeration order. The last pattern is the highest-weight state.",
  ["inputs"], "all dominant weights up to the stated size, all (symbolic) indices and all (symbolic) candidate patterns",
  "Tests index nine weights.",
  [S+"irreps/sun.py"], [("enumeration", S+"irreps/sun.py S_to_Ss, S_to_Ms"), ("ranking", S+"irreps/sun.py index_to_M, M_to_index")], ["S_to_Ms", "index_to_M", "M_to_index", "dim"])
p("P22", "Rounding to (square roots of) rationals returns the best approximation",
  "Limiting the denominator of n/d returns a normalised fraction whose denominator does not exceed the limit and which is at least as close to n/d as every other such fraction, elementwise and for any sign; a fraction that already satisfies the limit is returned unchanged. Consequently rounding a number of magnitude up to 1000 whose square is a rational with denominator at most the square of the limit returns that number (up to floating-point error), any other number goes to the square root of the closest such rational, sign and complex parts are kept separate, and the argument is not modified.",
  ["inputs"], "all integers n and d (unbounded) for every limit up to the stated bound; square roots of listed ranges of rationals for the rounding itself",
  "Tests sample fractions with denominators strictly below the limit; the boundary and the tie cases are never drawn.",
  [S+"util.py"], [("continued fraction", S+"util.py limit_denominator"), ("integer ratio", S+"util.py as_approx_integer_ratio, normalize_integer_ratio"), ("rounding", S+"util.py round_to_sqrt_rational")],
  ["util.limit_denominator", "util.round_to_sqrt_rational", "util.as_approx_integer_ratio"])
p("P23", "Finite-group representations are homomorphisms",
  "The natural, standard and trivial representations of S_n satisfy the defining relations of S_n on their discrete generators for every n, the standard one being the restriction of the natural one to the sum-zero subspace in the basis e_i - e_0. The regular representation of any group table multiplies as the table does, acts on basis vectors by left multiplication and sends the identity to the identity matrix.",
  ["inputs"], "n up to the stated bound, all group tables of bounded order (every labelling), all vectors",
  "No test touches the finite-group module.",
  [S+"finite.py", S+"util.py"], [("permutation matrices", S+"finite.py"), ("regular representation", S+"util.py regular_representation")], ["finite.Sn_natural", "finite.Sn_standard", "finite.Sn_trivial", "util.regular_representation"])
p("P24", "The exponential map evaluates the group element as documented",
  "Instantiating a representation at continuous parameters t and discrete integer parameters n gives H_1^n1 H_2^n2 ... exp(sum_a t_a X_a), with the discrete generators multiplied in order on the left, for every representation kind and any integers n (n >= 0 in the JAX version). The JAX version and its integer matrix power agree with this formula.",
  ["inputs"], "all parameters and matrix entries (symbolic), discrete exponents up to the stated bound",
  "Tests evaluate it once, without discrete generators; the JAX version is never called.",
  [S+"rep.py", S+"jax_utils.py"], [("exp_map", S+"rep.py Rep.exp_map"), ("jax exp_map", S+"jax_utils.py exp_map, matrix_power")], ["exp_map"])
p("P25", "Structure constants are inferred and verified correctly",
  "From linearly independent generators closed under commutation, inference returns the unique real A with [X_i, X_j] = A_ijk X_k, and returns nothing when the generators do not close. The consistency checks (algebra against generators, and the representation-triplet check) accept exactly the data that satisfy the relations and reject any deviating entry.",
  ["inputs"], "all generator and structure-constant entries (symbolic) at the stated dimensions",
  "Tests only call the checks on correct data, so a check that accepts everything passes.",
  [S+"util.py", S+"rep.py"], [("inference", S+"util.py infer_algebra_from_generators"), ("check", S+"util.py check_algebra_vs_generators, "+S+"rep.py check_representation_triplet")], ["GenericRep.from_generators", "check_algebra_vs_generators", "check_representation_triplet"])
p("P26", "Root systems and Weyl dimensions of the classical algebras",
  "For A_n (rank at least 1) and B_n, C_n and D_n (rank at least 2) the positive roots are exactly the roots that are non-negative combinations of the simple roots, the Cartan matrix is the standard one, and the fundamental weights are n vectors dual to the simple coroots. The Weyl dimension of every dominant weight is the closed-form dimension, and the so(n) adjoint generators preserve the quadratic form and span so(n).",
  ["inputs"], "all ranks up to the stated bound, all Dynkin labels (unbounded, symbolic)",
  "No test touches this module.",
  [S+"lie_algebra_utils.py", S+"irreps/son.py", S+"irreps/spn.py"], [("root data", S+"lie_algebra_utils.py RootsWeightsA..D"), ("Weyl formula", S+"lie_algebra_utils.py weyl_dim"), ("so(n) generators", S+"irreps/son.py SON_adjoint")], ["structure_algebra", "weyl_dim", "cartan_matrix"])
p("P27", "Reality and unitarity predicates decide correctly and real forms are equivalent",
  "A representation is reported unitary exactly when its continuous generators are anti-Hermitian and its discrete ones unitary. An irreducible unitary representation is reported real exactly when it is equivalent to a representation by real matrices (so not for pseudo-real ones), and making it explicitly real returns an equivalent representation with real entries, refusing representations that are not real.",
  ["inputs"], "all generator entries (symbolic) for the unitarity predicate; irreps up to the stated size for reality",
  "These functions are not tested.",
  [S+"properties.py", S+"real.py"], [("unitarity", S+"properties.py is_unitary"), ("reality", S+"real.py is_real, make_explicitly_real")], ["is_unitary", "is_real", "make_explicitly_real"])
p("P28", "Decomposition into irreps is a faithful reduction",
  "Reducing a representation returns a reduced representation of the same algebra that acts with the same matrices, whose terms are irreducible and whose dimensions add up; irreps, multiples and already reduced representations are returned unchanged in action. A complex representation is reported irreducible exactly when only scalar matrices commute with it.",
  ["inputs"], "direct sums of inequivalent small irreps in every (symbolic rotation, shear, phase, or picked permuted and complex) basis of the stated shape, for all generic random weights, with exact arithmetic",
  "The one test of reduction is excluded as flaky; complex bases are never tried.",
  [S+"reduce.py", S+"util.py", S+"is_irreducible.py"], [("eigenspaces of a random commutant element", S+"util.py decompose_rep_into_irreps"), ("reassembly", S+"reduce.py reduce(Rep)")], ["reduce", "is_irreducible"])
p("P29", "Operations leave their operands alone and repeat the same answer",
  "No library operation modifies the arrays or representations it is given, and calling an operation again with equal arguments, or after other operations with the same or other arguments, returns the same result even if the caller has modified arrays returned earlier.",
  ["inputs", "histories"], "all operand entries (symbolic) at the stated dimensions, histories of two or three calls",
  "Tests call each operation once and never look at the operands afterwards.",
  [S+"util.py", S+"reduced_tensor_product.py", S+"change_basis.py", S+"irreps/so13.py", S+"tensor_product.py"], [("copies before in-place arithmetic", S+"util.py gram_schmidt, extend_basis"), ("caches", S+"reduced_tensor_product.py lru_cache")], ["all public operations"])
p("P30", "Clustering with tolerance is a consistent stable partition",
  "Grouping values with a tolerance either assigns every element to exactly one group or reports that groups are not distinct: groups are numbered in order of first appearance, an element belongs to the group of the earliest group leader within the tolerance, no element is within tolerance of leaders of two groups, and each centre is the mean of its group.",
  ["inputs"], "all real values (symbolic) for arrays of up to 4 scalars or 3 vectors, tolerance symbolic",
  "The routine is only reached through the excluded flaky test.",
  [S+"util.py"], [("clustering", S+"util.py unique_with_tol")], ["util.unique_with_tol"])
p("P31", "Array combinators follow their definitions",
  "Mapping over an axis applies the function to each slice with the stated input and output axes, Kronecker product, block-diagonal assembly, direct sum (with broadcasting) and commutator agree with their entrywise definitions for any number of operands, any shapes and real or complex entries.",
  ["inputs"], "all entries (symbolic) for shapes up to the stated size, axes -2..2, one to four operands",
  "The tests only reach them through other functions, always with square blocks.",
  [S+"util.py"], [("combinators", S+"util.py vmap, kron, direct_sum, block_diagonal, commutator")], ["util.vmap", "util.kron", "util.direct_sum", "util.block_diagonal", "util.commutator"])
p("P32", "Trivial representations are recognised and created for the same group",
  "The trivial representation created from any representation (plain, tabulated, multiple, reduced, finite-group or group product) is one-dimensional, has the same number of continuous and discrete generators and the same algebra, all zeros and all ones respectively, and tensoring with it leaves the generators unchanged. A representation is reported trivial exactly when it is one-dimensional with zero continuous and unit discrete generators, and a tabulated irrep scalar exactly when its continuous generators vanish.",
  ["inputs"], "all representation kinds, all generator entries (symbolic) at the stated dimensions",
  "Tests check the continuous families' trivial irrep only.",
  [S+"rep.py", S+"irrep.py", S+"reduced_rep.py", S+"finite.py", S+"group_product.py"], [("is_trivial / create_trivial", S+"rep.py"), ("first of the enumeration", S+"irrep.py create_trivial")], ["create_trivial", "is_trivial"])
p("P33", "Families of related groups agree with each other",
  "Irreps of related groups describe the same action. O(3) irreps rotate exactly like the SO(3) irrep with the same l and the inversion acts as their parity, with the SO(3) coefficients where the parities multiply; integer-spin real SU(2) irreps and their coefficients are those of SO(3), and the real irrep of spin j is, over the complex numbers, one or two copies of spin j and of no other spin. The SL(2,C) irrep (l,k) is the product of (l,0), which acts as spin l/2, and (0,k), its conjugate form; the SO(1,3) irrep (l,k) is equivalent to the SL(2,C) one with boosts multiplied by i and not to (k,l). The named SU(2), SU(3), SU(4) members of the SU(N) family give the data of the general SU(N) irrep, and SU(2) as an SU(N) is equivalent to the spin family after one fixed rescaling of the generators. The natural representation of S_n is the trivial plus the standard one.",
  ["inputs"], "every label of the related families up to the stated size, every candidate intertwiner (exact rank)",
  "Tests look at every family separately and never compare two of them; equivalence quantifies over all matrices.",
  [S+"irreps/o3_real.py", S+"irreps/so3_real.py", S+"irreps/su2_real.py", S+"irreps/su2.py", S+"irreps/sl2c.py", S+"irreps/so13.py", S+"irreps/sun.py", S+"irreps/z2.py", S+"finite.py"],
  [("generators of each family", "continuous_generators / discrete_generators of each irrep class"), ("coefficients of each family", "clebsch_gordan of each irrep class")], ["X", "H", "clebsch_gordan"])
p("P34", "Only valid labels make an irrep",
  "Building an irrep succeeds exactly for the labels of its family and is refused otherwise: a non-negative integer for SU(2) and SO(3), a non-negative integer or half-integer for the real SU(2), a non-negative integer with parity +1 or -1 for O(3), a parity for Z2, two non-negative integers for SL(2,C), of even sum for SO(1,3), and for SU(N), among non-empty tuples of integers, a non-increasing one ending in 0, of the right length in the named families. The labels are kept as given. The same holds for labels read from text.",
  ["inputs"], "every integer label (unbounded), every numeral within the stated number of digits",
  "Tests only build valid irreps.",
  [S+"irreps/su2.py", S+"irreps/so3_real.py", S+"irreps/o3_real.py", S+"irreps/su2_real.py", S+"irreps/z2.py", S+"irreps/sl2c.py", S+"irreps/so13.py", S+"irreps/sun.py"],
  [("label checks", "__post_init__ of each irrep class")], ["constructor", "from_string"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
