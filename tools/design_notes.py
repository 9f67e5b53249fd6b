INTRO = '''
# Design

## Method

Every property P01..P34 of `properties.jsonl` is decided by **symbolic execution of the real Python source** of
`/repo/lie_nn` with z3. Nothing of the library is re-modelled: on every run `sx/loader.py` reads the current files under
`/repo/lie_nn`, rewrites them mechanically (see below) and executes the library's own functions on symbolic values.

* **Inputs** are created by the harness through a context `c`: `c.int/c.real/c.num/c.arr` are unbounded (or range-bounded)
  solver variables, `c.numeral` is a symbolic piece of text (digits are variables), `c.pick/c.choice` are finite symbolic
  choices that fork. Concrete configuration (which family, which shapes) comes from the task list of the harness.
* **Values** (`sx/num.py`) are exact: fractions of polynomials over Q(sqrt(n), i) in the solver variables; integers may be
  symbolic and unbounded. `/`, `//`, `%`, `**`, comparisons and `sqrt` follow Python/numpy semantics. `sx/arr.py` gives arrays
  of such values numpy's shape/broadcast/indexing/dtype semantics; `sx/npfuncs.py` and `sx/shim.py` implement the numpy,
  scipy, math, fractions and jax entry points that the library uses (exact linear algebra instead of LAPACK: svd-rank,
  kernel, solve, inv, eigh on values where an exact spectral decomposition exists, `expm` as an uninterpreted function
  except on nilpotent/diagonal arguments).
* **Branches** on symbolic conditions are decided by z3 (path condition and condition / negation); both feasible sides are
  explored by re-execution (`sx/explore.py`). Each path restores the library's module globals and clears its caches.
* **Assertions** (`c.eq`, `c.true`, ...) are polynomial identities or integer/real formulas; they are discharged by exact
  normalisation or by z3 (negation unsatisfiable under the path condition). `unknown` or a timeout makes the run
  *inconclusive*: counted in the evidence (`inconclusive`), never reported as held.
* **Replay.** Every satisfiable negation gives concrete inputs; they are run through the same harness on the *untouched*
  library with real numpy (`sx/real.py`), and only if the assertion fails there too (tolerance 1e-6 relative, or an exception) is
  a VIOLATION reported; the replay file names harness, configuration and inputs and `./replay FILE` repeats it. In addition
  every explored path is run once on the real library with a witness of its path condition, which validates the
  symbolic stand-ins path by path (a disagreement there is a violation too, as it is a concrete failing run).

Bounds: the shapes, label ranges and tier-dependent sizes in the tables below. Inside them all values are decided; outside
them nothing is claimed. "Unbounded" in a table means that the variable has no bound in the solver query.

Source rewriting (`sx/loader.py`): `/` and `**`, int/float/complex/range/sum/len-like builtins, list/array subscripts with symbolic
indices and f-string/str formatting of numbers are redirected to exact versions. No function body is replaced, with one
exception: outside P22 `round_to_sqrt_rational` is summarised by "returns the exact number" (`sx/rounding.py`), which is P22's own
statement, so P22 decides the summary. jax/jnp are replaced by the same exact arrays.

Idealisations that hold for all properties: floating point is exact real/complex arithmetic (the replays use real floats, with
tolerance); constants <= 1e-3 used as tolerances are read as exact comparisons; random matrices drawn by the library are
"generic" (free variables assumed to satisfy the generic conditions stated per property). Machine arithmetic is covered only where a
harness says so (P21 `dimension_machine`, P26 `spn_dim_machine`, and through the witness runs).

Why this reaches what the tests cannot: the tests sample a handful of labels and fixed random matrices. Here matrices, change
of basis, structure constants, parameters, labels and text are variables; errors that need a complex entry, a non-symmetric
Q, a repeated irrep, a negative axis, a two digit label, a multiplicity zero or a second call after the caller modified a
returned array are satisfiable assignments that the solver finds.

Running: `./check PID quick|thorough [-v] [--only HARNESS] [--cfg TEXT] [-j N]`. Exit 0 held on everything explored, 1 with VIOLATION lines
otherwise. Evidence goes to `evidence/PID.json` (states = paths, transitions = decided branches, traces validated = witness
runs on the real code, obligations/queries/solver time, functions of /repo entered, bounds per harness, inconclusive tasks).
Tasks run on 8 processes; quick checks need 2 to 65 s each, thorough ones up to 820 s.

Sizes: besides small shapes with every entry free, most checks have a "wide/large/many/nested" harness: more generators (7 and
more), more factors, more copies, higher dimensions, sparse with a few free entries. They exist because a defect may need a
size that the small dense cases do not reach (set order from eight indices on, letters running out, second discrete generator).

Near misses: tolerances up to 1e-3 are read as exact comparisons, so a loosened tolerance (`atol=1e-6` -> `1e-2`) does not
change the symbolic run. The `near*` harnesses (P11, P12, P14, P15, P17, P18, P25, P27, P28, P32) decide that the property
rejects/resolves *every* nonzero deviation d (free variable, scaled so that the witness is a small number such as 1e-2 or 1e-3); the
witness of each path is run on the untouched library with floats, and a loosened tolerance makes that run disagree.

Nothing had to be declared not applicable: the library is pure numerical Python without concurrency, I/O or foreign state. What
is outside reach is stated per property below (mostly: large dimensions, and functions whose exact evaluation would need nested
radicals).
'''

NOTES = {
"P01": '''Symbolic execution of `SU2/SU2Real/SO3/O3/Z2.continuous_generators/discrete_generators/algebra/dim` for each label in the bound: the
matrices are obtained exactly (entries in Q(sqrt n, i)) and all bracket, hermiticity, reality and involution equations are
decided exactly. `same_algebra` takes two unrelated symbolic labels. Generators of a dimension-d irrep are d x d arrays, so the label
itself cannot be an unbounded variable; it is picked from the range.''',
"P02": '''As P01 for `SL2C` and `SO13`; the SO13 path goes through the change of basis into SO(3) blocks and real form, executed exactly.
The four-vector representation is checked on arbitrary (symbolic) vectors for the Minkowski form. SL(2,C) generators as implemented are
those of the unitary real form (documented in the code); the algebra compared against is the one the class declares.''',
"P03": '''Gelfand-Tsetlin patterns, ladder operators and generators of SU(N) executed exactly for each dominant weight in the bound;
`coefficients` decides the ladder matrix elements for patterns with unbounded symbolic integer entries against the textbook formula.''',
"P04": '''Intertwiner equations for all triples in the bound with the coefficients computed exactly by the library's own CG code, shape,
path count against the product listing, orthogonality and identity normalisation. Earlier version demanded orthonormality of
CG rows (false alarm: convention of the library is contraction over both inputs = identity on the third irrep); statement corrected.''',
"P05": '''As P04 for SL(2,C) and SO(1,3) with invertibility of the stacked coefficients.''',
"P06": '''As P04 for SU(N): the multiplicity is determined independently (Weyl characters computed in the harness), coefficients of a pair
stacked over the listed irreps must be an orthogonal square matrix.''',
"P07": '''`__mul__` with one label an unbounded integer variable: the listing is a loop whose length depends on the smaller label, so the other
one is picked; membership of an arbitrary third label is then an arithmetic formula. `mixed_products` exercises lazily listed products.''',
"P08": '''`walk` executes the candidate walk of the Littlewood-Richardson implementation with the second weight made of unbounded integers;
`product` compares the decomposition of picked pairs with an independent character computation; `dim` decides the Weyl formula
for unbounded weights.''',
"P09": '''Order axioms on three labels of unbounded integers; enumeration compared with an independent listing of the label set.''',
"P10": '''Symbolic text: every numeral is a string whose digits are solver variables (`sx/symstr.py`), the regular expressions and `split/strip/int`
of the parser run on it; the parsed label must equal the number denoted. Negative multiplicities, junk suffixes of SL2C are outside the statement.''',
"P11": '''Free matrices and structure constants; formula entry by entry, relations as polynomial consequences, refusals as exceptions
when one entry differs.''',
"P12": '''Every combination of operand kinds with free change of basis (P L U with free entries), compared with the plain Kronecker formula of the
operands' own generators.''',
"P13": '''Powers by the library's fast exponentiation against a left-to-right fold in the harness; also plain n = 0 and 1.''',
"P14": '''Formulas on free matrices and free Q; relations as polynomial consequences of the assumed relations; composition for every kind.''',
"P15": '''Reduced representations with free Q and picked multiplicities/kinds of terms, compared with the direct block formula.''',
"P16": '''Kronecker formula with free factors; tabulated products against combinations of the factors' own data.''',
"P17": '''Rank and completeness are decided with exact linear algebra: returned Q are checked to intertwine and their number compared with
the dimension of the solution space of the symbolic linear system, path by path over its rank strata.''',
"P18": '''Symbolic Gram-Schmidt/null space on free matrices, or on matrices of prescribed rank with free entries in echelon form (the rank strata
of the general case); span equality by exact rank computations.''',
"P19": '''`reduced_tensor_product_basis`, `reduced_symmetric_tensor_product_basis`, `..._antisymmetric...` executed exactly on listed representations
and formulas. The equivariance convention is the contraction one used by the Clebsch-Gordan coefficients (a first version had the
transposed convention: false alarm, corrected). The count of independent tensors is obtained from the signed permutation group and
the projector rank computed in the harness. Also formulas of up to ten indices (`many`, with blocks of
scalars so that the spaces stay small), single-index symmetries, irreps of quaternionic type (SU2Real) and factors of dimension zero.''',
"P20": '''Permutations are symbolic tuples (picked by the solver), numbers are symbolic integers; group laws, sign and closure against direct definitions.''',
"P21": '''Patterns of unbounded integers: membership of the enumeration is equivalent to interlacing; index/unindex inverse for a symbolic position.''',
"P22": '''`limit_denominator` runs on symbolic integers (continued-fraction loop unrolled by path); best-approximation compared with every fraction of
admissible denominator. Scoped to magnitudes up to 1000: above about 4.7e7 the squared value does not fit the int64 arithmetic
and the library raises an AssertionError.''',
"P23": '''Defining relations on arbitrary vectors, regular representation over all group tables of small order under arbitrary relabelling.''',
"P24": '''`expm` is uninterpreted: the harness checks that it is called on exactly sum t_a X_a and that the discrete product is on the left in order.''',
"P25": '''Consistency checks with all entries free (accept exactly the solution set); inference on families of matrix Lie algebras with free basis change.''',
"P26": '''Positive roots as solution set over unbounded integer vectors; Weyl dimensions as polynomials in unbounded Dynkin labels.''',
"P27": '''Unitarity as a polynomial condition on free entries; the reality decision on real, complex and quaternionic types in bases with all phase choices.
Exact eigen-decompositions exist only for matrices whose characteristic polynomial splits over Q(sqrt n, i); that fixes the list of bases.''',
"P28": '''Random weights drawn by the library are generic variables (distinct eigenvalues assumed); the spectral decomposition of the random commutant
element is exact thanks to hints about its eigenvalues that are verified symbolically.''',
"P29": '''Every operation on symbolic operands: snapshots of operands compared before/after, results compared after overwriting all returned arrays and
running every other operation of the group in between.''',
"P30": '''Distances are symbolic reals; leaders, labels and means follow from the order constraints of each path.''',
"P31": '''Shapes are picked, entries free; uninterpreted mapped functions (index-dependent polynomials) for vmap.''',
"P33": '''Pairs of families compared on every label up to the bound: generators entrywise where the bases agree, otherwise through the exact
dimension of the space of intertwiners (kernel of the Sylvester system), so a change of convention that is still an equivalence stays quiet.''',
"P34": '''The constructors run on unbounded symbolic integers; whether they refuse must coincide with the label condition of the family on every path.
Text: numerals of symbolic digits through the real `from_string`. Fractional labels of SU(N) are not refused by the constructor today
(`dim` refuses them) and are left outside the statement; SON and SPN have no label check and are left outside too.''',
"P32": '''Trivial creation for all kinds; recognition on free entries (all and only).''',
}

OUTRO = '''
## False alarms met and corrected

* P04 demanded orthonormal rows of CG; the library normalises the contraction over both inputs. Property corrected.
* P19 used the transposed equivariance convention. Harness corrected.
* P27 expected SL(2,C) irreps to be non-unitary; the implemented generators are anti-Hermitian. Harness corrected.
* P19 with the real mixing Q of SO3: 0 + 1 needed nested square roots and was inconclusive; replaced by another mixing.

## Outside the statements

`SL2C.from_string` ignores trailing text;
the JAX matrix power of negative exponents; `SON.dim`; `SON_adjoint.create_trivial/algebra` (not implemented); inference for
complex structure constants (returns None, statement says real A); P26 is for B, C, D of rank at least 2; P28 assumes generic random weights;
P30 assumes no distance exactly equal to the tolerance.

## Planted bugs

`seeded/<id>/` holds patch, demonstration and description of each. A change that a check missed led to a stronger check
(P02 labels up to (4,4), P06 SU(5), P07 mixed products, P20 signs of 5 and 6 points, P31 tuple axes). In addition the checks were
measured with two further kinds of change, kept outside this repository:

## Mutation measurements

* Mechanical mutants of the sources (operators, comparison and arithmetic, constants, indices, negated conditions, removed statements; 3443
  generated, a sample run through the existing tests). Of the first 86 that pass the existing tests the checks mapped to the changed file report about 60.
  Each of the others was read: deleted assertions and prints, an overall phase of the real basis, dtype of an array with the same values, text of a
  Dynkin diagram, order of commuting operations; three were real gaps and were closed (trivial irrep of SU(N): P32 `su_n`; complex structure
  constants: P03; one that only the check of another property covers).
* Hand-written changes (60), written from the statements. Gaps they showed and the harnesses that close them: signs or phases as change
  of basis (P12 `monomial`), structure constants that differ by a pattern (P11, P14, P15, P17 `*pattern`), single matrices instead of ensembles
  (P17 `single_matrix`), bases given in either order with complex combinations (P18 `intersection`), discrete generators whose square looks
  like the identity (P24 `DIAGS`), four-digit multiplicities (P10), chirality of the Lorentz irreps (P02 mixed Casimir), order of products of
  small with large irreps (P08 `uneven`).
'''
