From 23104182a994928133cf6922b501462891446f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 01/36] fix: limit_denominator keeps fractions whose
 denominator equals the limit

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 93ec850..9b7de3c 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -74,7 +74,7 @@ def limit_denominator(n, d, max_denominator=1_000_000):
     with np.errstate(over="ignore"):
         mask = np.abs(d1 * (n2 * d0 - n0 * d2)) <= np.abs(d2 * (n1 * d0 - n0 * d1))
     return np.where(
-        d0 < max_denominator,
+        d0 <= max_denominator,
         (n0, d0),
         np.where(mask, (n2, d2), (n1, d1)),
     )
-- 
2.43.0


From 7e69010bd627e53224e95dcb32dd75173fea5045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 02/36] fix: generators of reduced representations of purely
 discrete groups

---
 lie_nn/_src/reduced_rep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 98eb03c..d67c43e 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -110,6 +110,8 @@ class ReducedRep(Rep):
         return self._A
 
     def continuous_generators(self) -> np.ndarray:
+        if self.lie_dim == 0:
+            return np.empty((0, self.dim, self.dim))
         Xs = []
         for i in range(self.lie_dim):
             X = direct_sum(*[mul_ir.continuous_generators()[i] for mul_ir in self.irreps])
-- 
2.43.0


From f85819cc8999c55d63a9239200b0a4017d772913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 03/36] fix: generators of multiples with multiplicity zero

---
 lie_nn/_src/reduced_rep.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index d67c43e..9a458b0 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -30,14 +30,14 @@ class MulIrrep(Rep):
 
     def continuous_generators(self) -> np.ndarray:
         X = self.rep.continuous_generators()
-        if X.shape[0] == 0:
-            return np.empty((0, self.dim, self.dim))
+        if X.shape[0] == 0 or self.mul == 0:
+            return np.empty((X.shape[0], self.dim, self.dim))
         return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in X], axis=0)
 
     def discrete_generators(self) -> np.ndarray:
         H = self.rep.discrete_generators()
-        if H.shape[0] == 0:
-            return np.empty((0, self.dim, self.dim))
+        if H.shape[0] == 0 or self.mul == 0:
+            return np.empty((H.shape[0], self.dim, self.dim))
         return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in H], axis=0)
 
     def create_trivial(self) -> Rep:
-- 
2.43.0


From c6df13e3eee9bb6489af4f78e10ad19f975a48dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 04/36] fix: is_real tells pseudo-real representations from
 real ones

---
 lie_nn/_src/real.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index eefc524..51b9ce1 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -6,7 +6,10 @@ import lie_nn as lie
 
 def is_real(rep: lie.Rep) -> bool:
     S = lie.infer_change_of_basis(rep, lie.conjugate(rep))
-    return S.shape[0] > 0
+    if S.shape[0] != 1:
+        return S.shape[0] > 0
+    # conj(S) S = c 1 where c > 0 for real and c < 0 for pseudo-real representations
+    return np.trace(np.conj(S[0]) @ S[0]).real > 0
 
 
 def make_explicitly_real(rep: lie.Rep, *, round_fn=lambda x: x):
-- 
2.43.0


From cc434a832d330044972d4be7d4a646b25fe5a5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 05/36] fix: make_explicitly_real also refuses complex discrete
 generators

---
 lie_nn/_src/real.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index 51b9ce1..4b1c911 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -18,6 +18,6 @@ def make_explicitly_real(rep: lie.Rep, *, round_fn=lambda x: x):
         raise ValueError("The representation is not real")
     assert S.shape[0] == 1
     rep = lie.change_basis(rep, la.sqrtm(S[0]))
-    if np.linalg.norm(rep.X.imag) > 1e-10:
+    if np.linalg.norm(rep.X.imag) > 1e-10 or np.linalg.norm(rep.H.imag) > 1e-10:
         raise ValueError("The representation is not real")
     return rep
-- 
2.43.0


From 485b1814f9899ba1ecd574d42042a5691f149e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 06/36] fix: index symmetries that leave no tensor in a reduced
 tensor product

---
 lie_nn/_src/reduced_tensor_product.py | 11 +++++++++--
 lie_nn/_src/util.py                   |  4 ++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 8d113f5..4a3f9a9 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -343,7 +343,9 @@ def constrain_rotation_basis_by_permutation_basis(
     """
     assert all(x.shape[:-2] == permutation_basis.shape[1:] for x in rotation_basis.list)
 
-    perm = np.reshape(permutation_basis, (permutation_basis.shape[0], -1))  # (free, dim)
+    perm = np.reshape(
+        permutation_basis, (permutation_basis.shape[0], prod(permutation_basis.shape[1:]))
+    )  # (free, dim)
 
     new_irreps: List[Tuple[int, TabulatedIrrep]] = []
     new_list: List[np.ndarray] = []
@@ -351,7 +353,7 @@ def constrain_rotation_basis_by_permutation_basis(
     for rotation_basis_mul_ir, rot_basis in zip(rotation_basis.irreps, rotation_basis.list):
         mul, ir = rotation_basis_mul_ir.mul, rotation_basis_mul_ir.rep
         R = rot_basis[..., 0]
-        R = np.reshape(R, (-1, mul)).T  # (mul, dim)
+        R = np.reshape(R, (prod(R.shape[:-1]), mul)).T  # (mul, dim)
 
         perm_opt = perm[~np.all(perm[:, ~np.all(R == 0, axis=0)] == 0, axis=1)]
         P, _ = basis_intersection(R, perm_opt, epsilon=epsilon, round_fn=round_fn)
@@ -360,6 +362,11 @@ def constrain_rotation_basis_by_permutation_basis(
             new_irreps.append((P.shape[0], ir))
             new_list.append(np.einsum("vu,...ui->...vi", P, rot_basis))
 
+    if len(new_irreps) == 0:
+        # no tensor has the required symmetry, keep track of the group and of the shape
+        new_irreps.append((0, rotation_basis.irreps[0].rep))
+        new_list.append(rotation_basis.list[0][..., :0, :])
+
     return IrrepsArray(irreps=tuple(MulIrrep(mul, ir) for mul, ir in new_irreps), list=new_list)
 
 
diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 9b7de3c..a025b05 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -416,8 +416,8 @@ def basis_intersection(
         array([[1., 0., 0.]])
     """
     assert basis1.shape[1:] == basis2.shape[1:]
-    basis1 = np.reshape(basis1, (basis1.shape[0], -1))
-    basis2 = np.reshape(basis2, (basis2.shape[0], -1))
+    basis1 = np.reshape(basis1, (basis1.shape[0], prod(basis1.shape[1:])))
+    basis2 = np.reshape(basis2, (basis2.shape[0], prod(basis2.shape[1:])))
 
     p = np.concatenate(
         [
-- 
2.43.0


From 9e2db78324630ee55705d868db98570c5752f848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 07/36] fix: basis_intersection uses the Hermitian product for
 complex bases

---
 lie_nn/_src/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index a025b05..47e54e1 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -421,8 +421,8 @@ def basis_intersection(
 
     p = np.concatenate(
         [
-            np.concatenate([basis1 @ basis1.T, -basis1 @ basis2.T], axis=1),
-            np.concatenate([-basis2 @ basis1.T, basis2 @ basis2.T], axis=1),
+            np.concatenate([basis1 @ basis1.conj().T, -basis1 @ basis2.conj().T], axis=1),
+            np.concatenate([-basis2 @ basis1.conj().T, basis2 @ basis2.conj().T], axis=1),
         ],
         axis=0,
     )
@@ -432,10 +432,10 @@ def basis_intersection(
     v = v[:, w < epsilon]
 
     x1 = v[: basis1.shape[0], :]
-    x1 = gram_schmidt(x1 @ x1.T, epsilon=epsilon, round_fn=round_fn)
+    x1 = gram_schmidt(x1 @ x1.conj().T, epsilon=epsilon, round_fn=round_fn)
 
     x2 = v[basis1.shape[0] :, :]
-    x2 = gram_schmidt(x2 @ x2.T, epsilon=epsilon, round_fn=round_fn)
+    x2 = gram_schmidt(x2 @ x2.conj().T, epsilon=epsilon, round_fn=round_fn)
     return x1, x2
 
 
-- 
2.43.0


From af74abfd4a209b14aab5c65dcf0c0f12cf9d6d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 08/36] fix: extend_basis(returns='E') of a complete basis

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 47e54e1..1dd7480 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -258,7 +258,7 @@ def extend_basis(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x, returns="
     if returns == "Q":
         return np.stack(Q)
     if returns == "E":
-        return np.stack(E)
+        return np.stack(E) if len(E) > 0 else np.empty((0, A.shape[1]))
 
 
 def nullspace(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x) -> np.ndarray:
-- 
2.43.0


From 41d6ee3b6e7f08c440b88fc8e3a6f5d79a00fa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 09/36] fix: SU(N) Clebsch-Gordan coefficients with several
 paths or degenerate weights

---
 lie_nn/_src/irreps/sun.py | 84 +++++++++++++--------------------------
 1 file changed, 27 insertions(+), 57 deletions(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index cd0ace2..f56b36e 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -304,55 +304,32 @@ def clebsch_gordan_eldest(S1: WEIGHT, S2: WEIGHT, M_3_eldest: GT_PATTERN) -> np.
     )
 
 
-def search_state(M_list: List[GT_PATTERN]) -> Tuple[GT_PATTERN, GT_PATTERN, int]:
-    M0 = M_list[0]
-    n = len(M0)
-    S3 = M0[0]
-
-    for Mc in M_list:
-        for Mp in S_to_Ms(S3):
-            if Mp in M_list:
-                continue
-
-            for l in range(n - 1):
-                if lower_ladder(l, Mp, Mc) != 0:
-                    return (Mc, Mp, l)
-
-    raise ValueError("No state found")
-
-
-def construct_lower_cg(
-    S1: WEIGHT,
-    S2: WEIGHT,
-    S3: WEIGHT,
-    Mp: GT_PATTERN,
-    Mc: GT_PATTERN,
-    l: int,
-    alpha: int,
-    C: np.array,
-) -> Tuple[np.ndarray, int]:
-    dimS1 = dim(S1)
-    dimS2 = dim(S2)
-    mc, mp = M_to_index(Mc), M_to_index(Mp)
-    CG = np.zeros((dimS1, dimS2))
-    for m1 in range(dimS1):
-        for m2 in range(dimS2):
-            for n1 in range(dimS1):
-                for n2 in range(dimS2):
-                    if n2 == m2:
-                        CG[n1, n2] += (
-                            C[alpha, m1, m2, mc]
-                            * lower_ladder(l, index_to_M(S1, n1), index_to_M(S1, m1))
-                            * upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
-                        )
-                    if n1 == m1:
-                        CG[n1, n2] += (
-                            C[alpha, m1, m2, mc]
-                            * lower_ladder(l, index_to_M(S2, n2), index_to_M(S2, m2))
-                            * upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
-                        )
-
-    return CG / np.linalg.norm(CG)
+def construct_lower_cg(S1: WEIGHT, S2: WEIGHT, S3: WEIGHT, C: np.ndarray) -> np.ndarray:
+    """Complete C, shape (alpha, dim(S1), dim(S2), dim(S3)), from its eldest state.
+
+    The states of one weight are solved together from all the states one lowering above.
+    """
+    Jm1, Jm2, Jm3 = (lower_ladder_matrices(S) for S in (S1, S2, S3))
+
+    states = {}  # weight -> indices of the states of S3
+    for m, M in enumerate(S_to_Ms(S3)):
+        states.setdefault(M_to_p_weight(M)[::-1], []).append(m)
+
+    # the eldest weight is the largest one, a lowering makes the weight smaller
+    for weight in sorted(states, reverse=True)[1:]:
+        mp = states[weight]
+        # C[:, :, :, mp] @ left = right
+        left, right = [], []
+        for l in range(len(S3) - 1):
+            for mc in np.nonzero(np.any(Jm3[l][mp] != 0, axis=0))[0]:
+                left.append(Jm3[l][mp, mc])
+                right.append(
+                    np.einsum("im,amj->aij", Jm1[l], C[..., mc])
+                    + np.einsum("jm,aim->aij", Jm2[l], C[..., mc])
+                )
+        lowered = np.stack(right, axis=-1) @ np.linalg.pinv(np.stack(left, axis=-1))
+        C[..., mp] = lowered / np.linalg.norm(lowered, axis=(1, 2), keepdims=True)
+    return C
 
 
 def clebsch_gordan_matrix(S1: WEIGHT, S2: WEIGHT, S3: WEIGHT):
@@ -368,14 +345,7 @@ def clebsch_gordan_matrix(S1: WEIGHT, S2: WEIGHT, S3: WEIGHT):
         ),
         axis=-1,
     )
-    M_list = [M_eldest]
-    for alpha in range(C.shape[0]):
-        while len(M_list) != dimS3:
-            Mc, Mp, l = search_state(M_list)
-            mp = M_to_index(Mp)
-            C[alpha, :, :, mp] = construct_lower_cg(S1, S2, S3, Mp, Mc, l, alpha, C)
-            M_list.append(Mp)
-    return C
+    return construct_lower_cg(S1, S2, S3, C)
 
 
 def E_basis(k: int, l: int, Jp, Jm):
-- 
2.43.0


From 2c9efffaaf9f3e27e6425f980df30b60f6144709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 10/36] fix: SUN.from_string accepts surrounding spaces like
 the other irreps

---
 lie_nn/_src/irreps/sun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index f56b36e..91699d4 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -420,7 +420,7 @@ class SUN(TabulatedIrrep):
     @classmethod
     def from_string(cls, s: str) -> "SUN":
         # (4,3,2,1,0)
-        m = re.match(r"\((\d+(?:,\d+)*)\)", s)
+        m = re.match(r"\((\d+(?:,\d+)*)\)", s.strip())
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SUN", rep2: "SUN") -> List["SUN"]:
-- 
2.43.0


From b945545364c425f9e5bf210a0d293ea2f31df47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 11/36] fix: SU2_, SU3 and SU4 validate their weights like SUN

---
 lie_nn/_src/irreps/sun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index 91699d4..358e1ad 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -460,6 +460,7 @@ class SUN(TabulatedIrrep):
 @dataclass(frozen=True)
 class SU2_(SUN):
     def __post_init__(rep):
+        super().__post_init__()
         assert len(rep.S) == 2
 
     @classmethod
@@ -471,6 +472,7 @@ class SU2_(SUN):
 @dataclass(frozen=True)
 class SU3(SUN):
     def __post_init__(rep):
+        super().__post_init__()
         assert len(rep.S) == 3
 
     @classmethod
@@ -483,6 +485,7 @@ class SU3(SUN):
 @dataclass(frozen=True)
 class SU4(SUN):
     def __post_init__(rep):
+        super().__post_init__()
         assert len(rep.S) == 4
 
     @classmethod
-- 
2.43.0


From 4b48a0c52acfc298f33546c7fc60be7f18459b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 12/36] fix: create_trivial of SUN irreps of any N

---
 lie_nn/_src/irreps/sun.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index 358e1ad..28cd689 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -437,6 +437,9 @@ class SUN(TabulatedIrrep):
     def __eq__(rep1: "SUN", rep2: "SUN") -> bool:
         return rep1.S == rep2.S
 
+    def create_trivial(rep: "SUN") -> "SUN":
+        return SUN(S=(0,) * len(rep.S))
+
     @property
     def dim(rep: "SUN") -> int:
         return dim(rep.S)
@@ -463,6 +466,10 @@ class SU2_(SUN):
         super().__post_init__()
         assert len(rep.S) == 2
 
+    @classmethod
+    def create_trivial(cls) -> "SU2_":
+        return cls(S=(0, 0))
+
     @classmethod
     def iterator(cls) -> Iterator["SU2_"]:
         for j in itertools.count(0):
@@ -475,6 +482,10 @@ class SU3(SUN):
         super().__post_init__()
         assert len(rep.S) == 3
 
+    @classmethod
+    def create_trivial(cls) -> "SU3":
+        return cls(S=(0, 0, 0))
+
     @classmethod
     def iterator(cls) -> Iterator["SU3"]:
         for j1 in itertools.count(0):
@@ -488,6 +499,10 @@ class SU4(SUN):
         super().__post_init__()
         assert len(rep.S) == 4
 
+    @classmethod
+    def create_trivial(cls) -> "SU4":
+        return cls(S=(0, 0, 0, 0))
+
     @classmethod
     def iterator(cls) -> Iterator["SU4"]:
         for j1 in itertools.count(0):
-- 
2.43.0


From 857946dd5a92d4b59161e40bae0f46695799aeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 13/36] fix: create_trivial of products of tabulated irreps

---
 lie_nn/_src/group_product.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lie_nn/_src/group_product.py b/lie_nn/_src/group_product.py
index e5ad37e..0d8f0da 100644
--- a/lie_nn/_src/group_product.py
+++ b/lie_nn/_src/group_product.py
@@ -92,6 +92,9 @@ class TabulatedIrrepProduct(TabulatedIrrep):
     def iterator(cls) -> Iterator["TabulatedIrrepProduct"]:
         raise NotImplementedError
 
+    def create_trivial(rep: "TabulatedIrrepProduct") -> "TabulatedIrrepProduct":
+        return TabulatedIrrepProduct(rep.rep1.create_trivial(), rep.rep2.create_trivial())
+
     def continuous_generators(rep: "TabulatedIrrepProduct") -> np.ndarray:
         X1 = rep.rep1.X
         X2 = rep.rep2.X
-- 
2.43.0


From a89d3aaa6884010bb3b5fb79c289ad258b794f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 14/36] fix: fundamental weights of D_n are not repeated

---
 lie_nn/_src/lie_algebra_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/lie_algebra_utils.py b/lie_nn/_src/lie_algebra_utils.py
index ace02ad..06e52ba 100644
--- a/lie_nn/_src/lie_algebra_utils.py
+++ b/lie_nn/_src/lie_algebra_utils.py
@@ -78,7 +78,7 @@ def RootsWeightsD(rank):
         weights_2 = np.concatenate(([0.5 * sum(epsilon) - epsilon[rank - 1]], [0.5 * sum(epsilon)]))
     else:
         weights_2 = np.concatenate(
-            (weight_sum, [0.5 * sum(epsilon) - epsilon[rank - 1]], weight_sum, [0.5 * sum(epsilon)])
+            (weight_sum, [0.5 * sum(epsilon) - epsilon[rank - 1]], [0.5 * sum(epsilon)])
         )
     weights_3 = np.concatenate(([1, 1], np.zeros(rank - 2)))
     dynkin = " " * 4 * (rank - 2) + "0\n"
-- 
2.43.0


From b36cfeef2dfa191af8b1012e95262228cc5e6499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 15/36] fix: Weyl dimensions of SON and SPN are rounded instead
 of truncated

---
 lie_nn/_src/irreps/son.py | 2 +-
 lie_nn/_src/irreps/spn.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index d0e5bbc..59eda7a 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -50,7 +50,7 @@ class SON(TabulatedIrrep):
     @property
     def dim(rep: "SON") -> int:
         positiveroots, weylvector = root_weights(len(rep.S))[0], root_weights(len(rep.S))[2]
-        return int(weyl_dim(weights(rep), positiveroots, weylvector))
+        return int(round(weyl_dim(weights(rep), positiveroots, weylvector)))
 
     def is_scalar(rep: "SON") -> bool:
         """Equivalent to ``S=(0,...,0)``"""
diff --git a/lie_nn/_src/irreps/spn.py b/lie_nn/_src/irreps/spn.py
index 0e27c8c..2e7544e 100644
--- a/lie_nn/_src/irreps/spn.py
+++ b/lie_nn/_src/irreps/spn.py
@@ -46,7 +46,7 @@ class SPN(TabulatedIrrep):
     @property
     def dim(rep: "SPN") -> int:
         positiveroots, weylvector = root_weights(len(rep.S))[0], root_weights(len(rep.S))[2]
-        return int(weyl_dim(weights(rep), positiveroots, weylvector))
+        return int(round(weyl_dim(weights(rep), positiveroots, weylvector)))
 
     def is_scalar(rep: "SPN") -> bool:
         """Equivalent to ``S=(0,...,0)``"""
-- 
2.43.0


From 1e8954a9da1bffb4be575a2d0224041b2b1a1849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 16/36] fix: last generators of SON_adjoint for odd n

---
 lie_nn/_src/irreps/son.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index 59eda7a..089b3a5 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -141,7 +141,7 @@ class SON_adjoint(lie.Rep):
                 ]
             )
             Us = np.stack(
-                [E(i, self.n - 1, self.n) - E(self.n - 1, i, self.n) for i in range(self.n)]
+                [E(i, self.n - 1, self.n) - E(self.n - 1, n2 + i, self.n) for i in range(n2)]
             )
             Vs = np.stack(
                 [E(n2 + i, self.n - 1, self.n) - E(self.n - 1, i, self.n) for i in range(n2)]
-- 
2.43.0


From c86aa70d752bc5a65af41978e28ee22bd39c5dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 17/36] fix: generators of SON_adjoint(3)

---
 lie_nn/_src/irreps/son.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index 089b3a5..1ac0999 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -116,30 +116,30 @@ class SON_adjoint(lie.Rep):
         else:
             n2 = (self.n - 1) // 2
             Hs = np.stack([E(i, i, self.n) - E(i + n2, i + n2, self.n) for i in range(n2)])
-            Xs = np.stack(
+            Xs = np.array(
                 [
                     E(i, j, self.n) - E(n2 + j, n2 + i, self.n)
                     for i in range(n2)
                     for j in range(n2)
                     if i != j
                 ]
-            )
-            Ys = np.stack(
+            ).reshape(-1, self.n, self.n)
+            Ys = np.array(
                 [
                     E(i, n2 + j, self.n) - E(j, n2 + i, self.n)
                     for i in range(n2)
                     for j in range(n2)
                     if i != j
                 ]
-            )
-            Zs = np.stack(
+            ).reshape(-1, self.n, self.n)
+            Zs = np.array(
                 [
                     E(n2 + i, j, self.n) - E(n2 + j, i, self.n)
                     for i in range(n2)
                     for j in range(n2)
                     if i != j
                 ]
-            )
+            ).reshape(-1, self.n, self.n)
             Us = np.stack(
                 [E(i, self.n - 1, self.n) - E(self.n - 1, n2 + i, self.n) for i in range(n2)]
             )
-- 
2.43.0


From 62ce55be2493518bf69f411744e310a925862f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 18/36] fix: operand order of the tensor product of a reduced
 representation with an irrep

---
 lie_nn/_src/tensor_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index 603f91e..b8bd592 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -114,7 +114,7 @@ def tensor_product(mulirrep1: MulIrrep, rep2: ReducedRep) -> ReducedRep:  # noqa
 
 @dispatch(ReducedRep, MulIrrep)
 def tensor_product(rep1: ReducedRep, mulirrep2: MulIrrep) -> ReducedRep:  # noqa: F811
-    return tensor_product(ReducedRep(A=mulirrep2.A, irreps=(mulirrep2,), Q=None), rep1)
+    return tensor_product(rep1, ReducedRep(A=mulirrep2.A, irreps=(mulirrep2,), Q=None))
 
 
 @dispatch(ReducedRep, TabulatedIrrep)
-- 
2.43.0


From 3948b8ab977c8f15f97a605831b15e371ed653c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 19/36] fix: tensor product of multiples of representations
 that are not tabulated

---
 lie_nn/_src/tensor_product.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index b8bd592..dde7511 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -45,6 +45,11 @@ def tensor_product(mulirrep1: MulIrrep, mulirrep2: MulIrrep) -> ReducedRep:  # n
     assert np.allclose(mulirrep1.A, mulirrep2.A)  # same lie algebra
     m1, m2 = mulirrep1.mul, mulirrep2.mul
     tp_irreps = tensor_product(mulirrep1.rep, mulirrep2.rep)
+    if not isinstance(tp_irreps, ReducedRep):
+        # irreps that are not tabulated, their product is kept as a single block
+        tp_irreps = ReducedRep(
+            A=tp_irreps.A, irreps=(MulIrrep(mul=1, rep=tp_irreps),), Q=np.eye(tp_irreps.dim)
+        )
     Q = tp_irreps.Q
     irreps = tp_irreps.irreps
     Q_out = []
-- 
2.43.0


From 04c2bbc86cd52baa5b0143a6de2eb6ecb8a0b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 20/36] fix: block_diagonal keeps the imaginary part of complex
 blocks

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 1dd7480..0d14f1f 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -162,7 +162,7 @@ def vmap(
 def block_diagonal(As: List[np.array]):
     size1 = sum([As[i].shape[1] for i in range(len(As))])
     size2 = sum([As[i].shape[2] for i in range(len(As))])
-    R = np.zeros((As[0].shape[0], size1, size2))
+    R = np.zeros((As[0].shape[0], size1, size2), dtype=np.result_type(*As))
     shape_x = 0
     shape_y = 0
     for i in range(len(As)):
-- 
2.43.0


From 22820eae5ec500b9f4b1fb7fa426e12586db4e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 21/36] fix: vmap over an empty axis with a negative output
 axis

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 0d14f1f..8d81afd 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -124,7 +124,7 @@ def vmap(
 ):
     if out_shape is not None:
         out_shape = list(out_shape)
-        out_shape.insert(out_axes, 0)
+        out_shape.insert(out_axes if out_axes >= 0 else len(out_shape) + 1 + out_axes, 0)
 
     def f(*args):
         in_axes_ = in_axes
-- 
2.43.0


From 36e0eaf422f6e6c8fe88439c522cd8ffb66059a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 22/36] fix: decompose_rep_into_irreps projects on the complex
 eigenspaces

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 8d81afd..8fb35c4 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -580,7 +580,7 @@ def decompose_rep_into_irreps(
         B = gram_schmidt(W.T, epsilon=epsilon)  # Make an orthonormal projector
         B = gram_schmidt(B.T.conj() @ B, epsilon=epsilon, round_fn=round_fn)  # Make it sparse!!
 
-        Ys += [B @ X @ B.T.conj()]
+        Ys += [B.conj() @ X @ B.T]
     return Ys
 
 
-- 
2.43.0


From ddd126358926e9b099c10c0608c8806a8907c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 23/36] fix: reduce representations that contain an irrep
 several times

---
 lie_nn/_src/reduce.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lie_nn/_src/reduce.py b/lie_nn/_src/reduce.py
index 09d93e7..d90b1dc 100644
--- a/lie_nn/_src/reduce.py
+++ b/lie_nn/_src/reduce.py
@@ -34,11 +34,14 @@ def reduce(rep: Rep) -> ReducedRep:  # noqa: F811
     irs = []
     for Y in Ys:
         ir = GenericRep(rep.A, Y[:d], Y[d:])
+        if any(infer_change_of_basis(ir, mul_ir.rep).shape[0] > 0 for mul_ir in irs):
+            continue  # all the copies of an irrep are taken at once
         Q = infer_change_of_basis(ir, rep)
-        Q = np.einsum("mij->imj", Q).reshape((rep.dim, ir.dim))
+        m = Q.shape[0]
+        Q = np.einsum("mij->imj", Q).reshape((rep.dim, m * ir.dim))
         Qs.append(Q)
-        irs.append(ir)
+        irs.append(MulIrrep(m, ir))
 
     Q = np.concatenate(Qs, axis=1)
-    rep = ReducedRep(rep.A, tuple(MulIrrep(1, ir) for ir in irs), Q)
+    rep = ReducedRep(rep.A, tuple(irs), Q)
     return rep
-- 
2.43.0


From 1ee4867483bedbd4a4d98224a1d42cd9c2e31a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 24/36] fix: change of basis between representations without
 generators

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 8fb35c4..bfb1415 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -374,7 +374,7 @@ def infer_change_of_basis(
     assert X1.shape == (n, d1, d1)
     assert X2.shape == (n, d2, d2)
 
-    As = []
+    As = [np.zeros((0, d1 * d2))]
     for x1, x2 in zip(X1, X2):
         # X1 @ S - S @ X2 = 0
         # X1 @ S - (X2.T @ S.T).T = 0
-- 
2.43.0


From 5dc8f59c54dcb32950ed85ff2e8c11b0ac27b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 25/36] fix: algebras of different dimension are refused

---
 lie_nn/_src/direct_sum.py            | 1 +
 lie_nn/_src/infer_change_of_basis.py | 1 +
 lie_nn/_src/reduced_rep.py           | 1 +
 lie_nn/_src/tensor_product.py        | 3 +++
 4 files changed, 6 insertions(+)

diff --git a/lie_nn/_src/direct_sum.py b/lie_nn/_src/direct_sum.py
index 02c3b34..9a880bd 100644
--- a/lie_nn/_src/direct_sum.py
+++ b/lie_nn/_src/direct_sum.py
@@ -7,6 +7,7 @@ from .util import direct_sum as _direct_sum
 
 @dispatch(Rep, Rep)
 def direct_sum(rep1: Rep, rep2: Rep) -> GenericRep:
+    assert rep1.A.shape == rep2.A.shape
     assert np.allclose(rep1.A, rep2.A)  # same lie algebra
     assert rep1.H.shape[0] == rep2.H.shape[0]  # same discrete dimension
     return GenericRep(
diff --git a/lie_nn/_src/infer_change_of_basis.py b/lie_nn/_src/infer_change_of_basis.py
index 21aecab..45e6326 100644
--- a/lie_nn/_src/infer_change_of_basis.py
+++ b/lie_nn/_src/infer_change_of_basis.py
@@ -26,6 +26,7 @@ def infer_change_of_basis(rep1: Rep, rep2: Rep, round_fn=lambda x: x) -> np.ndar
         The change of basis matrix ``Q``.
     """
     # Check the group structure
+    assert rep1.algebra().shape == rep2.algebra().shape
     assert np.allclose(rep1.algebra(), rep2.algebra())
 
     Y1 = np.concatenate([rep1.continuous_generators(), rep1.discrete_generators()])
diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 9a458b0..6800d4c 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -95,6 +95,7 @@ class ReducedRep(Rep):
             if A is None:
                 A = mul_ir.algebra()
             else:
+                assert A.shape == mul_ir.algebra().shape
                 assert np.allclose(A, mul_ir.algebra())
 
         dim = sum(mul_ir.dim for mul_ir in irreps)
diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index dde7511..a7677fe 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -10,6 +10,7 @@ from .rep import GenericRep, Rep
 
 @dispatch(Rep, Rep)
 def tensor_product(rep1: Rep, rep2: Rep) -> GenericRep:
+    assert rep1.A.shape == rep2.A.shape
     assert np.allclose(rep1.A, rep2.A)  # same lie algebra
     X1, H1, I1 = rep1.X, rep1.H, np.eye(rep1.dim)
     X2, H2, I2 = rep2.X, rep2.H, np.eye(rep2.dim)
@@ -26,6 +27,7 @@ def tensor_product(rep1: Rep, rep2: Rep) -> GenericRep:
 
 @dispatch(TabulatedIrrep, TabulatedIrrep)
 def tensor_product(irrep1: TabulatedIrrep, irrep2: TabulatedIrrep) -> ReducedRep:  # noqa: F811
+    assert irrep1.A.shape == irrep2.A.shape
     assert np.allclose(irrep1.A, irrep2.A)  # same lie algebra
     CG_list = []
     irreps_list = []
@@ -42,6 +44,7 @@ def tensor_product(irrep1: TabulatedIrrep, irrep2: TabulatedIrrep) -> ReducedRep
 
 @dispatch(MulIrrep, MulIrrep)
 def tensor_product(mulirrep1: MulIrrep, mulirrep2: MulIrrep) -> ReducedRep:  # noqa: F811
+    assert mulirrep1.A.shape == mulirrep2.A.shape
     assert np.allclose(mulirrep1.A, mulirrep2.A)  # same lie algebra
     m1, m2 = mulirrep1.mul, mulirrep2.mul
     tp_irreps = tensor_product(mulirrep1.rep, mulirrep2.rep)
-- 
2.43.0


From 33a2dde5611898371c835de7743e46e9ae095ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 26/36] fix: products of irreps of quaternionic type

---
 lie_nn/_src/tensor_product.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index a7677fe..d90c20d 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -33,10 +33,13 @@ def tensor_product(irrep1: TabulatedIrrep, irrep2: TabulatedIrrep) -> ReducedRep
     irreps_list = []
     for ir_out in irrep1 * irrep2:
         CG = np.moveaxis(lie.clebsch_gordan(irrep1, irrep2, ir_out), 3, 1)  # [sol, ir3, ir1, ir2]
-        mul = CG.shape[0]
-        CG = CG.reshape(CG.shape[0] * CG.shape[1], CG.shape[2] * CG.shape[3])
-        CG_list.append(CG)
-        irreps_list.append(MulIrrep(mul=mul, rep=ir_out))
+        paths = []
+        for C in CG.reshape(CG.shape[0], CG.shape[1], CG.shape[2] * CG.shape[3]):
+            # several paths have the same image if ir_out is not of real type, keep one of them
+            if np.linalg.matrix_rank(np.concatenate(paths + [C])) == (len(paths) + 1) * ir_out.dim:
+                paths.append(C)
+        CG_list += paths
+        irreps_list.append(MulIrrep(mul=len(paths), rep=ir_out))
     CG = np.concatenate(CG_list, axis=0)
     Q = np.linalg.inv(CG)
     return ReducedRep(A=irrep1.A, irreps=tuple(irreps_list), Q=Q)
-- 
2.43.0


From 0f2421ea193f710ed4bc35347ea76a71aac6158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 27/36] fix: JAX exponential map and matrix power of complex
 representations

---
 lie_nn/_src/jax_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/jax_utils.py b/lie_nn/_src/jax_utils.py
index 4e8fee8..e914082 100644
--- a/lie_nn/_src/jax_utils.py
+++ b/lie_nn/_src/jax_utils.py
@@ -13,7 +13,7 @@ def static_jax_pytree(cls):
 @jax.jit
 def matrix_power(F, n):
     upper_limit = 32
-    init_carry = n, F, jnp.eye(F.shape[0])
+    init_carry = n, F, jnp.eye(F.shape[0], dtype=F.dtype)
 
     def body(carry, _):
         # One step of the iteration
@@ -24,7 +24,7 @@ def matrix_power(F, n):
 
         # No more computation necessary if n = 0
         # Is there a better way to early break rather than just returning something empty?
-        new_z = jax.lax.cond(new_n, lambda z: z @ z, lambda _: jnp.empty(z.shape), z)
+        new_z = jax.lax.cond(new_n, lambda z: z @ z, lambda _: jnp.empty(z.shape, z.dtype), z)
 
         return (new_n, new_z, new_result), None
 
-- 
2.43.0


From d31abef3daa2de282ff5f881ac0f1124f5293146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 28/36] fix: algebra checks and inference without continuous
 generators

---
 lie_nn/_src/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index bfb1415..cff591d 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -442,7 +442,7 @@ def basis_intersection(
 def check_algebra_vs_generators(
     A: np.ndarray, X: np.ndarray, rtol: float = 1e-10, atol: float = 1e-10, assert_: bool = False
 ):
-    left_side = vmap(vmap(commutator, (0, None), 0), (None, 0), 1)(X, X)
+    left_side = commutator(X[:, None], X[None, :])
     right_side = np.einsum("ijk,kab->ijab", A, X)
     if assert_:
         np.testing.assert_allclose(left_side, right_side, rtol=rtol, atol=atol)
@@ -469,8 +469,8 @@ def infer_algebra_from_generators(
     Returns:
         np.ndarray: If successful, the algebra. Shape ``(n, n, n)``.
     """
-    n = X.shape[0]
-    pinv = np.linalg.pinv(X.reshape((n, -1)))
+    n, d, _ = X.shape
+    pinv = np.linalg.pinv(X.reshape((n, d * d)))
 
     algebra = np.zeros((n, n, n))
     for i in range(n):
-- 
2.43.0


From c4080a8808be521a713aab513256f2532333916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 29/36] fix: real form of representations whose conjugation has
 eigenvalues on the branch cut

---
 lie_nn/_src/real.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index 4b1c911..da2d774 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -17,7 +17,11 @@ def make_explicitly_real(rep: lie.Rep, *, round_fn=lambda x: x):
     if S.shape[0] == 0:
         raise ValueError("The representation is not real")
     assert S.shape[0] == 1
-    rep = lie.change_basis(rep, la.sqrtm(S[0]))
-    if np.linalg.norm(rep.X.imag) > 1e-10 or np.linalg.norm(rep.H.imag) > 1e-10:
-        raise ValueError("The representation is not real")
-    return rep
+    S = S[0]
+    n = rep.dim + 1
+    for k in range(n):
+        # any phase of S is allowed, one of these has no eigenvalue on the branch cut of the sqrt
+        real = lie.change_basis(rep, la.sqrtm(S if k == 0 else np.exp(2j * np.pi * k / n) * S))
+        if np.linalg.norm(real.X.imag) <= 1e-10 and np.linalg.norm(real.H.imag) <= 1e-10:
+            return real
+    raise ValueError("The representation is not real")
-- 
2.43.0


From 56b37d783f6cb3736cad94039d560c67d8df2fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 30/36] fix: equal representations given for exchanged indices
 are accepted

---
 lie_nn/_src/reduced_tensor_product.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 4a3f9a9..b46d70f 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -89,6 +89,12 @@ def _to_reducedrep(irreps) -> ReducedRep:
     return irreps
 
 
+def _same_reducedrep(rep1: ReducedRep, rep2: ReducedRep) -> bool:
+    if rep1.Q is None or rep2.Q is None:
+        return tuple(rep1.irreps) == tuple(rep2.irreps) and rep1.Q is rep2.Q
+    return tuple(rep1.irreps) == tuple(rep2.irreps) and np.array_equal(rep1.Q, rep2.Q)
+
+
 def reduced_tensor_product_basis(
     formula_or_irreps_list: Union[str, List[ReducedRep]],
     *,
@@ -136,7 +142,11 @@ def reduced_tensor_product_basis(
     for _sign, p in perm_repr:
         f = "".join(f0[i] for i in p)
         for i, j in zip(f0, f):
-            if i in irreps_dict and j in irreps_dict and irreps_dict[i] != irreps_dict[j]:
+            if (
+                i in irreps_dict
+                and j in irreps_dict
+                and not _same_reducedrep(irreps_dict[i], irreps_dict[j])
+            ):
                 raise RuntimeError(f"irreps of {i} and {j} should be the same")
             if i in irreps_dict:
                 irreps_dict[j] = irreps_dict[i]
-- 
2.43.0


From c8173bfb1bd68a773d61185b46f5bc5ef0a58d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:44 +0000
Subject: [PATCH 31/36] fix: refuse SO3, O3 and Z2 labels that name no irrep

---
 lie_nn/_src/irreps/o3_real.py  | 5 +++++
 lie_nn/_src/irreps/so3_real.py | 4 ++++
 lie_nn/_src/irreps/z2.py       | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/lie_nn/_src/irreps/o3_real.py b/lie_nn/_src/irreps/o3_real.py
index 8380e57..e75c75a 100644
--- a/lie_nn/_src/irreps/o3_real.py
+++ b/lie_nn/_src/irreps/o3_real.py
@@ -13,6 +13,11 @@ class O3(TabulatedIrrep):
     l: int  # non-negative integer
     p: int  # 1 or -1
 
+    def __post_init__(rep):
+        assert isinstance(rep.l, int)
+        assert rep.l >= 0
+        assert rep.p in (-1, 1)
+
     @classmethod
     def from_string(cls, s: str) -> "O3":
         s = s.strip()
diff --git a/lie_nn/_src/irreps/so3_real.py b/lie_nn/_src/irreps/so3_real.py
index 1982bca..937c688 100644
--- a/lie_nn/_src/irreps/so3_real.py
+++ b/lie_nn/_src/irreps/so3_real.py
@@ -25,6 +25,10 @@ def change_basis_real_to_complex(l: int) -> np.ndarray:
 class SO3(TabulatedIrrep):
     l: int
 
+    def __post_init__(rep):
+        assert isinstance(rep.l, int)
+        assert rep.l >= 0
+
     @classmethod
     def from_string(cls, s: str) -> "SO3":
         return cls(l=int(s))
diff --git a/lie_nn/_src/irreps/z2.py b/lie_nn/_src/irreps/z2.py
index e3c2268..cfa254d 100644
--- a/lie_nn/_src/irreps/z2.py
+++ b/lie_nn/_src/irreps/z2.py
@@ -10,6 +10,9 @@ from ..irrep import TabulatedIrrep
 class Z2(TabulatedIrrep):
     p: int  # 1 or -1
 
+    def __post_init__(rep):
+        assert rep.p in (-1, 1)
+
     @classmethod
     def from_string(cls, s: str) -> "Z2":
         s = s.strip()
-- 
2.43.0


From 2749ef38ea97c2c51459f4a6cd2515a052f8da3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 32/36] fix: representations of dimension zero have no
 intertwiners

---
 lie_nn/_src/clebsch_gordan.py | 2 +-
 lie_nn/_src/util.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/clebsch_gordan.py b/lie_nn/_src/clebsch_gordan.py
index 4879b0b..55e580a 100644
--- a/lie_nn/_src/clebsch_gordan.py
+++ b/lie_nn/_src/clebsch_gordan.py
@@ -22,7 +22,7 @@ def clebsch_gordan(rep1: Rep, rep2: Rep, rep3: Rep, *, round_fn=lambda x: x) ->
     """
     tp = tensor_product(rep1, rep2)
     cg = infer_change_of_basis(tp, rep3, round_fn=round_fn)
-    cg = cg.reshape((-1, rep3.dim, rep1.dim, rep2.dim))
+    cg = cg.reshape((cg.shape[0], rep3.dim, rep1.dim, rep2.dim))
     cg = np.moveaxis(cg, 1, 3)
     return cg
 
diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index cff591d..52d7a7b 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -383,7 +383,7 @@ def infer_change_of_basis(
 
     A = np.concatenate(As, axis=0)  # (n * d1 * d2, d1 * d2)
     S = nullspace(A, epsilon=epsilon, round_fn=round_fn)  # (m, d1 * d2)
-    S = S.reshape(-1, d1, d2)
+    S = S.reshape(S.shape[0], d1, d2)
 
     # assert np.allclose(X1 @ S[0], S[0] @ X2)
     return S
-- 
2.43.0


From c4d8dae38a95ab6e134a3d122cdff8adc94f675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 33/36] fix: keep the indices of a subset sorted when a basis
 is assembled from parts

---
 lie_nn/_src/reduced_tensor_product.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index b46d70f..c5b4d8f 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -259,7 +259,7 @@ def _reduced_tensor_product_basis(
         i, j, f = best
         del bases[j]
         del bases[i]
-        sub_irreps = tuple(irreps_tuple[i] for i in f)
+        sub_irreps = tuple(irreps_tuple[i] for i in sorted(f))
         sub_perm_repr = subrepr_permutation(f, perm_repr)
         ab = _reduced_tensor_product_basis(sub_irreps, sub_perm_repr, epsilon)
         ab = ab.reshape(tuple(dims[i] if i in f else 1 for i in range(len(dims))) + (-1,))
@@ -400,7 +400,7 @@ def reduce_subgroup_permutation(
     return_dim: bool = False,
 ) -> np.ndarray:
     sub_perm_repr = subrepr_permutation(sub_f0, perm_repr)
-    sub_dims = tuple(dims[i] for i in sub_f0)
+    sub_dims = tuple(dims[i] for i in sorted(sub_f0))
     if len(sub_perm_repr) == 1:
         if return_dim:
             return prod(sub_dims)
-- 
2.43.0


From 4d7d0a2d70fb4d1386d238df092e9c03b87f1a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:05 +0000
Subject: [PATCH 34/36] fix: drop the redundant copies of irreps that are not
 of real type from a reduced basis

---
 lie_nn/_src/reduced_tensor_product.py | 30 +++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index c5b4d8f..8e4072b 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -235,12 +235,12 @@ def _reduced_tensor_product_basis(
             f = frozenset(fa | fb)
             ab = reduce_basis_product(a, b)
             if len(subrepr_permutation(f, perm_repr)) == 1:
-                return ab.sorted().simplify()
+                return keep_independent_copies(ab.sorted().simplify(), prod(dims))
             p = reduce_subgroup_permutation(f, perm_repr, dims)
             ab = constrain_rotation_basis_by_permutation_basis(
                 ab, p, epsilon=epsilon, round_fn=round_to_sqrt_rational
             )
-            return ab.sorted().simplify()
+            return keep_independent_copies(ab.sorted().simplify(), p.shape[0])
 
         # greedy algorithm
         min_p = np.inf
@@ -335,6 +335,32 @@ def reduce_basis_product(
     return new.sorted().simplify()
 
 
+def keep_independent_copies(basis: IrrepsArray, dim: int) -> IrrepsArray:
+    """Keep one of the copies of an irrep that have the same image.
+
+    There are such copies if the irrep is not of real type.
+
+    Args:
+        basis: A basis with possibly redundant copies.
+        dim: The dimension of the space that is spanned.
+    """
+    if sum(mul_ir.dim for mul_ir in basis.irreps) == dim:
+        return basis
+
+    new_irreps = []
+    new_list = []
+    for mul_ir, x in zip(basis.irreps, basis.list):
+        keep = []
+        for u in range(mul_ir.mul):
+            y = x[..., keep + [u], :]
+            y = y.reshape(prod(y.shape[:-2]), y.shape[-2] * y.shape[-1])
+            if np.linalg.matrix_rank(y) == y.shape[1]:
+                keep.append(u)
+        new_irreps.append(MulIrrep(len(keep), mul_ir.rep))
+        new_list.append(x[..., keep, :])
+    return IrrepsArray(irreps=new_irreps, list=new_list)
+
+
 def constrain_rotation_basis_by_permutation_basis(
     rotation_basis: IrrepsArray,
     permutation_basis: np.ndarray,
-- 
2.43.0


From d9f8d7b9ee9cc36163b745cb9b2d8ac277abfa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:19 +0000
Subject: [PATCH 35/36] fix: impose the symmetry of a tensor with a single
 index

---
 lie_nn/_src/reduced_tensor_product.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 8e4072b..deee3da 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -227,6 +227,11 @@ def _reduced_tensor_product_basis(
         if len(bases) == 1:
             f, b = bases[0]
             assert f == frozenset(range(len(irreps_tuple)))
+            if len(perm_repr) > 1:
+                p = reduce_subgroup_permutation(f, perm_repr, dims)
+                b = constrain_rotation_basis_by_permutation_basis(
+                    b, p, epsilon=epsilon, round_fn=round_to_sqrt_rational
+                )
             return b.sorted().simplify()
 
         if len(bases) == 2:
-- 
2.43.0


From 9681bb71c0f54aa58d7352f72ec7c52ff4f6ee8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:35 +0000
Subject: [PATCH 36/36] fix: reduce tensor products with a representation of
 dimension zero

---
 lie_nn/_src/reduced_tensor_product.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index deee3da..3fbe987 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -28,7 +28,10 @@ class IrrepsArray:
 
     @property
     def array(self):
-        return np.concatenate([np.reshape(x, x.shape[:-2] + (-1,)) for x in self.list], axis=-1)
+        return np.concatenate(
+            [np.reshape(x, x.shape[:-2] + (x.shape[-2] * x.shape[-1],)) for x in self.list],
+            axis=-1,
+        )
 
     def __init__(self, *, irreps, list):
         assert len(irreps) == len(list)
@@ -441,7 +444,9 @@ def reduce_subgroup_permutation(
         return len(base)
     permutation_basis = reduce_permutation_matrix(base, sub_dims)
     return np.reshape(
-        permutation_basis, (-1,) + tuple(dims[i] if i in sub_f0 else 1 for i in range(len(dims)))
+        permutation_basis,
+        (permutation_basis.shape[0],)
+        + tuple(dims[i] if i in sub_f0 else 1 for i in range(len(dims))),
     )
 
 
-- 
2.43.0

