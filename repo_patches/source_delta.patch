From e7be817b6d7654824bb29e9be9c89fdf325f49ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:55 +0000
Subject: [PATCH 01/29] fix: python sparse operator leaves 1 in scalar outputs
 without terms

---
 numga/backend/python/operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numga/backend/python/operator.py b/numga/backend/python/operator.py
index 9158664..0ba19c8 100644
--- a/numga/backend/python/operator.py
+++ b/numga/backend/python/operator.py
@@ -10,7 +10,8 @@ class PythonSparseOperator(AbstractConcreteOperator):
 
 	def __call__(self, *inputs: Tuple[PythonMultiVector]) -> PythonMultiVector:
 		terms = self.precompute_sparse
-		output = self.context.multivector(self.output)
+		# rows without any term are not visited below, and need to be zero
+		output = self.context.multivector(self.output, [0] * len(self.output))
 		for ci, term in terms:
 			output.values[ci] = sum(
 				math.prod((inp.values[ii] for inp, ii in zip(inputs, idx)), start=scalar)
-- 
2.43.0


From 14eb1c1d2961654ae999134571c8ff33e37070e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:55 +0000
Subject: [PATCH 02/29] fix: subspace.restrict[...] and subspace.restrict(...)
 performed a select

---
 numga/subspace/namespaces.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/numga/subspace/namespaces.py b/numga/subspace/namespaces.py
index f1f04f7..9742492 100644
--- a/numga/subspace/namespaces.py
+++ b/numga/subspace/namespaces.py
@@ -69,3 +69,10 @@ class RestrictNamespace(SelectNamespace):
 			return self.subspace.restrict_subspace(subspace)
 		else:
 			return lambda *args: self.subspace.restrict_subspace(subspace(*args))
+
+	def __getitem__(self, item):
+		subspace = self.factory.from_grades(item)
+		return self.subspace.restrict_subspace(subspace)
+
+	def __call__(self, subspace):
+		return self.subspace.restrict_subspace(subspace)
-- 
2.43.0


From d64458f5e4fd13f4b36c47aff8d12c436620249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:27 +0000
Subject: [PATCH 03/29] fix: subspace.select[2] and select[1, 2] raised

---
 numga/subspace/namespaces.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/numga/subspace/namespaces.py b/numga/subspace/namespaces.py
index 9742492..8a3252b 100644
--- a/numga/subspace/namespaces.py
+++ b/numga/subspace/namespaces.py
@@ -4,6 +4,14 @@ and permits some syntactic sugar like:
 	bivector = multivector.select[2]
 """
 
+import numpy as np
+
+
+def as_grades(item):
+	"""Allow for both `select[2]` and `select[1, 2]` syntax"""
+	if isinstance(item, (int, np.integer)):
+		return [item]
+	return list(item) if isinstance(item, tuple) else item
 
 
 class InNamespace:
@@ -54,7 +62,7 @@ class SelectNamespace:
 			return lambda *args: self.subspace.select_subspace(subspace(*args))
 
 	def __getitem__(self, item):
-		subspace = self.factory.from_grades(item)
+		subspace = self.factory.from_grades(as_grades(item))
 		return self.subspace.select_subspace(subspace)
 
 	def __call__(self, subspace):
@@ -71,7 +79,7 @@ class RestrictNamespace(SelectNamespace):
 			return lambda *args: self.subspace.restrict_subspace(subspace(*args))
 
 	def __getitem__(self, item):
-		subspace = self.factory.from_grades(item)
+		subspace = self.factory.from_grades(as_grades(item))
 		return self.subspace.restrict_subspace(subspace)
 
 	def __call__(self, subspace):
-- 
2.43.0


From 36113292d63096455931297de2bb866619c011af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:27 +0000
Subject: [PATCH 04/29] fix: exp of degenerate bivectors with nonzero square,
 for more than one null generator

---
 numga/multivector/extension/logexp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/multivector/extension/logexp.py b/numga/multivector/extension/logexp.py
index 93a2c21..41e9686 100644
--- a/numga/multivector/extension/logexp.py
+++ b/numga/multivector/extension/logexp.py
@@ -34,9 +34,9 @@ def empty_exp(e) -> Scalar:
 def scalar_exp(s: Scalar) -> Scalar:
 	"""Vanilla scalar exp"""
 	return s.copy(s.context.exp(s.values))
-@mv.exp.register(lambda s: s.is_degenerate)
+@mv.exp.register(lambda s: s.squared().equals.empty())
 def degenerate_exp(b: BiVector) -> Motor:
-	"""If we know all basis elements square to zero, might as well use that information"""
+	"""If we know the square is zero, might as well use that information"""
 	return b + 1
 @mv.exp.register(lambda s: s.inside.bivector)
 def default_exp(b: BiVector) -> "Motor":
-- 
2.43.0


From 001c802daf8424943f98d68743e2c2aa56e90def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:27 +0000
Subject: [PATCH 05/29] fix: exp silently returned wrong values for subspaces
 other than bivectors

---
 numga/multivector/extension/logexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/logexp.py b/numga/multivector/extension/logexp.py
index 41e9686..bd936e2 100644
--- a/numga/multivector/extension/logexp.py
+++ b/numga/multivector/extension/logexp.py
@@ -38,7 +38,7 @@ def scalar_exp(s: Scalar) -> Scalar:
 def degenerate_exp(b: BiVector) -> Motor:
 	"""If we know the square is zero, might as well use that information"""
 	return b + 1
-@mv.exp.register(lambda s: s.inside.bivector)
+@mv.exp.register(lambda s: s.inside.bivector())
 def default_exp(b: BiVector) -> "Motor":
 	"""default to numerical brute force"""
 	return b.exp_bisect()
-- 
2.43.0


From af7114d35254356458afad1480ba25e5d01b7f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:27 +0000
Subject: [PATCH 06/29] fix: decompose_polar refers to a nonexistent subspace

---
 numga/multivector/extension/decompose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/decompose.py b/numga/multivector/extension/decompose.py
index 3f963dc..c51c573 100644
--- a/numga/multivector/extension/decompose.py
+++ b/numga/multivector/extension/decompose.py
@@ -19,7 +19,7 @@ mv.decompose_polar = SubspaceDispatch("""
 	----------
 	PGA4CS eq 68-70
 	""")
-@mv.decompose_polar.register(lambda s: s.inside.bivector() and s.squared().inside.study())
+@mv.decompose_polar.register(lambda s: s.inside.bivector() and s.squared().is_study)
 def decompose_polar(b: BiVector) -> Tuple[BiVector, Study]:
 	# FIXME: special case the b=0 or not s.inv() case?
 	s: Study = b.symmetric_reverse_product().square_root()
-- 
2.43.0


From 054ec4cc5d28821130f7fd4205558656d47ef80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:27 +0000
Subject: [PATCH 07/29] fix: context.pow uses a function missing from numpy and
 jax

---
 numga/backend/jax/context.py   | 2 +-
 numga/backend/numpy/context.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/backend/jax/context.py b/numga/backend/jax/context.py
index 7713f72..28dcb90 100644
--- a/numga/backend/jax/context.py
+++ b/numga/backend/jax/context.py
@@ -49,7 +49,7 @@ class JaxContext(AbstractContext):
 		return jnp.abs(x)
 
 	def pow(self, x1, x2):
-		return jnp.pow(x1, x2)
+		return jnp.power(x1, x2)
 
 	def min(self, x, **kwargs):
 		return jnp.min(x, **kwargs)
diff --git a/numga/backend/numpy/context.py b/numga/backend/numpy/context.py
index 46a2949..8cae288 100644
--- a/numga/backend/numpy/context.py
+++ b/numga/backend/numpy/context.py
@@ -52,7 +52,7 @@ class NumpyContext(AbstractContext):
 		return np.abs(x)
 
 	def pow(self, x1, x2):
-		return np.pow(x1, x2)
+		return np.power(x1, x2)
 
 	def where(self, cond, a, b):
 		return np.where(cond, a, b)
-- 
2.43.0


From 8fd4810f3eaec878437ca837a0e870b2f792a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:27 +0000
Subject: [PATCH 08/29] fix: Operator.add_broadcast uses a nonexistent subspace
 operator

---
 numga/operator/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index 7b3c36f..099c4c4 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -82,7 +82,7 @@ class Operator:
 	def add(self, other: "Operator") -> "Operator":
 		return Operator(self.kernel + other.kernel, match((self.axes, other.axes)))
 	def add_broadcast(self, other: "Operator") -> "Operator":
-		axes = [sa + oa for sa, oa in zip(self.axes, other.axes)]
+		axes = [sa.union(oa) for sa, oa in zip(self.axes, other.axes)]
 		return self.deslice(axes) + other.deslice(axes)
 
 	def mul(self, s) -> "Operator":
-- 
2.43.0


From f650ff2333fd8e455aec316267ca6002d6bc345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:27 +0000
Subject: [PATCH 09/29] fix: SparseTensor addition does not sum entries at
 equal coordinates

---
 numga/operator/sparse_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/sparse_tensor.py b/numga/operator/sparse_tensor.py
index 60c148a..4a8b6ea 100644
--- a/numga/operator/sparse_tensor.py
+++ b/numga/operator/sparse_tensor.py
@@ -68,7 +68,7 @@ class SparseTensor:
 		axes = [np.concatenate([sa, oa], axis=0) for sa, oa in zip(self.axes, other.axes)]
 		data = np.concatenate([self.data, other.data], axis=0)
 		# FIXME: this can be optional?
-		axes, data = npi.group_by(axes).sum(data)
+		axes, data = npi.group_by(tuple(axes)).sum(data)
 		# FIXME: filter zeros
 		return SparseTensor(axes, data)
 
-- 
2.43.0


From 4e5301e8885b9e6148385ee97a2db1a318894040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:27 +0000
Subject: [PATCH 10/29] fix: optimized 3d pga exp gives nan for pure
 translations

---
 numga/multivector/extension/optimized.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numga/multivector/extension/optimized.py b/numga/multivector/extension/optimized.py
index f2e719f..4080120 100644
--- a/numga/multivector/extension/optimized.py
+++ b/numga/multivector/extension/optimized.py
@@ -113,7 +113,8 @@ def exponentiate_bivector_numpy(b: "BiVector") -> "Motor":
 	m = xy*zw - xz*yw + yz*xw
 	c = np.cos(a)
 	s = np.where(a > 1e-20, np.sin(a) / a, 1)
-	t = m * (c - s) / l
+	# m vanishes along with l
+	t = m * (c - s) / np.where(l > 0, l, 1)
 
 	M = np.empty(b.shape + (8,))
 	M[..., 0] = c
-- 
2.43.0


From 15fb072758768d87817d394b114100f36edf4b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 11/29] fix: inverse_transform and reverse_transform raised on
 every input

---
 numga/multivector/multivector.py | 2 +-
 numga/operator/factory.py        | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/numga/multivector/multivector.py b/numga/multivector/multivector.py
index 793ead4..19461b6 100644
--- a/numga/multivector/multivector.py
+++ b/numga/multivector/multivector.py
@@ -195,7 +195,7 @@ class AbstractMultiVector:
 	def transform(self, other):
 		return self.operator.transform(self.subspace, other.subspace)(self, other, self)
 	def reverse_transform(self, other):
-		return self.operator.reverse_transform(self.subspace, other.subspace)(self, other, self)
+		return self.operator.inverse_transform(self.subspace, other.subspace)(self, other, self)
 	def inverse_factor(self):
 		return self.operator.inverse_factor(self.subspace)(self, self, self)
 
diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 5174c6e..f3bd79b 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -548,7 +548,10 @@ class OperatorFactory:
 		"""Compute (R * v) * ~R, while preserving the outermorphism
 		Note; R is assumed normalized/motorized
 		"""
-		return self.transform(R.reverse(), v)
+		parity = match(R.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
+		S = self.reverse_sandwich(R, v)
+		sign_mask = parity_to_sign(v.grades() * parity)
+		return Operator(kernel=S.kernel * sign_mask[None, :, None], axes=S.axes)
 
 	@cache
 	def inverse_factor(self, x: SubSpace) -> Operator:
-- 
2.43.0


From 94eeb008ca2aa9501bde5e16306c292b707fb0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 12/29] fix: scaling a symbolic operator silently overflows its
 int8 kernel

---
 numga/operator/operator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index 099c4c4..e26db9c 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -87,7 +87,11 @@ class Operator:
 
 	def mul(self, s) -> "Operator":
 		"""Scalar multiplication"""
-		return Operator(self.kernel * s, self.axes)
+		kernel = self.kernel
+		if isinstance(kernel, np.ndarray) and np.issubdtype(kernel.dtype, np.integer):
+			# symbolic kernels are stored as small integers; scaling should not make them overflow
+			kernel = kernel.astype(np.int64)
+		return Operator(kernel * s, self.axes)
 	def div(self, s) -> "Operator":
 		"""Scalar division"""
 		return Operator(self.kernel // s, self.axes)
-- 
2.43.0


From b7ac884e8e32859c4be026610fab5d4303f12885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 13/29] fix: commutators of operators with several arguments
 permute those arguments

---
 numga/operator/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index f3bd79b..8b45f90 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -373,7 +373,9 @@ class OperatorFactory:
 	# FIXME: https://projectivegeometricalgebra.org/wiki/index.php?title=Commutators
 	def make_commutator(self, op, sign):
 		def bind(l, r):
-			return (op(l, r) + ((sign * op(r, l)).swapaxes(0, 1))).div(2).squeeze()
+			# swap the two arguments before binding any operators, which may have more than one argument themselves
+			L, R = l.subspace, r.subspace
+			return (op(L, R) + ((sign * op(R, L)).swapaxes(0, 1))).div(2)._build((l, r)).squeeze()
 		return bind
 	def commutator_product(self, l: SubSpace, r: SubSpace) -> Operator:
 		"""Commutator of the geometric product"""
-- 
2.43.0


From ccdef3dab40f6c1c0d0aeadf16ce968c0f5bb7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 14/29] fix: dividing a symbolic operator rounds its kernel
 down

---
 numga/operator/operator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index e26db9c..c11f0d0 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -94,7 +94,11 @@ class Operator:
 		return Operator(kernel * s, self.axes)
 	def div(self, s) -> "Operator":
 		"""Scalar division"""
-		return Operator(self.kernel // s, self.axes)
+		kernel = self.kernel // s
+		if not np.all(kernel * s == self.kernel):
+			# not an exact integer division
+			kernel = self.kernel / s
+		return Operator(kernel, self.axes)
 
 	def __add__(self, other):
 		return self.add(other)
-- 
2.43.0


From 75cbad83a26cd32d287c71a6154c19579fca7a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:43 +0000
Subject: [PATCH 15/29] fix: deslice of operators with an empty axis raised

---
 numga/operator/operator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index c11f0d0..be3f82d 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -178,10 +178,11 @@ class Operator:
 
 	def deslice(self, axes: Tuple[SubSpace]) -> "Operator":
 		"""inverse of slice; blow up the kernel with zeros"""
-		import numpy_indexed as npi
 		kernel = np.pad(self.kernel, [(0, 1)]*self.kernel.ndim, 'constant', constant_values=(0, 0))
 		for i, axis in enumerate(axes):
-			idx = npi.indices(self.axes[i].blades, axis.blades, missing=self.kernel.shape[i])
+			# blades not present in self refer to the padding; note that axes of self may be empty
+			present = {b: j for j, b in enumerate(self.axes[i].blades)}
+			idx = np.array([present.get(b, self.kernel.shape[i]) for b in axis.blades], dtype=int)
 			kernel = kernel.take(idx, axis=i)
 		return Operator(kernel, tuple(axes))
 
-- 
2.43.0


From c921ee3024b35a96acc3de0e87f84c0d9b8ed94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 16/29] fix: transform applies the parity sign along the wrong
 axis

---
 numga/operator/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 8b45f90..d2f1696 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -543,7 +543,7 @@ class OperatorFactory:
 		parity = match(R.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
 		S = self.sandwich(R, v)
 		sign_mask = parity_to_sign(v.grades() * parity)
-		return Operator(kernel=S.kernel * sign_mask[None, :, None], axes=S.axes)
+		return Operator(kernel=S.kernel * sign_mask[None, :, None, None], axes=S.axes)
 
 	@cache
 	def inverse_transform(self, R: SubSpace, v: SubSpace) -> Operator:
@@ -553,7 +553,7 @@ class OperatorFactory:
 		parity = match(R.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
 		S = self.reverse_sandwich(R, v)
 		sign_mask = parity_to_sign(v.grades() * parity)
-		return Operator(kernel=S.kernel * sign_mask[None, :, None], axes=S.axes)
+		return Operator(kernel=S.kernel * sign_mask[None, :, None, None], axes=S.axes)
 
 	@cache
 	def inverse_factor(self, x: SubSpace) -> Operator:
-- 
2.43.0


From f200b96bd365ee035b03763bfdbe7e6ac0008e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 17/29] fix: torch indexing treats a tuple of indices as one
 index array

---
 numga/backend/torch/context.py     | 9 +++++----
 numga/backend/torch/multivector.py | 9 +++++----
 numga/backend/torch/operator.py    | 9 +++++----
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index fb2b66c..75d17e3 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -23,10 +23,11 @@ class TorchContext(AbstractContext):
 		return torch.zeros(shape, dtype=self.dtype, device=self.device)
 
 	def set_array(self, arr, idx, values):
-		try:
-			idx = torch.asarray(idx)
-		except:
-			pass
+		if not isinstance(idx, tuple):    # a tuple holds an index for each axis
+			try:
+				idx = torch.asarray(idx)
+			except:
+				pass
 
 		arr = torch.clone(arr)
 		arr[idx] = values
diff --git a/numga/backend/torch/multivector.py b/numga/backend/torch/multivector.py
index 40003b3..0d583ee 100644
--- a/numga/backend/torch/multivector.py
+++ b/numga/backend/torch/multivector.py
@@ -30,10 +30,11 @@ class TorchMultiVector(AbstractMultiVector):
 
 	def __getitem__(self, idx):
 		# FIXME: torch indexing with ndarray behavior differs!
-		try:
-			idx = torch.asarray(idx)
-		except:
-			pass
+		if not isinstance(idx, tuple):    # a tuple holds an index for each axis
+			try:
+				idx = torch.asarray(idx)
+			except:
+				pass
 		v = self.values[idx]
 		return self.copy(values=v)
 
diff --git a/numga/backend/torch/operator.py b/numga/backend/torch/operator.py
index 102ba1d..b56a32d 100644
--- a/numga/backend/torch/operator.py
+++ b/numga/backend/torch/operator.py
@@ -39,10 +39,11 @@ class TorchOperator(AbstractConcreteOperator):
 
 
 	def __getitem__(self, idx):
-		try:
-			idx = torch.asarray(idx)
-		except:
-			pass
+		if not isinstance(idx, tuple):    # a tuple holds an index for each axis
+			try:
+				idx = torch.asarray(idx)
+			except:
+				pass
 		k = self.kernel[idx]
 		slice = self.copy(self.operator.copy(k))
 		return slice
-- 
2.43.0


From 4098aced0ac0014652a95f9b54388685650864e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 18/29] fix: transpose of batched unary operators raised

---
 numga/backend/numpy/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/numpy/operator.py b/numga/backend/numpy/operator.py
index 25da505..ffb21ef 100644
--- a/numga/backend/numpy/operator.py
+++ b/numga/backend/numpy/operator.py
@@ -93,7 +93,7 @@ class NumpyOperator(AbstractConcreteOperator):
 		return type(self)(
 			self.context,
 			Operator(
-				kernel=np.transpose(self.kernel, (-1, -2)),
+				kernel=np.swapaxes(self.kernel, -1, -2),
 				axes=(self.operator.axes[1], self.operator.axes[0]),
 			)
 		)
-- 
2.43.0


From e9b5484805a10dc55e477613df703bf4bed5553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 19/29] fix: squeeze of batched operators reduced over the
 wrong axes

---
 numga/operator/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index be3f82d..2f0efe6 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -221,7 +221,7 @@ class Operator:
 			eps = 1e-6   # need to consider an epsilon to make chained float kernel simplifications work
 			k = np.abs(k) > eps
 		# get nonzero output indices
-		indices = np.flatnonzero(k.any(axis=tuple(range(self.arity))))
+		indices = np.flatnonzero(k.any(axis=tuple(range(k.ndim - 1))))
 		output: SubSpace = self.output.slice_subspace(indices)
 
 		axes = list(self.axes)
-- 
2.43.0


From 57b1aabf33494dd6f54cc699b2bc479921c8bb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 20/29] fix: copy of a torch multivector without new values
 raised

---
 numga/backend/torch/multivector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/numga/backend/torch/multivector.py b/numga/backend/torch/multivector.py
index 0d583ee..c883977 100644
--- a/numga/backend/torch/multivector.py
+++ b/numga/backend/torch/multivector.py
@@ -28,6 +28,9 @@ class TorchMultiVector(AbstractMultiVector):
 			subspace=subspace
 		)
 
+	def copy(self, values=None, subspace=None):
+		return super().copy(values=self.values.clone() if values is None else values, subspace=subspace)
+
 	def __getitem__(self, idx):
 		# FIXME: torch indexing with ndarray behavior differs!
 		if not isinstance(idx, tuple):    # a tuple holds an index for each axis
-- 
2.43.0


From 825f52f6259d81881044957c23f9c0cd173b1e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 21/29] fix: mv.select.multivector() was shadowed by an
 internal attribute

---
 numga/multivector/namespaces.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/numga/multivector/namespaces.py b/numga/multivector/namespaces.py
index d059353..ae20873 100644
--- a/numga/multivector/namespaces.py
+++ b/numga/multivector/namespaces.py
@@ -10,35 +10,35 @@ from numga.subspace.subspace import SubSpace
 
 class SelectNamespace:
 	def __init__(self, multivector):
-		self.multivector = multivector
+		self._multivector = multivector
 		self.factory = multivector.context.subspace
 
 	def __getattr__(self, item):
 		subspace = getattr(self.factory, item)
 		if isinstance(subspace, SubSpace):
-			return self.multivector.select_subspace(subspace)
+			return self._multivector.select_subspace(subspace)
 		else:
-			return lambda *args: self.multivector.select_subspace(subspace(*args))
+			return lambda *args: self._multivector.select_subspace(subspace(*args))
 
 	def __getitem__(self, item):
 		item = list(item) if isinstance(item, tuple) else [item]
 		subspace = self.factory.from_grades(item)
-		return self.multivector.select_subspace(subspace)
+		return self._multivector.select_subspace(subspace)
 
 
 class RestrictNamespace:
 	def __init__(self, multivector):
-		self.multivector = multivector
+		self._multivector = multivector
 		self.factory = multivector.context.subspace
 
 	def __getattr__(self, item):
 		subspace = getattr(self.factory, item)
 		if isinstance(subspace, SubSpace):
-			return self.multivector.restrict_subspace(subspace)
+			return self._multivector.restrict_subspace(subspace)
 		else:
-			return lambda *args: self.multivector.restrict_subspace(subspace(*args))
+			return lambda *args: self._multivector.restrict_subspace(subspace(*args))
 
 	def __getitem__(self, item):
 		item = list(item) if isinstance(item, tuple) else [item]
 		subspace = self.factory.from_grades(item)
-		return self.multivector.restrict_subspace(subspace)
+		return self._multivector.restrict_subspace(subspace)
-- 
2.43.0


From 39aff9556e7c916afa714105259e394e3c443295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 22/29] fix: numpy arrays left of a multivector looped over
 their elements

---
 numga/multivector/multivector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numga/multivector/multivector.py b/numga/multivector/multivector.py
index 19461b6..da6b529 100644
--- a/numga/multivector/multivector.py
+++ b/numga/multivector/multivector.py
@@ -26,6 +26,8 @@ class AbstractMultiVector:
 	# context this multivector belongs to; so it can access operator cache,
 	# and allocate proper output types and all that good stuff
 	context: AbstractContext
+	# let numpy arrays on the left defer to our overloads, rather than looping over their elements
+	__array_ufunc__ = None
 
 	def __init__(self, context, subspace, values):
 		self.context = context
-- 
2.43.0


From a8b91beca81312b7f567ff2a4afcc46537e2a0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:51 +0000
Subject: [PATCH 23/29] fix: torch dense operators can be evaluated, and
 broadcast like the other strategies

torch.sum does not accept a range object as dim, and the reshape dropped batch axes
---
 numga/backend/torch/operator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/numga/backend/torch/operator.py b/numga/backend/torch/operator.py
index b56a32d..7911ac4 100644
--- a/numga/backend/torch/operator.py
+++ b/numga/backend/torch/operator.py
@@ -107,6 +107,8 @@ class TorchDenseOperator(TorchOperator):
 		super(TorchDenseOperator, self).__init__(*args, **kwargs)
 		# precompute reshape operations
 		self.shapes = self.broadcasting_shapes
+		# contraction over all kernel input axes
+		self.sum_axes = tuple(-(a + 2) for a in range(self.arity))
 
 	def __call__(self, *inputs: Tuple[TorchMultiVector]) -> TorchMultiVector:
 		# kernel, shapes = self.precompute
@@ -114,8 +116,11 @@ class TorchDenseOperator(TorchOperator):
 		kernel = self.context.coerce_array(self.kernel)
 		return self.context.multivector(
 			values=torch.sum(
-				math.prod((i.values.reshape(s) for i, s in zip(inputs, self.shapes)), start=kernel),
-				dim=range(self.arity)
+				math.prod(
+					(i.values.reshape(i.shape + s) for i, s in zip(inputs, self.shapes)),
+					start=kernel
+				),
+				dim=self.sum_axes
 			),
 			subspace=self.output
 		)
-- 
2.43.0


From b50a01f443a2099208f866a993a2239919d5c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 24/29] fix: evaluate fractional kernels in single precision
 numpy contexts

einsum refused to cast the double precision kernel to the output type
---
 numga/backend/numpy/operator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numga/backend/numpy/operator.py b/numga/backend/numpy/operator.py
index ffb21ef..34ee0a8 100644
--- a/numga/backend/numpy/operator.py
+++ b/numga/backend/numpy/operator.py
@@ -126,6 +126,7 @@ class NumpyEinsumOperator(NumpyOperator):
 				self.kernel,
 				*(i.values for i in inputs),
 				out=output.values,
+				casting='same_kind',    # fractional kernels are double precision, also in a single precision context
 				optimize=True
 			),
 			subspace=self.output,
-- 
2.43.0


From f0ed9c58187836b04e06ed26b837faf9c2ecadc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:30 +0000
Subject: [PATCH 25/29] fix: translator of motors in degenerate algebras with
 negative generators

---
 numga/operator/factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index d2f1696..d7abd10 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -630,12 +630,12 @@ class OperatorFactory:
 		# return Operator(op.kernel[:, mask, :], (x, y, rhs))
 
 	def euclidian_factorization(self, m: "SubSpace"):
-		"""
-		alternatively:
+		"""Degenerate bivector part of the translator of m; that is,
 		t = (m * ~m.select.rotor()).select.translator()
 		"""
-		op = self.product(m, self.dual(m))
-		return self.dual(op).select_grade(2).symmetry((0, 1))
+		translation = self.algebra.subspace.bivector().degenerate()
+		op = self.product(m, self.reverse(m).select_subspace(m.nondegenerate()))
+		return op.select_subspace(translation).symmetry((0, 1))
 
 	# # projections according to erik lengyel
 	# @cache
-- 
2.43.0


From c90962ae48472340d23807cfc7ae0daf85b1552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:39 +0000
Subject: [PATCH 26/29] fix: descriptions of more than 26 unnamed generators
 silently dropped the excess

---
 numga/algebra/description.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numga/algebra/description.py b/numga/algebra/description.py
index c5c403e..b51c2fa 100644
--- a/numga/algebra/description.py
+++ b/numga/algebra/description.py
@@ -83,8 +83,9 @@ class AlgebraDescription:
 		--------
 		'+++0' constructs the algebra corresponding to 3d PGA
 		"""
-		from numga.util import chars
-		return AlgebraDescription.from_str(''.join(c + s for c, s in zip(chars, sig)))
+		from string import ascii_letters
+		assert len(sig) <= len(ascii_letters), 'Not enough names available'
+		return AlgebraDescription.from_str(''.join(c + s for c, s in zip(ascii_letters, sig)))
 
 	@property
 	def n_dimensions(self) -> int:
-- 
2.43.0


From 6731e18b35f5076da36b7db4db9357872fd44d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 27/29] fix: SparseTensor.tensorproduct contracts the wrong
 axis of tensors of different rank

---
 numga/operator/sparse_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/sparse_tensor.py b/numga/operator/sparse_tensor.py
index 4a8b6ea..ab15c13 100644
--- a/numga/operator/sparse_tensor.py
+++ b/numga/operator/sparse_tensor.py
@@ -78,7 +78,7 @@ class SparseTensor:
 
 	def tensorproduct(self, other, sa, oa):
 		# FIXME: this is inefficient; as per example of two simple vectors; only case about diag terms
-		return self.product(other).contract((sa, len(other.axes)+oa))
+		return self.product(other).contract((sa, len(self.axes)+oa))
 
 	def product(self, other):
 		"""non contracting tensor product"""
-- 
2.43.0


From 5ab238ec4d51786a2113c8d801b1f2ae037f878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 28/29] fix: min of a torch context returned a pair of values
 and indices

---
 numga/backend/torch/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index 75d17e3..17019b2 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -56,7 +56,7 @@ class TorchContext(AbstractContext):
 		return torch.pow(x1, x2)
 
 	def min(self, x, axis):
-		return torch.min(x, dim=axis)
+		return torch.amin(x, dim=axis)
 	def argmin(self, x, axis):
 		return torch.argmin(x, dim=axis)
 	def all(self, x, axis):
-- 
2.43.0


From b8c0da5dbc92e20c854bfcfae86fabc89d2e34c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:19 +0000
Subject: [PATCH 29/29] fix: cos and sin of a multivector; no context
 implemented them, and the abstract stubs made them return their argument

---
 numga/backend/jax/context.py   | 4 ++++
 numga/backend/numpy/context.py | 4 ++++
 numga/backend/torch/context.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/numga/backend/jax/context.py b/numga/backend/jax/context.py
index 28dcb90..a3d0957 100644
--- a/numga/backend/jax/context.py
+++ b/numga/backend/jax/context.py
@@ -45,6 +45,10 @@ class JaxContext(AbstractContext):
 		return jnp.log(x)
 	def exp(self, x):
 		return jnp.exp(x)
+	def cos(self, x):
+		return jnp.cos(x)
+	def sin(self, x):
+		return jnp.sin(x)
 	def abs(self, x):
 		return jnp.abs(x)
 
diff --git a/numga/backend/numpy/context.py b/numga/backend/numpy/context.py
index 8cae288..0eb34a6 100644
--- a/numga/backend/numpy/context.py
+++ b/numga/backend/numpy/context.py
@@ -48,6 +48,10 @@ class NumpyContext(AbstractContext):
 		return np.log(x)
 	def exp(self, x):
 		return np.exp(x)
+	def cos(self, x):
+		return np.cos(x)
+	def sin(self, x):
+		return np.sin(x)
 	def abs(self, x):
 		return np.abs(x)
 
diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index 17019b2..8fd584b 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -49,6 +49,10 @@ class TorchContext(AbstractContext):
 		return torch.log(x)
 	def exp(self, x):
 		return torch.exp(x)
+	def cos(self, x):
+		return torch.cos(x)
+	def sin(self, x):
+		return torch.sin(x)
 	def abs(self, x):
 		return torch.abs(x)
 
-- 
2.43.0

