From 1965dd92836126600a972db436873316c3becb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 01/24] fix: transform applies the grade sign to the axis of
 the transformed argument

The sign mask was broadcast against the second rotor axis, giving shape
errors or wrong values unless both axes happened to have equal length.
---
 numga/operator/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 5174c6e..5efaaaf 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -541,7 +541,7 @@ class OperatorFactory:
 		parity = match(R.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
 		S = self.sandwich(R, v)
 		sign_mask = parity_to_sign(v.grades() * parity)
-		return Operator(kernel=S.kernel * sign_mask[None, :, None], axes=S.axes)
+		return Operator(kernel=S.kernel * sign_mask[None, :, None, None], axes=S.axes)
 
 	@cache
 	def inverse_transform(self, R: SubSpace, v: SubSpace) -> Operator:
-- 
2.43.0


From 550ace5018326dcad5961979e7578b929c848cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 02/24] fix: TorchDenseOperator passes its reduction axes as a
 tuple

torch.sum does not accept a range, so every call raised TypeError.
---
 numga/backend/torch/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/torch/operator.py b/numga/backend/torch/operator.py
index 102ba1d..e54baa3 100644
--- a/numga/backend/torch/operator.py
+++ b/numga/backend/torch/operator.py
@@ -114,7 +114,7 @@ class TorchDenseOperator(TorchOperator):
 		return self.context.multivector(
 			values=torch.sum(
 				math.prod((i.values.reshape(s) for i, s in zip(inputs, self.shapes)), start=kernel),
-				dim=range(self.arity)
+				dim=tuple(range(self.arity))
 			),
 			subspace=self.output
 		)
-- 
2.43.0


From 0b1f4df6e089cd2f2a68f536fb04403855b848d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 03/24] fix: python backend leaves absent blades zero in
 operator outputs

The output was allocated with the unit scalar default, so selecting an
absent scalar gave 1.
---
 numga/backend/python/operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numga/backend/python/operator.py b/numga/backend/python/operator.py
index 9158664..45d0089 100644
--- a/numga/backend/python/operator.py
+++ b/numga/backend/python/operator.py
@@ -10,7 +10,8 @@ class PythonSparseOperator(AbstractConcreteOperator):
 
 	def __call__(self, *inputs: Tuple[PythonMultiVector]) -> PythonMultiVector:
 		terms = self.precompute_sparse
-		output = self.context.multivector(self.output)
+		# blades without any terms are zero; note the default multivector init is a unit scalar instead
+		output = self.context.multivector(self.output, [0] * len(self.output))
 		for ci, term in terms:
 			output.values[ci] = sum(
 				math.prod((inp.values[ii] for inp, ii in zip(inputs, idx)), start=scalar)
-- 
2.43.0


From 72fb95eca58bb020920ee6bb12bd3dcd44df5cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 04/24] fix: concurrent construction of a subspace yields a
 single flyweight

---
 numga/flyweight.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/numga/flyweight.py b/numga/flyweight.py
index 80be2fc..2b6a85d 100644
--- a/numga/flyweight.py
+++ b/numga/flyweight.py
@@ -17,6 +17,5 @@ class FlyweightFactory:
 		if key in self.flyweight_pool:
 			return self.flyweight_pool[key]
 		else:
-			value = value()
-			self.flyweight_pool[key] = value
-			return value
+			# setdefault is atomic; a concurrent construction of the same key yields one shared instance
+			return self.flyweight_pool.setdefault(key, value())
-- 
2.43.0


From b17d50eaf64cab221c66d3c44e31b4ab6d271a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 05/24] fix: concurrent first use of an algebra agrees on a
 single subspace factory

---
 numga/algebra/algebra.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numga/algebra/algebra.py b/numga/algebra/algebra.py
index e0a4b2b..3fd32bb 100644
--- a/numga/algebra/algebra.py
+++ b/numga/algebra/algebra.py
@@ -198,10 +198,11 @@ class Algebra:
 		it is important that all subspaces are created via this cached property
 		"""
 		from numga.subspace.factory import SubSpaceFactory
-		return SubSpaceFactory(self)
+		# cached_property does not lock; setdefault makes concurrent first uses agree on a single instance
+		return self.__dict__.setdefault('subspace', SubSpaceFactory(self))
 
 	@cached_property
 	def operator(self) -> "OperatorFactory":
 		"""Nice place to nest and cache all our operator related stuff"""
 		from numga.operator.factory import OperatorFactory
-		return OperatorFactory(self)
+		return self.__dict__.setdefault('operator', OperatorFactory(self))
-- 
2.43.0


From d2cd0aac9dfe039f23e04a5ea61eda559911481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 06/24] fix: subspace labels do not swallow interrupts and
 memory errors

A bare except skipped the matching name and cached the next best label.
---
 numga/subspace/subspace.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/numga/subspace/subspace.py b/numga/subspace/subspace.py
index 0e0f75d..43800e0 100644
--- a/numga/subspace/subspace.py
+++ b/numga/subspace/subspace.py
@@ -115,14 +115,14 @@ class SubSpace(FlyweightMixin):
 			try:
 				if self == getattr(s, m)():
 					return f'is_{m}'
-			except:
-				pass
+			except (IndexError, ValueError, TypeError):
+				pass    # no such subspace in this algebra
 		for m in matches:
 			try:
 				if self in getattr(s, m)():
 					return f'in_{m}'
-			except:
-				pass
+			except (IndexError, ValueError, TypeError):
+				pass    # no such subspace in this algebra
 
 
 	# FIXME: provide complete subspace construction syntax, with naming analogous to operators
-- 
2.43.0


From a79f16da1f54e835a37074fbda2e4d77d7892b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 07/24] fix: registering an implementation invalidates cached
 dispatch

---
 numga/dynamic_dispatch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/numga/dynamic_dispatch.py b/numga/dynamic_dispatch.py
index 4f65bc5..85b412a 100644
--- a/numga/dynamic_dispatch.py
+++ b/numga/dynamic_dispatch.py
@@ -16,9 +16,10 @@ class DynamicDispatch:
 		raise NotImplementedError
 
 	def match(self, attributes):
+		cache = self.cache      # a registration replaces the cache; never populate the new one with an old match
 		for condition, func in self.options:
 			if condition(*attributes):
-				self.cache[attributes] = func
+				cache[attributes] = func
 				return func
 		raise Exception('No matching implementation found')
 
@@ -42,7 +43,10 @@ class DynamicDispatch:
 		position = len(self.options) if position is None else position
 		def wrap(func):
 			"""This wrapper gets called by the @ syntax"""
-			self.options.insert(position, (condition, func))
+			options = list(self.options)
+			options.insert(position, (condition, func))
+			# earlier matches do not know about the new option
+			self.options, self.cache = options, {}
 			return func
 		return wrap
 
-- 
2.43.0


From c6f7f2439741e0e71a6516176d06cdaac90fb633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 08/24] fix: basis blade attributes return a fresh multivector

The cached instance was shared between all users, so that editing its values
in place changed the blade for everyone; and its first use inside a jitted
function leaked a tracer.
---
 numga/multivector/factory.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/numga/multivector/factory.py b/numga/multivector/factory.py
index 263f146..138c99c 100644
--- a/numga/multivector/factory.py
+++ b/numga/multivector/factory.py
@@ -2,7 +2,6 @@ from typing import List
 
 from numga.context import AbstractContext
 from numga.multivector.multivector import AbstractMultiVector
-from numga.util import cache
 
 
 class MultiVectorFactory:
@@ -24,7 +23,6 @@ class MultiVectorFactory:
 	def __call__(self, subspace=None, values=None):
 		return self.multivector(values, subspace)
 
-	@cache
 	def __getattr__(self, blade: str) -> "MultiVector":
 		"""Construct a basis blade according to the given blade string"""
 		basis = self.basis()
-- 
2.43.0


From 8aebce788ac5c1a87459b357899d481ae7c2c0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 09/24] fix: optimized bivector exponential of zero and pure
 translations is not NaN

---
 numga/multivector/extension/optimized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/optimized.py b/numga/multivector/extension/optimized.py
index f2e719f..e3d2d3c 100644
--- a/numga/multivector/extension/optimized.py
+++ b/numga/multivector/extension/optimized.py
@@ -113,7 +113,7 @@ def exponentiate_bivector_numpy(b: "BiVector") -> "Motor":
 	m = xy*zw - xz*yw + yz*xw
 	c = np.cos(a)
 	s = np.where(a > 1e-20, np.sin(a) / a, 1)
-	t = m * (c - s) / l
+	t = np.where(a > 1e-20, m * (c - s) / l, 0)
 
 	M = np.empty(b.shape + (8,))
 	M[..., 0] = c
-- 
2.43.0


From 3418169252615cad34f265f4d1b30ddcce934785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:10 +0000
Subject: [PATCH 10/24] fix: decompose_polar tests the square of its argument
 for being a study number

---
 numga/multivector/extension/decompose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/decompose.py b/numga/multivector/extension/decompose.py
index 3f963dc..c51c573 100644
--- a/numga/multivector/extension/decompose.py
+++ b/numga/multivector/extension/decompose.py
@@ -19,7 +19,7 @@ mv.decompose_polar = SubspaceDispatch("""
 	----------
 	PGA4CS eq 68-70
 	""")
-@mv.decompose_polar.register(lambda s: s.inside.bivector() and s.squared().inside.study())
+@mv.decompose_polar.register(lambda s: s.inside.bivector() and s.squared().is_study)
 def decompose_polar(b: BiVector) -> Tuple[BiVector, Study]:
 	# FIXME: special case the b=0 or not s.inv() case?
 	s: Study = b.symmetric_reverse_product().square_root()
-- 
2.43.0


From 46eb0be6c6dea50916079961c87cf9c96e1d88de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 11/24] fix: selections use a small signed kernel so that
 float32 survives nine and more dimensions

---
 numga/operator/factory.py  | 4 ++--
 numga/operator/operator.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 5efaaaf..b602d77 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -66,7 +66,7 @@ class OperatorFactory:
 	@cache
 	def identity(self, output: SubSpace) -> "Operator":
 		"""Identity operator"""
-		identity = np.identity(len(output), self.algebra.blade_dtype)
+		identity = np.identity(len(output), np.int8)
 		return self.build(identity, (output, output.subspace))
 	def diagonal(self, output: SubSpace, weights) -> "Operator":
 		"""Diagonal scaling operator"""
@@ -80,7 +80,7 @@ class OperatorFactory:
 	@cache
 	def select(self, i: SubSpace, o: SubSpace) -> Operator:
 		"""selection output subspace. think of better name?"""
-		identity = np.identity(self.algebra.n_blades, self.algebra.blade_dtype)
+		identity = np.identity(self.algebra.n_blades, np.int8)
 		# FIXME: construction from dense full identity scales poorly!
 		# NOTE: dont squeeze here; broadcasting to zero blades is part of intended functionality
 		return Operator.build(
diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index 7b3c36f..9c4010b 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -190,7 +190,7 @@ class Operator:
 
 	def select_subspace(self, output: SubSpace) -> "Operator":
 		"""Remap to new output space; dropping outputs or adding implicit zeros"""
-		identity = np.identity(self.algebra.n_blades, self.algebra.blade_dtype)
+		identity = np.identity(self.algebra.n_blades, np.int8)
 		# FIXME: construction from dense full identity scales poorly!
 		# NOTE: dont squeeze here; broadcasting to zero blades is part of intended functionality
 		return Operator.build(
-- 
2.43.0


From fb4e18c608693dc495ea59bf603bc5cc9429cc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 12/24] fix: concurrent and interrupted registrations of
 implementations are neither lost nor half applied

---
 numga/dynamic_dispatch.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/numga/dynamic_dispatch.py b/numga/dynamic_dispatch.py
index 85b412a..484c0fa 100644
--- a/numga/dynamic_dispatch.py
+++ b/numga/dynamic_dispatch.py
@@ -1,4 +1,4 @@
-
+from threading import Lock
 
 class DynamicDispatch:
 	"""Register methods that dynamically dispatch
@@ -10,25 +10,29 @@ class DynamicDispatch:
 	def __init__(self, doc=""):
 		self.cache = {}
 		self.options = []
+		self.lock = Lock()
 		self.__doc__ = doc
 
 	def attribute(self, arg):
 		raise NotImplementedError
 
 	def match(self, attributes):
-		cache = self.cache      # a registration replaces the cache; never populate the new one with an old match
-		for condition, func in self.options:
+		options = self.options
+		for condition, func in options:
 			if condition(*attributes):
-				cache[attributes] = func
+				self.cache[attributes] = options, func
 				return func
 		raise Exception('No matching implementation found')
 
 	def __call__(self, *args):
 		attributes = tuple(self.attribute(a) for a in args)
 		try:
-			func = self.cache[attributes]
-		except:
+			options, func = self.cache[attributes]
+		except KeyError:
 			func = self.match(attributes)
+		else:
+			if options is not self.options:     # matched before the last registration
+				func = self.match(attributes)
 		return func(*args)
 
 	def __get__(self, instance, owner):
@@ -40,13 +44,12 @@ class DynamicDispatch:
 
 	def register(self, condition=lambda *s: True, position=None):
 		"""Add an implementation to our list of options"""
-		position = len(self.options) if position is None else position
 		def wrap(func):
 			"""This wrapper gets called by the @ syntax"""
-			options = list(self.options)
-			options.insert(position, (condition, func))
-			# earlier matches do not know about the new option
-			self.options, self.cache = options, {}
+			with self.lock:
+				options = list(self.options)
+				options.insert(len(options) if position is None else position, (condition, func))
+				self.options = options      # replaced, never modified, so that matches know what they were based on
 			return func
 		return wrap
 
-- 
2.43.0


From 15ebe77834043cb889df1ca5cd9ad526be860797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:37 +0000
Subject: [PATCH 13/24] fix: transpose of an operator with a batch of kernels

---
 numga/backend/numpy/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/numpy/operator.py b/numga/backend/numpy/operator.py
index 25da505..ffb21ef 100644
--- a/numga/backend/numpy/operator.py
+++ b/numga/backend/numpy/operator.py
@@ -93,7 +93,7 @@ class NumpyOperator(AbstractConcreteOperator):
 		return type(self)(
 			self.context,
 			Operator(
-				kernel=np.transpose(self.kernel, (-1, -2)),
+				kernel=np.swapaxes(self.kernel, -1, -2),
 				axes=(self.operator.axes[1], self.operator.axes[0]),
 			)
 		)
-- 
2.43.0


From aa6810060807b495ba45e6c4119de2536a9ed3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 14/24] fix: operators are no longer kept alive for ever by the
 cache of their einsum expressions

---
 numga/operator/abstract.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/numga/operator/abstract.py b/numga/operator/abstract.py
index 2478820..773c691 100644
--- a/numga/operator/abstract.py
+++ b/numga/operator/abstract.py
@@ -75,7 +75,6 @@ class AbstractConcreteOperator:
 			return tuple(s)
 		return tuple(shape(i) for i in range(self.arity))
 
-	@cache
 	def precompute_einsum_partial(self, axes: Tuple[int, ...]) -> str:
 		"""Build einsum expression for (partial) application of input arguments
 
@@ -89,16 +88,22 @@ class AbstractConcreteOperator:
 		einsum_expr: str
 			numpy-valid einsum expression
 		"""
+		return self._einsum_partial(self.arity, tuple(axes))
+
+	@classmethod
+	@cache
+	def _einsum_partial(cls, arity: int, axes: Tuple[int, ...]) -> str:
+		# NOTE: cached per type and arity, since a cache keyed on the operator would keep each operator alive forever
 		# kernel characters
 		from numga.util import chars
-		k = chars[:self.arity + 1]
+		k = chars[:arity + 1]
 		# input axis characters
-		i = tuple(self.broadcast_einsum(chars[a]) for a in axes)
+		i = tuple(cls.broadcast_einsum(chars[a]) for a in axes)
 		# output axes characters
 		o = (c for c in k if c not in i)
 		i = ','.join(i)
-		o = self.broadcast_einsum(''.join(o))
-		expr = f'{self.broadcast_einsum(k)},{i}->{o}'
+		o = cls.broadcast_einsum(''.join(o))
+		expr = f'{cls.broadcast_einsum(k)},{i}->{o}'
 		return expr
 
 	@staticmethod
-- 
2.43.0


From f81fea4ff2e87941136955af761d4ae395921c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 15/24] fix: the linear algebra inverse of a jax multivector
 can be traced

---
 numga/backend/jax/multivector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numga/backend/jax/multivector.py b/numga/backend/jax/multivector.py
index 4f90a51..2192ea0 100644
--- a/numga/backend/jax/multivector.py
+++ b/numga/backend/jax/multivector.py
@@ -1,3 +1,4 @@
+import numpy as np
 from jax import numpy as jnp
 
 from numga.backend.jax import pytree
@@ -70,7 +71,7 @@ class JaxMultiVector(AbstractMultiVector):
 		inverse_subspace = self.operator.inverse_factor(self.subspace).output
 		op = self.operator.product(self.subspace, inverse_subspace)
 		k = op.partial({0: self}).kernel
-		idx, = jnp.flatnonzero(op.output.blades == 0)    # grab index of scalar of output; zero or raises
+		idx, = np.flatnonzero(op.output.blades == 0)    # grab index of scalar of output; zero or raises
 		r = jnp.linalg.solve(    # use least squares to solve for inverse
 			jnp.einsum('...ji,...ki->...jk', k, k), # k.T * k
 			k[..., idx],    #equal to  k.T * unit_scalar
-- 
2.43.0


From 5dd483f5c5db27c30b1197c6cfb58acfd4115ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 16/24] fix: exp of degenerate bivectors whose square is not
 zero

---
 numga/multivector/extension/logexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/logexp.py b/numga/multivector/extension/logexp.py
index 93a2c21..036d269 100644
--- a/numga/multivector/extension/logexp.py
+++ b/numga/multivector/extension/logexp.py
@@ -34,7 +34,7 @@ def empty_exp(e) -> Scalar:
 def scalar_exp(s: Scalar) -> Scalar:
 	"""Vanilla scalar exp"""
 	return s.copy(s.context.exp(s.values))
-@mv.exp.register(lambda s: s.is_degenerate)
+@mv.exp.register(lambda s: s.is_degenerate and s.squared().equals.empty())
 def degenerate_exp(b: BiVector) -> Motor:
 	"""If we know all basis elements square to zero, might as well use that information"""
 	return b + 1
-- 
2.43.0


From 3f5b234d7b409fc1d73325907fe8306e72ae1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 17/24] fix: symbolic Operator.sum keeps an integer kernel
 usable with float32

---
 numga/operator/operator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index 9c4010b..0d08718 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -232,8 +232,10 @@ class Operator:
 
 	def sum(self, axis: int) -> "Operator":
 		"""Reduce one input axis by summation"""
+		# an integer kernel must stay small enough to multiply with a float32 without promotion
+		dtype = np.promote_types(self.kernel.dtype, np.int16)
 		return Operator(
-			self.kernel.sum(axis=axis),
+			self.kernel.sum(axis=axis, dtype=dtype),
 			tuple(a for i, a in enumerate(self.axes) if i != axis)
 		).squeeze()
 
-- 
2.43.0


From 7f05f56c099787e2865e803fcec12659aee7304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 18/24] fix: cos and sin of a multivector returned it
 unchanged, or raised

---
 numga/backend/jax/context.py   | 4 ++++
 numga/backend/numpy/context.py | 4 ++++
 numga/backend/torch/context.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/numga/backend/jax/context.py b/numga/backend/jax/context.py
index 7713f72..cbd4c38 100644
--- a/numga/backend/jax/context.py
+++ b/numga/backend/jax/context.py
@@ -41,6 +41,10 @@ class JaxContext(AbstractContext):
 
 	def sqrt(self, x):
 		return jnp.sqrt(x)
+	def cos(self, x):
+		return jnp.cos(x)
+	def sin(self, x):
+		return jnp.sin(x)
 	def log(self, x):
 		return jnp.log(x)
 	def exp(self, x):
diff --git a/numga/backend/numpy/context.py b/numga/backend/numpy/context.py
index 46a2949..cd7ab2e 100644
--- a/numga/backend/numpy/context.py
+++ b/numga/backend/numpy/context.py
@@ -44,6 +44,10 @@ class NumpyContext(AbstractContext):
 
 	def sqrt(self, x):
 		return np.sqrt(x)
+	def cos(self, x):
+		return np.cos(x)
+	def sin(self, x):
+		return np.sin(x)
 	def log(self, x):
 		return np.log(x)
 	def exp(self, x):
diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index fb2b66c..0e2f45b 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -44,6 +44,10 @@ class TorchContext(AbstractContext):
 
 	def sqrt(self, x):
 		return torch.sqrt(x)
+	def cos(self, x):
+		return torch.cos(x)
+	def sin(self, x):
+		return torch.sin(x)
 	def log(self, x):
 		return torch.log(x)
 	def exp(self, x):
-- 
2.43.0


From 22e66c6cfc52654cde3235089c6b534ecfaa7b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:43 +0000
Subject: [PATCH 19/24] fix: flatten of a numpy multivector without components
 raised

---
 numga/backend/numpy/multivector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numga/backend/numpy/multivector.py b/numga/backend/numpy/multivector.py
index 3b30da1..a72ea64 100644
--- a/numga/backend/numpy/multivector.py
+++ b/numga/backend/numpy/multivector.py
@@ -67,7 +67,8 @@ class NumpyMultiVector(AbstractMultiVector):
 	def reshape(self, shape):
 		return self.copy(self.values.reshape(shape+(self.values.shape[-1],)))
 	def flatten(self):
-		return self.reshape((-1,))
+		# spelled out; numpy can not infer it from -1 if there are no components
+		return self.reshape((int(np.prod(self.shape)),))
 
 	def inverse_la(self):
 		"""Inverse of x such that x * x.inverse() == 1 == x.inverse() * x"""
-- 
2.43.0


From 4fd6e0b90a71e7e4a5924c25f03215d76ad6c855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 20/24] fix: subspace attribute syntax with basis names of more
 than one letter

---
 numga/algebra/description.py | 2 +-
 numga/subspace/factory.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/numga/algebra/description.py b/numga/algebra/description.py
index c5c403e..42352fd 100644
--- a/numga/algebra/description.py
+++ b/numga/algebra/description.py
@@ -122,7 +122,7 @@ class AlgebraDescription:
 					yield self.basis_names.index(substr)
 					last = i + 1
 			if last < len(d):
-				raise Exception(f'Unrecognized blade name {substr}')
+				raise ValueError(f'Unrecognized blade name {substr}')
 		return tuple(parse(blade_name))
 
 	@property
diff --git a/numga/subspace/factory.py b/numga/subspace/factory.py
index e00c9e3..3b1d7ba 100644
--- a/numga/subspace/factory.py
+++ b/numga/subspace/factory.py
@@ -60,10 +60,10 @@ class SubSpaceFactory(FlyweightFactory):
 		"""Attribute subspace construction syntax
 		Example: 'xy_zt' produces a bivector with these two components
 		"""
-		names = self.algebra.description.basis_names
+		tokens = self.algebra.description.parse_tokens     # basis names may have more than one letter
 		basis = self.basis()
 		return self.from_blades(np.array([
-			sum(basis[names.index(b)].blades for b in blade)[0]
+			sum(basis[i].blades for i in tokens(blade))[0]
 			for blade in subspace.split('_')
 		]))
 
-- 
2.43.0


From b70e29d26b42d5eebc3537ba06a82eaea2f9a70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:24 +0000
Subject: [PATCH 21/24] fix: copy of a torch multivector

---
 numga/backend/torch/multivector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/numga/backend/torch/multivector.py b/numga/backend/torch/multivector.py
index 40003b3..e6b5fbd 100644
--- a/numga/backend/torch/multivector.py
+++ b/numga/backend/torch/multivector.py
@@ -28,6 +28,10 @@ class TorchMultiVector(AbstractMultiVector):
 			subspace=subspace
 		)
 
+	def copy(self, values=None, subspace=None):
+		# tensors are cloned; they do not have a copy method
+		return super().copy(self.values.clone() if values is None else values, subspace)
+
 	def __getitem__(self, idx):
 		# FIXME: torch indexing with ndarray behavior differs!
 		try:
-- 
2.43.0


From 91e958da4300cbe66fb5f31e728533149dacc4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:23 +0000
Subject: [PATCH 22/24] fix: a tuple index of a torch multivector or operator
 indexes one axis per item

---
 numga/backend/torch/context.py     | 9 +++++----
 numga/backend/torch/multivector.py | 9 +++++----
 numga/backend/torch/operator.py    | 9 +++++----
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index 0e2f45b..84f64ed 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -23,10 +23,11 @@ class TorchContext(AbstractContext):
 		return torch.zeros(shape, dtype=self.dtype, device=self.device)
 
 	def set_array(self, arr, idx, values):
-		try:
-			idx = torch.asarray(idx)
-		except:
-			pass
+		if not isinstance(idx, tuple):	# the items of a tuple index one axis each
+			try:
+				idx = torch.asarray(idx)
+			except:
+				pass
 
 		arr = torch.clone(arr)
 		arr[idx] = values
diff --git a/numga/backend/torch/multivector.py b/numga/backend/torch/multivector.py
index e6b5fbd..c5b8baa 100644
--- a/numga/backend/torch/multivector.py
+++ b/numga/backend/torch/multivector.py
@@ -34,10 +34,11 @@ class TorchMultiVector(AbstractMultiVector):
 
 	def __getitem__(self, idx):
 		# FIXME: torch indexing with ndarray behavior differs!
-		try:
-			idx = torch.asarray(idx)
-		except:
-			pass
+		if not isinstance(idx, tuple):	# the items of a tuple index one axis each
+			try:
+				idx = torch.asarray(idx)
+			except:
+				pass
 		v = self.values[idx]
 		return self.copy(values=v)
 
diff --git a/numga/backend/torch/operator.py b/numga/backend/torch/operator.py
index e54baa3..1d38950 100644
--- a/numga/backend/torch/operator.py
+++ b/numga/backend/torch/operator.py
@@ -39,10 +39,11 @@ class TorchOperator(AbstractConcreteOperator):
 
 
 	def __getitem__(self, idx):
-		try:
-			idx = torch.asarray(idx)
-		except:
-			pass
+		if not isinstance(idx, tuple):	# the items of a tuple index one axis each
+			try:
+				idx = torch.asarray(idx)
+			except:
+				pass
 		k = self.kernel[idx]
 		slice = self.copy(self.operator.copy(k))
 		return slice
-- 
2.43.0


From 56e87facea411968180f9a41aac250b535aaf567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 23/24] fix: restrict namespace of a subspace selects when
 indexed or called

---
 numga/subspace/namespaces.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/numga/subspace/namespaces.py b/numga/subspace/namespaces.py
index f1f04f7..9742492 100644
--- a/numga/subspace/namespaces.py
+++ b/numga/subspace/namespaces.py
@@ -69,3 +69,10 @@ class RestrictNamespace(SelectNamespace):
 			return self.subspace.restrict_subspace(subspace)
 		else:
 			return lambda *args: self.subspace.restrict_subspace(subspace(*args))
+
+	def __getitem__(self, item):
+		subspace = self.factory.from_grades(item)
+		return self.subspace.restrict_subspace(subspace)
+
+	def __call__(self, subspace):
+		return self.subspace.restrict_subspace(subspace)
-- 
2.43.0


From 1bf7f011787b4e22ff66bad83bd8d2cef7355a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:34 +0000
Subject: [PATCH 24/24] fix: indexing a subspace by a single grade raises

---
 numga/subspace/namespaces.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/numga/subspace/namespaces.py b/numga/subspace/namespaces.py
index 9742492..545c40b 100644
--- a/numga/subspace/namespaces.py
+++ b/numga/subspace/namespaces.py
@@ -4,6 +4,14 @@ and permits some syntactic sugar like:
 	bivector = multivector.select[2]
 """
 
+from numbers import Integral
+
+
+def as_grades(item):
+	"""Interpret an index as the grades it names"""
+	if isinstance(item, tuple):
+		return list(item)
+	return [item] if isinstance(item, Integral) else item
 
 
 class InNamespace:
@@ -54,7 +62,7 @@ class SelectNamespace:
 			return lambda *args: self.subspace.select_subspace(subspace(*args))
 
 	def __getitem__(self, item):
-		subspace = self.factory.from_grades(item)
+		subspace = self.factory.from_grades(as_grades(item))
 		return self.subspace.select_subspace(subspace)
 
 	def __call__(self, subspace):
@@ -71,7 +79,7 @@ class RestrictNamespace(SelectNamespace):
 			return lambda *args: self.subspace.restrict_subspace(subspace(*args))
 
 	def __getitem__(self, item):
-		subspace = self.factory.from_grades(item)
+		subspace = self.factory.from_grades(as_grades(item))
 		return self.subspace.restrict_subspace(subspace)
 
 	def __call__(self, subspace):
-- 
2.43.0

