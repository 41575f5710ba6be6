From cc6a6eb3bb3f719a2579cb949b2e74d8b495dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 01/54] fix: keep the linear superposition flag when
 serializing a PolyExpAnsatz

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 9f5978b..44b0060 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -274,7 +274,7 @@ class PolyExpAnsatz(Ansatz):
     @classmethod
     def from_dict(cls, data: dict[str, ArrayLike]) -> PolyExpAnsatz:
         r"""Creates an ansatz from a dictionary. For deserialization purposes."""
-        return cls(**data)
+        return cls(**{**data, "lin_sup": bool(data.get("lin_sup", False))})
 
     @classmethod
     def from_function(cls, fn: Callable, **kwargs: Any) -> PolyExpAnsatz:
@@ -581,7 +581,10 @@ class PolyExpAnsatz(Ansatz):
 
     def to_dict(self) -> dict[str, ArrayLike]:
         r"""Returns a dictionary representation of the ansatz. For serialization purposes."""
-        return {"A": self.A, "b": self.b, "c": self.c}
+        ret = {"A": self.A, "b": self.b, "c": self.c}
+        if self._lin_sup:
+            ret["lin_sup"] = True
+        return ret
 
     def trace(self, idx_z: tuple[int, ...], idx_zconj: tuple[int, ...], measure: float = -1.0):
         r"""
-- 
2.43.0


From 557076f0c7726a3d75e1e7510ed8f0a44f547824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 02/54] fix: accept the bounds that trainable Gaussian
 components store for their parameters

---
 mrmustard/lab/states/gaussian_state.py              | 12 +++++++++---
 mrmustard/lab/transformations/gaussrandnoise.py     |  4 +++-
 mrmustard/lab/transformations/ggate.py              |  4 +++-
 mrmustard/lab/transformations/interferometer.py     | 10 +++++++++-
 mrmustard/lab/transformations/realinterferometer.py |  4 +++-
 5 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/mrmustard/lab/states/gaussian_state.py b/mrmustard/lab/states/gaussian_state.py
index c242c9f..e8aac8c 100644
--- a/mrmustard/lab/states/gaussian_state.py
+++ b/mrmustard/lab/states/gaussian_state.py
@@ -44,6 +44,7 @@ class GKet(Ket):
         vacuum to produce the desired state. If `None`, a random symplectic matrix
         is chosen.
         symplectic_trainable: Whether `symplectic` is trainable.
+        symplectic_bounds: The bounds for `symplectic`.
 
     Returns:
         A ``Ket``.
@@ -73,6 +74,7 @@ class GKet(Ket):
         modes: int | tuple[int, ...],
         symplectic: RealMatrix = None,
         symplectic_trainable: bool = False,
+        symplectic_bounds: tuple[float | None, float | None] = (None, None),
     ) -> None:
         modes = (modes,) if isinstance(modes, int) else modes
         super().__init__(name="GKet")
@@ -82,7 +84,7 @@ class GKet(Ket):
                 is_trainable=symplectic_trainable,
                 value=symplectic,
                 name="symplectic",
-                bounds=(None, None),
+                bounds=symplectic_bounds,
                 update_fn="update_symplectic",
             ),
         )
@@ -123,6 +125,8 @@ class GDM(DM):
         vacuum to produce the desired state. If `None`, a random symplectic matrix
         is chosen.
         symplectic_trainable: Whether `symplectic` is trainable.
+        beta_bounds: The bounds for `beta`.
+        symplectic_bounds: The bounds for `symplectic`.
 
     Returns:
         A ``DM``.
@@ -156,6 +160,8 @@ class GDM(DM):
         symplectic: RealMatrix = None,
         beta_trainable: bool = False,
         symplectic_trainable: bool = False,
+        beta_bounds: tuple[float | None, float | None] = (0, None),
+        symplectic_bounds: tuple[float | None, float | None] = (None, None),
     ) -> None:
         modes = (modes,) if isinstance(modes, int) else modes
         super().__init__(name="GDM")
@@ -166,7 +172,7 @@ class GDM(DM):
                 is_trainable=symplectic_trainable,
                 value=symplectic,
                 name="symplectic",
-                bounds=(None, None),
+                bounds=symplectic_bounds,
                 update_fn="update_symplectic",
             ),
         )
@@ -175,7 +181,7 @@ class GDM(DM):
                 is_trainable=beta_trainable,
                 value=betas,
                 name="beta",
-                bounds=(0, None),
+                bounds=beta_bounds,
                 dtype=math.float64,
             ),
         )
diff --git a/mrmustard/lab/transformations/gaussrandnoise.py b/mrmustard/lab/transformations/gaussrandnoise.py
index dd48b9a..734a5c7 100644
--- a/mrmustard/lab/transformations/gaussrandnoise.py
+++ b/mrmustard/lab/transformations/gaussrandnoise.py
@@ -39,6 +39,7 @@ class GaussRandNoise(Channel):
         modes: The modes the channel is applied to. The number of modes must match half of the size of ``Y``.
         Y: The Y matrix of the Gaussian random noise channel.
         Y_trainable: Whether ``Y`` is trainable.
+        Y_bounds: The bounds for ``Y``.
 
     .. code-block::
 
@@ -70,6 +71,7 @@ class GaussRandNoise(Channel):
         modes: int | tuple[int, ...],
         Y: RealMatrix,
         Y_trainable: bool = False,
+        Y_bounds: tuple[float | None, float | None] = (None, None),
     ):
         modes = (modes,) if isinstance(modes, int) else modes
         if Y.shape[-1] // 2 != len(modes):
@@ -87,7 +89,7 @@ class GaussRandNoise(Channel):
 
         super().__init__(name="GRN~")
         self.parameters.add_parameter(
-            make_parameter(is_trainable=Y_trainable, value=Y, name="Y", bounds=(None, None)),
+            make_parameter(is_trainable=Y_trainable, value=Y, name="Y", bounds=Y_bounds),
         )
         self._ansatz = PolyExpAnsatz.from_function(
             fn=triples.gaussian_random_noise_Abc,
diff --git a/mrmustard/lab/transformations/ggate.py b/mrmustard/lab/transformations/ggate.py
index 527a953..40bcc94 100644
--- a/mrmustard/lab/transformations/ggate.py
+++ b/mrmustard/lab/transformations/ggate.py
@@ -37,6 +37,7 @@ class Ggate(Unitary):
         modes: The modes this gate is applied to.
         symplectic: The symplectic matrix of the gate in the XXPP ordering.
         symplectic_trainable: Whether ``symplectic`` is trainable.
+        symplectic_bounds: The bounds for ``symplectic``.
 
     .. code-block::
 
@@ -55,6 +56,7 @@ class Ggate(Unitary):
         modes: int | tuple[int, ...],
         symplectic: RealMatrix | None = None,
         symplectic_trainable: bool = False,
+        symplectic_bounds: tuple[float | None, float | None] = (None, None),
     ):
         modes = (modes,) if isinstance(modes, int) else modes
         super().__init__(name="Ggate")
@@ -65,7 +67,7 @@ class Ggate(Unitary):
                 is_trainable=symplectic_trainable,
                 value=symplectic,
                 name="symplectic",
-                bounds=(None, None),
+                bounds=symplectic_bounds,
                 update_fn="update_symplectic",
             ),
         )
diff --git a/mrmustard/lab/transformations/interferometer.py b/mrmustard/lab/transformations/interferometer.py
index ef391c4..fee544e 100644
--- a/mrmustard/lab/transformations/interferometer.py
+++ b/mrmustard/lab/transformations/interferometer.py
@@ -40,6 +40,7 @@ class Interferometer(Unitary):
         modes: The modes this gate is applied to.
         unitary: A unitary matrix. For N modes it must have shape `(N,N)`. If ``None``, a random unitary is generated.
         unitary_trainable: Whether ``unitary`` is trainable.
+        unitary_bounds: The bounds for ``unitary``.
 
     Raises:
         ValueError: If the size of the unitary does not match the number of modes.
@@ -61,6 +62,7 @@ class Interferometer(Unitary):
         modes: int | tuple[int, ...],
         unitary: ComplexMatrix | None = None,
         unitary_trainable: bool = False,
+        unitary_bounds: tuple[float | None, float | None] = (None, None),
     ):
         modes = (modes,) if isinstance(modes, int) else modes
         num_modes = len(modes)
@@ -71,7 +73,13 @@ class Interferometer(Unitary):
             )
         super().__init__(name="Interferometer")
         self.parameters.add_parameter(
-            make_parameter(unitary_trainable, unitary, "unitary", (None, None), "update_unitary"),
+            make_parameter(
+                unitary_trainable,
+                unitary,
+                "unitary",
+                unitary_bounds,
+                "update_unitary",
+            ),
         )
         self._ansatz = PolyExpAnsatz.from_function(
             fn=lambda uni: Unitary.from_symplectic(
diff --git a/mrmustard/lab/transformations/realinterferometer.py b/mrmustard/lab/transformations/realinterferometer.py
index b425c14..ba040a3 100644
--- a/mrmustard/lab/transformations/realinterferometer.py
+++ b/mrmustard/lab/transformations/realinterferometer.py
@@ -39,6 +39,7 @@ class RealInterferometer(Unitary):
         modes: The modes this gate is applied to.
         orthogonal: A real unitary (orthogonal) matrix.  For N modes it must have shape `(N,N)`. If ``None``, a random orthogonal is generated.
         orthogonal_trainable: Whether ``orthogonal`` is trainable.
+        orthogonal_bounds: The bounds for ``orthogonal``.
 
     .. code-block::
 
@@ -55,6 +56,7 @@ class RealInterferometer(Unitary):
         modes: int | tuple[int, ...],
         orthogonal: RealMatrix | None = None,
         orthogonal_trainable: bool = False,
+        orthogonal_bounds: tuple[float | None, float | None] = (None, None),
     ):
         modes = (modes,) if isinstance(modes, int) else modes
         num_modes = len(modes)
@@ -71,7 +73,7 @@ class RealInterferometer(Unitary):
                 is_trainable=orthogonal_trainable,
                 value=orthogonal,
                 name="orthogonal",
-                bounds=(None, None),
+                bounds=orthogonal_bounds,
                 update_fn="update_orthogonal",
             ),
         )
-- 
2.43.0


From 52f2faf45bf47293633b22fca25f9bbf46e9d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 03/54] fix: keep the convention of an MZgate when it is
 rebuilt from its parameters

---
 mrmustard/lab/transformations/mzgate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mrmustard/lab/transformations/mzgate.py b/mrmustard/lab/transformations/mzgate.py
index 33ea3dd..09ab134 100644
--- a/mrmustard/lab/transformations/mzgate.py
+++ b/mrmustard/lab/transformations/mzgate.py
@@ -80,6 +80,7 @@ class MZgate(Unitary):
             make_parameter(phi_b_trainable, phi_b, "phi_b", phi_b_bounds, dtype=math.float64)
         )
 
+        self.parameters.add_parameter(make_parameter(False, internal, "internal", (None, None)))
         self._ansatz = PolyExpAnsatz.from_function(
             fn=lambda phi_a, phi_b, internal: Unitary.from_symplectic(
                 modes,
@@ -87,6 +88,6 @@ class MZgate(Unitary):
             ).bargmann_triple(),
             phi_a=self.parameters.phi_a,
             phi_b=self.parameters.phi_b,
-            internal=internal,
+            internal=self.parameters.internal,
         )
         self._wires = Wires(modes_in_ket=set(modes), modes_out_ket=set(modes))
-- 
2.43.0


From 98054544acea20e8ca39784ada07244146cb2d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 04/54] fix: restore the short name of a component from its
 pytree

---
 mrmustard/lab/circuit_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 1dc5938..abf6279 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -365,7 +365,7 @@ class CircuitComponent:
     def _tree_unflatten(cls, aux_data, children):  # pragma: no cover
         ret = cls.__new__(cls)
         ret._parameters, ret._ansatz = children
-        ret._wires, ret._name = aux_data
+        ret._wires, ret._name, ret.short_name = aux_data
 
         # make sure the ansatz parameters match the parameter set
         for param_name, param in ret.ansatz._kwargs.items():
@@ -853,7 +853,7 @@ class CircuitComponent:
 
     def _tree_flatten(self):  # pragma: no cover
         children = (self.parameters, self.ansatz)
-        aux_data = (self.wires, self.name)
+        aux_data = (self.wires, self.name, self.short_name)
         return (children, aux_data)
 
     def __add__(self, other: CircuitComponent) -> CircuitComponent:
-- 
2.43.0


From 6bf1c43a2c9c1b4499f60ed0f0cd5e1eff925610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 05/54] fix: setting the Fock shape of a component no longer
 changes other components that share its wires

---
 mrmustard/lab/circuit_components.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index abf6279..5ea0d93 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -76,6 +76,7 @@ class CircuitComponent:
         self._wires = wires or Wires(set(), set(), set(), set())
 
         if isinstance(ansatz, ArrayAnsatz):
+            self._wires = self._wires.copy()
             for w in self.wires.quantum:
                 w.repr = ReprEnum.FOCK
                 w.fock_cutoff = ansatz.core_shape[w.index]
@@ -150,6 +151,7 @@ class CircuitComponent:
 
     @manual_shape.setter
     def manual_shape(self, shape: tuple[int | None]):
+        self._wires = self._wires.copy()
         for w, s in zip(self.wires.quantum.sorted_wires, shape):
             w.fock_cutoff = s
 
-- 
2.43.0


From 9e68b7329c85a01248e18dce755aefdfbacc2440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 06/54] fix: NumPy tensor updates no longer modify the tensor
 they are given

---
 mrmustard/math/backend_numpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrmustard/math/backend_numpy.py b/mrmustard/math/backend_numpy.py
index 6400b87..c2357ca 100644
--- a/mrmustard/math/backend_numpy.py
+++ b/mrmustard/math/backend_numpy.py
@@ -318,6 +318,7 @@ class BackendNumpy(BackendBase):
         indices: np.ndarray,
         values: np.ndarray,
     ) -> np.ndarray:
+        tensor = np.array(tensor)
         tensor[indices] = values
         return tensor
 
@@ -328,6 +329,7 @@ class BackendNumpy(BackendBase):
         values: np.ndarray,
     ) -> np.ndarray:
         indices = self.atleast_nd(indices, 2)
+        tensor = np.array(tensor)
         for i, v in zip(indices, values):
             tensor[tuple(i)] += v
         return tensor
-- 
2.43.0


From 2fc9738ff3433778493e60202b8dd1576f449ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 07/54] fix: restore the outer values when settings contexts
 are nested

---
 mrmustard/utils/settings.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mrmustard/utils/settings.py b/mrmustard/utils/settings.py
index 3183a74..af43127 100644
--- a/mrmustard/utils/settings.py
+++ b/mrmustard/utils/settings.py
@@ -101,7 +101,7 @@ class Settings:
         self.STABLE_FOCK_CONVERSION: bool = False
         r"""Whether to use the ``stable`` function when computing Fock amplitudes (more stable, but slower). Default is ``False``."""
 
-        self._original_values = {}
+        self._original_values = []
         self._frozen = True
 
     @property
@@ -145,7 +145,7 @@ class Settings:
         r"""
         Allows for setting multiple settings at once and saving the original values.
         """
-        self._original_values = {k: getattr(self, k) for k in kwargs}
+        self._original_values.append({k: getattr(self, k) for k in kwargs})
         for k, v in kwargs.items():
             setattr(self, k, v)
         return self
@@ -156,8 +156,9 @@ class Settings:
 
     def __exit__(self, exc_type, exc_value, traceback):
         "context manager exit method that resets the settings to their original values"
-        for k, v in self._original_values.items():
-            setattr(self, k, v)
+        if self._original_values:
+            for k, v in self._original_values.pop().items():
+                setattr(self, k, v)
 
     # use rich.table to print the settings
     def __repr__(self) -> str:
-- 
2.43.0


From 8bb8e83ff2be9bbd995412e66d1861e380304e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 08/54] fix: a sampler follows the seed it is given for every
 mode, zero included

---
 mrmustard/lab/samplers.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mrmustard/lab/samplers.py b/mrmustard/lab/samplers.py
index 700d459..d95a84d 100644
--- a/mrmustard/lab/samplers.py
+++ b/mrmustard/lab/samplers.py
@@ -90,11 +90,12 @@ class Sampler(ABC):
         Returns:
             An array of samples such that the shape is ``(n_samples, n_modes)``.
         """
+        rng = np.random.default_rng(seed) if seed is not None else settings.rng
         if len(state.modes) == 1:
-            return self.sample_prob_dist(state, n_samples, seed)[0]
+            return self.sample_prob_dist(state, n_samples, rng)[0]
 
         initial_mode = state.modes[0]
-        initial_samples, probs = self.sample_prob_dist(state[initial_mode], n_samples, seed)
+        initial_samples, probs = self.sample_prob_dist(state[initial_mode], n_samples, rng)
 
         unique_samples, idxs, counts = np.unique(
             initial_samples,
@@ -107,7 +108,7 @@ class Sampler(ABC):
             prob = probs[idx]
             norm = math.sqrt(prob) if isinstance(state, Ket) else prob
             reduced_state = (state >> meas_op) / norm
-            samples = self.sample(reduced_state, count)
+            samples = self.sample(reduced_state, count, rng)
             ret.extend(np.append([unique_sample], sample) for sample in samples)
         return np.array(ret)
 
@@ -129,7 +130,7 @@ class Sampler(ABC):
             A tuple of the generated samples and the probability
             of obtaining the sample.
         """
-        rng = np.random.default_rng(seed) if seed else settings.rng
+        rng = np.random.default_rng(seed) if seed is not None else settings.rng
         probs = self.probabilities(state)
         meas_outcomes = list(product(self.meas_outcomes, repeat=len(state.modes)))
         samples = rng.choice(
@@ -228,11 +229,12 @@ class HomodyneSampler(Sampler):
         return self._validate_probs(probs, atol)
 
     def sample(self, state: State, n_samples: int = 1000, seed: int | None = None) -> np.ndarray:
+        rng = np.random.default_rng(seed) if seed is not None else settings.rng
         if len(state.modes) == 1:
-            return self.sample_prob_dist(state, n_samples, seed)[0]
+            return self.sample_prob_dist(state, n_samples, rng)[0]
 
         initial_mode = state.modes[0]
-        initial_samples, probs = self.sample_prob_dist(state[initial_mode], n_samples, seed)
+        initial_samples, probs = self.sample_prob_dist(state[initial_mode], n_samples, rng)
 
         unique_samples, idxs, counts = np.unique(
             initial_samples,
@@ -247,6 +249,6 @@ class HomodyneSampler(Sampler):
             prob = probs[idx] / self._step
             norm = math.sqrt(prob) if isinstance(state, Ket) else prob
             normalized_reduced_state = reduced_state / norm
-            samples = self.sample(normalized_reduced_state, count)
+            samples = self.sample(normalized_reduced_state, count, rng)
             ret.extend(np.append([unique_sample], sample) for sample in samples)
         return np.array(ret)
-- 
2.43.0


From 2adf768b854af437c91fa028cea60ab288707121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 09/54] fix: the search for a contraction path draws from the
 settings generator

---
 mrmustard/path/branch_and_bound.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mrmustard/path/branch_and_bound.py b/mrmustard/path/branch_and_bound.py
index dca86d7..82caaec 100644
--- a/mrmustard/path/branch_and_bound.py
+++ b/mrmustard/path/branch_and_bound.py
@@ -20,7 +20,6 @@ from __future__ import annotations
 
 import functools
 import operator
-import random
 from collections.abc import Generator
 from copy import deepcopy
 from math import factorial
@@ -29,6 +28,7 @@ from queue import PriorityQueue
 import networkx as nx
 import numpy as np
 
+from mrmustard import settings
 from mrmustard.lab.circuit_components import CircuitComponent
 from mrmustard.physics.wires import Wires
 
@@ -426,7 +426,8 @@ def random_solution(graph: Graph) -> Graph:
         Graph: The contracted graph
     """
     while graph.number_of_edges() > 0:
-        edge = random.choice(list(graph.edges))
+        edges = list(graph.edges)
+        edge = edges[settings.rng.integers(len(edges))]
         graph = contract(graph, edge)
     return graph
 
-- 
2.43.0


From b6a01d7edb9d6c012d2dc1d695dfb086b1a2ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 10/54] fix: the binomial Fock strategy uses the same defaults
 on both backends

---
 mrmustard/math/backend_jax.py   | 6 ++++++
 mrmustard/math/backend_numpy.py | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/mrmustard/math/backend_jax.py b/mrmustard/math/backend_jax.py
index f0f2d0f..2e09c6b 100644
--- a/mrmustard/math/backend_jax.py
+++ b/mrmustard/math/backend_jax.py
@@ -26,6 +26,7 @@ from platformdirs import user_cache_dir
 from mrmustard.lab import Circuit, CircuitComponent
 from mrmustard.physics.ansatz import Ansatz
 
+from ..utils.settings import settings
 from .backend_base import BackendBase
 from .parameter_set import ParameterSet
 from .parameters import Constant, Variable
@@ -508,6 +509,11 @@ class BackendJax(BackendBase):
         max_l2: float | None,
         global_cutoff: int | None,
     ) -> jnp.ndarray:
+        shape = tuple(shape)
+        if max_l2 is None:
+            max_l2 = settings.AUTOSHAPE_PROBABILITY
+        if global_cutoff is None:
+            global_cutoff = sum(shape) - len(shape) + 1
         return hermite_renormalized_binomial_jax(A, B, C, shape, max_l2, global_cutoff)
 
     def hermite_renormalized_diagonal(
diff --git a/mrmustard/math/backend_numpy.py b/mrmustard/math/backend_numpy.py
index c2357ca..34f325f 100644
--- a/mrmustard/math/backend_numpy.py
+++ b/mrmustard/math/backend_numpy.py
@@ -413,13 +413,17 @@ class BackendNumpy(BackendBase):
         max_l2: float | None,
         global_cutoff: int | None,
     ) -> np.ndarray:
+        if max_l2 is None:
+            max_l2 = settings.AUTOSHAPE_PROBABILITY
+        if global_cutoff is None:
+            global_cutoff = sum(shape) - len(shape) + 1
         return strategies.binomial(
             tuple(shape),
             A,
             B,
             C,
-            max_l2=max_l2 or settings.AUTOSHAPE_PROBABILITY,
-            global_cutoff=global_cutoff or sum(shape) - len(shape) + 1,
+            max_l2=max_l2,
+            global_cutoff=global_cutoff,
         )[0]
 
     def hermite_renormalized_diagonal(
-- 
2.43.0


From 016d3b8b4a3c60ebd062d6613a7822a6e53a3776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 11/54] fix: the gradient of the binomial Fock strategy calls
 an existing function

---
 mrmustard/math/jax_vjps/hermite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/math/jax_vjps/hermite.py b/mrmustard/math/jax_vjps/hermite.py
index cce481f..cdd094c 100644
--- a/mrmustard/math/jax_vjps/hermite.py
+++ b/mrmustard/math/jax_vjps/hermite.py
@@ -225,7 +225,7 @@ def hermite_renormalized_binomial_jax_bwd(shape, max_l2, global_cutoff, res, g):
     """
     G, A, b, c = res
     dLdA, dLdB, dLdC = jax.pure_callback(
-        lambda G, c, g: strategies.vanilla_vjp(np.array(G), np.array(c), np.array(g)),
+        lambda G, c, g: strategies.vanilla_vjp_numba(np.array(G), np.array(c), np.array(g)),
         (
             jax.ShapeDtypeStruct(A.shape, jnp.complex128),
             jax.ShapeDtypeStruct(b.shape, jnp.complex128),
-- 
2.43.0


From edec640674d45e52b983c3dbb2f1e791608e1e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 12/54] fix: the NumPy backend honours reorderedAB in
 hermite_renormalized_1leftoverMode

---
 mrmustard/math/backend_numpy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mrmustard/math/backend_numpy.py b/mrmustard/math/backend_numpy.py
index 34f325f..84f518d 100644
--- a/mrmustard/math/backend_numpy.py
+++ b/mrmustard/math/backend_numpy.py
@@ -444,9 +444,13 @@ class BackendNumpy(BackendBase):
         c: np.ndarray,
         output_cutoff: int,
         pnr_cutoffs: tuple[int, ...],
-        stable: bool = False,
         reorderedAB: bool = True,
+        stable: bool = False,
     ) -> np.ndarray:
+        if not reorderedAB:
+            # fast_diagonal expects the usual order of A and b
+            ordering = np.arange(A.shape[0]).reshape(-1, 2).T.flatten()
+            A, b = A[ordering][:, ordering], b[ordering]
         return strategies.fast_diagonal(A, b, c, output_cutoff, pnr_cutoffs, stable).transpose(
             (-2, -1, *tuple(range(len(pnr_cutoffs)))),
         )
-- 
2.43.0


From 389ec2dfbbe29394eb9e2b57e89a11fce9ec70f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 13/54] fix: zeros_like keeps the dtype of the array on the JAX
 backend

---
 mrmustard/math/backend_jax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/math/backend_jax.py b/mrmustard/math/backend_jax.py
index 2e09c6b..a0609ea 100644
--- a/mrmustard/math/backend_jax.py
+++ b/mrmustard/math/backend_jax.py
@@ -421,7 +421,7 @@ class BackendJax(BackendBase):
         return jnp.zeros(shape, dtype=dtype)
 
     @partial(jax.jit, static_argnames=["dtype"])
-    def zeros_like(self, array: jnp.ndarray, dtype: str = "complex128") -> jnp.ndarray:
+    def zeros_like(self, array: jnp.ndarray, dtype: str | None = None) -> jnp.ndarray:
         return jnp.zeros_like(array, dtype=dtype)
 
     def xlogy(self, x: jnp.ndarray, y: jnp.ndarray) -> jnp.ndarray:
-- 
2.43.0


From c612047fd6bc8ddbc3608af5f0f2d496ab011bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:53 +0000
Subject: [PATCH 14/54] fix: cached oscillator eigenstates follow the settings
 and the backend

---
 mrmustard/math/caching.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mrmustard/math/caching.py b/mrmustard/math/caching.py
index 9f74b94..8418e78 100644
--- a/mrmustard/math/caching.py
+++ b/mrmustard/math/caching.py
@@ -19,6 +19,7 @@ from functools import lru_cache, wraps
 import numpy as np
 
 from mrmustard.math.backend_manager import BackendManager
+from mrmustard.utils.settings import settings
 
 math = BackendManager()
 
@@ -29,16 +30,17 @@ def tensor_int_cache(fn):
 
     To do so the input vector (non-hashable) is converted into a numpy array (non-hashable)
     and then into a tuple (hashable). This tuple is used by ``functools.lru_cache`` to cache
-    the result."""
+    the result, together with the settings and the backend that the result depends on."""
 
     @lru_cache
-    def cached_wrapper(hashable_array, cutoff):
+    def cached_wrapper(hashable_array, cutoff, context):
         array = np.array(hashable_array, dtype=np.float64)
         return fn(array, cutoff)
 
     @wraps(fn)
     def wrapper(tensor, cutoff):
-        return cached_wrapper(tuple(math.asnumpy(tensor)), cutoff)
+        context = (settings.HBAR, settings.STABLE_FOCK_CONVERSION, math.backend_name)
+        return cached_wrapper(tuple(math.asnumpy(tensor)), cutoff, context)
 
     # copy lru_cache attributes over too
     wrapper.cache_info = cached_wrapper.cache_info
-- 
2.43.0


From 4905a3fe17010b43d5a6cf3e55d78706a9e5f29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 15/54] fix: matrix variables can be given an initial value

---
 mrmustard/math/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrmustard/math/parameters.py b/mrmustard/math/parameters.py
index 59a1b58..67144db 100644
--- a/mrmustard/math/parameters.py
+++ b/mrmustard/math/parameters.py
@@ -265,7 +265,7 @@ class Variable:
         Returns:
             A variable with ``update_fn`` for orthogonal optimization.
         """
-        value = value or math.random_orthogonal(N)
+        value = math.random_orthogonal(N) if value is None else value
         return Variable(value, name, bounds, "update_orthogonal")
 
     @staticmethod
@@ -289,7 +289,7 @@ class Variable:
         Returns:
             A variable with ``update_fn`` for simplectic optimization.
         """
-        value = value or math.random_symplectic(N)
+        value = math.random_symplectic(N) if value is None else value
         return Variable(value, name, bounds, "update_symplectic")
 
     @staticmethod
@@ -313,7 +313,7 @@ class Variable:
         Returns:
             A variable with ``update_fn`` for unitary optimization.
         """
-        value = value or math.random_unitary(N)
+        value = math.random_unitary(N) if value is None else value
         return Variable(value, name, bounds, "update_unitary")
 
     def _tree_flatten(self):  # pragma: no cover
-- 
2.43.0


From 5dd332c9d3aff9321d15b94013dd59fb2cc65cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 16/54] fix: auto_shape honours limits of zero

---
 mrmustard/lab/states/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrmustard/lab/states/base.py b/mrmustard/lab/states/base.py
index 533d3d7..0a49747 100644
--- a/mrmustard/lab/states/base.py
+++ b/mrmustard/lab/states/base.py
@@ -428,9 +428,9 @@ class State(CircuitComponent):
                         math.asnumpy(A),
                         math.asnumpy(b),
                         math.asnumpy(c),
-                        max_prob or settings.AUTOSHAPE_PROBABILITY,
-                        max_shape or settings.AUTOSHAPE_MAX,
-                        min_shape or settings.AUTOSHAPE_MIN,
+                        settings.AUTOSHAPE_PROBABILITY if max_prob is None else max_prob,
+                        settings.AUTOSHAPE_MAX if max_shape is None else max_shape,
+                        settings.AUTOSHAPE_MIN if min_shape is None else min_shape,
                     )
                 # covers the case where auto_shape is jitted
                 except math.BackendError:  # pragma: no cover
-- 
2.43.0


From 483708309eceaa3e9c94b8b98f467d7b0952a1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 17/54] fix: conversions to Fock only choose a shape when none
 is given

---
 mrmustard/lab/circuit_components.py | 2 +-
 mrmustard/lab/states/dm.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 5ea0d93..7bd50cb 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -718,7 +718,7 @@ class CircuitComponent:
             >>> assert isinstance(d.ansatz, PolyExpAnsatz) # in Bargmann representation
             >>> assert isinstance(d_fock.ansatz, ArrayAnsatz) # in Fock representation
         """
-        shape = shape or self.auto_shape()
+        shape = self.auto_shape() if shape is None else shape
         batch_dims = self.ansatz.batch_dims - 1 if self.ansatz._lin_sup else self.ansatz.batch_dims
         fock = ArrayAnsatz(self.fock_array(shape), batch_dims=batch_dims)
         try:
diff --git a/mrmustard/lab/states/dm.py b/mrmustard/lab/states/dm.py
index 5cdcfcc..317987d 100644
--- a/mrmustard/lab/states/dm.py
+++ b/mrmustard/lab/states/dm.py
@@ -429,7 +429,7 @@ class DM(State):
 
             >>> assert math.allclose(Vacuum([0]).dm().fock_array(), math.astensor([[1]]))
         """
-        array = super().fock_array(shape or self.auto_shape())
+        array = super().fock_array(self.auto_shape() if shape is None else shape)
         if standard_order:
             m = self.n_modes
             batch_dims = self.ansatz.batch_dims - self.ansatz._lin_sup
-- 
2.43.0


From cc7112358abce3a2b8542627500288d74ef7657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 18/54] fix: a light copy keeps the wires it is given when they
 are empty

---
 mrmustard/lab/circuit_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 7bd50cb..3e5306d 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -805,7 +805,7 @@ class CircuitComponent:
         instance = super().__new__(self.__class__)
         instance.__dict__ = self.__dict__.copy()
         instance._ansatz = self.ansatz
-        instance._wires = wires or Wires(*self.wires.args)
+        instance._wires = Wires(*self.wires.args) if wires is None else wires
         return instance
 
     def _rshift_return(
-- 
2.43.0


From 743f04104cfcf1632046dff86356a420757329ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 19/54] fix: tolerances of zero are honoured

---
 mrmustard/lab/samplers.py   | 2 +-
 mrmustard/lab/states/ket.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/samplers.py b/mrmustard/lab/samplers.py
index d95a84d..b6083b6 100644
--- a/mrmustard/lab/samplers.py
+++ b/mrmustard/lab/samplers.py
@@ -172,7 +172,7 @@ class Sampler(ABC):
             probs: The probability distribution to validate.
             atol: The absolute tolerance to validate with.
         """
-        atol = atol or settings.ATOL
+        atol = settings.ATOL if atol is None else atol
         probs = math.abs(probs)
         prob_sum = math.sum(probs)
         math.error_if(
diff --git a/mrmustard/lab/states/ket.py b/mrmustard/lab/states/ket.py
index 593b7b3..fb3a742 100644
--- a/mrmustard/lab/states/ket.py
+++ b/mrmustard/lab/states/ket.py
@@ -160,7 +160,7 @@ class Ket(State):
         if cov.shape[:-2] != ():  # pragma: no cover
             raise NotImplementedError("Not implemented for batched states.")
         shape_check(cov, means, 2 * len(modes), "Phase space")
-        if atol_purity:
+        if atol_purity is not None:
             p = math.cast(purity(cov), math.float64)
             math.error_if(
                 p,
-- 
2.43.0


From a75b513d42dd5877d77b7d13915dfc65d56933be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 20/54] fix: channels can be built from X, Y and a displacement

---
 mrmustard/physics/triples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/physics/triples.py b/mrmustard/physics/triples.py
index 9cc45cd..225c0a8 100644
--- a/mrmustard/physics/triples.py
+++ b/mrmustard/physics/triples.py
@@ -949,7 +949,7 @@ def XY_to_channel_Abc(
     """
     m = Y.shape[-1] // 2
     # considering no displacement if d is None
-    d = d if d else math.zeros(2 * m)
+    d = math.zeros(2 * m) if d is None else d
 
     if X.shape != Y.shape:
         raise ValueError(
-- 
2.43.0


From 4514c87f05318b8b97fb16959680adee454176ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 21/54] fix: einsum follows the setting when no optimization is
 given and the argument when it is

---
 mrmustard/math/backend_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/math/backend_manager.py b/mrmustard/math/backend_manager.py
index 9cebd3b..f660b81 100644
--- a/mrmustard/math/backend_manager.py
+++ b/mrmustard/math/backend_manager.py
@@ -527,7 +527,7 @@ class BackendManager:
         self,
         string: str,
         *tensors,
-        optimize: bool | str = "greedy",
+        optimize: bool | str | None = None,
         backend: str | None = None,
     ) -> Tensor:
         r"""The result of the Einstein summation convention on the tensors.
@@ -544,7 +544,7 @@ class BackendManager:
         Returns:
             The result of the Einstein summation convention.
         """
-        optimize = optimize or settings.EINSUM_OPTIMIZE
+        optimize = settings.EINSUM_OPTIMIZE if optimize is None else optimize
         return contract(string, *tensors, optimize=optimize, backend=backend)
 
     def exp(self, array: Tensor) -> Tensor:
-- 
2.43.0


From ae4f8b15f9f5ec20544dd2e01f5e2c35aed86054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 22/54] fix: transformations built from a Fock array keep their
 output and input modes

---
 mrmustard/lab/transformations/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/transformations/base.py b/mrmustard/lab/transformations/base.py
index 4b354dc..346357e 100644
--- a/mrmustard/lab/transformations/base.py
+++ b/mrmustard/lab/transformations/base.py
@@ -103,7 +103,7 @@ class Transformation(CircuitComponent):
         Returns:
             A transformation in the Fock representation.
         """
-        return cls.from_ansatz(modes_in, modes_out, ArrayAnsatz(array, batch_dims), name)
+        return cls.from_ansatz(modes_out, modes_in, ArrayAnsatz(array, batch_dims), name)
 
     @classmethod
     def from_quadrature(
-- 
2.43.0


From d92387a854fde0d61d45c1a5d4edb05c4c0d6052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 23/54] fix: JAX gradients of the Fock beam splitter and
 squeezers are no longer doubled

---
 mrmustard/math/lattice/strategies/beamsplitter.py | 4 ++--
 mrmustard/math/lattice/strategies/squeezer.py     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mrmustard/math/lattice/strategies/beamsplitter.py b/mrmustard/math/lattice/strategies/beamsplitter.py
index a291a67..d81a939 100644
--- a/mrmustard/math/lattice/strategies/beamsplitter.py
+++ b/mrmustard/math/lattice/strategies/beamsplitter.py
@@ -232,10 +232,10 @@ def beamsplitter_vjp(
     em = np.exp(-1j * phi)
 
     # omitting bottom-left block because dLdA should be zero there
-    dLdtheta = 2 * np.real(
+    dLdtheta = np.real(
         -st * dLdA[0, 2] - ct * em * dLdA[0, 3] + ct * e * dLdA[1, 2] - st * dLdA[1, 3],
     )
-    dLdphi = 2 * np.real(1j * st * em * dLdA[0, 3] + 1j * st * e * dLdA[1, 2])
+    dLdphi = np.real(1j * st * em * dLdA[0, 3] + 1j * st * e * dLdA[1, 2])
 
     return dLdtheta, dLdphi
 
diff --git a/mrmustard/math/lattice/strategies/squeezer.py b/mrmustard/math/lattice/strategies/squeezer.py
index f2f9a9a..4706b30 100644
--- a/mrmustard/math/lattice/strategies/squeezer.py
+++ b/mrmustard/math/lattice/strategies/squeezer.py
@@ -112,13 +112,13 @@ def squeezer_vjp(
     exp = np.exp(1j * phi)
     exp_conj = np.exp(-1j * phi)
 
-    dLdr = 2 * np.real(
+    dLdr = np.real(
         -dLdA[0, 0] * exp * d_tanh
         + dLdA[0, 1] * d_sech
         + dLdA[1, 1] * exp_conj * d_tanh
         - np.conj(dLdC) * 0.5 * tanh,  # / np.sqrt(np.cosh(r))
     )
-    dLdphi = 2 * np.real(-dLdA[0, 0] * 1j * exp * tanh - dLdA[1, 1] * 1j * exp_conj * tanh)
+    dLdphi = np.real(-dLdA[0, 0] * 1j * exp * tanh - dLdA[1, 1] * 1j * exp_conj * tanh)
 
     return dLdr, dLdphi
 
@@ -185,7 +185,7 @@ def squeezed_vjp(
 
     dLdC = np.sum(G * dLdG)  # np.sqrt(np.cosh(r)) cancels out with 1 / np.sqrt(np.cosh(r)) later
 
-    dLdr = 2 * np.real(-dLdA[0, 0] * exp * d_tanh - np.conj(dLdC) * 0.5 * tanh)
-    dLdphi = 2 * np.real(-dLdA[0, 0] * 1j * exp * tanh)
+    dLdr = np.real(-dLdA[0, 0] * exp * d_tanh - np.conj(dLdC) * 0.5 * tanh)
+    dLdphi = np.real(-dLdA[0, 0] * 1j * exp * tanh)
 
     return dLdr, dLdphi
-- 
2.43.0


From 10c77dad968606c50eb3b141c45ce92e95d78969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 24/54] fix: objects used inside a JAX transformation no longer
 keep its traced values

---
 mrmustard/math/backend_jax.py              |  3 +++
 mrmustard/math/backend_manager.py          | 13 +++++++++++++
 mrmustard/math/backend_numpy.py            |  3 +++
 mrmustard/physics/ansatz/array_ansatz.py   |  7 ++++++-
 mrmustard/physics/ansatz/polyexp_ansatz.py |  2 ++
 5 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/mrmustard/math/backend_jax.py b/mrmustard/math/backend_jax.py
index a0609ea..a7d73b8 100644
--- a/mrmustard/math/backend_jax.py
+++ b/mrmustard/math/backend_jax.py
@@ -275,6 +275,9 @@ class BackendJax(BackendBase):
     def isnan(self, array: jnp.ndarray) -> jnp.ndarray:
         return jnp.isnan(array)
 
+    def istraced(self, x: Any) -> bool:
+        return isinstance(x, jax.core.Tracer)
+
     def issubdtype(self, arg1, arg2) -> bool:
         return jnp.issubdtype(arg1, arg2)
 
diff --git a/mrmustard/math/backend_manager.py b/mrmustard/math/backend_manager.py
index f660b81..47ee640 100644
--- a/mrmustard/math/backend_manager.py
+++ b/mrmustard/math/backend_manager.py
@@ -858,6 +858,19 @@ class BackendManager:
         """
         return self._apply("isnan", (array,))
 
+    def istraced(self, x: Any) -> bool:
+        r"""
+        Whether the given object is an abstract value of an ongoing transformation (e.g. of
+        ``jax.jit`` or ``jax.grad``). Such a value must not be stored beyond the transformation.
+
+        Args:
+            x: The object to check.
+
+        Returns:
+            Whether the given object is an abstract value of an ongoing transformation.
+        """
+        return self._apply("istraced", (x,))
+
     def issubdtype(self, arg1, arg2) -> bool:
         r"""
         Whether the ``arg1`` is a typecode lower/equal in type hierarchy to ``arg2``.
diff --git a/mrmustard/math/backend_numpy.py b/mrmustard/math/backend_numpy.py
index 84f518d..6e1e8d4 100644
--- a/mrmustard/math/backend_numpy.py
+++ b/mrmustard/math/backend_numpy.py
@@ -168,6 +168,9 @@ class BackendNumpy(BackendBase):
     def isnan(self, array: np.ndarray) -> np.ndarray:
         return np.isnan(array)
 
+    def istraced(self, x: Any) -> bool:
+        return False
+
     def issubdtype(self, arg1, arg2) -> bool:
         return np.issubdtype(arg1, arg2)
 
diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index bd81263..df28f20 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -337,7 +337,12 @@ class ArrayAnsatz(Ansatz):
         Determines if the ansatz needs to be regenerated based on its current state
         and parameter types.
         """
-        return self._array is None or Variable in {type(param) for param in self._kwargs.values()}
+        return (
+            self._array is None
+            or Variable in {type(param) for param in self._kwargs.values()}
+            # an array generated inside of a transformation is not valid outside of it
+            or (self._fn is not None and math.istraced(self._array))
+        )
 
     def _tree_flatten(self):  # pragma: no cover
         children, aux_data = super()._tree_flatten()
diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 44b0060..5af76b6 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -829,6 +829,8 @@ class PolyExpAnsatz(Ansatz):
             or self._b is None
             or self._c is None
             or Variable in {type(param) for param in self._kwargs.values()}
+            # a triple generated inside of a transformation is not valid outside of it
+            or (self._fn is not None and any(map(math.istraced, (self._A, self._b, self._c))))
         )
 
     def _tree_flatten(self):  # pragma: no cover
-- 
2.43.0


From 24d35f2970bdbf03d9570d439674c45bfaaf8199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:56 +0000
Subject: [PATCH 25/54] fix: values traced by JAX are no longer kept in the
 cache of oscillator eigenstates

---
 mrmustard/math/caching.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mrmustard/math/caching.py b/mrmustard/math/caching.py
index 8418e78..4aaa68c 100644
--- a/mrmustard/math/caching.py
+++ b/mrmustard/math/caching.py
@@ -40,7 +40,10 @@ def tensor_int_cache(fn):
     @wraps(fn)
     def wrapper(tensor, cutoff):
         context = (settings.HBAR, settings.STABLE_FOCK_CONVERSION, math.backend_name)
-        return cached_wrapper(tuple(math.asnumpy(tensor)), cutoff, context)
+        ret = cached_wrapper(tuple(math.asnumpy(tensor)), cutoff, context)
+        if math.istraced(ret):  # not valid outside of the ongoing transformation
+            cached_wrapper.cache_clear()
+        return ret
 
     # copy lru_cache attributes over too
     wrapper.cache_info = cached_wrapper.cache_info
-- 
2.43.0


From de5df9be07f724252523b95dac928d1521961548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:41 +0000
Subject: [PATCH 26/54] fix: quadrature of a component in the Fock basis mixed
 up mode numbers and einsum letters

CircuitComponent.quadrature named the einsum subscripts of the quadrature
points after the mode numbers while the subscripts of the Fock indices start
at the number of modes, so that the two collide (and the letters run out) for
components on modes other than 0, ..., n-1. Name them after the position of
the mode instead.
---
 mrmustard/lab/circuit_components.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 3e5306d..4e7170c 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -589,6 +589,7 @@ class CircuitComponent:
         Returns:
             A circuit component with the given quadrature representation.
         """
+        letters = {mode: chr(97 + i) for i, mode in enumerate(self.modes)}
         if isinstance(self.ansatz, ArrayAnsatz):
             conjugates = [i not in self.wires.ket.indices for i in range(len(self.wires.indices))]
             dims = self.ansatz.core_dims
@@ -614,11 +615,11 @@ class CircuitComponent:
             fock_string = "".join([chr(97 + self.n_modes + dim) for dim in range(dims)])
             q_string = "".join(
                 [
-                    f"{fock_string[idx]}{chr(97 + wire.mode)},"
+                    f"{fock_string[idx]}{letters[wire.mode]},"
                     for idx, wire in enumerate(self.wires)
                 ],
             )[:-1]
-            out_string = "".join([chr(97 + mode) for mode in self.modes])
+            out_string = "".join(letters.values())
             ret = math.einsum(
                 "..." + fock_string + "," + q_string + "->" + out_string + "...",
                 self.ansatz.array,
@@ -627,9 +628,9 @@ class CircuitComponent:
             )
         else:
             batch_str = (
-                "".join([chr(97 + wire.mode) + "," for wire in self.wires])[:-1]
+                ",".join([letters[wire.mode] for wire in self.wires])
                 + "->"
-                + "".join([chr(97 + mode) for mode in self.modes])
+                + "".join(letters.values())
             )
             ret = self.to_quadrature(phi=phi).ansatz.eval(*quad, batch_string=batch_str)
         batch_shape = (
-- 
2.43.0


From 4de604a6f786b2c86f351906705070f02687bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:07 +0000
Subject: [PATCH 27/54] fix: PhaseNoise no longer changes the Fock array of the
 component it acts on

``fock_array`` of a component that is already in the Fock basis returns the
array of the component itself, which was then multiplied in place.
---
 mrmustard/lab/transformations/phasenoise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/transformations/phasenoise.py b/mrmustard/lab/transformations/phasenoise.py
index 418b08d..98fbdd4 100644
--- a/mrmustard/lab/transformations/phasenoise.py
+++ b/mrmustard/lab/transformations/phasenoise.py
@@ -103,7 +103,7 @@ class PhaseNoise(Channel):
                 * (mode_indices[mode] - mode_indices[other.n_modes + mode]) ** 2
                 * self.parameters.phase_stdev.value**2,
             )
-            array *= phase_factors
+            array = array * phase_factors
         return CircuitComponent._from_attributes(
             ArrayAnsatz(array, batch_dims=other.ansatz.batch_dims),
             other.wires,
-- 
2.43.0


From 7e81e50e9c18bb761a048d7fc80856f756a147ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:32 +0000
Subject: [PATCH 28/54] fix: PhaseNoise used mode numbers as axes of the Fock
 array

The axes of the bra and ket output wires of the modes are their indices, which
agree with the mode numbers only for components on modes 0, ..., n-1 without
input wires.
---
 mrmustard/lab/transformations/phasenoise.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mrmustard/lab/transformations/phasenoise.py b/mrmustard/lab/transformations/phasenoise.py
index 98fbdd4..cfd5deb 100644
--- a/mrmustard/lab/transformations/phasenoise.py
+++ b/mrmustard/lab/transformations/phasenoise.py
@@ -98,9 +98,11 @@ class PhaseNoise(Channel):
         array = other.fock_array()
         mode_indices = np.indices(other.ansatz.core_shape)
         for mode in self.modes:
+            (bra,) = other.wires.output.bra[mode].indices
+            (ket,) = other.wires.output.ket[mode].indices
             phase_factors = math.exp(
                 -0.5
-                * (mode_indices[mode] - mode_indices[other.n_modes + mode]) ** 2
+                * (mode_indices[bra] - mode_indices[ket]) ** 2
                 * self.parameters.phase_stdev.value**2,
             )
             array = array * phase_factors
-- 
2.43.0


From e0efb068de5880bd65c01a4476c624ae17ad9e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:46 +0000
Subject: [PATCH 29/54] fix: drawing of a circuit orders its lines by mode

The lines followed the iteration order of a set, which is not sorted in
general (e.g. for the modes 1 and 9).
---
 mrmustard/lab/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/circuits.py b/mrmustard/lab/circuits.py
index edfe3bf..70c7fa3 100644
--- a/mrmustard/lab/circuits.py
+++ b/mrmustard/lab/circuits.py
@@ -384,7 +384,7 @@ class Circuit:
         # - heigth ``0`` is the mode with smallest index and drawn on the top line
         # - height ``1`` is the second mode from the top
         # - etc.
-        lines = {m: h for h, m in enumerate(modes)}
+        lines = {m: h for h, m in enumerate(sorted(modes))}
 
         # create a dictionary ``wires`` that maps height ``h`` to "──" if the line contains
         # a mode, or to "  " if the line does not contain a mode
-- 
2.43.0


From 0d2d34695a14fcc87fa3e2d4186045c13d5a1abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:46 +0000
Subject: [PATCH 30/54] fix: standard order of the wires for large mode numbers

Modes above 10000 overflowed into the digits that order wires by type.
---
 mrmustard/physics/wires.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index 8b5d76c..fb0eccc 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -98,12 +98,12 @@ class QuantumWire:
             id=self.id if not new_id else randint(0, 2**32 - 1),
         )
 
-    def _order(self) -> int:
+    def _order(self) -> tuple[bool, bool, bool, int]:
         """
         Artificial ordering for sorting quantum wires.
         Order achieved is by bra/ket, then out/in, then mode.
         """
-        return self.mode + 10_000 * (1 - 2 * self.is_out) - 100_000 * (1 - 2 * self.is_ket)
+        return (False, self.is_ket, not self.is_out, self.mode)
 
     def __eq__(self, other: QuantumWire) -> bool:
         return (
@@ -146,12 +146,12 @@ class ClassicalWire:
             id=self.id if not new_id else randint(0, 2**32 - 1),
         )
 
-    def _order(self) -> int:
+    def _order(self) -> tuple[bool, bool, bool, int]:
         """
         Artificial ordering for sorting classical wires.
         Order is by out/in, then mode. Classical wires always come after quantum wires.
         """
-        return 1000_000 + self.mode + 10_000 * (1 - 2 * self.is_out)
+        return (True, False, not self.is_out, self.mode)
 
     def __eq__(self, other: ClassicalWire) -> bool:
         return self.mode == other.mode and self.is_out == other.is_out and self.repr == other.repr
-- 
2.43.0


From 6f0132b82a31b47309fb1eb6dadd68f28742f525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:45 +0000
Subject: [PATCH 31/54] fix: mode order of the Fock distribution of separable
 mixed states

The diagonals of the pairs of axes were taken from the last mode to the first
and appended in that order, so that the distribution of Thermal(0) >> Thermal(1)
came out with its two modes swapped.
---
 mrmustard/lab/states/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/states/base.py b/mrmustard/lab/states/base.py
index 0a49747..84c5c31 100644
--- a/mrmustard/lab/states/base.py
+++ b/mrmustard/lab/states/base.py
@@ -461,7 +461,7 @@ class State(CircuitComponent):
         n_modes = self.n_modes
         if self.is_separable:
             for i in range(n_modes):
-                fock_array = math.diagonal(fock_array, axis1=-n_modes - 1, axis2=-(1 + i))
+                fock_array = math.diagonal(fock_array, axis1=-2 * n_modes + i, axis2=-n_modes)
             return math.reshape(math.abs(fock_array), (*batch_shape, -1))
         indices_list = [(...,) + ns * 2 for ns in product(list(range(cutoff)), repeat=n_modes)]
         return math.stack([fock_array[indices] for indices in indices_list], axis=batch_dim)
-- 
2.43.0


From d805e56c6010cb770f9720aa4a0704e996023a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:16 +0000
Subject: [PATCH 32/54] fix: homodyne sampling of multi-mode mixed states

HomodyneSampler.sample evaluated the first variable of the measured state only,
which is the whole measured mode for kets but only its bra side for mixed
states, and failed with a ValueError for them.
---
 mrmustard/lab/samplers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mrmustard/lab/samplers.py b/mrmustard/lab/samplers.py
index b6083b6..c2a9bb5 100644
--- a/mrmustard/lab/samplers.py
+++ b/mrmustard/lab/samplers.py
@@ -244,7 +244,11 @@ class HomodyneSampler(Sampler):
         ret = []
         for unique_sample, idx, count in zip(unique_samples, idxs, counts):
             # Use partial_eval to evaluate the ansatz at the first mode only
-            reduced_ansatz = (state >> BtoQ([initial_mode], phi=self._phi)).ansatz(unique_sample)
+            measured = state >> BtoQ([initial_mode], phi=self._phi)
+            points = [None] * measured.ansatz.num_CV_vars
+            for index in measured.wires[initial_mode].indices:
+                points[index] = unique_sample
+            reduced_ansatz = measured.ansatz(*points)
             reduced_state = state.from_bargmann(state.modes[1:], reduced_ansatz.triple)
             prob = probs[idx] / self._step
             norm = math.sqrt(prob) if isinstance(state, Ket) else prob
-- 
2.43.0


From 8a796d1f7d0324c903dd2fe7b7bc7b0004ad6050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:33 +0000
Subject: [PATCH 33/54] fix: traces and sums of array ansatze can be jitted

The sizes of their arrays were computed with the backend, which makes them
tracers within jax.jit, where reshape and the comparison of sizes fail.
---
 mrmustard/physics/ansatz/array_ansatz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index df28f20..aedd9a7 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -308,7 +308,7 @@ class ArrayAnsatz(Ansatz):
                 slices[-len(idx_z) + i] = slice(0, min_dim)
         new_array = new_array[tuple(slices)]
 
-        n = math.prod(new_array.shape[-len(idx_zconj) :])
+        n = int(np.prod(new_array.shape[-len(idx_zconj) :]))
         new_array = math.reshape(new_array, (*new_array.shape[: -2 * len(idx_z)], n, n))
         trace = math.trace(new_array)
         return ArrayAnsatz(trace, self.batch_dims)
@@ -358,7 +358,7 @@ class ArrayAnsatz(Ansatz):
         if self.batch_dims != other.batch_dims:
             raise ValueError("Batch dimensions must match.")
         if self.core_shape != other.core_shape:
-            if math.prod(self.core_shape) > math.prod(other.core_shape):
+            if np.prod(self.core_shape) > np.prod(other.core_shape):
                 self_array = self.array
                 other_array = other.reduce(self.core_shape).array
             else:
-- 
2.43.0


From d0f26fd5e863fbdef1a20cf0f7c15ecc157c3429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:33 +0000
Subject: [PATCH 34/54] fix: decompose_ansatz can be jitted

Its sizes were computed with the backend, and int() of a tracer fails.
---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 5af76b6..fce4efe 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -430,9 +430,7 @@ class PolyExpAnsatz(Ansatz):
             return self
         n = self.num_CV_vars
         A, b, c = self.triple
-        pulled_out_input_shape = (
-            int(math.sum(self.shape_derived_vars)),
-        ) * n  # cast to int for jax
+        pulled_out_input_shape = (sum(self.shape_derived_vars),) * n
         poly_shape = pulled_out_input_shape + self.shape_derived_vars
 
         batch_shape = A.shape[:-2]
@@ -451,7 +449,7 @@ class PolyExpAnsatz(Ansatz):
             shape=poly_shape,
         )
 
-        derived_vars_size = int(math.prod(self.shape_derived_vars))
+        derived_vars_size = int(np.prod(self.shape_derived_vars))
         poly_core = math.reshape(
             poly_core,
             batch_shape + pulled_out_input_shape + (derived_vars_size,),
-- 
2.43.0


From 255ecc115a0a95df462e93adf0b213bfbaa2637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:47 +0000
Subject: [PATCH 35/54] fix: quadrature can be jitted

The size of the result was computed with the backend and the value of the
angle decided on a branch, both of which fail on tracers. A rotation by the
angle zero leaves the basis as it is.
---
 mrmustard/lab/circuit_components.py | 9 ++++-----
 mrmustard/physics/fock_utils.py     | 7 +++----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 4e7170c..870495b 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -603,10 +603,9 @@ class CircuitComponent:
             quad_basis_vecs = []
             for dim in range(dims):
                 q_to_n = oscillator_eigenstate(quad[dim], shapes[dim])
-                if not math.allclose(phi, 0.0):
-                    theta = -math.arange(shapes[dim]) * phi
-                    Ur = math.make_complex(math.cos(theta), math.sin(theta))
-                    q_to_n = math.einsum("n,nq->nq", Ur, q_to_n)
+                theta = -math.arange(shapes[dim]) * phi
+                Ur = math.make_complex(math.cos(theta), math.sin(theta))
+                q_to_n = math.einsum("n,nq->nq", Ur, q_to_n)
                 if conjugates[dim]:
                     q_to_n = math.conj(q_to_n)
                 quad_basis_vecs += [math.cast(q_to_n, "complex128")]
@@ -637,7 +636,7 @@ class CircuitComponent:
             self.ansatz.batch_shape[:-1] if self.ansatz._lin_sup else self.ansatz.batch_shape
         )
         batch_dims = len(batch_shape)
-        size = int(math.prod(ret.shape[:-batch_dims] if batch_shape else ret.shape))
+        size = int(np.prod(ret.shape[:-batch_dims] if batch_shape else ret.shape))
         return math.reshape(ret, (size, *batch_shape))
 
     def quadrature_triple(
diff --git a/mrmustard/physics/fock_utils.py b/mrmustard/physics/fock_utils.py
index a6dcf81..59cf758 100644
--- a/mrmustard/physics/fock_utils.py
+++ b/mrmustard/physics/fock_utils.py
@@ -226,10 +226,9 @@ def quadrature_basis(
     quad_basis_vecs = []
     for dim in range(dims):
         q_to_n = oscillator_eigenstate(quad[..., dim], shapes[dim])
-        if not np.isclose(phi, 0.0):
-            theta = -math.arange(shapes[dim]) * phi
-            Ur = math.make_complex(math.cos(theta), math.sin(theta))
-            q_to_n = math.einsum("n,nq->nq", Ur, q_to_n)
+        theta = -math.arange(shapes[dim]) * phi
+        Ur = math.make_complex(math.cos(theta), math.sin(theta))
+        q_to_n = math.einsum("n,nq->nq", Ur, q_to_n)
         if conjugates[dim]:
             q_to_n = math.conj(q_to_n)
         quad_basis_vecs += [math.cast(q_to_n, "complex128")]
-- 
2.43.0


From 55503b962f6ca03ffc29c63276a2368d136e36b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:47 +0000
Subject: [PATCH 36/54] fix: functions cached by tensor_int_cache can be jitted

A tracer has no value that could be used as the key of the cache.
---
 mrmustard/math/caching.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrmustard/math/caching.py b/mrmustard/math/caching.py
index 4aaa68c..968c786 100644
--- a/mrmustard/math/caching.py
+++ b/mrmustard/math/caching.py
@@ -39,6 +39,8 @@ def tensor_int_cache(fn):
 
     @wraps(fn)
     def wrapper(tensor, cutoff):
+        if math.istraced(tensor):  # has no value to look up
+            return fn(tensor, cutoff)
         context = (settings.HBAR, settings.STABLE_FOCK_CONVERSION, math.backend_name)
         ret = cached_wrapper(tuple(math.asnumpy(tensor)), cutoff, context)
         if math.istraced(ret):  # not valid outside of the ongoing transformation
-- 
2.43.0


From 6fa74042d6ddb96dd418e7533681a5ec5c805274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:47 +0000
Subject: [PATCH 37/54] fix: real Gaussian integrals can be jitted

Only the shape of the index arrays is needed, which tracers have too, while
asnumpy fails on them.
---
 mrmustard/physics/gaussian_integrals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrmustard/physics/gaussian_integrals.py b/mrmustard/physics/gaussian_integrals.py
index 6a82964..2d07bb4 100644
--- a/mrmustard/physics/gaussian_integrals.py
+++ b/mrmustard/physics/gaussian_integrals.py
@@ -61,7 +61,7 @@ def real_gaussian_integral(
     M = math.gather(math.gather(A, idx, axis=-1), idx, axis=-2)
     bM = math.gather(b, idx, axis=-1)
 
-    if math.asnumpy(not_idx).shape != (0,):
+    if not_idx.shape != (0,):
         D = math.gather(math.gather(A, idx, axis=-1), not_idx, axis=-2)
         R = math.gather(math.gather(A, not_idx, axis=-1), not_idx, axis=-2)
         bR = math.gather(b, not_idx, axis=-1)
@@ -136,10 +136,10 @@ def join_Abc_real(
         A2_notidx_notidx = math.gather(math.gather(A2, not_idx2, axis=-1), not_idx2, axis=-2)
         b2_notidx = math.gather(b2, not_idx2, axis=-1)
 
-    if math.asnumpy(not_idx1).shape == (0,):
+    if not_idx1.shape == (0,):
         A12 = math.block([[A1 + A2_idx_idx, A2_notidx_idx], [A2_idx_notidx, A2_notidx_notidx]])
         b12 = math.concat([b1 + b2_idx, b2_notidx], axis=-1)
-    elif math.asnumpy(not_idx2).shape == (0,):
+    elif not_idx2.shape == (0,):
         A12 = math.block([[A2 + A1_idx_idx, A1_notidx_idx], [A1_idx_notidx, A1_notidx_notidx]])
         b12 = math.concat([b2 + b1_idx, b1_notidx], axis=-1)
     else:
-- 
2.43.0


From b8ecad0222ff05e5c4129abb15a2cd06ab30b2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:03 +0000
Subject: [PATCH 38/54] fix: the phase-space form of a core state can be jitted

NumPy was given traced arrays, and a traced number was written into a NumPy
array.
---
 mrmustard/physics/fock_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mrmustard/physics/fock_utils.py b/mrmustard/physics/fock_utils.py
index 59cf758..eb3685d 100644
--- a/mrmustard/physics/fock_utils.py
+++ b/mrmustard/physics/fock_utils.py
@@ -294,10 +294,10 @@ def gamma_matrix(c):
     for m in range(c.shape[0]):
         for n in range(c.shape[1]):
             for alpha in range(m + n + 1):
-                factor = math.sqrt(
+                factor = np.sqrt(
                     factorial(m) * factorial(n) / (factorial(alpha) * factorial(m + n - alpha)),
                 )
-                value = c_ps_matrix(m, n, alpha) * math.sqrt(settings.HBAR / 2) ** (m + n)
+                value = c_ps_matrix(m, n, alpha) * np.sqrt(settings.HBAR / 2) ** (m + n)
                 row = alpha * M + (m + n - alpha)
                 col = m * c.shape[0] + n
                 Gamma[row, col] = value / factor
@@ -313,4 +313,5 @@ def c_in_PS(c):
         c (Tensor): the 2-dimensional ``c`` matrix of the ``DM`` object
     """
     M = c.shape[0] + c.shape[1] - 1
-    return np.reshape(gamma_matrix(c) @ np.reshape(c, (c.shape[0] * c.shape[1], 1)), (M, M))
+    vec = math.reshape(c, (c.shape[0] * c.shape[1], 1))
+    return math.reshape(gamma_matrix(c) @ vec, (M, M))
-- 
2.43.0


From e7cff251452a6a2693bddd8986fc609524b57d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:46 +0000
Subject: [PATCH 39/54] fix: the Fock distribution of mixed states can be
 jitted and needs no Gaussian form

The value of is_separable decided on a branch, which fails on tracers, and
raised for states that have no phase-space form, such as a multi-mode state in
the Fock basis. Both branches took the same diagonal.
---
 mrmustard/lab/states/base.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/mrmustard/lab/states/base.py b/mrmustard/lab/states/base.py
index 84c5c31..50c476f 100644
--- a/mrmustard/lab/states/base.py
+++ b/mrmustard/lab/states/base.py
@@ -19,7 +19,6 @@ from __future__ import annotations
 from abc import abstractmethod
 from collections.abc import Sequence
 from enum import Enum
-from itertools import product
 
 import numpy as np
 import plotly.graph_objects as go
@@ -454,17 +453,13 @@ class State(CircuitComponent):
             The Fock distribution.
         """
         batch_shape = self.ansatz.batch_shape
-        batch_dim = self.ansatz.batch_dims
         fock_array = self.fock_array(cutoff)
         if not self.wires.ket or not self.wires.bra:
             return math.reshape(math.abs(fock_array) ** 2, (*batch_shape, -1))
         n_modes = self.n_modes
-        if self.is_separable:
-            for i in range(n_modes):
-                fock_array = math.diagonal(fock_array, axis1=-2 * n_modes + i, axis2=-n_modes)
-            return math.reshape(math.abs(fock_array), (*batch_shape, -1))
-        indices_list = [(...,) + ns * 2 for ns in product(list(range(cutoff)), repeat=n_modes)]
-        return math.stack([fock_array[indices] for indices in indices_list], axis=batch_dim)
+        for i in range(n_modes):
+            fock_array = math.diagonal(fock_array, axis1=-2 * n_modes + i, axis2=-n_modes)
+        return math.reshape(math.abs(fock_array), (*batch_shape, -1))
 
     @abstractmethod
     def formal_stellar_decomposition(
-- 
2.43.0


From 0b3c5ff24087cda463a14b066522d4673bb7a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:07 +0000
Subject: [PATCH 40/54] fix: number states can be built within jitted functions

Within jax.jit the values of parameters became tracers, also those of
constants, so that the cutoff could not be computed from them.
---
 mrmustard/lab/states/number.py  | 5 ++++-
 mrmustard/math/backend_jax.py   | 6 +++++-
 mrmustard/physics/fock_utils.py | 2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/mrmustard/lab/states/number.py b/mrmustard/lab/states/number.py
index 2e36fe2..5fa462e 100644
--- a/mrmustard/lab/states/number.py
+++ b/mrmustard/lab/states/number.py
@@ -20,6 +20,8 @@ from __future__ import annotations
 
 from collections.abc import Sequence
 
+import numpy as np
+
 from mrmustard import math
 from mrmustard.physics.ansatz import ArrayAnsatz
 from mrmustard.physics.fock_utils import fock_state
@@ -71,7 +73,8 @@ class Number(Ket):
         mode = (mode,) if not isinstance(mode, tuple) else mode
         super().__init__(name="N")
         self.parameters.add_parameter(make_parameter(False, n, "n", (None, None), dtype=math.int64))
-        cutoff = int(math.max(self.parameters.n.value) + 1) if cutoff is None else cutoff
+        n_max = np.max(math.asnumpy(self.parameters.n.value))
+        cutoff = int(n_max) + 1 if cutoff is None else cutoff
         self.parameters.add_parameter(
             make_parameter(False, cutoff, "cutoff", (None, None), dtype=math.int64),
         )
diff --git a/mrmustard/math/backend_jax.py b/mrmustard/math/backend_jax.py
index a7d73b8..593f558 100644
--- a/mrmustard/math/backend_jax.py
+++ b/mrmustard/math/backend_jax.py
@@ -144,7 +144,11 @@ class BackendJax(BackendBase):
         return jnp.prod(x, axis=axis)
 
     def astensor(self, array: np.ndarray | jnp.ndarray, dtype=None) -> jnp.ndarray:
-        return jnp.asarray(array, dtype=dtype)
+        if any(self.istraced(x) for x in jax.tree_util.tree_leaves(array)):
+            return jnp.asarray(array, dtype=dtype)
+        # what is not traced stays a constant, also within a transformation
+        with jax.ensure_compile_time_eval():
+            return jnp.asarray(array, dtype=dtype)
 
     @jax.jit
     def log(self, array: jnp.ndarray) -> jnp.ndarray:
diff --git a/mrmustard/physics/fock_utils.py b/mrmustard/physics/fock_utils.py
index eb3685d..b6d443b 100644
--- a/mrmustard/physics/fock_utils.py
+++ b/mrmustard/physics/fock_utils.py
@@ -55,7 +55,7 @@ def fock_state(n: int | Sequence[int], cutoff: int | None = None) -> Tensor:
     """
     n = math.astensor(n, dtype=math.int64)
     if cutoff is None:
-        cutoff = int(math.max(n) + 1)
+        cutoff = int(np.max(math.asnumpy(n))) + 1
 
     def check_photon_numbers(n, cutoff):
         if math.any(n >= cutoff):
-- 
2.43.0


From 921d206bcd08c26b0369366d5c84159ff68b58f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:07 +0000
Subject: [PATCH 41/54] fix: Sauron states can be built within jitted functions

Within jax.jit operations on the number of photons give tracers, which cannot
be used as a size, and NumPy functions fail on the intermediate results.
---
 mrmustard/physics/triples.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrmustard/physics/triples.py b/mrmustard/physics/triples.py
index 225c0a8..cb8439b 100644
--- a/mrmustard/physics/triples.py
+++ b/mrmustard/physics/triples.py
@@ -302,7 +302,7 @@ def sauron_state_Abc(n: int, epsilon: float) -> tuple[ComplexMatrix, ComplexVect
     Returns:
         The ``(A, b, c)`` triple of the sauron state.
     """
-
+    n = int(n)
     phases = np.linspace(0, 2 * np.pi * (1 - 1 / (n + 1)), n + 1)
     cs = np.exp(1j * phases)
     bs = (epsilon * cs)[..., None]
@@ -310,13 +310,13 @@ def sauron_state_Abc(n: int, epsilon: float) -> tuple[ComplexMatrix, ComplexVect
 
     # normalization
     probs = complex_gaussian_integral_2(
-        (np.conj(As), np.conj(bs), np.conj(cs)),
+        (np.conj(As), math.conj(bs), np.conj(cs)),
         (As, bs, cs),
         [0],
         [0],
     )[2]
-    prob = np.sum(probs)
-    cs /= np.sqrt(prob)
+    prob = math.sum(probs)
+    cs = cs / math.sqrt(prob)
 
     return As, bs, cs
 
-- 
2.43.0


From e2a99de293efba8af745272f5aa4f8053b3f15fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:53 +0000
Subject: [PATCH 42/54] fix: sizes of batches are numbers also within jitted
 functions

They were computed with the backend, whose results are tracers there.
---
 mrmustard/lab/states/ket.py                | 2 +-
 mrmustard/physics/ansatz/polyexp_ansatz.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/states/ket.py b/mrmustard/lab/states/ket.py
index fb3a742..8a1f3e2 100644
--- a/mrmustard/lab/states/ket.py
+++ b/mrmustard/lab/states/ket.py
@@ -404,7 +404,7 @@ class Ket(State):
 
         if batch_shape != ():
             Im = math.stack(
-                [math.eye(M, dtype=math.complex128)] * int(math.prod(batch_shape)),
+                [math.eye(M, dtype=math.complex128)] * int(np.prod(batch_shape)),
             ).reshape(batch_shape + (M,) * 2)
         else:
             Im = math.eye(M, dtype=math.complex128)
diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index fce4efe..846106d 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -154,7 +154,7 @@ class PolyExpAnsatz(Ansatz):
 
     @property
     def batch_size(self) -> int:
-        return math.prod(self.batch_shape) if self.batch_shape else 0
+        return int(np.prod(self.batch_shape)) if self.batch_shape else 0
 
     @property
     def c(self) -> Batch[ComplexTensor]:
-- 
2.43.0


From d90973d8052e61a25953049876d32af4b5d8629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:42 +0000
Subject: [PATCH 43/54] fix: thermal Gaussian states of a batch of symplectic
 matrices

---
 mrmustard/physics/triples.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrmustard/physics/triples.py b/mrmustard/physics/triples.py
index cb8439b..2ebeaf9 100644
--- a/mrmustard/physics/triples.py
+++ b/mrmustard/physics/triples.py
@@ -259,12 +259,12 @@ def gdm_state_Abc(betas: ComplexVector, symplectic: RealMatrix):
     """
     batch_shape = symplectic.shape[:-2]
     m = len(betas)
-    betas = math.broadcast_to(betas, (*batch_shape, m), dtype=math.complex128)
+    betas = math.cast(betas, dtype=math.complex128)
     Au = symplectic2Au(symplectic)
     A_udagger_u = math.block(
         [
-            [math.conj(Au), math.zeros((2 * m, 2 * m), dtype="complex128")],
-            [math.zeros((2 * m, 2 * m), dtype="complex128"), Au],
+            [math.conj(Au), math.zeros_like(Au)],
+            [math.zeros_like(Au), Au],
         ],
     )
 
@@ -276,7 +276,7 @@ def gdm_state_Abc(betas: ComplexVector, symplectic: RealMatrix):
         ],
     )
     c_fd = math.prod(1 - math.exp(-betas))
-    t_fd = (A_fd, math.zeros((*batch_shape, 2 * m), dtype=A_fd.dtype), c_fd)
+    t_fd = (A_fd, math.zeros((2 * m,), dtype=A_fd.dtype), c_fd)
     c_u = (
         (-1) ** m
         * math.det(Au[..., m:, m:] @ math.conj(Au[..., m:, m:]) - math.eye_like(Au[..., m:, m:]))
-- 
2.43.0


From 389cd840b25166052781cc3ecf29479db7e793ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:19 +0000
Subject: [PATCH 44/54] fix: homodyne samples of superpositions of several
 modes

---
 mrmustard/lab/samplers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mrmustard/lab/samplers.py b/mrmustard/lab/samplers.py
index c2a9bb5..0fbd720 100644
--- a/mrmustard/lab/samplers.py
+++ b/mrmustard/lab/samplers.py
@@ -249,7 +249,9 @@ class HomodyneSampler(Sampler):
             for index in measured.wires[initial_mode].indices:
                 points[index] = unique_sample
             reduced_ansatz = measured.ansatz(*points)
-            reduced_state = state.from_bargmann(state.modes[1:], reduced_ansatz.triple)
+            reduced_state = state.from_bargmann(
+                state.modes[1:], reduced_ansatz.triple, lin_sup=reduced_ansatz._lin_sup
+            )
             prob = probs[idx] / self._step
             norm = math.sqrt(prob) if isinstance(state, Ket) else prob
             normalized_reduced_state = reduced_state / norm
-- 
2.43.0


From d9fd991b238f52f98114a552d41ff0399ad3db30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:19 +0000
Subject: [PATCH 45/54] fix: Fock arrays of superpositions within mm_einsum sum
 over the superposition

---
 mrmustard/physics/mm_einsum.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/mm_einsum.py b/mrmustard/physics/mm_einsum.py
index a731e2c..e9d4d59 100644
--- a/mrmustard/physics/mm_einsum.py
+++ b/mrmustard/physics/mm_einsum.py
@@ -287,9 +287,11 @@ def to_fock(ansatz: Ansatz, shape: tuple[int, ...], stable: bool = False) -> Arr
     if isinstance(ansatz, ArrayAnsatz):
         return ansatz.reduce(shape)
     array = math.hermite_renormalized(*ansatz.triple, shape, stable)
+    batch_dims = ansatz.batch_dims
     if ansatz._lin_sup:
-        array = math.sum(array, axis=ansatz.batch_dims)
-    return ArrayAnsatz(array, ansatz.batch_dims)
+        batch_dims -= 1
+        array = math.sum(array, axis=batch_dims)
+    return ArrayAnsatz(array, batch_dims)
 
 
 def to_bargmann(ansatz: Ansatz) -> PolyExpAnsatz:
-- 
2.43.0


From 494ee592227b1ffd8440a534bbe7f71a5a3a3c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:19 +0000
Subject: [PATCH 46/54] fix: batches of Fock components keep their batch shape
 in to_bargmann

---
 mrmustard/lab/circuit_components.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 870495b..a641aa1 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -678,6 +678,8 @@ class CircuitComponent:
             A, b, c = self.ansatz._original_abc_data
         else:
             A, b, _ = identity_Abc(len(self.wires.quantum))
+            A = math.broadcast_to(A, (*self.ansatz.batch_shape, *A.shape))
+            b = math.broadcast_to(b, (*self.ansatz.batch_shape, *b.shape))
             c = self.ansatz.data
         ansatz = PolyExpAnsatz(A, b, c)
         wires = self.wires.copy()
-- 
2.43.0


From 32ebfbf5a2e2164372f9102d0169ebb3b1724691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:01 +0000
Subject: [PATCH 47/54] fix: superpositions of kets can be traced over

---
 mrmustard/lab/circuit_components_utils/trace_out.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/circuit_components_utils/trace_out.py b/mrmustard/lab/circuit_components_utils/trace_out.py
index ab526e0..d57ad42 100644
--- a/mrmustard/lab/circuit_components_utils/trace_out.py
+++ b/mrmustard/lab/circuit_components_utils/trace_out.py
@@ -87,7 +87,7 @@ class TraceOut(CircuitComponent):
             ansatz = other.ansatz
             wires = other.wires
         elif not ket or not bra:
-            B = other.ansatz.batch_dims
+            B = other.ansatz.batch_dims - other.ansatz._lin_sup
             C = other.ansatz.core_dims
             batch = [chr(97 + i) for i in range(B)]
             wires = ket + bra
-- 
2.43.0


From 75c908dc30fe823e8ea774251d2cefb6ef695064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:01 +0000
Subject: [PATCH 48/54] fix: Fock distributions of superpositions

---
 mrmustard/lab/states/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrmustard/lab/states/base.py b/mrmustard/lab/states/base.py
index 50c476f..af957aa 100644
--- a/mrmustard/lab/states/base.py
+++ b/mrmustard/lab/states/base.py
@@ -453,6 +453,8 @@ class State(CircuitComponent):
             The Fock distribution.
         """
         batch_shape = self.ansatz.batch_shape
+        if self.ansatz._lin_sup:
+            batch_shape = batch_shape[:-1]
         fock_array = self.fock_array(cutoff)
         if not self.wires.ket or not self.wires.bra:
             return math.reshape(math.abs(fock_array) ** 2, (*batch_shape, -1))
-- 
2.43.0


From afb1f4423b09276a3929a4f966c4ff9e05ad4b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:28 +0000
Subject: [PATCH 49/54] fix: contraction of ansatze pairs the variables by
 their labels

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 846106d..be3da4b 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -377,9 +377,9 @@ class PolyExpAnsatz(Ansatz):
             )
 
         # --- Prepare for complex_gaussian_integral_2 ---  # TODO: finish fixing this
-        contracted_core = set(core1) & set(core2)
-        idx1_cv = sorted(core1.index(label) for label in contracted_core)
-        idx2_cv = sorted(core2.index(label) for label in contracted_core)
+        contracted_core = [label for label in core1 if label in core2]
+        idx1_cv = [core1.index(label) for label in contracted_core]
+        idx2_cv = [core2.index(label) for label in contracted_core]
 
         ls_labels = {f"__ls{i}" for i, ls in [(1, ls1), (2, ls2)] if ls}
         unique_batch_labels = set(batch1) | set(batch2) | ls_labels
-- 
2.43.0


From af4811cf805bb21abedf551d3e5eaef1c5eeeea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:44 +0000
Subject: [PATCH 50/54] fix: contraction of two batched superpositions keeps
 both batches and the derived variables

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index be3da4b..4bdf635 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -400,11 +400,11 @@ class PolyExpAnsatz(Ansatz):
 
         # --- Reorder core dimensions ---
         if self._lin_sup and other._lin_sup:
-            batch_shape = self.batch_shape[:-1]
+            batch_shape = A.shape[:-4]
             flattened = self.batch_shape[-1] * other.batch_shape[-1]
             A = math.reshape(A, (*batch_shape, flattened, *tuple(A.shape[-2:])))
             b = math.reshape(b, (*batch_shape, flattened, *tuple(b.shape[-1:])))
-            c = math.reshape(c, (*batch_shape, flattened, *self.shape_derived_vars))
+            c = math.reshape(c, (*batch_shape, flattened, *c.shape[len(batch_shape) + 2 :]))
 
         result = PolyExpAnsatz(A, b, c, lin_sup=self._lin_sup or other._lin_sup)
         leftover_core = [i for i in idx1 + idx2 if isinstance(i, int) and i not in contracted_core]
-- 
2.43.0


From efd27854288973b2db7247ef3a50abea10de8361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:47 +0000
Subject: [PATCH 51/54] fix: tensor product of superpositions with derived
 variables

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 4bdf635..48807e3 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -918,7 +918,8 @@ class PolyExpAnsatz(Ansatz):
         if self._lin_sup and other._lin_sup:  # we have two linear superposition dimensions
             As = math.reshape(As, (*As.shape[:-4], As.shape[-4] * As.shape[-3], *As.shape[-2:]))
             bs = math.reshape(bs, (*bs.shape[:-3], bs.shape[-3] * bs.shape[-2], *bs.shape[-1:]))
-            cs = math.reshape(cs, (*cs.shape[:-2], cs.shape[-2] * cs.shape[-1]))
+            n = len(As.shape) - 1  # the batch dimensions of cs, the last two of which are merged
+            cs = math.reshape(cs, (*As.shape[:-2], *cs.shape[n:]))
         return PolyExpAnsatz(As, bs, cs, lin_sup=self._lin_sup or other._lin_sup)
 
     def __call__(self: PolyExpAnsatz, *z_inputs: ArrayLike | None) -> Batch[ComplexTensor]:
-- 
2.43.0


From b119bd0d4494bb07e6ad4c4197b9db44e173172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:25 +0000
Subject: [PATCH 52/54] fix: give the damping of FockDamping an update rule, so
 that it can be trained

---
 mrmustard/lab/transformations/fockdamping.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mrmustard/lab/transformations/fockdamping.py b/mrmustard/lab/transformations/fockdamping.py
index b0aebf7..fade9bc 100644
--- a/mrmustard/lab/transformations/fockdamping.py
+++ b/mrmustard/lab/transformations/fockdamping.py
@@ -82,7 +82,6 @@ class FockDamping(Operation):
                 damping,
                 "damping",
                 damping_bounds,
-                None,
                 dtype=math.float64,
             ),
         )
-- 
2.43.0


From 4a2da57b5b1129fd936fbce9b3e09f38d8b05f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:18 +0000
Subject: [PATCH 53/54] fix: drawings of circuits name the modes in the order
 of their lines

The modes were enumerated in the order of a set, so that circuits on modes
such as 3, 7, 20 were drawn with the labels of two lines exchanged.
---
 mrmustard/lab/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/circuits.py b/mrmustard/lab/circuits.py
index 70c7fa3..22cf6bc 100644
--- a/mrmustard/lab/circuits.py
+++ b/mrmustard/lab/circuits.py
@@ -467,7 +467,7 @@ class Circuit:
         n_chunks = len(drawing_dict[0])
 
         # every chunk starts with a recap of the modes
-        chunk_start = [f"mode {mode}:   " for mode in modes]
+        chunk_start = [f"mode {mode}:   " for mode in sorted(modes)]
         chunk_start = [s.rjust(max(len(s) for s in chunk_start), " ") for s in chunk_start]
 
         # generate the drawing
-- 
2.43.0


From d7a76d2556f319a1e41a10d49d9498e0a4d4cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:25 +0000
Subject: [PATCH 54/54] fix: compile the batched recurrence once, not once for
 each traced shape

---
 mrmustard/math/jax_vjps/hermite.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mrmustard/math/jax_vjps/hermite.py b/mrmustard/math/jax_vjps/hermite.py
index cdd094c..0de300b 100644
--- a/mrmustard/math/jax_vjps/hermite.py
+++ b/mrmustard/math/jax_vjps/hermite.py
@@ -44,6 +44,10 @@ __all__ = [
 # ~~~~~~~~~~~~~~~~~~~~
 
 
+# we cannot parallelize vanilla_batch_numba
+_vanilla_batch_numba = njit(strategies.vanilla_batch_numba.py_func, cache=True)
+
+
 @partial(jax.custom_vjp, nondiff_argnums=(3, 4))
 @partial(jax.jit, static_argnums=(3, 4))
 def hermite_renormalized_jax(
@@ -124,10 +128,8 @@ def hermite_renormalized_batched_jax(
     """
     batch_size = A.shape[0]
     output_shape = (batch_size, *shape)
-    # we cannot parallelize vanilla_batch_numba
-    vanilla_batch_numba = njit(strategies.vanilla_batch_numba.py_func, cache=True)
     return jax.pure_callback(
-        lambda A, b, c: vanilla_batch_numba(
+        lambda A, b, c: _vanilla_batch_numba(
             shape,
             np.asarray(A),
             np.asarray(b),
-- 
2.43.0

