From b1692aa39401b4dd2eefe9521f4c4e70c60f7e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:41 +0000
Subject: [PATCH 01/21] fix: orient shared face nodes by the stored facet's
 vertex order when refining

The orientation key was the inverse permutation, so faces shared between
hexahedra whose local axes differ by a quarter turn got mismatched interior
nodes (order >= 3).
---
 swirl_fem/core/mesh_refiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swirl_fem/core/mesh_refiner.py b/swirl_fem/core/mesh_refiner.py
index 4b16a46..3a558ec 100644
--- a/swirl_fem/core/mesh_refiner.py
+++ b/swirl_fem/core/mesh_refiner.py
@@ -212,7 +212,7 @@ class _MeshRefiner:
         else:  # Existing facet.
           facet_orientation, target_nodes = facet_value
           orientation_key = tuple(
-              facet.index(k) for k in facet_orientation)
+              facet_orientation.index(k) for k in facet)
           facet_perms.append(
               self._dim_to_orderings_mapping[facet_dim][orientation_key])
           target_facets.append(target_nodes)
-- 
2.43.0


From 6243dea6a79194d6db0c4a1d8fb19f766d35a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 02/21] fix: keep the data when the crystal router runs on a
 single device

With one device no stage runs, max_size stayed 0 and every output was
truncated to length zero although n was reported unchanged.
---
 swirl_fem/communication/crystal_router.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/communication/crystal_router.py b/swirl_fem/communication/crystal_router.py
index e4f8ad1..54a7f2a 100644
--- a/swirl_fem/communication/crystal_router.py
+++ b/swirl_fem/communication/crystal_router.py
@@ -367,7 +367,8 @@ def _crystal_router_loop(
                     lambda: (crystal_data.resize(buffer_size), max_size, i),
                     lambda: loop(next_data, max_size, i + 1, n, base_lo))
 
-  max_size = jnp.zeros((), dtype=crystal_data.n.dtype)
+  # With a single device there are no stages, so start from the current length.
+  max_size = lax.pmax(crystal_data.n, axis_name=axis_name)
   return loop(crystal_data, max_size, 0, n, base_lo)
 
 
-- 
2.43.0


From 58027a318488726862302cb18b9913622d4ba54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 03/21] fix: let the crystal router exchange leaves with
 trailing dimensions

The documented contract only requires leaves to share their leading length,
but concatenation passed a single start index for arrays of any rank.
---
 swirl_fem/communication/crystal_router.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swirl_fem/communication/crystal_router.py b/swirl_fem/communication/crystal_router.py
index 54a7f2a..b1df846 100644
--- a/swirl_fem/communication/crystal_router.py
+++ b/swirl_fem/communication/crystal_router.py
@@ -170,7 +170,7 @@ class CrystalData(struct.PyTreeNode):
     """
     return CrystalData(
         data=[
-            lax.dynamic_update_slice(a, b, start_indices=(self.n,))
+            lax.dynamic_update_slice_in_dim(a, b, self.n, axis=0)
             for (a, b) in zip(self.data, other.data)
         ],
         n=self.n + other.n,
-- 
2.43.0


From 4fef364b38a572104a164f44a4fa5c43a910c0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 04/21] fix: use infinities as units of floating point maximum
 and minimum scans

finfo.min/finfo.max are not units of max/min when inputs are infinite, so the
exclusive prefix scan of such inputs was wrong.
---
 swirl_fem/communication/pscan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/communication/pscan.py b/swirl_fem/communication/pscan.py
index d2902e8..e06e9fc 100644
--- a/swirl_fem/communication/pscan.py
+++ b/swirl_fem/communication/pscan.py
@@ -33,7 +33,8 @@ def _dtype_range(dtype: jnp.dtype):
   if issubclass(dtype.type, numbers.Integral):
     info = jnp.iinfo(dtype)
   else:
-    info = jnp.finfo(dtype)
+    # infinities rather than finfo limits, which are no unit for infinite input
+    return (-np.inf, np.inf)
 
   return (info.min, info.max)
 
-- 
2.43.0


From afdad647f8f179d50f20dafa6c7ba2579bf27282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 05/21] fix: accept static arguments in any position in
 jit_distributed

Arguments following a static positional argument, and keyword-only arguments
that are not static, were passed to shard_map by keyword, which it rejects.
---
 swirl_fem/communication/jit_distributed.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/communication/jit_distributed.py b/swirl_fem/communication/jit_distributed.py
index a87314c..b76cd08 100644
--- a/swirl_fem/communication/jit_distributed.py
+++ b/swirl_fem/communication/jit_distributed.py
@@ -84,8 +84,14 @@ def jit_distributed(
     nonsharded = bind(nonsharded_args, *args, **kwargs)
     sharded = bind(sharded_args, *args, **kwargs)
     if sharded.args or sharded.kwargs:
-      g = functools.partial(f, *nonsharded.args, **nonsharded.kwargs)
-      return shmap(jax.vmap(g, in_axes=0))(*sharded.args, **sharded.kwargs)
+      # rebind the full signature, as static arguments may come in any position
+      def g(sharded_arguments):
+        bound = sig.bind_partial()
+        bound.arguments = {
+            name: {**nonsharded.arguments, **sharded_arguments}[name]
+            for name in sig.parameters}
+        return f(*bound.args, **bound.kwargs)
+      return shmap(jax.vmap(g, in_axes=0))(sharded.arguments)
     else:
       # vmap requires at least one input. Use a (local) array of length 1,
       # which should be eliminated by DCE during compilation.
-- 
2.43.0


From 511152e017ea477648f39754619db6c0c9d58ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 06/21] fix: return the partition ids of a partitioned premesh
 as a numpy array

pymetis returns a list or array.array, which Premesh.finalize cannot group.
---
 swirl_fem/common/mesh_partitioner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swirl_fem/common/mesh_partitioner.py b/swirl_fem/common/mesh_partitioner.py
index 15838c2..e11db66 100644
--- a/swirl_fem/common/mesh_partitioner.py
+++ b/swirl_fem/common/mesh_partitioner.py
@@ -15,6 +15,7 @@
 """Partitions a mesh using metis for distributed computations."""
 
 import networkx as nx
+import numpy as np
 import pymetis
 from swirl_fem.core.premesh import Premesh
 
@@ -50,4 +51,5 @@ def partition(premesh: Premesh, num_partitions: int) -> Premesh:
   # Partition the graph into `num_partitions` parts
   _, partitions = pymetis.part_graph(num_partitions, adjacency=adjlist)
 
+  partitions = np.array(partitions, dtype=np.int32)
   return premesh.replace(partitions=partitions)  # pyrefly: ignore[missing-attribute]
-- 
2.43.0


From b2e2fe9943138d187a0fca3f68daf61ed4c40709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 07/21] fix: keep node coordinates of periodic images in
 partitioned meshes

The coordinates were looked up after periodic images had been merged, which
moved the image nodes onto their representative and collapsed elements.
---
 swirl_fem/core/premesh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/premesh.py b/swirl_fem/core/premesh.py
index f3b8810..82f4a82 100644
--- a/swirl_fem/core/premesh.py
+++ b/swirl_fem/core/premesh.py
@@ -191,6 +191,9 @@ class Premesh:
     node_indices, local_elements = (
         gather_scatter.get_local_elements(elements))
 
+    # The coordinates are those of the nodes before periodic images are merged.
+    node_coords = self.node_coords[node_indices]
+
     # Use periodic links to dedup the node indices
     node_indices = gather_scatter.get_unique_node_indices(
         node_indices, periodic_links=self.periodic_links)
@@ -214,7 +217,7 @@ class Premesh:
 
     # create and place the resulting `Mesh` on the available devices
     return jax.pmap(create_fn)(
-        node_coords=self.node_coords[node_indices],
+        node_coords=node_coords,
         elements=local_elements,
         node_indices=node_indices,
         physical_masks=physical_masks,
-- 
2.43.0


From b6e14f0ee4f606e67001aaa72fdda43d6588b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 08/21] fix: mask physical groups that lie on the image side of
 a periodic link

Facet nodes were compared with merged node indices without being merged
themselves, so a group (or a corner of it) on the image side lost its mask.
---
 swirl_fem/core/premesh.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/core/premesh.py b/swirl_fem/core/premesh.py
index 82f4a82..1fb3686 100644
--- a/swirl_fem/core/premesh.py
+++ b/swirl_fem/core/premesh.py
@@ -28,8 +28,14 @@ from swirl_fem.core.interpolation import NodeType
 from swirl_fem.core.mesh import Mesh
 
 
-def _mask(facets, node_indices: np.ndarray) -> np.ndarray:
+def _mask(
+    facets,
+    node_indices: np.ndarray,
+    periodic_links: np.ndarray | None = None,
+) -> np.ndarray:
   """Returns a boolean mask of which `node_indices` are contained in facets."""
+  # `node_indices` are deduped, so the nodes of the facets need to be as well.
+  facets = gather_scatter.get_unique_node_indices(facets, periodic_links)
   indices = np.array(list(set(facets.flatten().tolist())), dtype=np.int32)
   return np.isin(node_indices, indices)
 
@@ -154,7 +160,8 @@ class Premesh:
           node_indices=np.arange(self.num_nodes, dtype=np.int32),
           periodic_links=self.periodic_links)
       physical_masks = tree_map(
-          partial(_mask, node_indices=node_indices), self.physical_groups)
+          partial(_mask, node_indices=node_indices,
+                  periodic_links=self.periodic_links), self.physical_groups)
       exchange_gather_indices, exchange_unique_indices = (
           gather_scatter.get_exchange_indices(node_indices))
       return Mesh.create(
@@ -206,7 +213,8 @@ class Premesh:
     # Create boolean masks over the node indices for the specified physical
     # groups.
     physical_masks = tree_map(
-        partial(_mask, node_indices=node_indices), self.physical_groups)
+        partial(_mask, node_indices=node_indices,
+                periodic_links=self.periodic_links), self.physical_groups)
 
     # bind the static arrays which are not pmapped when placing on devices
     create_fn = partial(
-- 
2.43.0


From 2c455bc56962d13b3338adab8f839fa45efe4c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 09/21] fix: read the periodic links of multiply periodic and
 3D gmsh meshes

Merging the node pairs of all periodic entities sent corner and edge nodes to
the wrong image, and quadrilateral facets were not in lexicographic order, so
refining such meshes failed.
---
 swirl_fem/common/mesh_reader.py | 38 ++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/swirl_fem/common/mesh_reader.py b/swirl_fem/common/mesh_reader.py
index 3d48426..8ee94ab 100644
--- a/swirl_fem/common/mesh_reader.py
+++ b/swirl_fem/common/mesh_reader.py
@@ -44,7 +44,7 @@ _NODE_ORDERING_PERMUTATIONS = {
 }
 
 
-def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
+def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray | None:
   """Obtains periodic links from the meshio Mesh.
 
   Args:
@@ -53,26 +53,34 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
 
   Returns:
     An array with a list of pairs of facets which share a periodic connection.
-    See documentation of `Premesh` for the detailed specification.
+    See documentation of `Premesh` for the detailed specification. None if
+    there are no periodic facets.
   """
-  # Create the mapping from source nodes to target nodes for every periodic
-  # connection in the mesh among entities of dimension `ndim - 1`.
-  src_tgt_mapping = dict()
+  facet_elem_type = {1: 'vertex', 2: 'line', 3: 'quad'}[ndim]
+  # 1D periodic links are not supported.
+  if ndim == 1 or facet_elem_type not in mesh.cells_dict:
+    return None
+  # reorder nodes in each facet to follow the lexicographic ordering
+  facets = mesh.cells_dict[facet_elem_type][
+      :, _NODE_ORDERING_PERMUTATIONS[ndim - 1]]
+
+  # Iterate through every periodic connection in the mesh among entities of
+  # dimension `ndim - 1`. A node on several periodic entities has a different
+  # target for each, so the mappings must be kept apart.
+  periodic_links = []
   for entity_dim, _, _, node_pairs in mesh.gmsh_periodic:  # pyrefly: ignore[not-iterable]
     if entity_dim != ndim - 1:
       continue
-    src_tgt_mapping.update(dict(node_pairs.tolist()))
+    src_tgt_mapping = dict(node_pairs.tolist())
 
-  # For each `ndim - 1`-dimensional facet in the mesh, check if it is a periodic
-  # facet. If so, save it as a periodic link.
-  facet_elem_type = {1: 'line', 2: 'quad'}[ndim - 1]
-  periodic_links = []
-  for facet_elem in mesh.cells_dict[facet_elem_type]:
-    if all(x in src_tgt_mapping for x in facet_elem):
-      target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
-      periodic_links.append(np.stack([facet_elem, target_elem]))
+    # For each `ndim - 1`-dimensional facet in the mesh, check if it is a
+    # periodic facet. If so, save it as a periodic link.
+    for facet_elem in facets:
+      if all(x in src_tgt_mapping for x in facet_elem):
+        target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
+        periodic_links.append(np.stack([facet_elem, target_elem]))
 
-  return np.stack(periodic_links, dtype=np.int32)
+  return np.stack(periodic_links, dtype=np.int32) if periodic_links else None
 
 
 def read(path: epath.PathLike, ndim: int) -> Premesh:
-- 
2.43.0


From 246af51eebf9fb90ca05596f767e21892c3ffb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 10/21] fix: keep integrals finite on unevenly partitioned
 meshes

The zero jacobian of padding elements was inverted, so any integrand with a
gradient was NaN there and so was the whole integral.
---
 swirl_fem/core/fespace.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/fespace.py b/swirl_fem/core/fespace.py
index 3355aa2..14092c9 100644
--- a/swirl_fem/core/fespace.py
+++ b/swirl_fem/core/fespace.py
@@ -23,6 +23,7 @@ from jax import vmap
 import jax.numpy as jnp
 from jax.custom_batching import custom_vmap
 
+from swirl_fem.core.gather_scatter import SENTINEL
 from swirl_fem.core.interpolation import BarycentricInterpolator
 from swirl_fem.core.interpolation import Quadrature1D
 from swirl_fem.core.mesh import Mesh
@@ -339,10 +340,16 @@ class FiniteElementSpace:
                       interpolator.interpolation_matrix_grad(),
                       precision=lax.Precision.HIGHEST)
 
+    # Padding elements (in unevenly partitioned meshes) have vanishing jacobians
+    # which can't be inverted. Their zero determinant drops them from integrals
+    # as long as the integrand is finite, so invert the identity instead.
+    is_padding = (mesh.elements[:, 0] == SENTINEL)[:, None, None, None]
+    safe_jacs = jnp.where(is_padding, jnp.eye(mesh.ndim, dtype=jacs.dtype), jacs)
+
     # Next, for each element and each quadrature point within an element,
     # compute the `d x d` matrix inverse and its determinant. We vmap first over
     # the elements, and second over the quadrature nodes.
-    invjacs = vmap(vmap(jnp.linalg.inv))(jacs)
+    invjacs = vmap(vmap(jnp.linalg.inv))(safe_jacs)
     jacdets = vmap(vmap(jnp.linalg.det))(jacs)
     return cls(mesh=mesh, quadrature=quadrature, interpolator=interpolator,
                invjacs=invjacs, jacdets=jacdets, quad_coords=quad_coords)
-- 
2.43.0


From 1268644ee9a90f37ae4cbb9455022811dd336632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 11/21] fix: use jax.tree.map, as jax.tree_map was removed from
 jax

---
 swirl_fem/niles/input_pipeline.py | 2 +-
 swirl_fem/niles/train.py          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/swirl_fem/niles/input_pipeline.py b/swirl_fem/niles/input_pipeline.py
index 347ae66..10d140b 100644
--- a/swirl_fem/niles/input_pipeline.py
+++ b/swirl_fem/niles/input_pipeline.py
@@ -85,7 +85,7 @@ def _read_and_parse(
       windows.append(arr[i:i + window_size:window_step])
     return np.stack(windows)
 
-  return jax.tree_map(_windowed, snapshots)  # pytype: disable=module-attr
+  return jax.tree.map(_windowed, snapshots)
 
 
 def create_split(
diff --git a/swirl_fem/niles/train.py b/swirl_fem/niles/train.py
index 3de5126..d516f61 100644
--- a/swirl_fem/niles/train.py
+++ b/swirl_fem/niles/train.py
@@ -294,7 +294,7 @@ def compute_mse_loss(batch, params, model_apply_fn: Callable[..., Any],
   aux = carry[-1]
   kl_path = aux['kl_path']
   kl_q0 = aux['kl_q0']
-  logging.info('aux: %s', jax.tree_map(jnp.shape, aux))  # pytype: disable=module-attr
+  logging.info('aux: %s', jax.tree.map(jnp.shape, aux))
   preds = jnp.moveaxis(preds, source=0, destination=1)
   logging.info('preds.shape: %s', preds.shape)
 
@@ -345,7 +345,7 @@ def compute_mse_loss(batch, params, model_apply_fn: Callable[..., Any],
       'z1_stds': jnp.abs(aux['z1_stds']).mean(axis=0),
       'tke_err': tke_error.mean(axis=0),
   }
-  logging.info('aux: %s', jax.tree_map(jnp.shape, aux))  # pytype: disable=module-attr
+  logging.info('aux: %s', jax.tree.map(jnp.shape, aux))
   return loss, aux
 
 
@@ -370,7 +370,7 @@ def compute_metrics(loss, aux, train: bool):
     metrics['mse@64'] = aux['mse'][64 - 1]
     metrics['mse@128'] = aux['mse'][128 - 1]
 
-  logging.info('metrics: %s', jax.tree_map(jnp.shape, metrics))  # pytype: disable=module-attr
+  logging.info('metrics: %s', jax.tree.map(jnp.shape, metrics))
   metrics = lax.pmean(metrics, axis_name='batch')
   return metrics
 
-- 
2.43.0


From 401fa6a98d7cd7c3d42131d392c3068025e4b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 12/21] fix: close over the simulation setup when jitting a
 datagen step

---
 swirl_fem/niles/datagen/datagen.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/swirl_fem/niles/datagen/datagen.py b/swirl_fem/niles/datagen/datagen.py
index ac1f5f8..f9b2b1d 100644
--- a/swirl_fem/niles/datagen/datagen.py
+++ b/swirl_fem/niles/datagen/datagen.py
@@ -14,6 +14,7 @@
 
 """Binary for generating a Kolmogorov flow dataset."""
 
+import functools
 import io
 import os
 import time
@@ -87,7 +88,6 @@ def compute_dx(mesh):
   return dx
 
 
-@jax.jit
 def _solve_one_step(sem, us, ps, Cus):
   """Solve one step of the Navier-Stokes system."""
   # Extrapolate advection term
@@ -97,8 +97,8 @@ def _solve_one_step(sem, us, ps, Cus):
   # Solve the stokes system with extrapolated advection term
   f = jax.vmap(forcing)(sem.velocity.mesh.node_coords, us[-1])
   f = -Cu + sem.B(f)
-  u, p = sem.stokes_one_step(us, ps, f, mu=1 / REYNOLDS_NUMBER, dt=DT,
-                             time_order=TIME_ORDER, tol=1e-5, atol=1e-4)
+  u, p, _ = sem.stokes_one_step(us, ps, f, mu=1 / REYNOLDS_NUMBER, dt=DT,
+                                time_order=TIME_ORDER, tol=1e-5, atol=1e-4)
   return u, p, sem.C(u)
 
 
@@ -130,11 +130,14 @@ def one_cycle(sem: navier_stokes.StokesSEM,
       'p': list(ps[-1:]),
   }
 
+  # The simulation setup is not a pytree, so it is closed over.
+  solve_one_step = jax.jit(functools.partial(_solve_one_step, sem))
+
   start_time = time.time()
   Cus = tuple(map(sem.C, us))
   for step_idx in range(1, num_steps + 1):
     t += DT
-    u, p, Cu = _solve_one_step(sem, us, ps, Cus)
+    u, p, Cu = solve_one_step(us, ps, Cus)
     us = us[1:] + (u,)
     ps = ps[1:] + (p,)
     Cus = Cus[1:] + (Cu,)
-- 
2.43.0


From 051a2ff811cd3cfc23e6607e3fe1c582d38d7afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 13/21] fix: refine 3D meshes to a single Gauss-Legendre point
 per element

---
 swirl_fem/core/mesh_refiner.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/core/mesh_refiner.py b/swirl_fem/core/mesh_refiner.py
index 3a558ec..fe6eb1e 100644
--- a/swirl_fem/core/mesh_refiner.py
+++ b/swirl_fem/core/mesh_refiner.py
@@ -110,9 +110,11 @@ class _MeshRefiner:
     # of the refinement order.
     self._dim_to_orderings_mapping: MutableMapping[
         int, MutableMapping[tuple[int, ...], list[int]]] = {}
-    for k in range(1, premesh.ndim):
-      self._dim_to_orderings_mapping[k] = facet_util.get_orderings_mapping(
-          ndim=k, num_points_1d=self.gridpoints_1d.num_points - 2)
+    # Discontinuous gridpoints have no shared facet nodes to be reordered.
+    if self.gridpoints_1d.is_continuous():
+      for k in range(1, premesh.ndim):
+        self._dim_to_orderings_mapping[k] = facet_util.get_orderings_mapping(
+            ndim=k, num_points_1d=self.gridpoints_1d.num_points - 2)
 
   def _num_target_points(self):
     return self.gridpoints_1d.num_points
-- 
2.43.0


From ffff2c20962e296853b2c1985f05920d9992fb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 14/21] fix: take the geometry of the pressure space from the
 first order mesh

---
 swirl_fem/navier_stokes/navier_stokes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 8553fd7..3a7c053 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -20,6 +20,7 @@
 """
 
 from collections.abc import Sequence
+import dataclasses
 import enum
 from functools import partial
 from typing import Any
@@ -118,6 +119,13 @@ class StokesPressure:
         num_points=order - 1, node_type=NodeType.GAUSS_LEGENDRE)
     pmesh = refine_premesh(premesh, gridpoints_1d=gridpoints_1d).finalize()
     pspace = FiniteElementSpace.create(mesh=pmesh, quadrature=quadrature)
+    # The pressure nodes need not determine the geometry of the elements (there
+    # is just one per element for order 2), so take it from the first order mesh.
+    gspace = FiniteElementSpace.create(
+        mesh=premesh.finalize(), quadrature=quadrature)
+    pspace = dataclasses.replace(
+        pspace, invjacs=gspace.invjacs, jacdets=gspace.jacdets,
+        quad_coords=gspace.quad_coords)
     return cls(pspace=pspace)
 
   def gather(self, p: jax.Array) -> jax.Array:
-- 
2.43.0


From 923e0db23c6b15481396f32debef131ca641bcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 15/21] fix: exchange indices are traced so jitted functions
 accept several meshes

The unique exchange indices were a numpy array among the static metadata of
the Mesh pytree. Calling a jitted function with a second mesh compares the
metadata, which raised as arrays have no truth value.
---
 swirl_fem/core/gather_scatter.py | 12 +++++-------
 swirl_fem/core/mesh.py           |  4 +---
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/swirl_fem/core/gather_scatter.py b/swirl_fem/core/gather_scatter.py
index 3da2f2e..c30c534 100644
--- a/swirl_fem/core/gather_scatter.py
+++ b/swirl_fem/core/gather_scatter.py
@@ -202,8 +202,8 @@ def exchange(
   values and the axis_name must be non-empty. The 'replicated-view' of `u` has
   shape `(num_partitions, num_local_nodes)` but inside the `pmap` we see the
   shape `(num_local_nodes,)`. Similarly, `gather_indices` is also partitioned
-  and pmapped across. Since `unique_indices` is same across all partitions,
-  it's a static value (numpy array) and not partitioned or pmapped across.
+  and pmapped across. In the partitioned case no `unique_indices` are
+  needed (see `get_exchange_indices`).
 
   Args:
     u: Array to be exchanged. Should have shape `(num_nodes,)`.
@@ -234,11 +234,9 @@ def exchange(
   # If unique indices are set, further consolidate into a smaller set of
   # indices.
   if unique_indices is not None:
-    # The computation is static since `unique_indices` is a numpy array, which
-    # means it's free for subsequent runs of jitted functions.
-    # TODO(anudhyan): Add `num_unique` to the ExchangeInfo struct as metadata
-    # to make this static computation more transparent.
-    num_unique_nodes = 1 + unique_indices.max()
+    # Each unique node is gathered at least once, so that the number of gathered
+    # nodes bounds the (possibly traced) unique indices.
+    num_unique_nodes = len(unique_indices)
     updates = jnp.zeros(num_unique_nodes).at[unique_indices].add(initial_values)
   else:
     updates = initial_values
diff --git a/swirl_fem/core/mesh.py b/swirl_fem/core/mesh.py
index 12ff780..7dd4c5e 100644
--- a/swirl_fem/core/mesh.py
+++ b/swirl_fem/core/mesh.py
@@ -82,9 +82,7 @@ class Mesh:
       default_factory=dict
   )
   exchange_gather_indices: jax.Array | None = None
-  exchange_unique_indices: np.ndarray | None = flax.struct.field(
-      pytree_node=False, default=None
-  )
+  exchange_unique_indices: jax.Array | None = None
   axis_name: str | None = flax.struct.field(pytree_node=False, default=None)
 
   @classmethod
-- 
2.43.0


From e72f4942333db1e6acc9a783d4856f12cfe1dd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 16/21] fix: sign of the vorticity

grad(u)(x)[i, j] is the derivative of component j in direction i (as used by
C_local), so the previous difference gave du/dy - dv/dx, the negative curl.
---
 swirl_fem/navier_stokes/navier_stokes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 3a7c053..1acc58b 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -495,7 +495,7 @@ class StokesSEM:
 
     def _vorticity(x: jax.Array):
       grad_ux = grad(u)(x)
-      return grad_ux[1, 0] - grad_ux[0, 1]
+      return grad_ux[0, 1] - grad_ux[1, 0]
 
     vort_local = self.velocity.vspace._evaluate(_vorticity)  # pylint: disable=protected-access
     vmesh = self.velocity.vspace.mesh
-- 
2.43.0


From e953d8ec431a2ed0a6bdbc6715039bcc598bb3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:53 +0000
Subject: [PATCH 17/21] fix: initializers of MlpBlock are fields

As plain class attributes the initializers and the activation were bound as methods and called with the module as key, so no model with attention blocks could be initialized.
---
 swirl_fem/niles/transformer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/niles/transformer.py b/swirl_fem/niles/transformer.py
index 9214ed2..0204e26 100644
--- a/swirl_fem/niles/transformer.py
+++ b/swirl_fem/niles/transformer.py
@@ -69,9 +69,9 @@ class MlpBlock(nn.Module):
   mlp_dim: int
   out_dim: int | None = None
   use_bias: bool = True
-  kernel_init = nn.initializers.xavier_uniform()
-  bias_init = nn.initializers.normal(stddev=1e-6)
-  activation_fn = nn.gelu
+  kernel_init: Any = nn.initializers.xavier_uniform()
+  bias_init: Any = nn.initializers.normal(stddev=1e-6)
+  activation_fn: Any = nn.gelu
   precision: jax.lax.Precision | None = None
   dtype: jnp.dtype = jnp.float32
 
-- 
2.43.0


From 4adc338bb2207346376ae08ee25ad1fba5e35911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:22 +0000
Subject: [PATCH 18/21] fix: reverse mode derivatives of flow steps with
 Dirichlet conditions

The solve for the intermediate velocity is its own transpose only for right hand sides that vanish at Dirichlet nodes. Cotangents do not, and the transposed solve diverged.
---
 swirl_fem/navier_stokes/navier_stokes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 1acc58b..51364c6 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -441,9 +441,14 @@ class StokesSEM:
     if u_boundary is not None:
       f = f - H_(u_boundary)
 
+    # H_ is singular at Dirichlet nodes. The right hand side vanishes there, but
+    # the cotangents this is applied to by reverse mode derivatives need not.
+    def solve_u(A, b):
+      return cg(A, self.velocity.interior_mask * b, M=self.velocity.exchange,
+                tol=tol, atol=atol)
+
     u_star, info = lax.custom_linear_solve(
-        H_, f, solve=partial(cg, M=self.velocity.exchange, tol=tol, atol=atol),
-        symmetric=True, has_aux=True)
+        H_, f, solve=solve_u, symmetric=True, has_aux=True)
     if u_boundary is not None:
       u_star = u_star + u_boundary
 
-- 
2.43.0


From 9a1a7be64b8073cc72e5a1fddb778ced6b2043e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 19/21] fix: reverse mode derivatives of the pressure of closed
 flows

The pressure solve is its own transpose only for right hand sides orthogonal to the nullspace. Cotangents are not, so their component along it is projected out the way the solution is.
---
 swirl_fem/navier_stokes/navier_stokes.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 51364c6..7f0248b 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -79,6 +79,12 @@ def _pressure_project_out_nullspace(sem, p):
       (jnp.vdot(q, sem.pressure.B(w)) / jnp.vdot(q, sem.pressure.B(q)))) * q
 
 
+def _pressure_make_compatible(sem, b):
+  """Make b orthogonal to the nullspace, transposing the projection above."""
+  w = sem.pressure.B(jnp.ones_like(b))
+  return b - (b.sum() / w.sum()) * w
+
+
 @enum.unique
 class BCType(enum.Enum):
   """Types of boundary conditions."""
@@ -424,8 +430,10 @@ class StokesSEM:
         * The pressure field at the next time step.
         * A dictionary of auxiliary information.
     """
+    pressure_rhs = lambda b: b
     if pressure_preconditioner is None and project_out_nullspace:
       pressure_preconditioner = partial(_pressure_project_out_nullspace, self)
+      pressure_rhs = partial(_pressure_make_compatible, self)
 
     # Extrapolate pressure linearly.
     ext_coeffs = extk_coeffs(k=1)
@@ -459,10 +467,15 @@ class StokesSEM:
     u_star = self.filter(u_star, alpha=alpha)
 
     # Obtain dp by solving DQDᵀ(dp) = -Du*.
+    # The right hand side is orthogonal to the nullspace, but the cotangents this
+    # is applied to by reverse mode derivatives need not be.
+    def solve_p(A, b):
+      return cg(A, pressure_rhs(b), M=pressure_preconditioner, tol=tol,
+                atol=atol)
+
     dp, info = lax.custom_linear_solve(
         partial(self.E, dt=dt, time_order=time_order), -self.D(u_star),
-        solve=partial(cg, M=pressure_preconditioner, tol=tol, atol=atol),
-        symmetric=True, has_aux=True)
+        solve=solve_p, symmetric=True, has_aux=True)
     aux['dp_info'] = info
 
     Q_ = partial(self.Q, dt=dt, time_order=time_order)
-- 
2.43.0


From 07bee1b3f5ab3d57d14f64a2a30c08c1f1b12d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 20/21] fix: give all copies of an exchanged node the same
 value

The update u + (sum - u) is inexact where the sum cancels, which left different
values at periodic copies and let CG stall at the square root of the roundoff.
---
 swirl_fem/core/gather_scatter.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/swirl_fem/core/gather_scatter.py b/swirl_fem/core/gather_scatter.py
index c30c534..e912dc6 100644
--- a/swirl_fem/core/gather_scatter.py
+++ b/swirl_fem/core/gather_scatter.py
@@ -249,14 +249,13 @@ def exchange(
   if unique_indices is not None:
     updates = updates[unique_indices]
 
-  # Add the updates back to the exchange indices.
-  # This is essentially `u.at[gather_indices].set(updates)`, but since
-  # `gather_indices` could contain sentinel values, use `add` instead; as
-  # otherwise the last index would get overwritten. Also, make sure the
-  # corresponding values being added are zero; for instance, `gather_indices[i]`
-  # has a sentinel if the current partition doesn't have the ith global dof.
-  # The mask zeros out these positions as `updates[i]` is generally not zero.
-  return u.at[gather_indices].add(mask * (updates - initial_values))
+  # Set the updates at the exchange indices, so that all copies of a node end up
+  # with the same value. As `gather_indices` has a sentinel if the current
+  # partition doesn't have the ith global dof, such updates go to an extra entry
+  # instead.
+  gather_indices = jnp.where(mask, gather_indices, len(u))
+  padded = jnp.append(u, jnp.zeros((1,), dtype=u.dtype))
+  return padded.at[gather_indices].set(updates)[:-1]
 
 
 def _get_periodic_mapping(periodic_links: np.ndarray | None) -> dict[int, int]:
-- 
2.43.0


From cd8ef87c7c5f3bd866074c7ad0b7886cad3cf8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:03 +0000
Subject: [PATCH 21/21] fix: finite derivative of the divergence rate where the
 noise vanishes

_divide_no_nan selected zero where the divisor vanishes but still divided by it,
so that the derivative with respect to the divisor was NaN.
---
 swirl_fem/niles/transformer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/niles/transformer.py b/swirl_fem/niles/transformer.py
index 0204e26..a77682e 100644
--- a/swirl_fem/niles/transformer.py
+++ b/swirl_fem/niles/transformer.py
@@ -570,7 +570,11 @@ class Model(nn.Module):
 
 def _divide_no_nan(x, y):
   is_zero = jnp.isclose(y, jnp.zeros_like(y))
-  return jnp.where(is_zero, jnp.zeros_like(x), x / y)
+  # The divisor is replaced as well, so that the derivative of the branch which is
+  # not selected remains finite.
+  return jnp.where(
+      is_zero, jnp.zeros_like(x), x / jnp.where(is_zero, jnp.ones_like(y), y)
+  )
 
 
 class MLP(nn.Module):
-- 
2.43.0

