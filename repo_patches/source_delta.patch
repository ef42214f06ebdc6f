From 58201115e2f69ce3b7063c21cfe8bbbbbeb4f040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 01/41] fix: normalize_points no longer modifies its input
 array

---
 src/gpytoolbox/normalize_points.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gpytoolbox/normalize_points.py b/src/gpytoolbox/normalize_points.py
index 367c8bf..f59d53b 100644
--- a/src/gpytoolbox/normalize_points.py
+++ b/src/gpytoolbox/normalize_points.py
@@ -32,6 +32,9 @@ def normalize_points(v,center=None):
     dim = v.shape[1]
     
 
+    # Never modify the caller's array
+    v = v.copy()
+
     # First, move it to the first quadrant:
     for dd in range(dim):
         v[:,dd] = v[:,dd] - np.amin(v[:,dd])
-- 
2.43.0


From 7b142aa875ac5f0c456fdbc8ae60d872af0db63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 02/41] fix: read_mesh/write_mesh accept an explicitly given
 fmt

---
 src/gpytoolbox/read_mesh.py  | 3 ++-
 src/gpytoolbox/write_mesh.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/read_mesh.py b/src/gpytoolbox/read_mesh.py
index a2a1757..dc4bcae 100644
--- a/src/gpytoolbox/read_mesh.py
+++ b/src/gpytoolbox/read_mesh.py
@@ -82,7 +82,8 @@ def read_mesh(file,
     # Detect format if it has not been specified
     if fmt is None:
         _, fmt = os.path.splitext(file)
-    fmt = fmt[1:].lower()
+        fmt = fmt[1:]
+    fmt = fmt.lower()
 
     # Call appropriate helper function to read mesh
     if fmt=='obj':
diff --git a/src/gpytoolbox/write_mesh.py b/src/gpytoolbox/write_mesh.py
index a9c8624..53d9e16 100644
--- a/src/gpytoolbox/write_mesh.py
+++ b/src/gpytoolbox/write_mesh.py
@@ -69,7 +69,8 @@ def write_mesh(file,
     # Detect format if it has not been specified
     if fmt is None:
         _, fmt = os.path.splitext(file)
-    fmt = fmt[1:].lower()
+        fmt = fmt[1:]
+    fmt = fmt.lower()
 
     # Call appropriate helper function to read mesh
     if fmt=='obj':
-- 
2.43.0


From 2f8b38e92c3e0d7d60a14f0e45f3bcf5a71f2994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 03/41] fix: reach_for_the_spheres_iteration can sample U
 itself, from the state's generator

---
 src/gpytoolbox/reach_for_the_spheres.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/reach_for_the_spheres.py b/src/gpytoolbox/reach_for_the_spheres.py
index f866d58..160ada3 100644
--- a/src/gpytoolbox/reach_for_the_spheres.py
+++ b/src/gpytoolbox/reach_for_the_spheres.py
@@ -544,9 +544,11 @@ def reach_for_the_spheres_iteration(state,
 
     if state.h is None:
         state.h = default_params[dim]['h']
+    if state.rng is None:
+        state.rng = np.random.default_rng(68)
     if state.U is None:
         assert state.sdf is not None, "If you do not provide U, you must provide an sdf function to sample."
-        state.U = _sample_sdf(state.sdf, state.V, state.F)
+        state.U = _sample_sdf(state.sdf, state.V, state.F, rng=state.rng)
     if state.S is None:
         assert state.sdf is not None, "If you do not provide S, you must provide an sdf function to sample."
         state.S = state.sdf(state.U)
@@ -561,8 +563,6 @@ def reach_for_the_spheres_iteration(state,
     nu_0 = state.U.shape[0]
     nu_max = 2*nu_0
 
-    if state.rng is None:
-        state.rng = np.random.default_rng(68)
     if state.its is None:
         state.its = 0
     if state.best_performance is None:
@@ -1007,7 +1007,7 @@ def _sample_sdf(sdf,
 
     dim = V.shape[1]
     assert dim==F.shape[1]
-    assert remove_samples or max_n>=U0.shape[0], "Either allow removal or start with not too many samples."
+    assert remove_samples or U0 is None or max_n>=U0.shape[0], "Either allow removal or start with not too many samples."
 
     if U0 is None:
         #Randomly sample twice as many points as initial mesh vertices.
-- 
2.43.0


From a16d285fb59e6ea8be4e66d694b592458663dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 04/41] fix: traverse_aabbtree default breadth-first queueing
 called itself

---
 src/gpytoolbox/traverse_aabbtree.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gpytoolbox/traverse_aabbtree.py b/src/gpytoolbox/traverse_aabbtree.py
index 050f65b..8e9ca2d 100644
--- a/src/gpytoolbox/traverse_aabbtree.py
+++ b/src/gpytoolbox/traverse_aabbtree.py
@@ -94,8 +94,7 @@ def traverse_aabbtree(C,W,CH,tri_indices,split_dim,traversal_bool_fun,add_to_que
         # By default breadth first
         def add_to_queue(curr_queue,CHH,parent_ind):
             for i in range(CHH.shape[1]):
-                    add_to_queue(curr_queue,CHH[parent_ind,i])
-            # curr_queue.append(new_ind)
+                    curr_queue.append(CHH[parent_ind,i])
 
 
     queue = [0]
-- 
2.43.0


From b54a0e7c4f1157fdd635da639fbdb1f216377801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 05/41] fix: mesh_boolean reports an unknown boolean_type

---
 src/gpytoolbox/copyleft/mesh_boolean.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gpytoolbox/copyleft/mesh_boolean.py b/src/gpytoolbox/copyleft/mesh_boolean.py
index 1da8496..8737480 100644
--- a/src/gpytoolbox/copyleft/mesh_boolean.py
+++ b/src/gpytoolbox/copyleft/mesh_boolean.py
@@ -63,6 +63,8 @@ def mesh_boolean(V1,F1,V2,F2,boolean_type='union'):
         v, f = _mesh_intersection_cpp_impl(V1.astype(np.float64),F1.astype(np.int32),V2.astype(np.float64),F2.astype(np.int32))
     elif btype==2:
         v, f = _mesh_difference_cpp_impl(V1.astype(np.float64),F1.astype(np.int32),V2.astype(np.float64),F2.astype(np.int32))
+    else:
+        raise ValueError("boolean_type must be 'union', 'intersection' or 'difference'.")
 
     
     return v,f
-- 
2.43.0


From 5b5f2cbced81d28f001d98edabf1d6d4c10bd0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 06/41] fix: regular_cube_mesh reports an unknown mesh type

---
 src/gpytoolbox/regular_cube_mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gpytoolbox/regular_cube_mesh.py b/src/gpytoolbox/regular_cube_mesh.py
index a9cf29d..01d9e71 100644
--- a/src/gpytoolbox/regular_cube_mesh.py
+++ b/src/gpytoolbox/regular_cube_mesh.py
@@ -99,4 +99,6 @@ def regular_cube_mesh(nx,
         T = np.vstack((t1,t2,t3,t4,t5,t6))
     elif mesh_type==3: # hex mesh (polyscope's ordering convention)
         T = np.hstack((v1,v2,v4,v3,v5,v6,v8,v7))
+    else:
+        raise ValueError("Unknown mesh type.")
     return V,T
-- 
2.43.0


From b67a366b90c254638ddc95b26fb255a180db0caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 07/41] fix: linear_elasticity_stiffness raises instead of
 printing for 3D input

---
 src/gpytoolbox/linear_elasticity_stiffness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/linear_elasticity_stiffness.py b/src/gpytoolbox/linear_elasticity_stiffness.py
index 6b34546..5df4c3e 100644
--- a/src/gpytoolbox/linear_elasticity_stiffness.py
+++ b/src/gpytoolbox/linear_elasticity_stiffness.py
@@ -85,7 +85,7 @@ def linear_elasticity_stiffness(V,F,K=1.75,mu=0.0115,volumes=None,mass=None):
         
         M = block_diag((M,M))
     if dim==3:
-        print("DIMENSION 3 NOT SUPPORTED YET")
+        raise ValueError("Only 2D meshes are supported.")
 
     Z = csr_matrix((V.shape[0],F.shape[0]))
     D = strain.transpose()
-- 
2.43.0


From a58ffaa56a669a7f7682f299d2b870680ea18e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 08/41] fix: linear_elasticity_stiffness keeps all vertices
 when n > 2m

---
 src/gpytoolbox/linear_elasticity_stiffness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/linear_elasticity_stiffness.py b/src/gpytoolbox/linear_elasticity_stiffness.py
index 5df4c3e..e8536fd 100644
--- a/src/gpytoolbox/linear_elasticity_stiffness.py
+++ b/src/gpytoolbox/linear_elasticity_stiffness.py
@@ -65,7 +65,7 @@ def linear_elasticity_stiffness(V,F,K=1.75,mu=0.0115,volumes=None,mass=None):
 
     if dim==2:
         G = grad(np.concatenate((V, np.zeros((V.shape[0],1))), axis=1),F)
-        G = G[0:(2*F.shape[0]),0:(2*F.shape[0])]
+        G = G[0:(2*F.shape[0]),:]
         G0 = G[0:F.shape[0],:]
         G1 = G[F.shape[0]:(2*F.shape[0])]
         strain0 = hstack((G0, Z))
-- 
2.43.0


From 70a233013e1f377719fb91f04d4003d03aca6d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 09/41] fix: importing gpytoolbox no longer requires the C++
 dual contouring binding

---
 .../dual_contouring_of_signed_distance_data.py           | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gpytoolbox/dual_contouring_of_signed_distance_data.py b/src/gpytoolbox/dual_contouring_of_signed_distance_data.py
index 26f7d20..2bb6d18 100644
--- a/src/gpytoolbox/dual_contouring_of_signed_distance_data.py
+++ b/src/gpytoolbox/dual_contouring_of_signed_distance_data.py
@@ -1,8 +1,5 @@
 import numpy as np
 
-from gpytoolbox_bindings import _dcsdd_cpp_impl
-
-
 def dual_contouring_of_signed_distance_data(
     S,
     GV,
@@ -131,6 +128,12 @@ def dual_contouring_of_signed_distance_data(
     if batch_size <= 0:
         raise ValueError("batch_size must be positive.")
 
+    # Try to import C++ binding
+    try:
+        from gpytoolbox_bindings import _dcsdd_cpp_impl
+    except:
+        raise ImportError("Gpytoolbox cannot import its C++ dual contouring binding.")
+
     return _dcsdd_cpp_impl(
         S=S,
         GV=GV,
-- 
2.43.0


From f3ccee285ece76f7095f1b6eee462ef6b07dd226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 10/41] fix: edges/faces return interior and nonmanifold
 indices into the returned list

---
 src/gpytoolbox/edges.py | 6 ++++--
 src/gpytoolbox/faces.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/edges.py b/src/gpytoolbox/edges.py
index 73df634..3278c73 100644
--- a/src/gpytoolbox/edges.py
+++ b/src/gpytoolbox/edges.py
@@ -68,10 +68,12 @@ def edges(F,
         if return_boundary_indices:
             retval.append(np.arange(0, bdry_edges.shape[0]))
         if return_interior_indices:
-            retval.append(np.where(unique_count>1)[0])
+            retval.append(np.arange(bdry_edges.shape[0], E.shape[0]))
         if return_nonmanifold_indices:
             #Nonmanifold edges have three or more halfedges.
-            retval.append(np.where(unique_count>2)[0])
+            # They are stored after the boundary edges, with the interior edges.
+            retval.append(bdry_edges.shape[0]
+                + np.where(unique_count[unique_count>1]>2)[0])
         return retval
     else:
         return E
diff --git a/src/gpytoolbox/faces.py b/src/gpytoolbox/faces.py
index 66433a2..695fecf 100644
--- a/src/gpytoolbox/faces.py
+++ b/src/gpytoolbox/faces.py
@@ -68,10 +68,12 @@ def faces(T,
         if return_boundary_indices:
             retval.append(np.arange(0, bdry_faces.shape[0]))
         if return_interior_indices:
-            retval.append(np.where(unique_count>1)[0])
+            retval.append(np.arange(bdry_faces.shape[0], F.shape[0]))
         if return_nonmanifold_indices:
             #Nonmanifold faces have three or more halffaces.
-            retval.append(np.where(unique_count>2)[0])
+            # They are stored after the boundary faces, with the interior faces.
+            retval.append(bdry_faces.shape[0]
+                + np.where(unique_count[unique_count>1]>2)[0])
         return retval
     else:
         return F
-- 
2.43.0


From 9a734bd9307f81c677785d212da8c9c6d44d2a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 11/41] fix: read_mesh reports every stl error code

---
 src/gpytoolbox/read_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/read_mesh.py b/src/gpytoolbox/read_mesh.py
index dc4bcae..2e3c3e8 100644
--- a/src/gpytoolbox/read_mesh.py
+++ b/src/gpytoolbox/read_mesh.py
@@ -242,7 +242,7 @@ def _read_stl(file,merge_stl):
             raise Exception(f"The file {file} seems empty.")
         elif err == -4:
             raise Exception(f"The file {file} does not exist.")
-        elif err == -5:
+        else:
             raise Exception(f"Unknown error reading stl file.")
     if merge_stl:
         V, _, _, F = remove_duplicate_vertices(V,faces=F)
-- 
2.43.0


From d4b703f1b2a2118b5dd1213a2bc3c3269dad173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 12/41] fix: read_mesh returns None for quantities the format
 does not support

---
 src/gpytoolbox/read_mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gpytoolbox/read_mesh.py b/src/gpytoolbox/read_mesh.py
index 2e3c3e8..cab715b 100644
--- a/src/gpytoolbox/read_mesh.py
+++ b/src/gpytoolbox/read_mesh.py
@@ -85,6 +85,9 @@ def read_mesh(file,
         fmt = fmt[1:]
     fmt = fmt.lower()
 
+    # Quantities that the format does not support stay None
+    UV,Ft,N,Fn,C = None,None,None,None,None
+
     # Call appropriate helper function to read mesh
     if fmt=='obj':
         V,F,UV,Ft,N,Fn = _read_obj(file,return_UV,return_N,reader)
-- 
2.43.0


From a3293b8c216a894276436333bfec5be279287b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 13/41] fix: cut_edges with no edges returns the faces
 unchanged

---
 src/gpytoolbox/cut_edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/cut_edges.py b/src/gpytoolbox/cut_edges.py
index 286240f..4f63d54 100644
--- a/src/gpytoolbox/cut_edges.py
+++ b/src/gpytoolbox/cut_edges.py
@@ -46,7 +46,7 @@ def cut_edges(F,E):
     assert F.shape[1]==3, "Only works for triangle meshes."
     n = np.max(F)+1
     if E.size==0:
-        return np.arange(F.size[0]), np.arange(n)
+        return F.copy(), np.arange(n)
     assert E.shape[1]==2, "E is a (k,2) matrix."
 
     # This code is a translation of https://github.com/alecjacobson/gptoolbox/blob/master/mesh/cut_edges.m by Alec Jacobson
-- 
2.43.0


From 61b4084539170feed15717250c771487fb26e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 14/41] fix: adjacency_matrix of an empty mesh

---
 src/gpytoolbox/adjacency_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/adjacency_matrix.py b/src/gpytoolbox/adjacency_matrix.py
index 5cae333..eecd5c6 100644
--- a/src/gpytoolbox/adjacency_matrix.py
+++ b/src/gpytoolbox/adjacency_matrix.py
@@ -26,7 +26,7 @@ def adjacency_matrix(F):
     """
 
     if F.size==0:
-        return sp.sparse.csr_matrix()
+        return sp.sparse.csr_matrix((0,0), dtype=int)
     if F.shape[1]==2:
         E = F
     elif F.shape[1]==3:
-- 
2.43.0


From b9aaddb112cbda29d4ff5fef0511cd4d73e65d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 15/41] fix: min_l1_with_fixed no longer writes module globals

---
 src/gpytoolbox/min_l1_with_fixed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gpytoolbox/min_l1_with_fixed.py b/src/gpytoolbox/min_l1_with_fixed.py
index d841f84..fc0f36f 100644
--- a/src/gpytoolbox/min_l1_with_fixed.py
+++ b/src/gpytoolbox/min_l1_with_fixed.py
@@ -84,7 +84,7 @@ def min_l1_with_fixed(G=None, Q=None, L=None, c=None, k=None, y=None, A=None, b=
     if solver is None:
         # try to use mosek; except any license-related failure and continue with SCS instead
         try:
-            globals()["mosek"] = __import__("mosek")
+            import mosek
             return min_l1_with_fixed(G, Q, L, c, k, y, A, b, d, verbose, params, solver="mosek")
         except ModuleNotFoundError as e:
             if verbose:
@@ -124,7 +124,6 @@ def min_l1_with_fixed(G=None, Q=None, L=None, c=None, k=None, y=None, A=None, b=
             else:
                 raise e
     elif solver == "mosek":
-        globals()["mosek"] = __import__("mosek")
         return _min_l1_with_fixed_mosek(G=G, Q=Q, L=L, c=c, k=k, y=y, A=A, b=b, d=d, verbose=verbose, mosek_params=[] if params is None else params)
     elif solver == "scs":
         scs_params = dict(eps_abs=1e-9, eps_rel=1e-9, eps_infeas=1e-9)
@@ -139,7 +138,8 @@ def _streamprinter(text):
 
 def _min_l1_with_fixed_mosek(G=None, Q=None, L=None, c=None, k=None, y=None, A=None, b=None, d=1, verbose=False, mosek_params=[]):
     """Solve the min_l1_with_fixed problem using SCS"""
-    
+    import mosek
+
     # reduction to the conic problem
     # min  [u z r].T [c 1 1]
     # s.t. [A   0 0] [u z r].T = [b]
-- 
2.43.0


From 8a370c38b145db54b946835f4ee04d81a39a0dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 16/41] fix: particle_swarm reports an unknown topology

---
 src/gpytoolbox/particle_swarm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gpytoolbox/particle_swarm.py b/src/gpytoolbox/particle_swarm.py
index 03084c2..2405045 100644
--- a/src/gpytoolbox/particle_swarm.py
+++ b/src/gpytoolbox/particle_swarm.py
@@ -48,6 +48,9 @@ def particle_swarm(fun,lb,ub,n_particles=100,max_iter=100,momentum=0.9,phi=0.1,v
     lb = np.asarray(lb, dtype=np.float64)
     ub = np.asarray(ub, dtype=np.float64)
 
+    if topology not in ('full', 'ring'):
+        raise ValueError("topology must be 'full' or 'ring'.")
+
     if use_cpp:
         try:
             from gpytoolbox_bindings import _particle_swarm_cpp_impl
-- 
2.43.0


From d9df492135fc5d0ce433d136de2f128ea3f69c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 17/41] fix: docstrings state the actual default values

---
 src/gpytoolbox/grid_neighbors.py                          | 2 +-
 src/gpytoolbox/particle_swarm.py                          | 2 +-
 src/gpytoolbox/point_cloud_to_mesh.py                     | 4 ++--
 src/gpytoolbox/reach_for_the_arcs.py                      | 8 ++++----
 src/gpytoolbox/read_mesh.py                               | 6 +++---
 src/gpytoolbox/remesh_botsch.py                           | 2 +-
 src/gpytoolbox/signed_distance.py                         | 2 +-
 .../stochastic_poisson_surface_reconstruction.py          | 2 +-
 src/gpytoolbox/unsigned_distance.py                       | 2 +-
 9 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/gpytoolbox/grid_neighbors.py b/src/gpytoolbox/grid_neighbors.py
index c1db6ff..f95e97d 100644
--- a/src/gpytoolbox/grid_neighbors.py
+++ b/src/gpytoolbox/grid_neighbors.py
@@ -15,7 +15,7 @@ def grid_neighbors(gs,order=1,include_diagonals=False,include_self=False,output_
         whether diagonal cells are considered to be neighbors
     include_self: bool, optional (default False)
         whether a cell is considered to be its own neighbor
-    output_unique: bool, optional (default False)
+    output_unique: bool, optional (default True)
         whether to output only unique neighbors (i.e., remove duplicates). This should only matter for order>=2 (for order=1, the output is always unique but this flag will change the ordering)
     
     Returns
diff --git a/src/gpytoolbox/particle_swarm.py b/src/gpytoolbox/particle_swarm.py
index 2405045..4152d80 100644
--- a/src/gpytoolbox/particle_swarm.py
+++ b/src/gpytoolbox/particle_swarm.py
@@ -13,7 +13,7 @@ def particle_swarm(fun,lb,ub,n_particles=100,max_iter=100,momentum=0.9,phi=0.1,v
         Vector of upper bounds
     n_particles : int, optional (default: 100)
         Number of particles
-    max_iter : int, optional (default: 1000)
+    max_iter : int, optional (default: 100)
         Maximum number of iterations
     topology : str, optional (default: 'full')
         Connectivity of the swarm. Either 'full' or 'ring'.
diff --git a/src/gpytoolbox/point_cloud_to_mesh.py b/src/gpytoolbox/point_cloud_to_mesh.py
index 529f263..fd98b72 100644
--- a/src/gpytoolbox/point_cloud_to_mesh.py
+++ b/src/gpytoolbox/point_cloud_to_mesh.py
@@ -19,9 +19,9 @@ def point_cloud_to_mesh(P, N,
         which reconstruction method to use.
         Currently, only 'PSR' is supported, which is the official implementation
         of "Screened Poisson Surface Reconstruction" [Kazhdan and Hoppe 2013].
-    psr_screening_weight : float, optional (default 1.)
+    psr_screening_weight : float, optional (default 10.)
         PSR screening weight
-    psr_depth : int, optional (default 8)
+    psr_depth : int, optional (default 10)
         PSR tree depth
     psr_outer_boundary_type : string, optional (default "Neumann")
         The boundary condition to use for the outer boundary in PSR.
diff --git a/src/gpytoolbox/reach_for_the_arcs.py b/src/gpytoolbox/reach_for_the_arcs.py
index 69a8aed..89373e2 100644
--- a/src/gpytoolbox/reach_for_the_arcs.py
+++ b/src/gpytoolbox/reach_for_the_arcs.py
@@ -39,14 +39,14 @@ def reach_for_the_arcs(U, S,
         rng seed where random data is needed
     return_point_cloud : bool, optional (default False)
         return the reconstructed point cloud normals or not
-    fine_tune_iters : int, optional (default 5)
+    fine_tune_iters : int, optional (default 3)
         how may iterations to do in the fine tuning step
-    batch_size : int, optional (default 1000)
+    batch_size : int, optional (default 10000)
         how many points in one batch. Set to 0 to disable batching.
     num_rasterization_spheres : int, optional (default 0)
         how many spheres to use at most in the rasterization step.
         Set to zero to use all spheres.
-    screening_weight : float, optional (default 0.1)
+    screening_weight : float, optional (default 10.)
         PSR screening weight
     rasterization_resolution : int, optional (default 8*n_sdf**(1/d))
         the resolution of the rasterization grid
@@ -63,7 +63,7 @@ def reach_for_the_arcs(U, S,
     local_search_iters : int, optional (default 20)
         how many iterations to try for in the local search for each sphere in
         the locally make feasible step
-    local_search_t : double, optional (default 5e-3)
+    local_search_t : double, optional (default 0.01)
         how far to move each point in the local search for each point in the
         locally make feasible step
     tol : float, optional (default 1e-4)
diff --git a/src/gpytoolbox/read_mesh.py b/src/gpytoolbox/read_mesh.py
index cab715b..37fb62f 100644
--- a/src/gpytoolbox/read_mesh.py
+++ b/src/gpytoolbox/read_mesh.py
@@ -27,13 +27,13 @@ def read_mesh(file,
         The file format of the mesh to open.
         If None, try to guess the format from the file extension.
         Supported formats: obj, stl
-    return_UV : bool, optional (default: None)
+    return_UV : bool, optional (default: False)
         Try reading texture coordinates, if they are present and the file
         format supports it. Only supported for OBJ files.
-    return_N : bool, optional (default: None)
+    return_N : bool, optional (default: False)
         Try reading normal coordinates, if they are present and the file format
         supports it. Only supported for OBJ and PLY files.
-    return_C : bool, optional (default: None)
+    return_C : bool, optional (default: False)
         Try reading color RGBA values, if they are present and the file format
         supports it. Only supported for PLY files.
     reader : string, optional (default: None)
diff --git a/src/gpytoolbox/remesh_botsch.py b/src/gpytoolbox/remesh_botsch.py
index 2c3df61..e8031c3 100644
--- a/src/gpytoolbox/remesh_botsch.py
+++ b/src/gpytoolbox/remesh_botsch.py
@@ -18,7 +18,7 @@ def remesh_botsch(V, F, i=10, h=None, project=True, feature=np.array([], dtype=i
         Matrix of triangle mesh indices into V
     i : int, optional (default 10)
         Number of algorithm iterations
-    h : double, optional (default 0.1)
+    h : double, optional (default None, which uses the mean edge length)
         Desired edge length (if None, will pick average edge length)
     feature : numpy int array, optional (default np.array([], dtype=int))
         List of indices of feature vertices that should not change (i.e., they will also be in the output). They will be placed at the beginning of the output array in the same order (as long as they were unique).
diff --git a/src/gpytoolbox/signed_distance.py b/src/gpytoolbox/signed_distance.py
index 9cd00eb..6e3055f 100644
--- a/src/gpytoolbox/signed_distance.py
+++ b/src/gpytoolbox/signed_distance.py
@@ -16,7 +16,7 @@ def signed_distance(Q,V,F=None,use_cpp=True,cpp_aabb=None,fwn_bvh=None):
         Matrix of mesh/polyline/pointcloud coordinates
     F : (f,s) numpy int array (optional, default None)
         Matrix of mesh/polyline/pointcloud indices into V. If None, input is assumed to be an ordered *closed* polyline in 2D.
-    use_cpp : bool, optional (default False)
+    use_cpp : bool, optional (default True)
         If True, uses a C++ implementation to compute the squared distances. This is much faster but requires compilation of the C++ code.
     cpp_aabb : gpytoolbox.squared_distance_precompute, optional (default None)
         Precomputed C++ AABB tree built via `gpytoolbox.squared_distance_precompute(V, F)`.
diff --git a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
index 4ea20d7..6dd6586 100644
--- a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
+++ b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
@@ -33,7 +33,7 @@ def stochastic_poisson_surface_reconstruction(P,N,gs=None,h=None,corner=None,out
         Scalar global variance parameter
     solve_subspace_dim : int, optional (default 0)
         If > 0, use a subspace solver to solve the linear system. This is useful for large problems and essential in 3D.
-    verbose : bool, optional (default True)
+    verbose : bool, optional (default False)
         Whether to print progress
     prior_fun : function, optional (default None)
         Function that takes a (m,dim) numpy array and returns a (m,dim) numpy array. This is used to specify a prior on the gradient of the scalar field (see Sec. 5 in "Stochastic Poisson Surface Reconstruction").
diff --git a/src/gpytoolbox/unsigned_distance.py b/src/gpytoolbox/unsigned_distance.py
index 66a5758..6899972 100644
--- a/src/gpytoolbox/unsigned_distance.py
+++ b/src/gpytoolbox/unsigned_distance.py
@@ -15,7 +15,7 @@ def unsigned_distance(Q,V,F=None,use_cpp=True,cpp_aabb=None):
         Matrix of mesh/polyline/pointcloud coordinates
     F : (f,s) numpy int array (optional, default None)
         Matrix of mesh/polyline/pointcloud indices into V. If None, input is assumed to be an ordered *closed* polyline in 2D.
-    use_cpp : bool, optional (default False)
+    use_cpp : bool, optional (default True)
         If True, uses a C++ implementation to compute the squared distances. This is much faster but requires compilation of the C++ code.
     cpp_aabb : gpytoolbox.squared_distance_precompute, optional (default None)
         Precomputed AABB tree built via `gpytoolbox.squared_distance_precompute(V, F)`.
-- 
2.43.0


From dccadb8466166713f0ebb6892778921d0b94edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:14 +0000
Subject: [PATCH 18/41] fix: matryoshka and point_cloud_to_mesh report unknown
 option values

---
 src/gpytoolbox/matryoshka.py          | 3 +++
 src/gpytoolbox/point_cloud_to_mesh.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/gpytoolbox/matryoshka.py b/src/gpytoolbox/matryoshka.py
index 6eea294..1fd93b4 100644
--- a/src/gpytoolbox/matryoshka.py
+++ b/src/gpytoolbox/matryoshka.py
@@ -328,6 +328,9 @@ def matryoshka(V, F,
     VB = np.asarray(VB, dtype=np.float64)
     FB = np.asarray(FB, dtype=np.int32)
 
+    if optimize not in ('all', 'rigid', 'scale_only'):
+        raise ValueError("optimize must be 'all', 'rigid' or 'scale_only'.")
+
     rng = np.random.default_rng(seed)
 
     B_center = VB.mean(axis=0)
diff --git a/src/gpytoolbox/point_cloud_to_mesh.py b/src/gpytoolbox/point_cloud_to_mesh.py
index fd98b72..27db430 100644
--- a/src/gpytoolbox/point_cloud_to_mesh.py
+++ b/src/gpytoolbox/point_cloud_to_mesh.py
@@ -68,6 +68,7 @@ def point_cloud_to_mesh(P, N,
             raise ImportError("Gpytoolbox cannot import its C++ point_cloud_to_mesh binding.")
 
         assert psr_depth>0, "Depth must be a positive integer."
+        assert psr_outer_boundary_type in ("Neumann","neumann","Dirichlet","dirichlet"), "Outer boundary type must be 'Neumann' or 'Dirichlet'."
         assert psr_screening_weight>=0., "Screening weight must be a nonnegative scalar."
 
         # Currently, parallelizing this can crash the PSR code, so we do not
-- 
2.43.0


From de27ab70465c48756fbf94e8e6a3437ae4c84667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 19/41] fix: read_mesh returns the requested colours also when
 UVs are requested

---
 src/gpytoolbox/read_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gpytoolbox/read_mesh.py b/src/gpytoolbox/read_mesh.py
index 37fb62f..285cb83 100644
--- a/src/gpytoolbox/read_mesh.py
+++ b/src/gpytoolbox/read_mesh.py
@@ -101,8 +101,12 @@ def read_mesh(file,
         assert False, "Mesh format not supported."
 
     # Arrange variables for output
+    if return_UV and return_N and return_C:
+        return V,F,UV,Ft,N,Fn,C
     if return_UV and return_N:
         return V,F,UV,Ft,N,Fn
+    if return_UV and return_C:
+        return V,F,UV,Ft,C
     if return_UV:
         return V,F,UV,Ft
     if (return_N and return_C):
-- 
2.43.0


From 12e7a8ce01db27fb0812c5df22670a8a36b933cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 20/41] fix: min_l1_with_fixed infers n from the rows of L (Q =
 L L^T)

---
 src/gpytoolbox/min_l1_with_fixed.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gpytoolbox/min_l1_with_fixed.py b/src/gpytoolbox/min_l1_with_fixed.py
index fc0f36f..7536bac 100644
--- a/src/gpytoolbox/min_l1_with_fixed.py
+++ b/src/gpytoolbox/min_l1_with_fixed.py
@@ -19,8 +19,8 @@ def min_l1_with_fixed(G=None, Q=None, L=None, c=None, k=None, y=None, A=None, b=
         Matrix to be multiplied inside the norm.  Defaults to sp.eye(n), where n is inferred from another input.
     Q : (n, n) sparse scipy csr_array, optional
         Quadratic form matrix. 0 if not specified.
-    L : (?, n) sparse scipy csr_array, optional
-        Prefactorization of Q; do not provide Q when providing L.  May make the solve faster when using MOSEK, but slower when using SCS.  
+    L : (n, ?) sparse scipy csr_array, optional
+        Prefactorization of Q, so that Q = L @ L.T; do not provide Q when providing L.  May make the solve faster when using MOSEK, but slower when using SCS.  
         Q is factored if L is not specified (when using MOSEK).
     c : (n,) numpy array, optional
         Linear term in the objective.  0 if not specified.
@@ -166,7 +166,7 @@ def _min_l1_with_fixed_mosek(G=None, Q=None, L=None, c=None, k=None, y=None, A=N
         n = Q.shape[1]
     elif not (L is None):
         inferredfrom = "L"
-        n = L.shape[1]
+        n = L.shape[0]
     elif not (c is None):
         inferredfrom = "c"
         n = c.shape[0]
@@ -410,7 +410,7 @@ def _min_l1_with_fixed_scs(G=None, Q=None, L=None, c=None, k=None, y=None, A=Non
         n = Q.shape[1]
     elif not (L is None):
         inferredfrom = "L"
-        n = L.shape[1]
+        n = L.shape[0]
     elif not (c is None):
         inferredfrom = "c"
         n = c.shape[0]
-- 
2.43.0


From 4ae62b50b72e7f6e9ad101f343533b4617be0a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 21/41] fix: tip_angles_intrinsic decides small angles relative
 to the triangle's size

---
 src/gpytoolbox/tip_angles_intrinsic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/tip_angles_intrinsic.py b/src/gpytoolbox/tip_angles_intrinsic.py
index 7d563f8..580f299 100644
--- a/src/gpytoolbox/tip_angles_intrinsic.py
+++ b/src/gpytoolbox/tip_angles_intrinsic.py
@@ -46,7 +46,8 @@ def tip_angles_intrinsic(l_sq, F,
         if use_small_angle_approx:
             #If c is very small, expect numerical error and use a series approx.
             small = np.sqrt(np.finfo(c.dtype).eps) #This is quite aggressive, can also try without sqrt
-            i = c<small
+            # relative to the adjacent sides: the angle is small, not the triangle
+            i = c < small*np.sqrt(a*b)
             if np.any(i):
                 # https://www.nayuki.io/page/numerically-stable-law-of-cosines
                 sqrt_ai, sqrt_bi = np.sqrt(a[i]), np.sqrt(b[i])
-- 
2.43.0


From 2f738cacff28ca5779506f6d13e0688e8f890018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 22/41] fix: colormap returns a copy of its colour tables

---
 src/gpytoolbox/colormap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/colormap.py b/src/gpytoolbox/colormap.py
index 69e0b5e..23a2e85 100644
--- a/src/gpytoolbox/colormap.py
+++ b/src/gpytoolbox/colormap.py
@@ -50,10 +50,10 @@ def colormap(name, n, interpolate=True):
             i = 1
             while i in _all_cbrewer_colormaps[name]:
                 i += 1
-            return _all_cbrewer_colormaps[name][i-1]
+            return _all_cbrewer_colormaps[name][i-1].copy()
         else:
             assert n in _all_cbrewer_colormaps[name]
-            return _all_cbrewer_colormaps[name][n]
+            return _all_cbrewer_colormaps[name][n].copy()
 
 
 _all_cbrewer_colormaps = {
-- 
2.43.0


From ce626daddce571985c8bbcdb0bb24a2613a71bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 23/41] fix: ray_box_intersect does not return the caller's
 origin array

---
 src/gpytoolbox/ray_box_intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/ray_box_intersect.py b/src/gpytoolbox/ray_box_intersect.py
index 5954672..b108d1d 100644
--- a/src/gpytoolbox/ray_box_intersect.py
+++ b/src/gpytoolbox/ray_box_intersect.py
@@ -65,7 +65,7 @@ def ray_box_intersect(origin,dir,center,width):
 
     
     if inside:
-        hit_coord = origin
+        hit_coord = origin.copy()
         return True, hit_coord
 
     for i in range(dim):
-- 
2.43.0


From 8d17ed6d157aa0ac718b0a8cfc052d2bd8048abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 24/41] fix: reach_for_the_spheres returns arrays of its own

---
 src/gpytoolbox/reach_for_the_spheres.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/reach_for_the_spheres.py b/src/gpytoolbox/reach_for_the_spheres.py
index 160ada3..2079a70 100644
--- a/src/gpytoolbox/reach_for_the_spheres.py
+++ b/src/gpytoolbox/reach_for_the_spheres.py
@@ -182,8 +182,9 @@ def reach_for_the_spheres(U, sdf, V, F, S=None,
     """
 
 
-    state = ReachForTheSpheresState(V=V, F=F, sdf=sdf, U=U, S=S,
-        h=h, min_h=min_h)
+    # The results must not share memory with the arrays passed by the user
+    state = ReachForTheSpheresState(V=V.copy(), F=F.copy(), sdf=sdf,
+        U=None if U is None else U.copy(), S=S, h=h, min_h=min_h)
     converged = False
 
     while not converged:
-- 
2.43.0


From 3e2e159a2c8040d539bfe984759e64c9b10b364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:10 +0000
Subject: [PATCH 25/41] fix: matryoshka returns copies of the given rotation,
 centroid and cut point

---
 src/gpytoolbox/matryoshka.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/gpytoolbox/matryoshka.py b/src/gpytoolbox/matryoshka.py
index 1fd93b4..3457738 100644
--- a/src/gpytoolbox/matryoshka.py
+++ b/src/gpytoolbox/matryoshka.py
@@ -348,7 +348,7 @@ def matryoshka(V, F,
     if cut_point is None:
         cut_point = A_center.copy()
     else:
-        cut_point = np.asarray(cut_point, dtype=np.float64)
+        cut_point = np.array(cut_point, dtype=np.float64)
     if a_plus is None:
         a_plus = cut_normal.copy()
     else:
@@ -370,10 +370,8 @@ def matryoshka(V, F,
     A_rmi = ray_mesh_intersect_precompute(V, F)
 
     if optimize == 'scale_only':
-        if R is None:
-            R = np.eye(3)
-        if c is None:
-            c = A_center.copy()
+        R = np.eye(3) if R is None else np.array(R, dtype=np.float64)
+        c = A_center.copy() if c is None else np.array(c, dtype=np.float64)
         s = _largest_feasible_scale(samples_B, B_center, V, F, R, c,
                                     cut_point, cut_normal, a_plus, a_minus,
                                     cpp_aabb=A_aabb, fwn_bvh=A_fwn_bvh,
-- 
2.43.0


From 546d909683ac8b7d4cc91016aa485c268297d7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:39 +0000
Subject: [PATCH 26/41] fix: remesh_botsch converts the vertices to the element
 type its native routine takes

---
 src/gpytoolbox/remesh_botsch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/remesh_botsch.py b/src/gpytoolbox/remesh_botsch.py
index e8031c3..8d220ed 100644
--- a/src/gpytoolbox/remesh_botsch.py
+++ b/src/gpytoolbox/remesh_botsch.py
@@ -133,6 +133,6 @@ def remesh_botsch(V, F, i=10, h=None, project=True, feature=np.array([], dtype=i
         # return error
         raise ValueError("Input mesh is non-manifold.")
 
-    v, f = _remesh_botsch_cpp_impl(V, F.astype(np.int32), i, h, feature, feature_edges.astype(np.int32), project)
+    v, f = _remesh_botsch_cpp_impl(V.astype(np.float64), F.astype(np.int32), i, h, feature, feature_edges.astype(np.int32), project)
 
     return v, f
-- 
2.43.0


From 927fd86d6d8cc8c245a95d1a095996dbf74d9966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 27/41] fix: reach_for_the_arcs failed for integer SDF
 positions

---
 src/gpytoolbox/reach_for_the_arcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/reach_for_the_arcs.py b/src/gpytoolbox/reach_for_the_arcs.py
index 89373e2..d96dddc 100644
--- a/src/gpytoolbox/reach_for_the_arcs.py
+++ b/src/gpytoolbox/reach_for_the_arcs.py
@@ -128,7 +128,7 @@ def reach_for_the_arcs(U, S,
     trans = np.min(U, axis=0)
     U = U - trans[None,:]
     scale = np.max(U)
-    U /= scale
+    U = U/scale
     S = S/scale
     clamp_value = clamp_value/scale
 
-- 
2.43.0


From 8b4710614c6a57b204dd545fe507e7568c2efc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 28/41] fix: stochastic_poisson_surface_reconstruction
 truncated the staggered grid corner of integer grids

---
 src/gpytoolbox/stochastic_poisson_surface_reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
index 6dd6586..d050619 100644
--- a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
+++ b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
@@ -174,7 +174,7 @@ def stochastic_poisson_surface_reconstruction(P,N,gs=None,h=None,corner=None,out
     covs = []
     for dd in range(dim):
         # Build a staggered grid in the dd-th dimension
-        corner_dd = corner.copy()
+        corner_dd = np.array(corner,dtype=np.float64)
         corner_dd[dd] += 0.5*h[dd]
         gs_dd = gs.copy()
         gs_dd[dd] -= 1
-- 
2.43.0


From 1672510c782dc51ae8d199008786eeafc4ae919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 29/41] fix: initialize_aabbtree computes element boxes for
 coordinates beyond 10000

---
 src/gpytoolbox/initialize_aabbtree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/initialize_aabbtree.py b/src/gpytoolbox/initialize_aabbtree.py
index f410113..e938c2b 100644
--- a/src/gpytoolbox/initialize_aabbtree.py
+++ b/src/gpytoolbox/initialize_aabbtree.py
@@ -63,8 +63,8 @@ def initialize_aabbtree(V,F=None,vmin=None,vmax=None):
     #print(C)
 
     # We need to compute this once, we'll need it for the subdivision:
-    vmin_big = 10000*np.ones((num_s,dim))
-    vmax_big = -10000*np.ones((num_s,dim))
+    vmin_big = np.inf*np.ones((num_s,dim))
+    vmax_big = -np.inf*np.ones((num_s,dim))
     for j in range(dim):
         for i in range(simplex_size):
             vmax_big[:,j] = np.amax(np.hstack((V[F[:,i],j][:,None],vmax_big[:,j][:,None])),axis=1)[:]
-- 
2.43.0


From 2345c4a600de96169d947a44c47b3057a0a03b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 30/41] fix: ray_triangle_intersect decides parallelism
 relative to the lengths involved

---
 src/gpytoolbox/ray_triangle_intersect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/ray_triangle_intersect.py b/src/gpytoolbox/ray_triangle_intersect.py
index 5e2ce59..a7a3364 100644
--- a/src/gpytoolbox/ray_triangle_intersect.py
+++ b/src/gpytoolbox/ray_triangle_intersect.py
@@ -59,7 +59,8 @@ def ray_triangle_intersect(origin,dir, v0, v1, v2, return_negative=False):
     pvec = np.cross(dir,v0v2)
     det = np.dot(v0v1,pvec)
 
-    if (np.abs(det) < 1e-6):
+    # det is compared relative to the lengths, so that the scale of the scene does not matter
+    if (np.abs(det) <= 1e-6*np.linalg.norm(dir)*np.linalg.norm(v0v1)*np.linalg.norm(v0v2)):
         t =  np.inf
         hit = np.inf*np.ones(3)
         is_hit = False
-- 
2.43.0


From 804cf8dbe91d5e1ffd7b429d1e5170a91742c226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 31/41] fix: triangle_triangle_distance decides degeneracy
 relative to the triangle's size

---
 src/gpytoolbox/triangle_triangle_distance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gpytoolbox/triangle_triangle_distance.py b/src/gpytoolbox/triangle_triangle_distance.py
index 7d3f2be..98f387d 100644
--- a/src/gpytoolbox/triangle_triangle_distance.py
+++ b/src/gpytoolbox/triangle_triangle_distance.py
@@ -51,7 +51,7 @@ def triangle_triangle_distance(s0,s1,s2,t0,t1,t2):
     # Sv1 = s2 - s1
     # Sv2 = s0 - s2
 
-    mindd = np.sum((S[0]-T[0])**2) + 10.0
+    mindd = np.inf
 
     for i in range(3):
         for j in range(3):
@@ -94,7 +94,7 @@ def triangle_triangle_distance(s0,s1,s2,t0,t1,t2):
     # # print("Sn : ", Sn)
     Snl = np.dot(Sn,Sn)
 
-    if (Snl > 1e-15):
+    if (Snl > 1e-15*np.dot(Sv[0],Sv[0])*np.dot(Sv[1],Sv[1])):
         # V = S[0] - T[0]
         Tp = [np.dot(Sn,S[0] - T[0]), np.dot(Sn,S[0] - T[1]), np.dot(Sn,S[0] - T[2])]
         point = -1
@@ -136,7 +136,7 @@ def triangle_triangle_distance(s0,s1,s2,t0,t1,t2):
     Tn = np.cross(Tv[0],Tv[1])
     Tnl = np.dot(Tn,Tn)
 
-    if (Tnl > 1e-15):
+    if (Tnl > 1e-15*np.dot(Tv[0],Tv[0])*np.dot(Tv[1],Tv[1])):
         # V = T[0] - S[0]
         # Sp = [T[0] - S[0], T[0] - S[1], T[0] - S[2]]
         Sp = [np.dot(Tn,T[0] - S[0]), np.dot(Tn,T[0] - S[1]), np.dot(Tn,T[0] - S[2])]
-- 
2.43.0


From 1d300fe0f650fcaec666437930a0be5f90311a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:52 +0000
Subject: [PATCH 32/41] fix: triangle_triangle_distance documents the one value
 it returns

---
 src/gpytoolbox/triangle_triangle_distance.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gpytoolbox/triangle_triangle_distance.py b/src/gpytoolbox/triangle_triangle_distance.py
index 98f387d..4c90004 100644
--- a/src/gpytoolbox/triangle_triangle_distance.py
+++ b/src/gpytoolbox/triangle_triangle_distance.py
@@ -21,10 +21,6 @@ def triangle_triangle_distance(s0,s1,s2,t0,t1,t2):
     -------
     d : float
         Distance between the two triangles.
-    s : (3,) array
-        Closest point on first triangle.
-    t : (3,) array
-        Closest point on second triangle.
     Notes
     -----
     This function is based on the algorithm from the "Proximity Query Pack" by Eric Larsen and Stefan Gottschalk. It would be nice to also output the closest point but this is hard in the case where the triangles intersect each other. Whenever we have a pure python triangle-triangle intersection function, we can use it here.
@@ -40,7 +36,7 @@ def triangle_triangle_distance(s0,s1,s2,t0,t1,t2):
     t0 = np.array([0.0,0.0,1.0])
     t1 = np.array([1.0,0.0,1.0])
     t2 = np.array([0.0,1.0,1.0])
-    dist,s,t = triangle_triangle_distance(s0,s1,s2,t0,t1,t2)
+    dist = triangle_triangle_distance(s0,s1,s2,t0,t1,t2)
     ```
     """
     shown_disjoint = False
-- 
2.43.0


From fda37e3ac0b392c543481538b3f1c206b7e5e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:41 +0000
Subject: [PATCH 33/41] fix: ray_polyline_intersect uses relative tolerances
 for parallel and coincident edges

---
 src/gpytoolbox/ray_polyline_intersect.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gpytoolbox/ray_polyline_intersect.py b/src/gpytoolbox/ray_polyline_intersect.py
index bdd2fb7..f7705ee 100644
--- a/src/gpytoolbox/ray_polyline_intersect.py
+++ b/src/gpytoolbox/ray_polyline_intersect.py
@@ -55,18 +55,21 @@ def ray_polyline_intersect(position, direction, polyline_vertices, max_distance
     ind = -1
     x = np.array([np.inf, np.inf])
     n = np.array([0.0, 0.0])
-    distance_to_hit = max_distance 
+    dir_len = np.linalg.norm(direction)
+    distance_to_hit = max_distance
     for i in range(0,EC.shape[0]):
         # Two endpoints of segment in polyline
         a0 = polyline_vertices[EC[i,0],:]
         a1 = polyline_vertices[EC[i,1],:]
         # Linear system will have this determinant
         det = direction[0]*(a1[1]- a0[1]) - direction[1]*(a1[0]- a0[0])
-        if np.abs(det)<1e-8:
+        # Tolerances are relative, so that the result doesn't depend on the units
+        if np.abs(det)<=1e-8*dir_len*np.linalg.norm(a1 - a0):
             # Parallel. Find out if intersecting (coincident) or not
             # Plug one of the segment endpoints into our ray equation
             eq0 = direction[1]*(a0[0] - position[0]) - direction[0]*(a0[1] - position[1])
-            if np.abs(eq0)<1e-8: # Coincident
+            dist = max(np.linalg.norm(a0 - position),np.linalg.norm(a1 - position))
+            if np.abs(eq0)<=1e-8*dir_len*dist: # Coincident
                 # Is it behind us?
                 sign0 = np.dot(a0 - position,direction)
                 sign1 = np.dot(a1 - position,direction)
-- 
2.43.0


From cddd3c4b29b5957a2b407279897ef63834d7c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:41 +0000
Subject: [PATCH 34/41] fix: ray_polyline_intersect measures max_distance as a
 distance for directions of any length

---
 src/gpytoolbox/ray_polyline_intersect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gpytoolbox/ray_polyline_intersect.py b/src/gpytoolbox/ray_polyline_intersect.py
index f7705ee..4af621a 100644
--- a/src/gpytoolbox/ray_polyline_intersect.py
+++ b/src/gpytoolbox/ray_polyline_intersect.py
@@ -55,8 +55,9 @@ def ray_polyline_intersect(position, direction, polyline_vertices, max_distance
     ind = -1
     x = np.array([np.inf, np.inf])
     n = np.array([0.0, 0.0])
+    # Along the ray, distance_to_hit counts multiples of direction
     dir_len = np.linalg.norm(direction)
-    distance_to_hit = max_distance
+    distance_to_hit = max_distance/dir_len if dir_len>0 else np.inf
     for i in range(0,EC.shape[0]):
         # Two endpoints of segment in polyline
         a0 = polyline_vertices[EC[i,0],:]
-- 
2.43.0


From dae2e990fe1b8715904df6b3cfd5938c7e396dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:18 +0000
Subject: [PATCH 35/41] fix: marching_squares returns (0,2) arrays, with
 integer edges, when there is no contour

---
 src/gpytoolbox/marching_squares.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gpytoolbox/marching_squares.py b/src/gpytoolbox/marching_squares.py
index 2252c89..1432942 100644
--- a/src/gpytoolbox/marching_squares.py
+++ b/src/gpytoolbox/marching_squares.py
@@ -178,8 +178,8 @@ def marching_squares(S,GV,nx,ny):
                 pass
 
     # Convert list to numpy array
-    verts = np.array(verts)
-    edges = np.array(edge_list)
+    verts = np.array(verts, dtype=float).reshape(-1,2)
+    edges = np.array(edge_list, dtype=int).reshape(-1,2)
 
     # if it's empty, no need to do anything else.
     if verts.shape[0] == 0:
-- 
2.43.0


From 719f0382770facc27d5bc47a72f0951554a03e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:18 +0000
Subject: [PATCH 36/41] fix: random_points_on_mesh with n=0 returns arrays with
 the documented number of columns

---
 src/gpytoolbox/random_points_on_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gpytoolbox/random_points_on_mesh.py b/src/gpytoolbox/random_points_on_mesh.py
index 75dba6b..1529d59 100644
--- a/src/gpytoolbox/random_points_on_mesh.py
+++ b/src/gpytoolbox/random_points_on_mesh.py
@@ -65,11 +65,11 @@ def random_points_on_mesh(V,F,
 
     if n==0:
         if return_indices:
-            return np.zeros((0,), dtype=V.dtype), \
+            return np.zeros((0,)+V.shape[1:], dtype=V.dtype), \
             np.zeros((0,), dtype=F.dtype), \
-            np.zeros((0,), dtype=V.dtype)
+            np.zeros((0,)+F.shape[1:], dtype=V.dtype)
         else:
-            return np.zeros((0,), dtype=V.dtype)
+            return np.zeros((0,)+V.shape[1:], dtype=V.dtype)
 
     k = F.shape[1]
     if k==2:
-- 
2.43.0


From 219d55485256121adf6bd6495b7ea54d0b32712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:18 +0000
Subject: [PATCH 37/41] fix: remove_unreferenced failed for an empty face list

---
 src/gpytoolbox/remove_unreferenced.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/gpytoolbox/remove_unreferenced.py b/src/gpytoolbox/remove_unreferenced.py
index 4b640b8..93cdabe 100644
--- a/src/gpytoolbox/remove_unreferenced.py
+++ b/src/gpytoolbox/remove_unreferenced.py
@@ -67,20 +67,13 @@ def remove_unreferenced(V, F,
 
     assert (F>=-1).all(), "The only allowed negative value is -1."
     if V is None:
-        n = np.max(F)+1
+        n = np.max(F)+1 if F.size>0 else 0
     else:
         n = V.shape[0]
-        assert np.max(F)<n, "V is too small for F."
+        assert F.size==0 or np.max(F)<n, "V is too small for F."
 
     J,idx,newF = np.unique(F, return_index=True, return_inverse=True)
-    if len(J)<1:
-        emptyV = None if V is None else np.array([],dtype=V.dtype)
-        emptyF = np.array([],dtype=F.dtype)
-        if return_maps:
-            return emptyV, emptyF, emptyF.copy(), emptyF.copy()
-        else:
-            return emptyV, emptyF
-    if J[0] == -1:
+    if len(J)>0 and J[0] == -1:
         J = J[1:]
         newF -= 1
         I = np.full((n+1,), -1)
-- 
2.43.0


From 445d8ca21a596387a941898e525295406c6a4558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:22 +0000
Subject: [PATCH 38/41] fix: squared_distance_to_element returns its
 barycentric coordinates as a vector for every element

---
 src/gpytoolbox/squared_distance_to_element.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gpytoolbox/squared_distance_to_element.py b/src/gpytoolbox/squared_distance_to_element.py
index 9867b10..c45764a 100644
--- a/src/gpytoolbox/squared_distance_to_element.py
+++ b/src/gpytoolbox/squared_distance_to_element.py
@@ -47,7 +47,7 @@ def squared_distance_to_element(point,V,element):
     if simplex_size==1:
         # Then this is just distance between two points
         sqrD = np.sum((V[element] - point)**2.0)
-        lmb = 1
+        lmb = [1.0]
     elif simplex_size==2:
         if dim==2:
             V = np.hstack(( V,np.zeros((V.shape[0],1)) ))
@@ -62,7 +62,7 @@ def squared_distance_to_element(point,V,element):
             # then it's just distance to a point
             sqrD = np.sum((start - point)**2.0)
             nearest = start
-            lmb = [1,0]
+            lmb = [1.0,0.0]
         else:
             line_unitvec = line_vec/line_len
             pnt_vec_scaled = pnt_vec/line_len
@@ -86,7 +86,7 @@ def squared_distance_to_element(point,V,element):
         # print(tri)
         sqrD,nearest_point = pointTriangleDistance(tri,point)
         lmb = barycentric_coordinates(nearest_point,V[element[0],:],V[element[1],:],V[element[2],:])
-    return sqrD,lmb
+    return sqrD,np.ravel(lmb)
 
 
 
-- 
2.43.0


From 81ffebe1fd2044c6376dee980ee394867d8ee5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:16 +0000
Subject: [PATCH 39/41] fix: gaussian_process works for a single sample point

---
 src/gpytoolbox/gaussian_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/gaussian_process.py b/src/gpytoolbox/gaussian_process.py
index 0f3ae38..6da438d 100644
--- a/src/gpytoolbox/gaussian_process.py
+++ b/src/gpytoolbox/gaussian_process.py
@@ -203,7 +203,7 @@ class gaussian_process_precompute:
                 print("--------- Training Gaussian Process with", X_train.shape[0],"data points. ---------")
             K3 = cov_matrix_from_function(self.kernel,X_train,X_train,sparse=True,use_gradients=self.use_gradients,compact_support=self.compact_support)        
             if lump_K3:
-                K3 = diags(np.squeeze(np.asarray(K3.sum(axis=1))))
+                K3 = diags(np.asarray(K3.sum(axis=1)).ravel())
             self.inducing_points = False
             self.LU = splu(csc_matrix(K3 + (self.sigma_n**2.0)*eye(K3.shape[0])))
             # plt.spy(K3)
-- 
2.43.0


From 918053ec1232bf492c92419dc4a7258d67a4ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:16 +0000
Subject: [PATCH 40/41] fix: quadtree_laplacian works for a single cell

---
 src/gpytoolbox/quadtree_laplacian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/quadtree_laplacian.py b/src/gpytoolbox/quadtree_laplacian.py
index 9cfaa20..ad1b07f 100644
--- a/src/gpytoolbox/quadtree_laplacian.py
+++ b/src/gpytoolbox/quadtree_laplacian.py
@@ -169,7 +169,7 @@ def quadtree_laplacian(C,W,CH,D,A):
     
     # THE LAPLACIAN IS NEGATIVE SEMI DEFINITE!
     L = -2*csr_matrix((vals,(I,J)),(children.shape[0],children.shape[0]))
-    L = L - diags(np.array(L.sum(axis=1)).squeeze(),0)
+    L = L - diags(np.array(L.sum(axis=1)).ravel(),0)
     stored_at = C[children,:]
     return L, stored_at
     
\ No newline at end of file
-- 
2.43.0


From 452690e64f0a7c01a8e4805d0ea3d7a0db81f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:16 +0000
Subject: [PATCH 41/41] fix: stochastic_poisson works for a single sample point

---
 src/gpytoolbox/stochastic_poisson_surface_reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
index d050619..adb1f61 100644
--- a/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
+++ b/src/gpytoolbox/stochastic_poisson_surface_reconstruction.py
@@ -258,7 +258,7 @@ def stochastic_poisson_surface_reconstruction(P,N,gs=None,h=None,corner=None,out
         # In reality, we approximate K3 with a lumped covariance matrix:
         # K3 = diags(np.squeeze(sampling_density)) + sigma_n*sigma_n*eye(P.shape[0])
         # But we really only need its inverse:
-        K3_inv = diags(1/(np.squeeze(sampling_density) + sigma_n*sigma_n))
+        K3_inv = diags(1/(np.ravel(sampling_density) + sigma_n*sigma_n))
         
 
         ### Step 1.4: Solve for the mean and covariance of the vector field:
-- 
2.43.0

