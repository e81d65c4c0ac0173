From f7d40b4636708dd278cc3f7e6eac4af6adbfa200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 01/32] fix: Random topology crashes on ragged neighbor arrays
 with numpy>=1.24

---
 pyswarms/backend/topology/random.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyswarms/backend/topology/random.py b/pyswarms/backend/topology/random.py
index 7835448..382c349 100644
--- a/pyswarms/backend/topology/random.py
+++ b/pyswarms/backend/topology/random.py
@@ -65,12 +65,12 @@ class Random(Topology):
             # Check if the topology is static or dynamic and assign neighbors
             if (self.static and self.neighbor_idx is None) or not self.static:
                 adj_matrix = self.__compute_neighbors(swarm, k)
-                self.neighbor_idx = np.array(
-                    [
-                        adj_matrix[i].nonzero()[0]
-                        for i in range(swarm.n_particles)
-                    ]
-                )
+                # Particles may differ in their number of neighbors, so keep
+                # a list of index arrays instead of a (ragged) array
+                self.neighbor_idx = [
+                    adj_matrix[i].nonzero()[0]
+                    for i in range(swarm.n_particles)
+                ]
             idx_min = np.array(
                 [
                     swarm.pbest_cost[self.neighbor_idx[i]].argmin()
-- 
2.43.0


From f9862a960da4b3b906d8c0af6099ba97a08d0a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 02/32] fix: Pyramid topology crashes on ragged neighbor arrays
 with numpy>=1.24

---
 pyswarms/backend/topology/pyramid.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index d3d5b2a..b35e986 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -78,12 +78,11 @@ class Pyramid(Topology):
                     )
                     indices, index_pointer = pyramid.vertex_neighbor_vertices
                     # Insert all the neighbors for each particle in the idx array
-                    self.neighbor_idx = np.array(
-                        [
-                            index_pointer[indices[i] : indices[i + 1]]
-                            for i in range(swarm.n_particles)
-                        ]
-                    )
+                    # (particles may differ in their number of neighbors)
+                    self.neighbor_idx = [
+                        index_pointer[indices[i] : indices[i + 1]]
+                        for i in range(swarm.n_particles)
+                    ]
 
                 idx_min = np.array(
                     [
-- 
2.43.0


From f2fe16b83dde508b80a3d7fa404f60b4f0246ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 03/32] fix: Pyramid topology crashes when n_particles ==
 dimensions + 1

---
 pyswarms/backend/topology/pyramid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index b35e986..86d3048 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -61,8 +61,8 @@ class Pyramid(Topology):
             Best cost
         """
         try:
-            # If there are less than (swarm.dimensions + 1) particles they are all connected
-            if swarm.n_particles < swarm.dimensions + 1:
+            # If there are less than (swarm.dimensions + 2) particles they are all connected
+            if swarm.n_particles < swarm.dimensions + 2:
                 self.neighbor_idx = np.tile(
                     np.arange(swarm.n_particles), (swarm.n_particles, 1)
                 )
-- 
2.43.0


From 89ebba07b449d044c67b3bc519af5bd6434913d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 04/32] fix: static Ring with k=1 grows its neighbor array by
 one axis per call

---
 pyswarms/backend/topology/ring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/backend/topology/ring.py b/pyswarms/backend/topology/ring.py
index 0f1ca90..2abf4ec 100644
--- a/pyswarms/backend/topology/ring.py
+++ b/pyswarms/backend/topology/ring.py
@@ -72,7 +72,7 @@ class Ring(Topology):
             # independently of each other.
             if k == 1:
                 # The minimum index is itself, no mapping needed.
-                self.neighbor_idx = self.neighbor_idx[:, np.newaxis]
+                self.neighbor_idx = self.neighbor_idx.reshape(-1, 1)
                 best_neighbor = np.arange(swarm.n_particles)
             else:
                 idx_min = swarm.pbest_cost[self.neighbor_idx].argmin(axis=1)
-- 
2.43.0


From 92258bbc10ab597d8847b7b2685805698b156fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 05/32] fix: Ring neighborhoods lose the particle itself when
 more than k particles coincide

---
 pyswarms/backend/topology/ring.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyswarms/backend/topology/ring.py b/pyswarms/backend/topology/ring.py
index 2abf4ec..240ce49 100644
--- a/pyswarms/backend/topology/ring.py
+++ b/pyswarms/backend/topology/ring.py
@@ -66,6 +66,15 @@ class Ring(Topology):
                 # Obtain the nearest-neighbors for each particle
                 tree = cKDTree(swarm.position)
                 _, self.neighbor_idx = tree.query(swarm.position, p=p, k=k)
+                if k > 1:
+                    # When more than k particles coincide, the query can leave
+                    # out the particle itself. All those neighbors are tied at
+                    # distance zero, so let the particle replace one of them.
+                    itself = np.arange(swarm.n_particles)
+                    missing = (self.neighbor_idx != itself[:, np.newaxis]).all(
+                        axis=1
+                    )
+                    self.neighbor_idx[missing, -1] = itself[missing]
 
             # Map the computed costs to the neighbour indices and take the
             # argmin. If k-neighbors is equal to 1, then the swarm acts
-- 
2.43.0


From 24d97e5156a898081e030bd0c6cfebb526ac70da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 06/32] fix: Star topology has no best position when all first
 costs are infinite

---
 pyswarms/backend/topology/star.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswarms/backend/topology/star.py b/pyswarms/backend/topology/star.py
index 0a166b4..637be49 100644
--- a/pyswarms/backend/topology/star.py
+++ b/pyswarms/backend/topology/star.py
@@ -63,7 +63,10 @@ class Star(Topology):
                 self.neighbor_idx = np.tile(
                     np.arange(swarm.n_particles), (swarm.n_particles, 1)
                 )
-            if np.min(swarm.pbest_cost) < swarm.best_cost:
+            if (
+                np.min(swarm.pbest_cost) < swarm.best_cost
+                or swarm.best_pos.size == 0
+            ):
                 # Get the particle position with the lowest pbest_cost
                 # and assign it to be the best_pos
                 best_pos = swarm.pbest_pos[np.argmin(swarm.pbest_cost)]
-- 
2.43.0


From 640bb10d21902bbb21a64363e4ecf3a75150bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 07/32] fix: a second optimize() call returns the best cost of
 the first one

---
 pyswarms/single/general_optimizer.py | 1 +
 pyswarms/single/global_best.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index a46d3ed..08d7dbe 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -240,6 +240,7 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.best_cost = np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index 3392bfb..f7ae598 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -202,6 +202,7 @@ class GlobalBestPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.best_cost = np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
-- 
2.43.0


From 309d44531a2d47e4400a58781a49f8882238476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 08/32] fix: VelocityHandler zero ignores the velocity clamp

---
 pyswarms/backend/handlers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 61680f5..98f70df 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -539,6 +539,8 @@ class VelocityHandler(HandlerMixin):
             new_vel = velocity
             new_vel[lower_than_bound[0]] = np.zeros(velocity.shape[1])
             new_vel[greater_than_bound[0]] = np.zeros(velocity.shape[1])
+            if clamp is not None:
+                new_vel = self.__apply_clamp(new_vel, clamp)
         except KeyError:
             self.rep.logger.exception("Keyword 'position' or 'bounds' missing")
             raise
-- 
2.43.0


From d137f28c4da6a0ede437e8d04a7ae3ebbeeb1073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 09/32] fix: VelocityHandler invert inverts twice when a
 particle exceeds both bounds

---
 pyswarms/backend/handlers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 98f70df..5e8332c 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -518,10 +518,11 @@ class VelocityHandler(HandlerMixin):
                 kwargs["position"], kwargs["bounds"]
             )
             new_vel = velocity
-            new_vel[lower_than_bound[0]] = (-z) * new_vel[lower_than_bound[0]]
-            new_vel[greater_than_bound[0]] = (-z) * new_vel[
-                greater_than_bound[0]
-            ]
+            # A particle may exceed lower and upper bounds at the same time
+            out_of_bounds = np.union1d(
+                lower_than_bound[0], greater_than_bound[0]
+            )
+            new_vel[out_of_bounds] = (-z) * new_vel[out_of_bounds]
             if clamp is not None:
                 new_vel = self.__apply_clamp(new_vel, clamp)
         except KeyError:
-- 
2.43.0


From f958986f664a9046f05c10ea4ec31945f2775c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 10/32] fix: VelocityHandler adjust ignores the velocity clamp
 on its first call

---
 pyswarms/backend/handlers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 5e8332c..fb5e498 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -488,8 +488,8 @@ class VelocityHandler(HandlerMixin):
             else:
                 new_vel = kwargs["position"] - self.memory
                 self.memory = kwargs["position"]
-                if clamp is not None:
-                    new_vel = self.__apply_clamp(new_vel, clamp)
+            if clamp is not None:
+                new_vel = self.__apply_clamp(new_vel, clamp)
         except KeyError:
             self.rep.logger.exception("Keyword 'position' missing")
             raise
-- 
2.43.0


From c867efa1dbc6cf0eddcc4273556980191ef91727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 11/32] fix: OptionsHandler random raises KeyError unless
 end_opts is given

---
 pyswarms/backend/handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index fb5e498..8d8a668 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -718,7 +718,7 @@ class OptionsHandler(HandlerMixin):
         """
         
         start = start_opts[opt]
-        if opt in kwargs["end_opts"]:
+        if opt in kwargs.get("end_opts", {}):
             end = kwargs["end_opts"][opt]
         else:
             end = start + 1
-- 
2.43.0


From d6d47533b7e0d67c56d3a36614be3ecbacb8e946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 12/32] fix: compute_position fails for integer positions

---
 pyswarms/backend/operators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyswarms/backend/operators.py b/pyswarms/backend/operators.py
index 71041e0..da27d5d 100644
--- a/pyswarms/backend/operators.py
+++ b/pyswarms/backend/operators.py
@@ -194,8 +194,7 @@ def compute_position(swarm, bounds, bh):
         New position-matrix
     """
     try:
-        temp_position = swarm.position.copy()
-        temp_position += swarm.velocity
+        temp_position = swarm.position + swarm.velocity
 
         if bounds is not None:
             temp_position = bh(temp_position, bounds)
-- 
2.43.0


From b3e88d3693e41b859455fe4b7349fb49566ac027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 13/32] fix: BoundaryHandler reflective, shrink and
 intermediate fail for bounds given as lists

---
 pyswarms/backend/handlers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 8d8a668..141b4e1 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -130,6 +130,8 @@ class BoundaryHandler(HandlerMixin):
         numpy.ndarray
             the adjusted positions of the swarm
         """
+        # Bounds may be passed as lists
+        bounds = tuple(np.asarray(bound) for bound in bounds)
         try:
             new_position = self.strategies[self.strategy](
                 position, bounds, **kwargs
-- 
2.43.0


From 79c2ef75aef21170eaad80e8585ae24a66695856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 14/32] fix: BoundaryHandler shrink leaves particles out of
 bounds by a rounding error

---
 pyswarms/backend/handlers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 141b4e1..d037e3e 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -281,6 +281,8 @@ class BoundaryHandler(HandlerMixin):
                     velocity[greater_than_bound[0]].T,
                 ).T
             )
+            # Rounding errors must not leave a particle out of bounds
+            new_pos = np.clip(new_pos, lb, ub)
             self.memory = new_pos
         return new_pos
 
-- 
2.43.0


From 7ed44b909e7880777950e5d03e204b5251655968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 15/32] fix: BoundaryHandler random puts all repaired particles
 on the same position

---
 pyswarms/backend/handlers.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index d037e3e..caff157 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -298,19 +298,20 @@ class BoundaryHandler(HandlerMixin):
         )
         # Set indices that are greater than bounds
         new_pos = position
-        new_pos[greater_than_bound[0]] = np.array(
-            [
-                np.array([u - l for u, l in zip(ub, lb)])
-                * np.random.random_sample((position.shape[1],))
-                + lb
-            ]
+        # (every particle gets a random position of its own)
+        new_pos[greater_than_bound[0]] = (
+            np.array([u - l for u, l in zip(ub, lb)])
+            * np.random.random_sample(
+                (len(greater_than_bound[0]), position.shape[1])
+            )
+            + lb
         )
-        new_pos[lower_than_bound[0]] = np.array(
-            [
-                np.array([u - l for u, l in zip(ub, lb)])
-                * np.random.random_sample((position.shape[1],))
-                + lb
-            ]
+        new_pos[lower_than_bound[0]] = (
+            np.array([u - l for u, l in zip(ub, lb)])
+            * np.random.random_sample(
+                (len(lower_than_bound[0]), position.shape[1])
+            )
+            + lb
         )
         return new_pos
 
-- 
2.43.0


From 20a0a985a0aa0bc9a3e4dddc7fcfef28e8713aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 16/32] fix: BinaryPSO shares one random vector between all
 particles

---
 pyswarms/discrete/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index ed20b8f..73fef95 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -262,7 +262,7 @@ class BinaryPSO(DiscreteSwarmOptimizer):
             a Swarm class
         """
         return (
-            np.random.random_sample(size=swarm.dimensions)
+            np.random.random_sample(size=swarm.velocity.shape)
             < self._sigmoid(swarm.velocity)
         ) * 1
 
-- 
2.43.0


From d9ff502b17f5cade1f0ebb72741b1766c7fedc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 17/32] fix: generate_swarm accepts an init_pos of the wrong
 shape

---
 pyswarms/backend/generators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyswarms/backend/generators.py b/pyswarms/backend/generators.py
index 4a8ab11..49449bc 100644
--- a/pyswarms/backend/generators.py
+++ b/pyswarms/backend/generators.py
@@ -58,6 +58,10 @@ def generate_swarm(
         When the argument passed to bounds is not an iterable.
     """
     try:
+        if (init_pos is not None) and (
+            np.shape(init_pos) != (n_particles, dimensions)
+        ):
+            raise ValueError("User-defined init_pos has the wrong shape.")
         if (init_pos is not None) and (bounds is None):
             pos = init_pos
         elif (init_pos is not None) and (bounds is not None):
-- 
2.43.0


From a8aa6dd573ab454d20700aa43992b0bd152e77e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 18/32] fix: parallel evaluation calls the objective function
 with empty chunks

---
 pyswarms/backend/operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyswarms/backend/operators.py b/pyswarms/backend/operators.py
index da27d5d..0dc3b05 100644
--- a/pyswarms/backend/operators.py
+++ b/pyswarms/backend/operators.py
@@ -239,6 +239,8 @@ def compute_objective_function(swarm, objective_func, pool=None, **kwargs):
     else:
         results = pool.map(
             partial(objective_func, **kwargs),
-            np.array_split(swarm.position, pool._processes),
+            np.array_split(
+                swarm.position, min(pool._processes, len(swarm.position))
+            ),
         )
         return np.concatenate(results)
-- 
2.43.0


From b317fafbf3201c14761238b0f9d0e62fc5a05446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 19/32] fix: parallel mesh computations call the objective
 function with empty chunks

---
 pyswarms/utils/plotters/formatters.py | 5 ++++-
 pyswarms/utils/plotters/plotters.py   | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyswarms/utils/plotters/formatters.py b/pyswarms/utils/plotters/formatters.py
index 38a35e7..00348f5 100644
--- a/pyswarms/utils/plotters/formatters.py
+++ b/pyswarms/utils/plotters/formatters.py
@@ -200,7 +200,10 @@ class Mesher(object):
                 # Parallelize particles
                 r_map_split = pool.map(
                     self.func,
-                    np.array_split(np.array(pos_history[i]), pool._processes),
+                    np.array_split(
+                        np.array(pos_history[i]),
+                        min(pool._processes, len(pos_history[i])),
+                    ),
                 )
                 iter_r.append(np.array(np.concatenate(r_map_split)))
             fitness = np.array(iter_r)
diff --git a/pyswarms/utils/plotters/plotters.py b/pyswarms/utils/plotters/plotters.py
index 4bfd959..7ba8221 100644
--- a/pyswarms/utils/plotters/plotters.py
+++ b/pyswarms/utils/plotters/plotters.py
@@ -420,7 +420,8 @@ def _mesh(mesher, n_processes=None):
         z = mesher.func(xypairs)
     else:
         results = pool.map(
-            mesher.func, np.array_split(xypairs, pool._processes)
+            mesher.func,
+            np.array_split(xypairs, min(pool._processes, len(xypairs))),
         )
         z = np.concatenate(results)
 
-- 
2.43.0


From f1b14db396378db70c2c96e91c53452ef3c8fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 20/32] fix: reset() keeps the neighborhoods of a static
 topology

---
 pyswarms/base/base_single.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyswarms/base/base_single.py b/pyswarms/base/base_single.py
index ad6d27d..4f52e9a 100644
--- a/pyswarms/base/base_single.py
+++ b/pyswarms/base/base_single.py
@@ -200,6 +200,10 @@ class SwarmOptimizer(abc.ABC):
         self.pos_history = []
         self.velocity_history = []
 
+        # A static topology has to find the neighbors of the new swarm
+        if hasattr(self, "top"):
+            self.top.neighbor_idx = None
+
         # Initialize the swarm
         self.swarm = create_swarm(
             n_particles=self.n_particles,
-- 
2.43.0


From 429819a16ff71f5ae70d922eba0999151264b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 21/32] fix: plot_surface draws nothing with matplotlib>=3.7

---
 pyswarms/utils/plotters/plotters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyswarms/utils/plotters/plotters.py b/pyswarms/utils/plotters/plotters.py
index 7ba8221..e81d9e1 100644
--- a/pyswarms/utils/plotters/plotters.py
+++ b/pyswarms/utils/plotters/plotters.py
@@ -347,6 +347,7 @@ def plot_surface(
 
         # Initialize 3D-axis
         ax = Axes3D(fig)
+        fig.add_axes(ax)
 
         n_iters = len(pos_history)
 
-- 
2.43.0


From c56c8c1f0a8909a61469f4985612c6f89b473d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 22/32] fix: Pyramid neighborhoods depend on the scale of the
 swarm

---
 pyswarms/backend/topology/pyramid.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index 86d3048..e35b7c7 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -73,8 +73,14 @@ class Pyramid(Topology):
                 if (
                     self.static and self.neighbor_idx is None
                 ) or not self.static:
+                    # Triangulate in units of the swarm's extent, so that the
+                    # joggle is negligible whatever the scale of the swarm
+                    points = swarm.position - np.min(swarm.position, axis=0)
+                    extent = np.max(points)
+                    if extent > 0:
+                        points = points / extent
                     pyramid = Delaunay(
-                        swarm.position, qhull_options="QJ0.001 Qbb Qc Qx"
+                        points, qhull_options="QJ1e-6 Qbb Qc Qx"
                     )
                     indices, index_pointer = pyramid.vertex_neighbor_vertices
                     # Insert all the neighbors for each particle in the idx array
-- 
2.43.0


From 5c30103d0f5ed001a3e9b6edaa8b0b19045dc59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 23/32] fix: a second optimize() call with infinite costs only
 crashes

---
 pyswarms/single/general_optimizer.py | 2 +-
 pyswarms/single/global_best.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index 08d7dbe..e16ff1e 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -240,7 +240,7 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
-        self.swarm.best_cost = np.inf
+        self.swarm.best_cost = np.float64(np.inf)
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index f7ae598..9c59118 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -202,7 +202,7 @@ class GlobalBestPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
-        self.swarm.best_cost = np.inf
+        self.swarm.best_cost = np.float64(np.inf)
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
-- 
2.43.0


From 7ab4e1da6ecf5b674a5c662cdfae3948d32c1afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 24/32] fix: Pyramid topology crashes when particles coincide

---
 pyswarms/backend/topology/pyramid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index e35b7c7..07ef471 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -89,6 +89,12 @@ class Pyramid(Topology):
                         index_pointer[indices[i] : indices[i + 1]]
                         for i in range(swarm.n_particles)
                     ]
+                    # A particle on top of another one may be no vertex of the
+                    # triangulation: it only has itself
+                    self.neighbor_idx = [
+                        idx if len(idx) else np.array([i])
+                        for i, idx in enumerate(self.neighbor_idx)
+                    ]
 
                 idx_min = np.array(
                     [
-- 
2.43.0


From 62c66ed2d1bf23ae77ddbcb89d990599a4c77d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 25/32] fix: swarms created without options share one options
 dictionary

---
 pyswarms/backend/generators.py | 6 ++++--
 pyswarms/backend/swarms.py     | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyswarms/backend/generators.py b/pyswarms/backend/generators.py
index 49449bc..5a397cc 100644
--- a/pyswarms/backend/generators.py
+++ b/pyswarms/backend/generators.py
@@ -193,7 +193,7 @@ def create_swarm(
     dimensions,
     discrete=False,
     binary=False,
-    options={},
+    options=None,
     bounds=None,
     center=1.0,
     init_pos=None,
@@ -246,4 +246,6 @@ def create_swarm(
         )
 
     velocity = generate_velocity(n_particles, dimensions, clamp=clamp)
-    return Swarm(position, velocity, options=options)
+    return Swarm(
+        position, velocity, options={} if options is None else options
+    )
diff --git a/pyswarms/backend/swarms.py b/pyswarms/backend/swarms.py
index f3817cb..26a9527 100644
--- a/pyswarms/backend/swarms.py
+++ b/pyswarms/backend/swarms.py
@@ -87,7 +87,7 @@ class Swarm(object):
     # With defaults
     n_particles = attrib(type=int, validator=instance_of(int))
     dimensions = attrib(type=int, validator=instance_of(int))
-    options = attrib(type=dict, default={}, validator=instance_of(dict))
+    options = attrib(type=dict, factory=dict, validator=instance_of(dict))
     pbest_pos = attrib(type=np.ndarray, validator=instance_of(np.ndarray))
     best_pos = attrib(
         type=np.ndarray,
-- 
2.43.0


From bd7a19467a1c10161f5f795b68ac570886504967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 26/32] fix: personal bests of an earlier optimize() call
 survive when a later call only sees infinite costs

---
 pyswarms/discrete/binary.py          | 1 +
 pyswarms/single/general_optimizer.py | 1 +
 pyswarms/single/global_best.py       | 1 +
 pyswarms/single/local_best.py        | 1 +
 4 files changed, 4 insertions(+)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index 73fef95..df0e260 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -189,6 +189,7 @@ class BinaryPSO(DiscreteSwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.pbest_pos = self.swarm.position
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index e16ff1e..b2d0743 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -240,6 +240,7 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.pbest_pos = self.swarm.position
         self.swarm.best_cost = np.float64(np.inf)
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index 9c59118..7bf1d74 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -202,6 +202,7 @@ class GlobalBestPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.pbest_pos = self.swarm.position
         self.swarm.best_cost = np.float64(np.inf)
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
diff --git a/pyswarms/single/local_best.py b/pyswarms/single/local_best.py
index 146442d..8672a45 100644
--- a/pyswarms/single/local_best.py
+++ b/pyswarms/single/local_best.py
@@ -226,6 +226,7 @@ class LocalBestPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.pbest_pos = self.swarm.position
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
-- 
2.43.0


From a98816ac664ee962b21bcd92085aef79c192ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 27/32] fix: pyswarms.base exports a name that does not exist

---
 pyswarms/base/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/base/__init__.py b/pyswarms/base/__init__.py
index 6c0d4b7..3b3623b 100644
--- a/pyswarms/base/__init__.py
+++ b/pyswarms/base/__init__.py
@@ -6,4 +6,4 @@ swarm classes to implement variants of particle swarm optimization.
 from .base_single import SwarmOptimizer
 from .base_discrete import DiscreteSwarmOptimizer
 
-__all__ = ["SwarmOptimizer" "DiscreteSwarmOptimizer"]
+__all__ = ["SwarmOptimizer", "DiscreteSwarmOptimizer"]
-- 
2.43.0


From 8de06ccce98335722c5c76a239a8050cc6198cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 28/32] fix: draw contour plots in the designer's colormap

Designer.colormap is documented as the colormap for contour plots, but
plot_contour ignored it.
---
 pyswarms/utils/plotters/plotters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyswarms/utils/plotters/plotters.py b/pyswarms/utils/plotters/plotters.py
index e81d9e1..35c87f5 100644
--- a/pyswarms/utils/plotters/plotters.py
+++ b/pyswarms/utils/plotters/plotters.py
@@ -219,7 +219,9 @@ def plot_contour(
         # Make a contour map if possible
         if mesher is not None:
             (xx, yy, zz) = _mesh(mesher, n_processes=n_processes)
-            ax.contour(xx, yy, zz, levels=mesher.levels)
+            ax.contour(
+                xx, yy, zz, levels=mesher.levels, cmap=designer.colormap
+            )
 
         # Mark global best if possible
         if mark is not None:
-- 
2.43.0


From 7cf335cb965c4649e7b41940454a1c3827216d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 29/32] fix: do not share the default lists between designers
 and meshers

Changing the limits, labels or levels of one object in place changed the
default of every later one.
---
 pyswarms/utils/plotters/formatters.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyswarms/utils/plotters/formatters.py b/pyswarms/utils/plotters/formatters.py
index 00348f5..73269ba 100644
--- a/pyswarms/utils/plotters/formatters.py
+++ b/pyswarms/utils/plotters/formatters.py
@@ -67,11 +67,11 @@ class Designer(object):
     legend = attrib(validator=instance_of(str), default="Cost")
     label = attrib(
         validator=instance_of((str, list, tuple)),
-        default=["x-axis", "y-axis", "z-axis"],
+        factory=lambda: ["x-axis", "y-axis", "z-axis"],
     )
     limits = attrib(
         validator=instance_of((list, tuple)),
-        default=[(-1, 1), (-1, 1), (-1, 1)],
+        factory=lambda: [(-1, 1), (-1, 1), (-1, 1)],
     )
     colormap = attrib(
         validator=instance_of(colors.Colormap), default=cm.viridis
@@ -160,9 +160,10 @@ class Mesher(object):
     # For mesh creation
     delta = attrib(type=float, default=0.001)
     limits = attrib(
-        validator=instance_of((list, tuple)), default=[(-1, 1), (-1, 1)]
+        validator=instance_of((list, tuple)),
+        factory=lambda: [(-1, 1), (-1, 1)],
     )
-    levels = attrib(type=list, default=np.arange(-2.0, 2.0, 0.070))
+    levels = attrib(type=list, factory=lambda: np.arange(-2.0, 2.0, 0.070))
     # Surface transparency
     alpha = attrib(type=float, validator=instance_of(float), default=0.3)
 
-- 
2.43.0


From f84631b75833daf5fa6bc951571d09e1b58d92ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:13 +0000
Subject: [PATCH 30/32] fix: accept a plain number as the best cost a topology
 returns

---
 pyswarms/single/general_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index b2d0743..05e3be6 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -58,6 +58,7 @@ R.C. Eberhart in Particle Swarm Optimization [IJCNN1995]_.
 
 # Import standard library
 import logging
+from copy import copy
 
 # Import modules
 import numpy as np
@@ -289,7 +290,8 @@ class GeneralOptimizerPSO(SwarmOptimizer):
                 self.swarm, self.bounds, self.bh
             )
         # Obtain the final best_cost and the final best_position
-        final_best_cost = self.swarm.best_cost.copy()
+        # A custom topology may return a plain number as cost
+        final_best_cost = copy(self.swarm.best_cost)
         final_best_pos = self.swarm.pbest_pos[
             self.swarm.pbest_cost.argmin()
         ].copy()
-- 
2.43.0


From 599df5b964a6f22e93c0f91d56e54ff2ca269973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:04 +0000
Subject: [PATCH 31/32] fix: join the worker pool so that its processes end
 with the call

---
 pyswarms/discrete/binary.py           | 1 +
 pyswarms/single/general_optimizer.py  | 1 +
 pyswarms/single/global_best.py        | 1 +
 pyswarms/single/local_best.py         | 1 +
 pyswarms/utils/plotters/formatters.py | 1 +
 pyswarms/utils/plotters/plotters.py   | 1 +
 6 files changed, 6 insertions(+)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index df0e260..61c2ad7 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -247,6 +247,7 @@ class BinaryPSO(DiscreteSwarmOptimizer):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
 
         return (final_best_cost, final_best_pos)
 
diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index 05e3be6..9a8d8ed 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -305,4 +305,5 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
         return (final_best_cost, final_best_pos)
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index 7bf1d74..0d6e61e 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -263,4 +263,5 @@ class GlobalBestPSO(SwarmOptimizer):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
         return (final_best_cost, final_best_pos)
diff --git a/pyswarms/single/local_best.py b/pyswarms/single/local_best.py
index 8672a45..df179b3 100644
--- a/pyswarms/single/local_best.py
+++ b/pyswarms/single/local_best.py
@@ -290,4 +290,5 @@ class LocalBestPSO(SwarmOptimizer):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
         return (final_best_cost, final_best_pos)
diff --git a/pyswarms/utils/plotters/formatters.py b/pyswarms/utils/plotters/formatters.py
index 73269ba..6c2afe6 100644
--- a/pyswarms/utils/plotters/formatters.py
+++ b/pyswarms/utils/plotters/formatters.py
@@ -212,5 +212,6 @@ class Mesher(object):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
 
         return np.dstack((pos_history, fitness))
diff --git a/pyswarms/utils/plotters/plotters.py b/pyswarms/utils/plotters/plotters.py
index 35c87f5..8c64c1e 100644
--- a/pyswarms/utils/plotters/plotters.py
+++ b/pyswarms/utils/plotters/plotters.py
@@ -431,6 +431,7 @@ def _mesh(mesher, n_processes=None):
     # Close Pool of Processes
     if n_processes is not None:
         pool.close()
+        pool.join()
 
     zz = z.reshape(xx.shape)
     return (xx, yy, zz)
-- 
2.43.0


From 4e534211299d275c7abf0611bd1430556516d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:04 +0000
Subject: [PATCH 32/32] fix: do not keep the caller's init_pos array as the
 swarm's first positions

The recorded history and the swarm shared it, so that overwriting it changed them.
---
 pyswarms/backend/generators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyswarms/backend/generators.py b/pyswarms/backend/generators.py
index 5a397cc..503fa1e 100644
--- a/pyswarms/backend/generators.py
+++ b/pyswarms/backend/generators.py
@@ -11,6 +11,7 @@ here to dictate how a swarm is initialized for your custom PSO.
 
 # Import standard library
 import logging
+from copy import copy
 
 # Import modules
 import numpy as np
@@ -63,13 +64,13 @@ def generate_swarm(
         ):
             raise ValueError("User-defined init_pos has the wrong shape.")
         if (init_pos is not None) and (bounds is None):
-            pos = init_pos
+            pos = copy(init_pos)
         elif (init_pos is not None) and (bounds is not None):
             if not (
                 np.all(bounds[0] <= init_pos) and np.all(init_pos <= bounds[1])
             ):
                 raise ValueError("User-defined init_pos is out of bounds.")
-            pos = init_pos
+            pos = copy(init_pos)
         elif (init_pos is None) and (bounds is None):
             pos = center * np.random.uniform(
                 low=0.0, high=1.0, size=(n_particles, dimensions)
@@ -132,9 +133,9 @@ def generate_discrete_swarm(
             if not len(np.unique(init_pos)) <= 2:
                 raise ValueError("User-defined init_pos is not binary!")
             # init_pos maybe ones
-            pos = init_pos
+            pos = copy(init_pos)
         elif (init_pos is not None) and not binary:
-            pos = init_pos
+            pos = copy(init_pos)
         elif (init_pos is None) and binary:
             pos = np.random.randint(2, size=(n_particles, dimensions))
         else:
-- 
2.43.0

