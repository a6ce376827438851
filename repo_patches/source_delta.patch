From 3b1c6e8175ec31dad0638a2efa7c9da68f79eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 01/22] fix: place repeated Cartesian motifs at integer
 combinations of the lattice vectors

build_from used matrix @ n, which is only right for symmetric lattice matrices.
---
 src/pylattica/core/periodic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index e364bc0..891e512 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -82,7 +82,7 @@ class PeriodicStructure:
         vec_coeffs = get_points_in_box([0 for _ in range(new_lattice.dim)], num_cells)
         for vec_coeff_set in vec_coeffs:
             if not frac_coords:  # convert lattice points to "cartesian coordinates"
-                point = lattice.matrix @ np.array(vec_coeff_set)
+                point = lattice.get_cartesian_coords(vec_coeff_set)
             else:
                 point = np.array(vec_coeff_set)
 
-- 
2.43.0


From 8b9ee0fc77c08d91f82d469c8cf59caaa98cd49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 02/22] fix: wrap coordinates that float noise leaves just
 below a cell boundary

floor() of 0.9999999999999999 or -1e-17 kept such points out of the cell they
belong to, so site_at() missed periodic images for spacings such as 0.1 or 0.3.
---
 src/pylattica/core/constants.py | 1 +
 src/pylattica/core/lattice.py   | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/constants.py b/src/pylattica/core/constants.py
index f548921..fa4b4f5 100644
--- a/src/pylattica/core/constants.py
+++ b/src/pylattica/core/constants.py
@@ -5,3 +5,4 @@ STATE_VALUE = "_state_value"
 GENERAL = "GENERAL"
 SITES = "SITES"
 OFFSET_PRECISION = 3
+FRAC_PRECISION = 8
diff --git a/src/pylattica/core/lattice.py b/src/pylattica/core/lattice.py
index 8d081c3..9a93ce2 100644
--- a/src/pylattica/core/lattice.py
+++ b/src/pylattica/core/lattice.py
@@ -4,7 +4,7 @@ from typing import List, Tuple, Union
 
 import numpy as np
 from numpy.typing import ArrayLike
-from .constants import OFFSET_PRECISION
+from .constants import FRAC_PRECISION, OFFSET_PRECISION
 import math
 
 
@@ -27,7 +27,9 @@ def periodize(frac_coords, periodic: Union[Tuple[bool], bool] = True):
     if not isinstance(periodic, tuple):
         periodic = [periodic for _ in frac_coords]
 
-    return frac_coords - np.floor(frac_coords) * np.array(periodic, dtype=int)
+    # coordinates within floating point noise of a cell boundary belong to it
+    cells = np.floor(np.round(frac_coords, FRAC_PRECISION))
+    return frac_coords - cells * np.array(periodic, dtype=int)
 
 
 def pbc_diff_frac_vec(fcoords1: ArrayLike, fcoords2: ArrayLike, periodic):
-- 
2.43.0


From 213a5dec9c7fb14a0f1f8e5877a7d055db72528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 03/22] fix: skip motif neighbors that fall where there is no
 site

Off the edge of a non-periodic structure id_at() gives None, which crashed the
neighborhood builder.
---
 src/pylattica/core/neighborhood_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index 961754f..d2d6edc 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -246,7 +246,7 @@ class MotifNeighborhoodBuilder(NeighborhoodBuilder):
         for neighbor_vec in self._motif:
             loc = tuple(s + n for s, n in zip(location, neighbor_vec))
             nb_id = struct.id_at(loc)
-            if nb_id != curr_site[SITE_ID]:
+            if nb_id is not None and nb_id != curr_site[SITE_ID]:
                 nbs.append((nb_id, self.distances.get_dist(neighbor_vec)))
         return nbs
 
-- 
2.43.0


From 135d77f12a653ba528ab7806ce23b96f00223dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 04/22] fix: accept a batch update that has site updates but no
 general updates

It was taken for a site-id map and created a site called SITES.
---
 src/pylattica/core/simulation_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/simulation_state.py b/src/pylattica/core/simulation_state.py
index b6a92ab..5c49e2b 100644
--- a/src/pylattica/core/simulation_state.py
+++ b/src/pylattica/core/simulation_state.py
@@ -155,11 +155,11 @@ class SimulationState:
             The updates to apply as a batch.
         """
 
-        if GENERAL in update_batch:
+        if GENERAL in update_batch or SITES in update_batch:
             for site_id, updates in update_batch.get(SITES, {}).items():
                 self.set_site_state(site_id, updates)
 
-            self.set_general_state(update_batch[GENERAL])
+            self.set_general_state(update_batch.get(GENERAL, {}))
         else:
             for site_id, updates in update_batch.items():
                 self.set_site_state(site_id, updates)
-- 
2.43.0


From f91664b21ea865a623957567f01e049824c3e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 05/22] fix: load saved results whose steps hold site and
 general updates

Runner-produced diffs made from_dict raise ValueError, and general updates were dropped.
---
 src/pylattica/core/simulation_result.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 44d3440..f406b3c 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -4,6 +4,7 @@ from typing import Dict, List
 
 from monty.serialization import dumpfn, loadfn
 import datetime
+from .constants import GENERAL, SITES
 from .simulation_state import SimulationState
 
 
@@ -25,7 +26,11 @@ class SimulationResult:
         diffs = res_dict["diffs"]
         res = cls(SimulationState.from_dict(res_dict["initial_state"]))
         for diff in diffs:
-            formatted = {int(k): v for k, v in diff.items() if k != "GENERAL"}
+            if SITES in diff or GENERAL in diff:
+                site_diffs = {int(k): v for k, v in diff.get(SITES, {}).items()}
+                formatted = {SITES: site_diffs, GENERAL: diff.get(GENERAL, {})}
+            else:
+                formatted = {int(k): v for k, v in diff.items()}
             res.add_step(formatted)
         return res
 
-- 
2.43.0


From fb91879e454bb8f8f9de7d403d52e391398ceccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 06/22] fix: steps() yields every step, the last one included

It stopped one short and yielded one object that later steps changed, so phases
first appearing in the last step were missing from result analyses.
---
 src/pylattica/core/simulation_result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index f406b3c..3216488 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -77,9 +77,10 @@ class SimulationResult:
             The list of steps
         """
         live_state = self.initial_state.copy()
+        yield live_state.copy()
         for diff in self._diffs:
-            yield live_state
             live_state.batch_update(diff)
+            yield live_state.copy()
 
     @property
     def last_step(self) -> SimulationState:
-- 
2.43.0


From 36b65cec85ce32c913f38bc874c759e6a9ee55fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 07/22] fix: give every parallel batch the current state

Workers kept their own copy and only applied the last updates when handed a
batch, so one that got no batch in a step ran on stale states. The run's output
also stayed at the initial state.
---
 src/pylattica/core/runner/synchronous_runner.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index ab49ce7..fafb96e 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -65,11 +65,11 @@ class SynchronousRunner(Runner):
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
             )
             with mp.get_context("fork").Pool(PROCESSES) as pool:
-                updates = {}
                 for _ in tqdm(range(num_steps)):
                     updates = self._take_step_parallel(
-                        updates, pool, chunk_size=chunk_size
+                        live_state, pool, chunk_size=chunk_size
                     )
+                    live_state.batch_update(updates)
                     result.add_step(updates)
         else:
             printif(verbose, "Running in series.")
@@ -81,7 +81,9 @@ class SynchronousRunner(Runner):
         result.set_output(live_state)
         return result
 
-    def _take_step_parallel(self, updates: dict, pool, chunk_size) -> SimulationState:
+    def _take_step_parallel(
+        self, state: SimulationState, pool, chunk_size
+    ) -> SimulationState:
         params = []
         site_ids = mp_globals["initial_state"].site_ids()
         num_sites = len(site_ids)
@@ -90,7 +92,7 @@ class SynchronousRunner(Runner):
         ]
 
         for batch in site_batches:
-            params.append([batch, updates])
+            params.append([batch, state])
 
         results = pool.starmap(_step_batch_parallel, params)
         all_updates = None
@@ -108,9 +110,9 @@ class SynchronousRunner(Runner):
         return updates
 
 
-def _step_batch_parallel(id_batch: List[int], last_updates: dict):  # pragma: no cover
-    state = mp_globals["initial_state"]
-    state.batch_update(last_updates)
+def _step_batch_parallel(
+    id_batch: List[int], state: SimulationState
+):  # pragma: no cover
     return _step_batch(id_batch, state, mp_globals["controller"])
 
 
-- 
2.43.0


From ae2dfef14bfca370ebb4dafd1537e9110d96fc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 08/22] fix: let a controller return None when nothing changes

A step in which no site had an update crashed the runners.
---
 src/pylattica/core/runner/asynchronous_runner.py | 5 ++++-
 src/pylattica/core/runner/synchronous_runner.py  | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/runner/asynchronous_runner.py b/src/pylattica/core/runner/asynchronous_runner.py
index fbfe19a..09fa46c 100644
--- a/src/pylattica/core/runner/asynchronous_runner.py
+++ b/src/pylattica/core/runner/asynchronous_runner.py
@@ -3,6 +3,7 @@ from collections import deque
 from tqdm import tqdm
 
 from ..basic_controller import BasicController
+from ..constants import GENERAL, SITES
 from ..simulation_result import SimulationResult
 from ..simulation_state import SimulationState
 
@@ -83,7 +84,9 @@ class AsynchronousRunner(Runner):
             else:
                 state_updates = controller_response
 
-            state_updates = merge_updates(state_updates, site_id=site_id)
+            state_updates = merge_updates(
+                state_updates, {SITES: {}, GENERAL: {}}, site_id=site_id
+            )
             live_state.batch_update(state_updates)
             site_queue.extend(next_sites)
             result.add_step(state_updates)
diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index fafb96e..d60a4a6 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -5,6 +5,7 @@ from typing import List
 from tqdm import tqdm
 
 from ..basic_controller import BasicController
+from ..constants import GENERAL, SITES
 from ..simulation_result import SimulationResult
 from ..simulation_state import SimulationState
 from ..utils import printif
@@ -119,7 +120,7 @@ def _step_batch_parallel(
 def _step_batch(
     id_batch: List[int], previous_state: SimulationState, controller: BasicController
 ):
-    batch_updates = None
+    batch_updates = {SITES: {}, GENERAL: {}}
     for site_id in id_batch:
         site_updates = controller.get_state_update(site_id, previous_state)
         batch_updates = merge_updates(site_updates, batch_updates, site_id)
-- 
2.43.0


From cef6aeadf24d3985bb237242afb56d4abfd6d5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 09/22] fix: get_random_site() picks one of the state's site
 ids

It returned a random position, which is no site id when ids are not 0..n-1.
---
 src/pylattica/core/basic_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/basic_controller.py b/src/pylattica/core/basic_controller.py
index 33d6e04..8fa253e 100644
--- a/src/pylattica/core/basic_controller.py
+++ b/src/pylattica/core/basic_controller.py
@@ -25,7 +25,7 @@ class BasicController(ABC):
         pass
 
     def get_random_site(self, state: SimulationState):
-        return random.randint(0, len(state.site_ids()) - 1)
+        return random.choice(state.site_ids())
 
     def instantiate_result(self, starting_state: SimulationState):
         return SimulationResult(starting_state=starting_state)
-- 
2.43.0


From 9217284dd75549d95c422f2319b58bac429bdc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 10/22] fix: let stochastic neighborhoods be built for one site
 class

A SiteClassNeighborhoodBuilder could not use one: get() took no site_class.
---
 src/pylattica/core/neighborhood_builders.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index d2d6edc..98f74d7 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -73,7 +73,7 @@ class StochasticNeighborhoodBuilder(NeighborhoodBuilder):
         """
         self.builders = builders
 
-    def get(self, struct: PeriodicStructure) -> Neighborhood:
+    def get(self, struct: PeriodicStructure, site_class: str = None) -> Neighborhood:
         """For the provided structure, calculate the StochasticNeighborhood
         specified by the list of builders originally provided to this class.
 
@@ -81,13 +81,16 @@ class StochasticNeighborhoodBuilder(NeighborhoodBuilder):
         ----------
         struct : PeriodicStructure
             The structure for which the neighborhood should be calculated.
+        site_class : str, optional
+            Specify a single class of sites to calculate the neighborhood for,
+            by default None
 
         Returns
         -------
         Neighborhood
             The resulting StochasticNeighborhood
         """
-        return StochasticNeighborhood([b.get(struct) for b in self.builders])
+        return StochasticNeighborhood([b.get(struct, site_class) for b in self.builders])
 
 
 class DistanceNeighborhoodBuilder(NeighborhoodBuilder):
@@ -266,7 +269,7 @@ class SiteClassNeighborhoodBuilder(NeighborhoodBuilder):
         """
         self._builders = nb_builders
 
-    def get(self, struct: PeriodicStructure) -> Neighborhood:
+    def get(self, struct: PeriodicStructure, site_class: str = None) -> Neighborhood:
         """Constructs the neighborhood of every site in the provided
         structure, conditional on the class of each site.
 
@@ -274,6 +277,9 @@ class SiteClassNeighborhoodBuilder(NeighborhoodBuilder):
         ----------
         struct : PeriodicStructure
             The structure for which the neigborhood should be calculated.
+        site_class : str, optional
+            Specify a single class of sites to calculate the neighborhood for,
+            by default None
 
         Returns
         -------
@@ -282,6 +288,8 @@ class SiteClassNeighborhoodBuilder(NeighborhoodBuilder):
         """
         nbhood_map = {}
         for sclass, builder in self._builders.items():
+            if site_class is not None and sclass != site_class:
+                continue
             nbhood = builder.get(struct, site_class=sclass)
             nbhood_map[sclass] = nbhood
 
-- 
2.43.0


From 8185686d75646c2341c0563bcdf0a050ff0f8622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 11/22] fix: periodic distances are those of the shortest image
 in skewed cells too

Rounding each fractional coordinate finds the shortest image only when the
lattice vectors are orthogonal: in a 60 degree cell, neighbors were missed.
---
 src/pylattica/core/lattice.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/pylattica/core/lattice.py b/src/pylattica/core/lattice.py
index 9a93ce2..1f732e7 100644
--- a/src/pylattica/core/lattice.py
+++ b/src/pylattica/core/lattice.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import itertools
 from typing import List, Tuple, Union
 
 import numpy as np
@@ -78,12 +79,10 @@ def pbc_diff_cart(cart_coords1: ArrayLike, cart_coords2: ArrayLike, lattice: Lat
     _type_
         _description_
     """
-    fcoords1 = lattice.get_fractional_coords(cart_coords1)
-    fcoords2 = lattice.get_fractional_coords(cart_coords2)
-    frac_dist = pbc_diff_frac_vec(fcoords1, fcoords2, lattice.periodic)
-    return np.round(
-        np.linalg.norm(lattice.get_cartesian_coords(frac_dist)), OFFSET_PRECISION
-    )
+    diff = np.subtract(cart_coords1, cart_coords2)
+    vecs, projection, translations = lattice.periodic_images
+    images = diff - np.dot(np.round(np.dot(diff, projection)), vecs) + translations
+    return np.round(np.min(np.linalg.norm(images, axis=1)), OFFSET_PRECISION)
 
 
 class Lattice:
@@ -137,6 +136,7 @@ class Lattice:
 
         self._matrix: np.ndarray = mat
         self._inv_matrix: np.ndarray | None = None
+        self._periodic_images = None
 
         self.dim = len(vecs[0])
         self.vec_lengths = [np.linalg.norm(np.array(vec)) for vec in vecs]
@@ -160,6 +160,24 @@ class Lattice:
             self._inv_matrix.setflags(write=False)
         return self._inv_matrix
 
+    @property
+    def periodic_images(self) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
+        """What it takes to find the shortest periodic image of a vector: the
+        periodic lattice vectors, the matrix projecting a vector onto them, and the
+        translations to try once the projected coefficients are at most 1/2. In a
+        skewed unit cell the shortest image need not be the untranslated one."""
+        if self._periodic_images is None:
+            vecs = self._matrix[np.array(self.periodic, dtype=bool)]
+            projection = np.dot(vecs.T, np.linalg.inv(np.dot(vecs, vecs.T)))
+            # The shortest image is no longer than half the sum of the lengths
+            # of the vectors, which bounds its coefficients.
+            max_length = np.sum(np.linalg.norm(vecs, axis=1)) / 2
+            max_coeffs = max_length * np.linalg.norm(projection, axis=0)
+            shifts = [range(-n, n + 1) for n in (max_coeffs + 1 / 2).astype(int)]
+            shifts = np.array(list(itertools.product(*shifts)))
+            self._periodic_images = vecs, projection, np.dot(shifts, vecs)
+        return self._periodic_images
+
     def get_cartesian_coords(self, fractional_coords: ArrayLike) -> np.ndarray:
         """Returns the Cartesian coordinates given fractional coordinates. (taken from pymatgen)
 
-- 
2.43.0


From d4d1ae45c2c20e90e052e3c8656494c36b7246b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 12/22] fix: list each color once

The palette repeated itself, so distinct phases could share a color well before
it ran out.
---
 src/pylattica/visualization/colors.py | 38 ---------------------------
 1 file changed, 38 deletions(-)

diff --git a/src/pylattica/visualization/colors.py b/src/pylattica/visualization/colors.py
index 75b85a9..8b80352 100644
--- a/src/pylattica/visualization/colors.py
+++ b/src/pylattica/visualization/colors.py
@@ -21,44 +21,6 @@ COLORS = [
     (250, 128, 114),
     (128, 0, 0),
     (255, 255, 0),
-    (0, 128, 0),
-    (32, 178, 170),
-    (128, 0, 0),
-    (0, 255, 0),
-    (255, 255, 255),
-    (128, 128, 0),
-    (0, 0, 128),
-    (34, 139, 34),
-    (221, 160, 221),
-    (210, 105, 30),
-    (188, 143, 143),
-    (112, 128, 144),
-    (240, 255, 240),
-    (32, 178, 170),
-    (0, 255, 127),
-    (47, 79, 79),
-    (30, 144, 255),
-    (138, 43, 226),
-    (186, 85, 211),
-    (199, 21, 133),
-    (255, 20, 147),
-    (250, 235, 215),
-    (160, 82, 45),
-    (244, 164, 96),
-    (176, 196, 222),
-    (205, 92, 92),
-    (255, 215, 0),
-    (85, 107, 47),
-    (0, 128, 0),
-    (143, 188, 143),
-    (255, 140, 0),
-    (255, 69, 0),
-    (250, 128, 114),
-    (128, 0, 0),
-    (255, 255, 0),
-    (0, 128, 0),
-    (32, 178, 170),
-    (128, 0, 0),
     (0, 255, 0),
     (255, 255, 255),
     (128, 128, 0),
-- 
2.43.0


From 1065195e914ea867cc048a9a29c1733ae744cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 13/22] fix: shell_only draws the far x and z faces

No site lies at coordinate size, so only the y = 0 face was drawn.
---
 src/pylattica/visualization/square_grid_artist_3D.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/visualization/square_grid_artist_3D.py b/src/pylattica/visualization/square_grid_artist_3D.py
index 408c375..5a6e9df 100644
--- a/src/pylattica/visualization/square_grid_artist_3D.py
+++ b/src/pylattica/visualization/square_grid_artist_3D.py
@@ -24,7 +24,9 @@ class SquareGridArtist3D(StructureArtist):
 
         for site in self.structure.sites():
             loc = site[LOCATION]
-            if not shell_only or (loc[1] == 0 or loc[0] == size or loc[2] == size):
+            if not shell_only or (
+                loc[1] == 0 or loc[0] == size - 1 or loc[2] == size - 1
+            ):
                 site_id = site[SITE_ID]
                 site_state = state.get_site_state(site_id)
                 color = self.cell_artist.get_color_from_cell_state(site_state)
-- 
2.43.0


From 4b0777b0c5399c603724a43fbb1710d183349929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 14/22] fix: accept motif neighbor offsets given as lists

---
 src/pylattica/core/neighborhood_builders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index 98f74d7..6afbea9 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -225,9 +225,9 @@ class MotifNeighborhoodBuilder(NeighborhoodBuilder):
         motif : Dict[str, List[List[float]]]
             See class docstring.
         """
-        self._motif = motif
+        self._motif = [tuple(vec) for vec in motif]
 
-        self.distances = EuclideanDistanceMap(motif)
+        self.distances = EuclideanDistanceMap(self._motif)
 
     def get_neighbors(self, curr_site: Dict, struct: PeriodicStructure) -> List[Tuple]:
         """Given a structure, constructs a NeighborGraph with site connections
-- 
2.43.0


From 054630f2d1d66122e33fe3183209c8f21b475042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:55 +0000
Subject: [PATCH 15/22] fix: keep every key that a step's updates set on one
 site

---
 src/pylattica/core/runner/common.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/runner/common.py b/src/pylattica/core/runner/common.py
index 2ef750d..bc22856 100644
--- a/src/pylattica/core/runner/common.py
+++ b/src/pylattica/core/runner/common.py
@@ -1,6 +1,11 @@
 from ..constants import GENERAL, SITES
 
 
+def _merge_sites(curr_sites, new_sites):
+    for site_id, updates in new_sites.items():
+        curr_sites[site_id] = {**curr_sites.get(site_id, {}), **updates}
+
+
 def merge_updates(new_updates, curr_updates=None, site_id=None):
     if new_updates is None:
         return curr_updates
@@ -10,14 +15,14 @@ def merge_updates(new_updates, curr_updates=None, site_id=None):
 
     # if this is a total
     if SITES in new_updates or GENERAL in new_updates:
-        curr_updates[SITES].update(new_updates.get(SITES, {}))
+        _merge_sites(curr_updates[SITES], new_updates.get(SITES, {}))
         curr_updates[GENERAL].update(new_updates.get(GENERAL, {}))
     # if these updates only include site updates
     elif set(map(type, new_updates.keys())) == {int}:
-        curr_updates[SITES].update(new_updates)
+        _merge_sites(curr_updates[SITES], new_updates)
     # if these updates only apply to a single site
     elif site_id is not None:
-        curr_updates[SITES].update({site_id: new_updates})
+        _merge_sites(curr_updates[SITES], {site_id: new_updates})
     else:
         raise ValueError("Bad combination of arguments for merge_updates")
 
-- 
2.43.0


From 541344aa7f7a23d82d1ac30111c018312d25a238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 16/22] fix: parallel steps visit the current sites and merge
 their updates in order

---
 src/pylattica/core/runner/synchronous_runner.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index d60a4a6..7272d6a 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -60,7 +60,7 @@ class SynchronousRunner(Runner):
 
             printif(verbose, f"Running in parallel using {PROCESSES} workers")
             num_sites = initial_state.size
-            chunk_size = math.ceil(num_sites / PROCESSES)
+            chunk_size = max(1, math.ceil(num_sites / PROCESSES))
             printif(
                 verbose,
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
@@ -86,7 +86,7 @@ class SynchronousRunner(Runner):
         self, state: SimulationState, pool, chunk_size
     ) -> SimulationState:
         params = []
-        site_ids = mp_globals["initial_state"].site_ids()
+        site_ids = state.site_ids()
         num_sites = len(site_ids)
         site_batches = [
             site_ids[i : i + chunk_size] for i in range(0, num_sites, chunk_size)
@@ -96,9 +96,9 @@ class SynchronousRunner(Runner):
             params.append([batch, state])
 
         results = pool.starmap(_step_batch_parallel, params)
-        all_updates = None
+        all_updates = {SITES: {}, GENERAL: {}}
         for batch_update_res in results:
-            all_updates = merge_updates(all_updates, batch_update_res)
+            all_updates = merge_updates(batch_update_res, all_updates)
 
         return all_updates
 
-- 
2.43.0


From 9acc1ba18cb552ac992525b4e4246f15faf96bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 17/22] fix: load structure sites where they were stored

Stored locations are rounded, which can put a site just across a cell
boundary; wrapping it again on loading moved it to another image.
---
 src/pylattica/core/periodic_structure.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index 891e512..1f87a1d 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -132,8 +132,19 @@ class PeriodicStructure:
         struct = cls(Lattice.from_dict(d["lattice"]))
         sites = {int(k): v for k, v in d["_sites"].items()}
 
-        for _, site in sites.items():
-            struct.add_site(site[SITE_CLASS], site[LOCATION])
+        # Stored locations are already inside the cell. Wrapping them again could
+        # move a site that rounding put just across a cell boundary.
+        for site_id, site in sites.items():
+            location = np.array(site[LOCATION])
+            struct._sites[site_id] = {
+                SITE_CLASS: site[SITE_CLASS],
+                LOCATION: location,
+                SITE_ID: site_id,
+            }
+            struct._location_lookup[tuple(struct._coords_with_offset(location))] = (
+                site_id
+            )
+            struct.site_ids.append(site_id)
 
         return struct
 
-- 
2.43.0


From cab8bd7495795bc65b8a118b2273c9e9006cf6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 18/22] fix: let the growth model be imported on its own

Importing pylattica.models.growth before pylattica.structures failed
because the two import one another.
---
 src/pylattica/structures/square_grid/growth_setup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/structures/square_grid/growth_setup.py b/src/pylattica/structures/square_grid/growth_setup.py
index 12ff005..dc5d028 100644
--- a/src/pylattica/structures/square_grid/growth_setup.py
+++ b/src/pylattica/structures/square_grid/growth_setup.py
@@ -1,7 +1,6 @@
 from ...core import SynchronousRunner, Simulation
 from ...core.neighborhood_builders import NeighborhoodBuilder
 from ...discrete import PhaseSet
-from ...models.growth import GrowthController
 from .grid_setup import DiscreteGridSetup
 
 from typing import Dict
@@ -63,6 +62,9 @@ class GrowthSetup:
         Simulation
             The resulting Simulation.
         """
+        # Imported here because the growth model itself imports this package.
+        from ...models.growth import GrowthController
+
         setup = DiscreteGridSetup(self._phases, dim=self.dim)
 
         simulation = setup.setup_random_sites(
-- 
2.43.0


From 6cc89f85d5b3ab4b9b948b64e31a4fecf8ac3bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 19/22] fix: keep random sites' phases within one of the asked
 ratio

With three or more phases every phase got its share rounded up in turn,
leaving the last ones of a large share out.
---
 src/pylattica/structures/square_grid/grid_setup.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/structures/square_grid/grid_setup.py b/src/pylattica/structures/square_grid/grid_setup.py
index 6249596..1b0dbbd 100644
--- a/src/pylattica/structures/square_grid/grid_setup.py
+++ b/src/pylattica/structures/square_grid/grid_setup.py
@@ -332,7 +332,16 @@ class DiscreteGridSetup:
         num_sites_planted = 0
 
         ideal_num_site_list = normalized_ratios * num_sites_desired
-        ideal_num_sites = dict(zip(nuc_species, ideal_num_site_list))
+        # Whole numbers of sites. What rounding down leaves over goes to the phases
+        # furthest below their share.
+        num_site_list = [int(num) for num in ideal_num_site_list]
+        by_shortfall = sorted(
+            range(len(nuc_species)),
+            key=lambda i: num_site_list[i] - ideal_num_site_list[i],
+        )
+        for i in by_shortfall[: num_sites_desired - sum(num_site_list)]:
+            num_site_list[i] += 1
+        ideal_num_sites = dict(zip(nuc_species, num_site_list))
 
         nuc_identities = []
 
-- 
2.43.0


From ab0f404ac3bda82b1ddc76591219083f9b0e99a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 20/22] fix: all_phases covers steps added since it was last
 asked

---
 src/pylattica/discrete/discrete_state_result_analyzer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pylattica/discrete/discrete_state_result_analyzer.py b/src/pylattica/discrete/discrete_state_result_analyzer.py
index 151d823..c71e173 100644
--- a/src/pylattica/discrete/discrete_state_result_analyzer.py
+++ b/src/pylattica/discrete/discrete_state_result_analyzer.py
@@ -3,7 +3,6 @@ from typing import Dict, List, Tuple
 import matplotlib.pyplot as plt
 import numpy as np
 import plotly.graph_objects as go
-from functools import lru_cache
 
 from ..core import SimulationResult, SimulationState
 from .discrete_step_analyzer import DiscreteStepAnalyzer
@@ -25,7 +24,6 @@ class DiscreteResultAnalyzer:
         """
         self._result = result
 
-    @lru_cache
     def all_phases(self) -> List[str]:
         """Returns all of the phases present across the analyzed result.
 
-- 
2.43.0


From 46c538f3d9b164379235393dc892b5eba2515be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 21/22] fix: pictures of non-square grids show every cell at
 its place

---
 .../visualization/square_grid_artist_2D.py        | 15 +++++++++------
 .../visualization/square_grid_artist_3D.py        |  8 ++++----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/pylattica/visualization/square_grid_artist_2D.py b/src/pylattica/visualization/square_grid_artist_2D.py
index 016779e..cf9f4b0 100644
--- a/src/pylattica/visualization/square_grid_artist_2D.py
+++ b/src/pylattica/visualization/square_grid_artist_2D.py
@@ -1,3 +1,4 @@
+import numpy as np
 from PIL import Image, ImageDraw
 
 from ..core.constants import LOCATION, SITE_ID
@@ -15,11 +16,13 @@ class SquareGridArtist2D(StructureArtist):
 
         legend = self.cell_artist.get_legend(state)
         legend_order = sorted(legend.keys())
-        state_size = int(self.structure.lattice.vec_lengths[0])
-        width = state_size + 6
+        size_x, size_y = (
+            int(extent) for extent in np.abs(self.structure.lattice.vecs).sum(axis=0)
+        )
+        width = size_x + 6
 
         legend_border_width = 5
-        height = max(state_size, len(legend) + 1)
+        height = max(size_y, len(legend) + 1)
         img = Image.new(
             "RGB",
             (width * cell_size + legend_border_width, height * cell_size),
@@ -34,7 +37,7 @@ class SquareGridArtist2D(StructureArtist):
             cell_state = state.get_site_state(site[SITE_ID])
             cell_color = self.cell_artist.get_color_from_cell_state(cell_state)
             p_x_start = int((loc[0]) * cell_size)
-            p_y_start = int((state_size - 1 - loc[1]) * cell_size)
+            p_y_start = int((size_y - 1 - loc[1]) * cell_size)
             for p_x in range(p_x_start, p_x_start + cell_size):
                 for p_y in range(p_y_start, p_y_start + cell_size):
                     pixels[p_x, p_y] = cell_color
@@ -45,12 +48,12 @@ class SquareGridArtist2D(StructureArtist):
 
         for p_y in range(height * cell_size):
             for p_x in range(0, legend_border_width):
-                x = state_size * cell_size + p_x
+                x = size_x * cell_size + p_x
                 pixels[x, p_y] = (255, 255, 255)
 
         for phase in legend_order:
             color = legend.get(phase)
-            p_col_start = state_size * cell_size + legend_border_width + legend_hoffset
+            p_col_start = size_x * cell_size + legend_border_width + legend_hoffset
             p_row_start = count * cell_size + legend_voffset
             for p_x in range(p_col_start, p_col_start + cell_size):
                 for p_y in range(p_row_start, p_row_start + cell_size):
diff --git a/src/pylattica/visualization/square_grid_artist_3D.py b/src/pylattica/visualization/square_grid_artist_3D.py
index 5a6e9df..a7f62ff 100644
--- a/src/pylattica/visualization/square_grid_artist_3D.py
+++ b/src/pylattica/visualization/square_grid_artist_3D.py
@@ -14,9 +14,9 @@ class SquareGridArtist3D(StructureArtist):
     def _draw_image(self, state: SimulationState, **kwargs):
         shell_only = kwargs.get("shell_only", False)
 
-        size = round(state.size ** (1 / 3))
-
-        shape = [size for _ in range(self.structure.dim)]
+        shape = [
+            int(extent) for extent in np.abs(self.structure.lattice.vecs).sum(axis=0)
+        ]
         dataset = {}
 
         dataset["empty"] = np.ones(shape)
@@ -25,7 +25,7 @@ class SquareGridArtist3D(StructureArtist):
         for site in self.structure.sites():
             loc = site[LOCATION]
             if not shell_only or (
-                loc[1] == 0 or loc[0] == size - 1 or loc[2] == size - 1
+                loc[1] == 0 or loc[0] == shape[0] - 1 or loc[2] == shape[2] - 1
             ):
                 site_id = site[SITE_ID]
                 site_state = state.get_site_state(site_id)
-- 
2.43.0


From 5f948c748de4c89074705d5634949e4e6829a2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 22/22] fix: converting to and from pymatgen keeps the periodic
 directions

---
 src/pylattica/atomic/pymatgen_struct_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/atomic/pymatgen_struct_converter.py b/src/pylattica/atomic/pymatgen_struct_converter.py
index 2870f77..057208c 100644
--- a/src/pylattica/atomic/pymatgen_struct_converter.py
+++ b/src/pylattica/atomic/pymatgen_struct_converter.py
@@ -30,7 +30,7 @@ class PymatgenStructureConverter:
         Lattice
             A pylattica lattice
         """
-        pyl_lat = PylLattice(pmg_lat.matrix)
+        pyl_lat = PylLattice(pmg_lat.matrix, pmg_lat.pbc)
         return pyl_lat
 
     def to_pylattica_structure_builder(
@@ -107,7 +107,7 @@ class PymatgenStructureConverter:
         PmgLattice
             The resulting pymatgen Lattice
         """
-        return PmgLattice(pyl_lat.vecs)
+        return PmgLattice(pyl_lat.vecs, pbc=pyl_lat.periodic)
 
     def to_pymatgen_structure(self, pyl_struct: PeriodicStructure) -> PmgStructure:
         """Converts a pylattica PeriodicStructure into a pymatgen
-- 
2.43.0

