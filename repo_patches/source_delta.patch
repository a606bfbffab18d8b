From af2203154dcac7c362ae6456069f846f33ba0614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 01/15] fix: SimulationResult.steps() left out the last step

---
 src/pylattica/core/simulation_result.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 44d3440..9d7c536 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -75,6 +75,7 @@ class SimulationResult:
         for diff in self._diffs:
             yield live_state
             live_state.batch_update(diff)
+        yield live_state
 
     @property
     def last_step(self) -> SimulationState:
-- 
2.43.0


From 3dfe604380342681143872b3878d4a062afb81b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 02/15] fix: SimulationResult.from_dict could not read the
 diffs that runners record

---
 src/pylattica/core/simulation_result.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pylattica/core/simulation_result.py b/src/pylattica/core/simulation_result.py
index 9d7c536..1e0b3be 100644
--- a/src/pylattica/core/simulation_result.py
+++ b/src/pylattica/core/simulation_result.py
@@ -4,6 +4,7 @@ from typing import Dict, List
 
 from monty.serialization import dumpfn, loadfn
 import datetime
+from .constants import GENERAL, SITES
 from .simulation_state import SimulationState
 
 
@@ -25,7 +26,11 @@ class SimulationResult:
         diffs = res_dict["diffs"]
         res = cls(SimulationState.from_dict(res_dict["initial_state"]))
         for diff in diffs:
-            formatted = {int(k): v for k, v in diff.items() if k != "GENERAL"}
+            if SITES in diff or GENERAL in diff:
+                sites = {int(k): v for k, v in diff.get(SITES, {}).items()}
+                formatted = {SITES: sites, GENERAL: diff.get(GENERAL, {})}
+            else:
+                formatted = {int(k): v for k, v in diff.items()}
             res.add_step(formatted)
         return res
 
-- 
2.43.0


From d59d994e7314186a213d665cb570c42990f5aded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 03/15] fix: build_from tiled cartesian motifs along the
 columns of the lattice matrix instead of the lattice vectors

---
 src/pylattica/core/periodic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index e364bc0..891e512 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -82,7 +82,7 @@ class PeriodicStructure:
         vec_coeffs = get_points_in_box([0 for _ in range(new_lattice.dim)], num_cells)
         for vec_coeff_set in vec_coeffs:
             if not frac_coords:  # convert lattice points to "cartesian coordinates"
-                point = lattice.matrix @ np.array(vec_coeff_set)
+                point = lattice.get_cartesian_coords(vec_coeff_set)
             else:
                 point = np.array(vec_coeff_set)
 
-- 
2.43.0


From 6de16abbaefda9089e489b11126e9360a25caaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 04/15] fix: motif neighborhoods crashed where a motif vector
 leads to no site

---
 src/pylattica/core/neighborhood_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index 961754f..d2d6edc 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -246,7 +246,7 @@ class MotifNeighborhoodBuilder(NeighborhoodBuilder):
         for neighbor_vec in self._motif:
             loc = tuple(s + n for s, n in zip(location, neighbor_vec))
             nb_id = struct.id_at(loc)
-            if nb_id != curr_site[SITE_ID]:
+            if nb_id is not None and nb_id != curr_site[SITE_ID]:
                 nbs.append((nb_id, self.distances.get_dist(neighbor_vec)))
         return nbs
 
-- 
2.43.0


From 9b45320578e24fbf8d1dd91cfa3190c80f8211cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 05/15] fix: parallel workers that got no batch in a step went
 on from a stale state, and the output stayed the initial state

---
 .../core/runner/synchronous_runner.py         | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index ab49ce7..030f27a 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -50,7 +50,6 @@ class SynchronousRunner(Runner):
         if self.parallel:
             global mp_globals  # pylint: disable=global-variable-not-assigned
             mp_globals["controller"] = controller
-            mp_globals["initial_state"] = initial_state
 
             if self.workers is None:
                 PROCESSES = mp.cpu_count()
@@ -65,11 +64,11 @@ class SynchronousRunner(Runner):
                 f"Distributing {num_sites} update tasks to {PROCESSES} workers in chunks of {chunk_size}",
             )
             with mp.get_context("fork").Pool(PROCESSES) as pool:
-                updates = {}
                 for _ in tqdm(range(num_steps)):
                     updates = self._take_step_parallel(
-                        updates, pool, chunk_size=chunk_size
+                        live_state, pool, chunk_size=chunk_size
                     )
+                    live_state.batch_update(updates)
                     result.add_step(updates)
         else:
             printif(verbose, "Running in series.")
@@ -81,16 +80,18 @@ class SynchronousRunner(Runner):
         result.set_output(live_state)
         return result
 
-    def _take_step_parallel(self, updates: dict, pool, chunk_size) -> SimulationState:
+    def _take_step_parallel(
+        self, state: SimulationState, pool, chunk_size
+    ) -> SimulationState:
         params = []
-        site_ids = mp_globals["initial_state"].site_ids()
+        site_ids = state.site_ids()
         num_sites = len(site_ids)
         site_batches = [
             site_ids[i : i + chunk_size] for i in range(0, num_sites, chunk_size)
         ]
 
         for batch in site_batches:
-            params.append([batch, updates])
+            params.append([batch, state])
 
         results = pool.starmap(_step_batch_parallel, params)
         all_updates = None
@@ -108,9 +109,9 @@ class SynchronousRunner(Runner):
         return updates
 
 
-def _step_batch_parallel(id_batch: List[int], last_updates: dict):  # pragma: no cover
-    state = mp_globals["initial_state"]
-    state.batch_update(last_updates)
+def _step_batch_parallel(
+    id_batch: List[int], state: SimulationState
+):  # pragma: no cover
     return _step_batch(id_batch, state, mp_globals["controller"])
 
 
-- 
2.43.0


From 9de3f4bc1cd7ef25af19b7ea2289c708ccbd53ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 06/15] fix: batch_update took "SITES" for a site id when the
 batch had no general updates

---
 src/pylattica/core/simulation_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/simulation_state.py b/src/pylattica/core/simulation_state.py
index b6a92ab..5c49e2b 100644
--- a/src/pylattica/core/simulation_state.py
+++ b/src/pylattica/core/simulation_state.py
@@ -155,11 +155,11 @@ class SimulationState:
             The updates to apply as a batch.
         """
 
-        if GENERAL in update_batch:
+        if GENERAL in update_batch or SITES in update_batch:
             for site_id, updates in update_batch.get(SITES, {}).items():
                 self.set_site_state(site_id, updates)
 
-            self.set_general_state(update_batch[GENERAL])
+            self.set_general_state(update_batch.get(GENERAL, {}))
         else:
             for site_id, updates in update_batch.items():
                 self.set_site_state(site_id, updates)
-- 
2.43.0


From 8e6e7645eb1b521026bb18bccf83605fbcfcfa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 07/15] fix: runs crashed on steps in which the controller
 returns no update

---
 src/pylattica/core/runner/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/runner/common.py b/src/pylattica/core/runner/common.py
index 2ef750d..48ae24e 100644
--- a/src/pylattica/core/runner/common.py
+++ b/src/pylattica/core/runner/common.py
@@ -2,12 +2,12 @@ from ..constants import GENERAL, SITES
 
 
 def merge_updates(new_updates, curr_updates=None, site_id=None):
-    if new_updates is None:
-        return curr_updates
-
     if curr_updates is None:
         curr_updates = {SITES: {}, GENERAL: {}}
 
+    if new_updates is None:
+        return curr_updates
+
     # if this is a total
     if SITES in new_updates or GENERAL in new_updates:
         curr_updates[SITES].update(new_updates.get(SITES, {}))
-- 
2.43.0


From 11259ee15780eebe6d8f2bd349700e915ee557b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 08/15] fix: get_random_site returned a position in the list of
 sites instead of a site id

---
 src/pylattica/core/basic_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/basic_controller.py b/src/pylattica/core/basic_controller.py
index 33d6e04..8fa253e 100644
--- a/src/pylattica/core/basic_controller.py
+++ b/src/pylattica/core/basic_controller.py
@@ -25,7 +25,7 @@ class BasicController(ABC):
         pass
 
     def get_random_site(self, state: SimulationState):
-        return random.randint(0, len(state.site_ids()) - 1)
+        return random.choice(state.site_ids())
 
     def instantiate_result(self, starting_state: SimulationState):
         return SimulationResult(starting_state=starting_state)
-- 
2.43.0


From c314ee0e8e8fcfffd3a12c837d9fd5d3fb7a0388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 09/15] fix: stochastic and site class neighborhood builders
 could not be nested in a site class builder

---
 src/pylattica/core/neighborhood_builders.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pylattica/core/neighborhood_builders.py b/src/pylattica/core/neighborhood_builders.py
index d2d6edc..1273c70 100644
--- a/src/pylattica/core/neighborhood_builders.py
+++ b/src/pylattica/core/neighborhood_builders.py
@@ -73,7 +73,7 @@ class StochasticNeighborhoodBuilder(NeighborhoodBuilder):
         """
         self.builders = builders
 
-    def get(self, struct: PeriodicStructure) -> Neighborhood:
+    def get(self, struct: PeriodicStructure, site_class: str = None) -> Neighborhood:
         """For the provided structure, calculate the StochasticNeighborhood
         specified by the list of builders originally provided to this class.
 
@@ -87,7 +87,7 @@ class StochasticNeighborhoodBuilder(NeighborhoodBuilder):
         Neighborhood
             The resulting StochasticNeighborhood
         """
-        return StochasticNeighborhood([b.get(struct) for b in self.builders])
+        return StochasticNeighborhood([b.get(struct, site_class=site_class) for b in self.builders])
 
 
 class DistanceNeighborhoodBuilder(NeighborhoodBuilder):
@@ -266,7 +266,7 @@ class SiteClassNeighborhoodBuilder(NeighborhoodBuilder):
         """
         self._builders = nb_builders
 
-    def get(self, struct: PeriodicStructure) -> Neighborhood:
+    def get(self, struct: PeriodicStructure, site_class: str = None) -> Neighborhood:
         """Constructs the neighborhood of every site in the provided
         structure, conditional on the class of each site.
 
@@ -282,6 +282,8 @@ class SiteClassNeighborhoodBuilder(NeighborhoodBuilder):
         """
         nbhood_map = {}
         for sclass, builder in self._builders.items():
+            if site_class is not None and sclass != site_class:
+                continue
             nbhood = builder.get(struct, site_class=sclass)
             nbhood_map[sclass] = nbhood
 
-- 
2.43.0


From ae5f02fd7d97b26aa4c8a6f7e69dac5ebc0f822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 10/15] fix: distance maps and motif neighborhoods rejected
 vectors given as lists

---
 src/pylattica/core/distance_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/distance_map.py b/src/pylattica/core/distance_map.py
index cf330f1..47e36c3 100644
--- a/src/pylattica/core/distance_map.py
+++ b/src/pylattica/core/distance_map.py
@@ -69,7 +69,7 @@ class DistanceMap:
         """
         distances = {}
         for loc in relative_neighbor_locs:
-            distances[loc] = self._distance(np.zeros(len(loc)), np.array(loc))
+            distances[tuple(loc)] = self._distance(np.zeros(len(loc)), np.array(loc))
 
         return distances
 
@@ -86,7 +86,7 @@ class DistanceMap:
         float
             The distance of that neighbor.
         """
-        return self.distances.get(relative_loc)
+        return self.distances.get(tuple(relative_loc))
 
 
 class EuclideanDistanceMap(DistanceMap):
-- 
2.43.0


From 9dd1dcb6867d1ff0893596f56c703e6b5e2c6790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 11/15] fix: pymatgen conversion lost which directions are
 periodic

---
 src/pylattica/atomic/pymatgen_struct_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/atomic/pymatgen_struct_converter.py b/src/pylattica/atomic/pymatgen_struct_converter.py
index 2870f77..fd958a4 100644
--- a/src/pylattica/atomic/pymatgen_struct_converter.py
+++ b/src/pylattica/atomic/pymatgen_struct_converter.py
@@ -30,7 +30,7 @@ class PymatgenStructureConverter:
         Lattice
             A pylattica lattice
         """
-        pyl_lat = PylLattice(pmg_lat.matrix)
+        pyl_lat = PylLattice(pmg_lat.matrix, periodic=pmg_lat.pbc)
         return pyl_lat
 
     def to_pylattica_structure_builder(
@@ -107,7 +107,7 @@ class PymatgenStructureConverter:
         PmgLattice
             The resulting pymatgen Lattice
         """
-        return PmgLattice(pyl_lat.vecs)
+        return PmgLattice(pyl_lat.vecs, pbc=pyl_lat.periodic)
 
     def to_pymatgen_structure(self, pyl_struct: PeriodicStructure) -> PmgStructure:
         """Converts a pylattica PeriodicStructure into a pymatgen
-- 
2.43.0


From 0c854eaecbd0f7abe997d5087197c126849de59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 12/15] fix: parallel runs let the earlier of two conflicting
 updates win where serial runs let the later one win

---
 src/pylattica/core/runner/synchronous_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/core/runner/synchronous_runner.py b/src/pylattica/core/runner/synchronous_runner.py
index 030f27a..03a7fdd 100644
--- a/src/pylattica/core/runner/synchronous_runner.py
+++ b/src/pylattica/core/runner/synchronous_runner.py
@@ -96,7 +96,7 @@ class SynchronousRunner(Runner):
         results = pool.starmap(_step_batch_parallel, params)
         all_updates = None
         for batch_update_res in results:
-            all_updates = merge_updates(all_updates, batch_update_res)
+            all_updates = merge_updates(batch_update_res, all_updates)
 
         return all_updates
 
-- 
2.43.0


From 10f094c437ca493300e767d77426d9fd051635e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 13/15] fix: loading a structure wrapped sites again that were
 rounded onto or across a cell boundary

---
 src/pylattica/core/periodic_structure.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pylattica/core/periodic_structure.py b/src/pylattica/core/periodic_structure.py
index 891e512..0510ab0 100644
--- a/src/pylattica/core/periodic_structure.py
+++ b/src/pylattica/core/periodic_structure.py
@@ -132,8 +132,18 @@ class PeriodicStructure:
         struct = cls(Lattice.from_dict(d["lattice"]))
         sites = {int(k): v for k, v in d["_sites"].items()}
 
-        for _, site in sites.items():
-            struct.add_site(site[SITE_CLASS], site[LOCATION])
+        # the saved locations are already wrapped and rounded, and wrapping them
+        # again would move sites that were rounded onto or across a cell boundary
+        for site_id, site in sites.items():
+            location = np.array(site[LOCATION])
+            lookup_key = tuple(struct._coords_with_offset(location))
+            struct._sites[site_id] = {
+                SITE_CLASS: site[SITE_CLASS],
+                LOCATION: location,
+                SITE_ID: site_id,
+            }
+            struct._location_lookup[lookup_key] = site_id
+            struct.site_ids.append(site_id)
 
         return struct
 
-- 
2.43.0


From 33e42cbf9e21b10b1687fe17459f7099468a9627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 14/15] fix: color_map ran out of colors for phase lists longer
 than the palette

---
 src/pylattica/visualization/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylattica/visualization/helpers.py b/src/pylattica/visualization/helpers.py
index 84330d1..442c88c 100644
--- a/src/pylattica/visualization/helpers.py
+++ b/src/pylattica/visualization/helpers.py
@@ -19,7 +19,7 @@ def color_map(phases: List[str]) -> Dict[str, Tuple[int, int, int]]:
     color_map: Dict[str, Tuple[int, int, int]] = {}
     c_idx: int = 0
     for p in phases:
-        color_map[p] = COLORS[c_idx]
+        color_map[p] = COLORS[c_idx % len(COLORS)]
         c_idx += 1
 
     return color_map
-- 
2.43.0


From 01dc8e3c8157e00672c8d8edb6d8a22d5a53e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 15/15] fix: phases of a result are read again when steps were
 recorded since

---
 src/pylattica/discrete/discrete_state_result_analyzer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pylattica/discrete/discrete_state_result_analyzer.py b/src/pylattica/discrete/discrete_state_result_analyzer.py
index 151d823..c71e173 100644
--- a/src/pylattica/discrete/discrete_state_result_analyzer.py
+++ b/src/pylattica/discrete/discrete_state_result_analyzer.py
@@ -3,7 +3,6 @@ from typing import Dict, List, Tuple
 import matplotlib.pyplot as plt
 import numpy as np
 import plotly.graph_objects as go
-from functools import lru_cache
 
 from ..core import SimulationResult, SimulationState
 from .discrete_step_analyzer import DiscreteStepAnalyzer
@@ -25,7 +24,6 @@ class DiscreteResultAnalyzer:
         """
         self._result = result
 
-    @lru_cache
     def all_phases(self) -> List[str]:
         """Returns all of the phases present across the analyzed result.
 
-- 
2.43.0

