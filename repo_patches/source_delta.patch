From f50cbbdd94835604d76ba50b1eb190f1886b6c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 01/26] fix: sample neighbour tuples from a sequence, not a set

random.sample no longer accepts sets (an error since Python 3.11), so
estimating the dimension of any cluster with more than one position failed.
---
 nodefinder/identify/_dimension.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodefinder/identify/_dimension.py b/nodefinder/identify/_dimension.py
index e87d207..9f5fe2d 100644
--- a/nodefinder/identify/_dimension.py
+++ b/nodefinder/identify/_dimension.py
@@ -155,7 +155,8 @@ def _has_dimension(
         num_draws = 10
         while neighbour_tuples:
             vals = random.sample(
-                neighbour_tuples, min(num_draws, len(neighbour_tuples))
+                sorted(neighbour_tuples),
+                min(num_draws, len(neighbour_tuples))
             )
             yield from vals
             neighbour_tuples -= set(vals)
-- 
2.43.0


From 07ca438b572d9d9676600d92239d9d73beb18a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 02/26] fix: load identification results with current h5py

Indexing a group with an empty tuple raises TypeError (not AttributeError)
in h5py >= 3.2, so saved identification results could not be loaded.
---
 nodefinder/identify/result/_containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/identify/result/_containers.py b/nodefinder/identify/result/_containers.py
index 22b5062..9cbf4a9 100644
--- a/nodefinder/identify/result/_containers.py
+++ b/nodefinder/identify/result/_containers.py
@@ -83,10 +83,10 @@ class IdentificationResult(SimpleNamespace, HDF5Enabled):
         shape = from_hdf5(hdf5_handle['shape'])
         try:
             dimension = hdf5_handle['dimension'][()]
-        except AttributeError:
+        except (AttributeError, TypeError):
             dimension = from_hdf5(hdf5_handle['dimension'])
         try:
             positions = [tuple(x) for x in hdf5_handle['positions'][()]]
-        except AttributeError:
+        except (AttributeError, TypeError):
             positions = from_hdf5(hdf5_handle['positions'])
         return cls(positions=positions, dimension=dimension, shape=shape)
-- 
2.43.0


From d3428be48b25736a67e471747ecae078003623bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 03/26] fix: map the periodic average into the limits

The average was taken modulo the size without accounting for the lower
limit, placing it outside the box when the lower limit is not zero.
---
 nodefinder/coordinate_system.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index 3291463..c6e4a69 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -100,7 +100,9 @@ class CoordinateSystem(SimpleHDF5Mapping):
         else:
             origin = positions[0]
             deltas = [self.connecting_vector(origin, pos) for pos in positions]
-            return (origin + np.average(deltas, axis=0)) % self.size
+            return self.normalize_position(
+                origin + np.average(deltas, axis=0)
+            )
 
     def normalize_position(self, pos):
         """
-- 
2.43.0


From 951042965200b2903f386a12119a395ac8467a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 04/26] fix: allow identifying a controller state with the
 default feature size

The default feature size was read from the controller state, which does not
have this attribute, before unpacking the search result from it.
---
 nodefinder/identify/_run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/identify/_run.py b/nodefinder/identify/_run.py
index 233b13a..1ab7379 100644
--- a/nodefinder/identify/_run.py
+++ b/nodefinder/identify/_run.py
@@ -30,10 +30,10 @@ def run(result, feature_size=None, evaluate_line_method='ballistic'):
         Distance between two nodal points at which they are considered distinct.
         Uses the ``feature_size`` used in the search step by default.
     """
-    if feature_size is None:
-        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
     if isinstance(result, ControllerState):
         result = result.result
+    if feature_size is None:
+        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
     positions = [node.pos for node in result.nodes]
     coordinate_system = result.coordinate_system
     return run_from_positions(
-- 
2.43.0


From 92be6b5b3664bfc4473488a8c37595f3b89be29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 05/26] fix: visit each neighbouring cell only once

With less than three cells in a periodic direction, the same cell was
visited repeatedly, and its values were returned multiple times. This made
the recheck_count_cutoff discard positions with fewer neighbours than allowed.
---
 nodefinder/search/result/_cell_list.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index 1d6c232..70192cc 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -50,7 +50,13 @@ class CellList:
         indices = idx + self._neighbour_offset
 
         if self.periodic:
-            return [tuple(i % self._total_num_cells) for i in indices]
+            # With fewer than three cells, different offsets can lead to the
+            # same cell, which must be visited only once.
+            return list(
+                dict.fromkeys(
+                    tuple(i % self._total_num_cells) for i in indices
+                )
+            )
         return [
             tuple(i) for i in indices
             if np.all(i >= 0) and np.all(i < self._total_num_cells)
-- 
2.43.0


From 523de74bee6b8495d3bba545af65daf1805c7cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 06/26] fix: handle fractional coordinates which are rounded up
 to one

A position which is below the lower limit by less than the rounding error
has a periodic fractional coordinate of exactly one. Adding such a position
raised an IndexError.
---
 nodefinder/search/result/_cell_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index 70192cc..42987d1 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -69,7 +69,10 @@ class CellList:
 
     def get_index(self, frac):  # pylint: disable=missing-function-docstring
         vals = np.array(frac * self.num_cells, dtype=int)
-        if not self.periodic:
+        if self.periodic:
+            # The fractional coordinate can be exactly one due to rounding.
+            vals %= self.num_cells
+        else:
             vals += 1
             vals = np.maximum(0, np.minimum(vals, self._total_num_cells - 1))  # pylint: disable=assignment-from-no-return,useless-suppression
         return tuple(vals)
-- 
2.43.0


From 2b92d2f339e67a023ab23f0484d60487f3a61ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 07/26] fix: scale connecting vector consistency check with the
 values

The absolute tolerance is smaller than the rounding error when the limits
or positions are large, raising an AssertionError for valid inputs.
---
 nodefinder/coordinate_system.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index c6e4a69..acd17a8 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -88,7 +88,12 @@ class CoordinateSystem(SimpleHDF5Mapping):
             delta = (pos2 - pos1) % self.size
             delta_negative = delta - self.size
             res = np.where(-delta_negative < delta, delta_negative, delta)
-            assert np.all(self.distance((res + pos1), pos2) < 1e-8)
+            # the rounding errors scale with the values which are involved
+            scale = max(
+                np.max(np.abs(val), initial=1)
+                for val in (self.limits, pos1, pos2)
+            )
+            assert np.all(self.distance((res + pos1), pos2) < 1e-8 * scale)
             return res
 
     def average(self, positions):
-- 
2.43.0


From cbc923ed0fcc454881f67d77acb830c4f6238c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 08/26] fix: forward all exceptions from the search thread

Exceptions not derived from Exception (such as CancelledError or SystemExit)
were not passed on to the calling thread, which then waited forever for a
result.
---
 nodefinder/search/_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 32d7c54..44ea095 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -192,6 +192,6 @@ def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
         res = loop.run_until_complete(run_async(*args, **kwargs))
         loop.close()
         res_queue.put(res)
-    except Exception as exc:
+    except BaseException as exc:
         exc_queue.put(exc)
         raise
-- 
2.43.0


From 7f6c244b76f223304326eb26a82410fcdb82097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 09/26] fix: load strings in minimization results as str

With h5py >= 3, strings such as the message were loaded as bytes.
---
 nodefinder/search/result/_minimization.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/nodefinder/search/result/_minimization.py b/nodefinder/search/result/_minimization.py
index cd1ec82..4410dba 100644
--- a/nodefinder/search/result/_minimization.py
+++ b/nodefinder/search/result/_minimization.py
@@ -103,9 +103,12 @@ class MinimizationResult(SimpleNamespace, HDF5Enabled):
 
     @classmethod
     def from_hdf5(cls, hdf5_handle):
-        return cls(
-            **{
-                key: val[()]
-                for key, val in hdf5_handle.items() if key != 'type_tag'
-            }
-        )
+        kwargs = {
+            key: val[()]
+            for key, val in hdf5_handle.items() if key != 'type_tag'
+        }
+        # h5py >= 3 returns strings as bytes
+        for key, val in kwargs.items():
+            if isinstance(val, bytes):
+                kwargs[key] = val.decode('utf-8')
+        return cls(**kwargs)
-- 
2.43.0


From dd72dc2ff9d9a5ee291e25fbab32d298e4344e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 10/26] fix: mark the result container for saving when adding a
 result

The statement setting the flag was never reached.
---
 nodefinder/search/result/_search_result_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_search_result_container.py b/nodefinder/search/result/_search_result_container.py
index 75ee09d..26db42f 100644
--- a/nodefinder/search/result/_search_result_container.py
+++ b/nodefinder/search/result/_search_result_container.py
@@ -97,13 +97,13 @@ class SearchResultContainer(SimpleHDF5Mapping):
             Minimization result to add.
         """
         res.pos = self.coordinate_system.normalize_position(res.pos)
+        self.needs_saving = True
         if not res.success or res.value > self.gap_threshold:  # pylint: disable=no-else-return
             self.rejected_results.append(res)
             return False
         else:
             self.nodes.add_point(self.coordinate_system.get_frac(res.pos), res)
             return True
-        self.needs_saving = True
 
     def set_refined(self, pos):
         """
-- 
2.43.0


From a87b7d2fd8f246176ea4a3e1c039a3e1b4bd9f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 11/26] fix: queue objects given to the constructor only once

Duplicate objects passed to the constructor were handed out repeatedly,
leading to a KeyError when the second one is marked as finished.
---
 nodefinder/search/_queue.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index 549816c..ab287ba 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -23,7 +23,8 @@ class ObjectQueue(HDF5Enabled, ABC):
     HDF5_ATTRIBUTES = ['objects']
 
     def __init__(self, objects=frozenset()):
-        all_objects = self.normalize(objects)
+        # remove duplicates, but keep the order
+        all_objects = list(dict.fromkeys(self.normalize(objects)))
         self._queued_objects = Queue()
         self._extend_queue(all_objects)
 
-- 
2.43.0


From 395d83edd4587bd03ccd739a03733c55d1578e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 12/26] fix: make the dominating set line evaluation work on
 general clusters

The sub-graph was created from the graph without the edge weights, which
raised a TypeError if two nodes of the dominating set are neighbours. Since the
dominating set is usually not connected, calculating the path length between
two nodes raised NetworkXNoPath.
---
 .../_evaluate/_line/_dominating_set.py        | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/nodefinder/identify/_evaluate/_line/_dominating_set.py b/nodefinder/identify/_evaluate/_line/_dominating_set.py
index 6da810d..4647f0c 100644
--- a/nodefinder/identify/_evaluate/_line/_dominating_set.py
+++ b/nodefinder/identify/_evaluate/_line/_dominating_set.py
@@ -36,7 +36,7 @@ def _evaluate_line_dominating_set(*, graph, coordinate_system, feature_size):
             graph_reduced_neighbours.add_edge(*edge)
 
     dominating_set = nx.algorithms.dominating_set(graph_reduced_neighbours)
-    subgraph = graph.subgraph(dominating_set).copy()
+    subgraph = graph_copy.subgraph(dominating_set).copy()
 
     _patch_all_subgraph_holes(
         subgraph=subgraph,
@@ -76,7 +76,7 @@ def _patch_all_subgraph_holes(
             np.array(pos1), np.array(pos2)
         )
         if dist_minimal < 2 * feature_size:
-            dist_reduced = nx.algorithms.shortest_path_length(
+            dist_reduced = _get_path_length(
                 subgraph, pos1, pos2, weight=weight
             )
             if dist_reduced > max(feature_size, patch_cutoff * dist_minimal):
@@ -93,7 +93,7 @@ def _patch_all_subgraph_holes(
     to_patch = sorted(to_patch, key=operator.attrgetter('dist_original'))
     for edge, dist_original in to_patch:
         # might have changed since the subgraph is being patched
-        dist_reduced = nx.algorithms.shortest_path_length(
+        dist_reduced = _get_path_length(
             subgraph, *edge, weight=_DISTANCE_KEY
         )
         if dist_reduced > 2 * dist_original:
@@ -106,6 +106,19 @@ def _patch_all_subgraph_holes(
             )
 
 
+def _get_path_length(graph, start, end, *, weight):
+    """
+    Get the length of the shortest path, which is infinite if the graph does
+    not connect the two points.
+    """
+    try:
+        return nx.algorithms.shortest_path_length(
+            graph, start, end, weight=weight
+        )
+    except nx.NetworkXNoPath:
+        return float('inf')
+
+
 def _patch_subgraph_hole(*, subgraph, graph, start, end):
     """
     Patch a single hole in the subgraph between the given start and end points.
-- 
2.43.0


From e0406601092f030277e8083ab4b337908e3417c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 13/26] fix: discard queued positions when the refinement is
 disabled

Resuming a calculation whose state contains queued positions with
'refinement_stencil=None' raised a TypeError.
---
 nodefinder/search/_controller.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index f504854..abb3471 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -204,11 +204,13 @@ class Controller:
                     while not self.state.simplex_queue.has_queued:
                         if self.state.position_queue.has_queued:
                             pos = self.state.position_queue.pop_queued()
-                            if (not self.recheck_pos_dist
-                                ) or self._check_pos_refinement(
+                            if self.refinement_stencil is not None and (
+                                (not self.recheck_pos_dist)
+                                or self._check_pos_refinement(
                                     pos,
                                     count_cutoff=self.recheck_count_cutoff
-                                ):
+                                )
+                            ):
                                 self.state.simplex_queue.add_objects(
                                     pos + self.refinement_stencil
                                 )
-- 
2.43.0


From dc317df67cae46eb5bae99d8f0a4cf1e65ba21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 14/26] fix: include nodes exactly at the position in neighbour
 queries

A position which exactly coincides with a node was treated as if the node was
not there, unless the position was a periodic image: the fake potential did not
repel from the node, and a simplex with a vertex at the node was not skipped.
---
 nodefinder/search/result/_search_result_container.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nodefinder/search/result/_search_result_container.py b/nodefinder/search/result/_search_result_container.py
index 26db42f..275e067 100644
--- a/nodefinder/search/result/_search_result_container.py
+++ b/nodefinder/search/result/_search_result_container.py
@@ -128,15 +128,15 @@ class SearchResultContainer(SimpleHDF5Mapping):
         return self.nodes.values() + self.rejected_results
 
     def _get_neighbour_iterator(self, pos):
-        candidates = self.nodes.get_neighbour_values(
+        return self.nodes.get_neighbour_values(
             frac=self.coordinate_system.get_frac(pos)
         )
-        return (c for c in candidates if np.any(c.pos != pos))
 
     def get_neighbour_distance_iterator(self, pos):
         """
         Returns an iterator over the distance to neighbouring nodes from a given
-        position. Only neighbours within ``dist_cutoff`` are taken into account.
+        position, including nodes which are exactly at that position. Only
+        neighbours within ``dist_cutoff`` are taken into account.
 
         Arguments
         ---------
-- 
2.43.0


From bdae6dd89f222469851e31e238d328e68fa89609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 15/26] fix: queue objects which are added together only once

Simplices which occur twice in one call (for example because the refinement
stencil contains them twice) were queued twice, and finishing the second one
raised a KeyError.
---
 nodefinder/search/_queue.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index ab287ba..93ab675 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -46,7 +46,8 @@ class ObjectQueue(HDF5Enabled, ABC):
         """
         Add new objects to the queue.
         """
-        new_objects = self.normalize(objects)
+        # remove duplicates, but keep the order
+        new_objects = dict.fromkeys(self.normalize(objects))
         new_objects_filtered = [
             obj for obj in new_objects if obj not in self._all_objects
         ]
-- 
2.43.0


From 09e1763a871610df7ff7be928b957c7775dfb4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:01 +0000
Subject: [PATCH 16/26] fix: cancel remaining tasks when the synchronous search
 is interrupted

---
 nodefinder/search/_run.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 44ea095..792f1c0 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -175,13 +175,41 @@ def run(*args, **kwargs):
             res = res_queue.get()
         else:
             SEARCH_LOGGER.debug('Running in the current thread.')
-            res = loop.run_until_complete(run_async(*args, **kwargs))
+            res = _run_in_loop(loop, run_async(*args, **kwargs))
     finally:
         if close_loop:
             loop.close()
     return res
 
 
+def _run_in_loop(loop, coro):
+    """
+    Helper function that runs a coroutine in the given loop. If it fails, the
+    tasks which it has created are cancelled, because they would otherwise
+    continue when the loop is used again.
+    """
+    try:
+        all_tasks = asyncio.all_tasks
+    except AttributeError:  # Python 3.6
+        all_tasks = asyncio.Task.all_tasks
+
+    existing_tasks = all_tasks(loop)
+    try:
+        return loop.run_until_complete(coro)
+    except BaseException:
+        new_tasks = [
+            task for task in all_tasks(loop)
+            if task not in existing_tasks and not task.done()
+        ]
+        for task in new_tasks:
+            task.cancel()
+        if new_tasks:
+            loop.run_until_complete(
+                asyncio.gather(*new_tasks, return_exceptions=True)
+            )
+        raise
+
+
 def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
     """
     Helper function that runs the search function, to be used as a thread target.
-- 
2.43.0


From 10b443e3c6e70ee8331d4703adbc75659022eb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 17/26] fix: report all errors when writing the save file

---
 nodefinder/search/_controller.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index abb3471..68deacb 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -12,8 +12,10 @@ import asyncio
 import tempfile
 from collections import ChainMap
 
+import h5py
 import numpy as np
 from fsc.export import export
+from fsc.hdf5_io import to_hdf5
 from fsc.async_tools import PeriodicTask, wrap_to_coroutine
 
 from .. import io
@@ -315,7 +317,10 @@ class Controller:
                 dir=os.path.dirname(self.save_file), delete=False
             ) as tmpf:
                 try:
-                    io.save(self.state, tmpf.name)
+                    # Errors when writing individual datasets are not reported
+                    # by h5py, so the file is assembled in memory.
+                    with h5py.File(tmpf.name, 'w', driver='core') as hdf5_file:
+                        to_hdf5(self.state, hdf5_file)
                     os.rename(tmpf.name, self.save_file)
                     self.state.needs_saving = False
                 except Exception as exc:
-- 
2.43.0


From a19371af465c92c059fcd1ccc5204748454c960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 18/26] fix: minimize starting simplices with integer
 coordinates

The vertices were truncated to integers during the minimization, so that the
reported value did not belong to the reported position.
---
 nodefinder/search/_minimization/_nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index bafc0cb..026a0f7 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -110,7 +110,7 @@ async def root_nelder_mead(
     sigma = 0.5
     one2np1 = list(range(1, N + 1))
 
-    sim = np.array(initial_simplex)
+    sim = np.array(initial_simplex, dtype=float)
     assert sim.shape == (N + 1, N)
 
     fsim = np.array(await asyncio.gather(*[func(x) for x in sim]), dtype=float)
-- 
2.43.0


From ea8890fe1c95c049c4f16b0fe6ebb8e8d2e1b2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:29 +0000
Subject: [PATCH 19/26] fix: map positions which round to the upper limit to
 the lower limit

Mapping a position just below the lower limit into a periodic box gave the upper
limit, which changed to the lower limit when it was mapped again, for example
when a result was saved and loaded.
---
 nodefinder/coordinate_system.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index acd17a8..d3009ff 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -115,7 +115,11 @@ class CoordinateSystem(SimpleHDF5Mapping):
         boundary conditions for the periodic case.
         """
         if self.periodic:
-            return ((pos - self._lower_limits) %
-                    self.size) + self._lower_limits
+            res = ((pos - self._lower_limits) % self.size) + self._lower_limits
+            # Rounding can lead to the upper limit, which is the same position
+            # as the lower limit.
+            return np.where(
+                res >= self._upper_limits, self._lower_limits, res
+            )
         else:
             return pos
-- 
2.43.0


From a3caf12878c6c79f919e90697590c437ef5641a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:35 +0000
Subject: [PATCH 20/26] fix: stop the minimizations when an asynchronous search
 fails or is cancelled

They continued to evaluate the potential in the event loop after the
search had ended.
---
 nodefinder/search/_controller.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index 68deacb..dc7dd0c 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -188,7 +188,14 @@ class Controller:
         )
 
     async def run(self):
-        await self.create_tasks()
+        try:
+            await self.create_tasks()
+        finally:
+            # Minimizations must not continue if the search fails or is
+            # cancelled.
+            for fut in self.task_futures:
+                fut.cancel()
+            await asyncio.gather(*self.task_futures, return_exceptions=True)
 
     async def create_tasks(self):
         """
-- 
2.43.0


From f43b8b46c3f016eec5bda6c7c5eb0b2bf17612fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 21/26] fix: cancel the other evaluations of the initial
 simplex if one of them fails

---
 nodefinder/search/_minimization/_nelder_mead.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index 026a0f7..01abc9a 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -113,7 +113,13 @@ async def root_nelder_mead(
     sim = np.array(initial_simplex, dtype=float)
     assert sim.shape == (N + 1, N)
 
-    fsim = np.array(await asyncio.gather(*[func(x) for x in sim]), dtype=float)
+    evaluations = [asyncio.ensure_future(func(x)) for x in sim]
+    try:
+        fsim = np.array(await asyncio.gather(*evaluations), dtype=float)
+    finally:
+        # If one of the evaluations fails, the others must not continue.
+        for evaluation in evaluations:
+            evaluation.cancel()
     assert fsim.shape == (N + 1, )
 
     ind = np.argsort(fsim)
-- 
2.43.0


From b2c8dfd04dda0e83137f449a8463ab7a63403e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:21 +0000
Subject: [PATCH 22/26] fix: continue to save periodically after a failing save

A single failing save (e.g. because the disk is full for a short time)
ended the periodic saving for the rest of the search, and at its end the
error was raised instead of saving and returning the result.
---
 nodefinder/search/_controller.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index dc7dd0c..00de6db 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -180,6 +180,16 @@ class Controller:
             position_queue=position_queue
         )
 
+    def try_save(self):
+        """
+        Store the current state, and only log errors. This way, one failing
+        save does not prevent the following ones.
+        """
+        try:
+            self.save()
+        except Exception:  # pylint: disable=broad-except
+            SEARCH_LOGGER.exception('Saving the current state failed.')
+
     def get_initial_simplices(self, initial_mesh_size):
         return _generate_mesh_simplices(
             limits=self.coordinate_system.limits,
@@ -196,12 +206,14 @@ class Controller:
             for fut in self.task_futures:
                 fut.cancel()
             await asyncio.gather(*self.task_futures, return_exceptions=True)
+            # Only does something if the last periodic save failed.
+            self.save()
 
     async def create_tasks(self):
         """
         Create minimization tasks until the calculation is finished.
         """
-        async with PeriodicTask(self.save, delay=self.save_delay):
+        async with PeriodicTask(self.try_save, delay=self.save_delay):
             while (
                 not self.state.simplex_queue.finished
             ) or self.state.position_queue.has_queued:
-- 
2.43.0


From ea609160c3bc6c2a7aa8ed5046c367a60ee7d71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:08 +0000
Subject: [PATCH 23/26] fix: keep the position of two-stage results when they
 are saved

The container maps the position into the limits, but this was stored in the
joined result only, while its child is what is saved.
---
 nodefinder/search/result/_minimization.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nodefinder/search/result/_minimization.py b/nodefinder/search/result/_minimization.py
index 4410dba..c59ec0d 100644
--- a/nodefinder/search/result/_minimization.py
+++ b/nodefinder/search/result/_minimization.py
@@ -46,6 +46,18 @@ class JoinedMinimizationResult(SimpleHDF5Mapping):
         self.child = child
         self.ancestor = ancestor
 
+    @property
+    def pos(self):
+        """
+        Position of the child result. Changes are passed on to the child, such
+        that they are kept when the result is saved.
+        """
+        return self.child.pos
+
+    @pos.setter
+    def pos(self, value):
+        self.child.pos = value
+
     def __getattr__(self, key):
         """
         Joins child and ancestor values where that makes sense, and returns the
-- 
2.43.0


From 34a0240e42401e87133e5e0d7e218fded955cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:55 +0000
Subject: [PATCH 24/26] fix: resuming a state with other limits changed the
 results of that state

---
 nodefinder/search/_controller.py          | 8 +++++++-
 nodefinder/search/result/_minimization.py | 6 ++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index 00de6db..70ca97e 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -7,6 +7,7 @@ Defines the Controller, which implements the evaluation of the search step.
 """
 
 import os
+import copy
 import numbers
 import asyncio
 import tempfile
@@ -147,7 +148,12 @@ class Controller:
         if initial_state is not None:
             result = SearchResultContainer(
                 coordinate_system=self.coordinate_system,
-                minimization_results=initial_state.result.minimization_results,
+                # The positions are mapped into the limits of this search,
+                # which must not change the results of the initial state.
+                minimization_results=[
+                    copy.copy(res)
+                    for res in initial_state.result.minimization_results
+                ],
                 gap_threshold=gap_threshold,
                 dist_cutoff=dist_cutoff,
                 refined_results=initial_state.result.refined_results
diff --git a/nodefinder/search/result/_minimization.py b/nodefinder/search/result/_minimization.py
index c59ec0d..9a2db24 100644
--- a/nodefinder/search/result/_minimization.py
+++ b/nodefinder/search/result/_minimization.py
@@ -14,6 +14,7 @@
 Defines the result classes for the minimization.
 """
 
+import copy
 from types import SimpleNamespace
 
 import numpy as np
@@ -46,6 +47,11 @@ class JoinedMinimizationResult(SimpleHDF5Mapping):
         self.child = child
         self.ancestor = ancestor
 
+    def __copy__(self):
+        return type(self)(
+            child=copy.copy(self.child), ancestor=copy.copy(self.ancestor)
+        )
+
     @property
     def pos(self):
         """
-- 
2.43.0


From 79bef316dd26921abf2c4bd3af2a0bf6a43b7e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:24 +0000
Subject: [PATCH 25/26] fix: discarding a queued position did not mark the
 state as changed

A position which is taken from the position queue but not refined (because it
is too close to a refined one) was still queued in the save file of the
completed search, if the periodic save happened just before.
---
 nodefinder/search/_queue.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index 93ab675..35fea12 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -150,6 +150,15 @@ class PositionQueue(ObjectQueue):
     """
     Queue class for the positions which should be refined.
     """
+    def pop_queued(self):
+        """
+        Get a queued object. Since it is not tracked any longer, this changes
+        the objects which need to be saved.
+        """
+        pos = super().pop_queued()
+        self.needs_saving = True
+        return pos
+
     @staticmethod
     def normalize(objects):
         return [tuple(pos) for pos in objects]
-- 
2.43.0


From 10c09cf5819b8d952a836fb872e74d32feff59b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:30 +0000
Subject: [PATCH 26/26] fix: wait for the cancelled evaluations of a simplex
 before reporting a failure

If one of the initial evaluations fails, the others are cancelled, but those
which need some time to end were still in progress when the search had ended.
---
 nodefinder/search/_minimization/_nelder_mead.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index 01abc9a..ccd3c21 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -120,6 +120,7 @@ async def root_nelder_mead(
         # If one of the evaluations fails, the others must not continue.
         for evaluation in evaluations:
             evaluation.cancel()
+        await asyncio.gather(*evaluations, return_exceptions=True)
     assert fsim.shape == (N + 1, )
 
     ind = np.argsort(fsim)
-- 
2.43.0

