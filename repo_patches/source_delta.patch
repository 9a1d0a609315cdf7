From 27c048b8081bbe7f2f63b85580a6730583b206f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 01/25] fix: do not sample from a set when evaluating the
 dimension

random.sample raises a TypeError for sets since Python 3.11.
---
 nodefinder/identify/_dimension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/identify/_dimension.py b/nodefinder/identify/_dimension.py
index e87d207..555bc21 100644
--- a/nodefinder/identify/_dimension.py
+++ b/nodefinder/identify/_dimension.py
@@ -155,7 +155,7 @@ def _has_dimension(
         num_draws = 10
         while neighbour_tuples:
             vals = random.sample(
-                neighbour_tuples, min(num_draws, len(neighbour_tuples))
+                list(neighbour_tuples), min(num_draws, len(neighbour_tuples))
             )
             yield from vals
             neighbour_tuples -= set(vals)
-- 
2.43.0


From d9bd90a21cd2ae350e8fd4efff7ba76bed6c5232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 02/25] fix: load identification results with current h5py

Indexing an HDF5 group with () raises a TypeError instead of an
AttributeError in recent versions of h5py.
---
 nodefinder/identify/result/_containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/identify/result/_containers.py b/nodefinder/identify/result/_containers.py
index 22b5062..9cbf4a9 100644
--- a/nodefinder/identify/result/_containers.py
+++ b/nodefinder/identify/result/_containers.py
@@ -83,10 +83,10 @@ class IdentificationResult(SimpleNamespace, HDF5Enabled):
         shape = from_hdf5(hdf5_handle['shape'])
         try:
             dimension = hdf5_handle['dimension'][()]
-        except AttributeError:
+        except (AttributeError, TypeError):
             dimension = from_hdf5(hdf5_handle['dimension'])
         try:
             positions = [tuple(x) for x in hdf5_handle['positions'][()]]
-        except AttributeError:
+        except (AttributeError, TypeError):
             positions = from_hdf5(hdf5_handle['positions'])
         return cls(positions=positions, dimension=dimension, shape=shape)
-- 
2.43.0


From cba02a91686e6aab13bc41babc4e7b53295d1307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 03/25] fix: periodic average respects the lower limits

---
 nodefinder/coordinate_system.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index 3291463..c6e4a69 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -100,7 +100,9 @@ class CoordinateSystem(SimpleHDF5Mapping):
         else:
             origin = positions[0]
             deltas = [self.connecting_vector(origin, pos) for pos in positions]
-            return (origin + np.average(deltas, axis=0)) % self.size
+            return self.normalize_position(
+                origin + np.average(deltas, axis=0)
+            )
 
     def normalize_position(self, pos):
         """
-- 
2.43.0


From e49195e4aa72b16c882211c5eed60a40206a0d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 04/25] fix: scale tolerance of the connecting vector check for
 large boxes

---
 nodefinder/coordinate_system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index c6e4a69..b88b277 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -88,7 +88,8 @@ class CoordinateSystem(SimpleHDF5Mapping):
             delta = (pos2 - pos1) % self.size
             delta_negative = delta - self.size
             res = np.where(-delta_negative < delta, delta_negative, delta)
-            assert np.all(self.distance((res + pos1), pos2) < 1e-8)
+            tolerance = 1e-8 * max(1, np.max(self.size))
+            assert np.all(self.distance((res + pos1), pos2) < tolerance)
             return res
 
     def average(self, positions):
-- 
2.43.0


From c886148ede9260eb61400a3d70c854dd7622ba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 05/25] fix: identify from a ControllerState with default
 feature size

---
 nodefinder/identify/_run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/identify/_run.py b/nodefinder/identify/_run.py
index 233b13a..1ab7379 100644
--- a/nodefinder/identify/_run.py
+++ b/nodefinder/identify/_run.py
@@ -30,10 +30,10 @@ def run(result, feature_size=None, evaluate_line_method='ballistic'):
         Distance between two nodal points at which they are considered distinct.
         Uses the ``feature_size`` used in the search step by default.
     """
-    if feature_size is None:
-        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
     if isinstance(result, ControllerState):
         result = result.result
+    if feature_size is None:
+        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
     positions = [node.pos for node in result.nodes]
     coordinate_system = result.coordinate_system
     return run_from_positions(
-- 
2.43.0


From a3e11d27b283883d3bebba72b57fe02358edb102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 06/25] fix: visit neighbouring cells only once for few
 periodic cells

---
 nodefinder/search/result/_cell_list.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index 1d6c232..cda8ef4 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -50,7 +50,13 @@ class CellList:
         indices = idx + self._neighbour_offset
 
         if self.periodic:
-            return [tuple(i % self._total_num_cells) for i in indices]
+            # For less than three cells, different offsets can lead to the same
+            # cell.
+            return list(
+                dict.fromkeys(
+                    tuple(i % self._total_num_cells) for i in indices
+                )
+            )
         return [
             tuple(i) for i in indices
             if np.all(i >= 0) and np.all(i < self._total_num_cells)
-- 
2.43.0


From 5a0c1e4e3fd125668e2c52d4e094be95eb85147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 07/25] fix: queue objects only once when added in the same
 batch

---
 nodefinder/search/_queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index 549816c..46498b7 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -23,7 +23,7 @@ class ObjectQueue(HDF5Enabled, ABC):
     HDF5_ATTRIBUTES = ['objects']
 
     def __init__(self, objects=frozenset()):
-        all_objects = self.normalize(objects)
+        all_objects = list(dict.fromkeys(self.normalize(objects)))
         self._queued_objects = Queue()
         self._extend_queue(all_objects)
 
@@ -45,7 +45,7 @@ class ObjectQueue(HDF5Enabled, ABC):
         """
         Add new objects to the queue.
         """
-        new_objects = self.normalize(objects)
+        new_objects = dict.fromkeys(self.normalize(objects))
         new_objects_filtered = [
             obj for obj in new_objects if obj not in self._all_objects
         ]
-- 
2.43.0


From 69e7ced22c1b58533dd90dc0c71f913ad413d03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 08/25] fix: make the 'dominating set' line evaluation work

The sub-graph was created from the graph without weights, and finding the
paths failed when the dominating set is not connected.
---
 .../_evaluate/_line/_dominating_set.py        | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/nodefinder/identify/_evaluate/_line/_dominating_set.py b/nodefinder/identify/_evaluate/_line/_dominating_set.py
index 6da810d..e9675c2 100644
--- a/nodefinder/identify/_evaluate/_line/_dominating_set.py
+++ b/nodefinder/identify/_evaluate/_line/_dominating_set.py
@@ -36,7 +36,7 @@ def _evaluate_line_dominating_set(*, graph, coordinate_system, feature_size):
             graph_reduced_neighbours.add_edge(*edge)
 
     dominating_set = nx.algorithms.dominating_set(graph_reduced_neighbours)
-    subgraph = graph.subgraph(dominating_set).copy()
+    subgraph = graph_copy.subgraph(dominating_set).copy()
 
     _patch_all_subgraph_holes(
         subgraph=subgraph,
@@ -76,7 +76,7 @@ def _patch_all_subgraph_holes(
             np.array(pos1), np.array(pos2)
         )
         if dist_minimal < 2 * feature_size:
-            dist_reduced = nx.algorithms.shortest_path_length(
+            dist_reduced = _get_path_length(
                 subgraph, pos1, pos2, weight=weight
             )
             if dist_reduced > max(feature_size, patch_cutoff * dist_minimal):
@@ -93,7 +93,7 @@ def _patch_all_subgraph_holes(
     to_patch = sorted(to_patch, key=operator.attrgetter('dist_original'))
     for edge, dist_original in to_patch:
         # might have changed since the subgraph is being patched
-        dist_reduced = nx.algorithms.shortest_path_length(
+        dist_reduced = _get_path_length(
             subgraph, *edge, weight=_DISTANCE_KEY
         )
         if dist_reduced > 2 * dist_original:
@@ -106,6 +106,19 @@ def _patch_all_subgraph_holes(
             )
 
 
+def _get_path_length(graph, start, end, *, weight):
+    """
+    Get the length of the shortest path between two points, which is infinite
+    if they are not connected.
+    """
+    try:
+        return nx.algorithms.shortest_path_length(
+            graph, start, end, weight=weight
+        )
+    except nx.NetworkXNoPath:
+        return float('inf')
+
+
 def _patch_subgraph_hole(*, subgraph, graph, start, end):
     """
     Patch a single hole in the subgraph between the given start and end points.
-- 
2.43.0


From d9c2f6369b6dcc29340cb869382a5275243592fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 09/25] fix: do not refine nodes outside the search box

For non-periodic systems, a nodal feature which leaves the box was followed
indefinitely, such that the search never finished.
---
 nodefinder/search/_controller.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index f504854..e541fc1 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -269,10 +269,22 @@ class Controller:
         if is_node and self.refinement_stencil is not None:
             pos = result.pos
             SEARCH_LOGGER.info('Found node at position {}'.format(pos))
-            if self._check_pos_refinement(pos):
+            if self._check_pos_in_box(pos) and self._check_pos_refinement(pos):
                 SEARCH_LOGGER.info('Scheduling refinement around node.')
                 self.state.position_queue.add_objects([pos])
 
+    def _check_pos_in_box(self, pos):
+        """
+        Check that a position is within dist_cutoff of the search box. Without
+        periodic boundaries, refining nodes further outside could follow a
+        nodal feature out of the box indefinitely.
+        """
+        if self.coordinate_system.periodic:
+            return True
+        lower, upper = self.coordinate_system.limits.T
+        return np.all(pos >= lower - self.dist_cutoff
+                      ) and np.all(pos <= upper + self.dist_cutoff)
+
     def _check_pos_refinement(self, pos, count_cutoff=0):
         """
         Check whether a given position should be scheduled for refinement. An
-- 
2.43.0


From f1cbcb4d8431c40c20aba838ea611c2fb3eab192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 10/25] fix: cancel running minimizations when the search is
 aborted

---
 nodefinder/search/_controller.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index e541fc1..b7cabeb 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -186,7 +186,12 @@ class Controller:
         )
 
     async def run(self):
-        await self.create_tasks()
+        try:
+            await self.create_tasks()
+        finally:
+            # Do not leave minimizations running when the search is aborted.
+            for fut in self.task_futures:
+                fut.cancel()
 
     async def create_tasks(self):
         """
-- 
2.43.0


From d8477dc5995b5dcc4f107739551c537b0a6c9c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 11/25] fix: forward all exceptions from the search thread

Exceptions which do not derive from Exception, such as CancelledError or
SystemExit, left the caller waiting for a result indefinitely.
---
 nodefinder/search/_run.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 32d7c54..04a55e0 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -189,9 +189,11 @@ def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
     """
     try:
         loop = asyncio.new_event_loop()
-        res = loop.run_until_complete(run_async(*args, **kwargs))
-        loop.close()
+        try:
+            res = loop.run_until_complete(run_async(*args, **kwargs))
+        finally:
+            loop.close()
         res_queue.put(res)
-    except Exception as exc:
+    except BaseException as exc:
         exc_queue.put(exc)
         raise
-- 
2.43.0


From d49431db6f1b20337e001e351933a9ffc003bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 12/25] fix: load the minimization message as a string

---
 nodefinder/search/result/_minimization.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/nodefinder/search/result/_minimization.py b/nodefinder/search/result/_minimization.py
index cd1ec82..d1a441d 100644
--- a/nodefinder/search/result/_minimization.py
+++ b/nodefinder/search/result/_minimization.py
@@ -103,9 +103,12 @@ class MinimizationResult(SimpleNamespace, HDF5Enabled):
 
     @classmethod
     def from_hdf5(cls, hdf5_handle):
-        return cls(
-            **{
-                key: val[()]
-                for key, val in hdf5_handle.items() if key != 'type_tag'
-            }
-        )
+        attributes = {
+            key: val[()]
+            for key, val in hdf5_handle.items() if key != 'type_tag'
+        }
+        # Strings are loaded as bytes by recent versions of h5py.
+        for key, val in attributes.items():
+            if isinstance(val, bytes):
+                attributes[key] = val.decode('utf-8')
+        return cls(**attributes)
-- 
2.43.0


From 014908e35e05c31053fc64c78c39396ad94e3f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 13/25] fix: make joined results serializable and copyable

The normalized position was not saved, and copying or unpickling failed with
a RecursionError.
---
 nodefinder/search/result/_minimization.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nodefinder/search/result/_minimization.py b/nodefinder/search/result/_minimization.py
index d1a441d..e749886 100644
--- a/nodefinder/search/result/_minimization.py
+++ b/nodefinder/search/result/_minimization.py
@@ -46,11 +46,23 @@ class JoinedMinimizationResult(SimpleHDF5Mapping):
         self.child = child
         self.ancestor = ancestor
 
+    @property
+    def pos(self):
+        return self.child.pos
+
+    @pos.setter
+    def pos(self, value):
+        # Must be set on the child, otherwise it is lost in serialization.
+        self.child.pos = value
+
     def __getattr__(self, key):
         """
         Joins child and ancestor values where that makes sense, and returns the
         child value otherwise.
         """
+        if key in self.HDF5_ATTRIBUTES:
+            # Not initialized yet, for example when copying or unpickling.
+            raise AttributeError(key)
         if key in self.JOIN_KEYS:
             return self._join(
                 getattr(self.ancestor, key), getattr(self.child, key)
-- 
2.43.0


From a2182c610ced3b0df99fdab213d86c4a03a45d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 14/25] fix: save the state after positions were removed from
 the queue

A position which was discarded when it was checked again before the
refinement remained in the saved state of the finished search.
---
 nodefinder/search/_queue.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index 46498b7..1f22aec 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -39,7 +39,9 @@ class ObjectQueue(HDF5Enabled, ABC):
         return list(self._queued_objects.queue)
 
     def pop_queued(self):
-        return self._queued_objects.get_nowait()
+        obj = self._queued_objects.get_nowait()
+        self.needs_saving = True
+        return obj
 
     def add_objects(self, objects):
         """
-- 
2.43.0


From e2366a47552861624b45fb9600fb5b4d92e26092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 15/25] fix: remove the temporary file when saving is
 interrupted

The temporary file remained if saving was interrupted by an exception which
does not derive from Exception, for example KeyboardInterrupt.
---
 nodefinder/search/_controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index b7cabeb..ad9a42b 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -333,6 +333,6 @@ class Controller:
                     io.save(self.state, tmpf.name)
                     os.rename(tmpf.name, self.save_file)
                     self.state.needs_saving = False
-                except Exception as exc:
+                except BaseException:
                     os.remove(tmpf.name)
-                    raise exc
+                    raise
-- 
2.43.0


From dbe25fdfc4cf67529c471ef3fab5ddcc6499c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 16/25] fix: make identification results copyable and picklable

---
 nodefinder/identify/result/_containers.py |  8 ++++----
 nodefinder/identify/result/_namespace.py  | 19 +++++++++++++++++++
 nodefinder/identify/result/_shapes.py     |  8 ++++----
 3 files changed, 27 insertions(+), 8 deletions(-)
 create mode 100644 nodefinder/identify/result/_namespace.py

diff --git a/nodefinder/identify/result/_containers.py b/nodefinder/identify/result/_containers.py
index 9cbf4a9..44ebbcc 100644
--- a/nodefinder/identify/result/_containers.py
+++ b/nodefinder/identify/result/_containers.py
@@ -6,16 +6,16 @@
 Defines the container classes for the identification results.
 """
 
-from types import SimpleNamespace
-
 import numpy as np
 from fsc.export import export
 from fsc.hdf5_io import subscribe_hdf5, SimpleHDF5Mapping, HDF5Enabled, to_hdf5, from_hdf5
 
+from ._namespace import ResultNamespace
+
 
 @export
 @subscribe_hdf5('nodefinder.identification_result_container')
-class IdentificationResultContainer(SimpleNamespace, SimpleHDF5Mapping):
+class IdentificationResultContainer(ResultNamespace, SimpleHDF5Mapping):
     """Container class for the result of the identification step.
 
     Attributes
@@ -46,7 +46,7 @@ class IdentificationResultContainer(SimpleNamespace, SimpleHDF5Mapping):
 
 @export
 @subscribe_hdf5('nodefinder.identification_result')
-class IdentificationResult(SimpleNamespace, HDF5Enabled):
+class IdentificationResult(ResultNamespace, HDF5Enabled):
     """Contains the attributes of an identified object.
 
     Attributes
diff --git a/nodefinder/identify/result/_namespace.py b/nodefinder/identify/result/_namespace.py
new file mode 100644
index 0000000..be941d0
--- /dev/null
+++ b/nodefinder/identify/result/_namespace.py
@@ -0,0 +1,19 @@
+# -*- coding: utf-8 -*-
+
+# © 2017-2019, ETH Zurich, Institut für Theoretische Physik
+# Author: Dominik Gresch <greschd@gmx.ch>
+"""
+Defines the base class for the identification results and shapes.
+"""
+
+import copyreg
+from types import SimpleNamespace
+
+
+class ResultNamespace(SimpleNamespace):
+    """
+    Namespace whose subclasses can have required constructor arguments, and
+    still be copied and pickled.
+    """
+    def __reduce__(self):
+        return copyreg.__newobj__, (type(self), ), self.__dict__
diff --git a/nodefinder/identify/result/_shapes.py b/nodefinder/identify/result/_shapes.py
index a6b1b6c..d3298ca 100644
--- a/nodefinder/identify/result/_shapes.py
+++ b/nodefinder/identify/result/_shapes.py
@@ -6,18 +6,18 @@
 Defines the container classes for object shapes.
 """
 
-from types import SimpleNamespace
-
 import numpy as np
 import networkx as nx
 
 from fsc.export import export
 from fsc.hdf5_io import SimpleHDF5Mapping, subscribe_hdf5, to_hdf5, from_hdf5
 
+from ._namespace import ResultNamespace
+
 
 @export
 @subscribe_hdf5('nodefinder.nodal_point')
-class NodalPoint(SimpleNamespace, SimpleHDF5Mapping):
+class NodalPoint(ResultNamespace, SimpleHDF5Mapping):
     """
     Shape class defining a nodal point.
 
@@ -34,7 +34,7 @@ class NodalPoint(SimpleNamespace, SimpleHDF5Mapping):
 
 @export
 @subscribe_hdf5('nodefinder.nodal_line')
-class NodalLine(SimpleNamespace):
+class NodalLine(ResultNamespace):
     """
     Shape class defining a nodal line.
 
-- 
2.43.0


From 490c3c7b6e0484cd8134882c65a4a50b2c3cc8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 17/25] fix: handle positions rounded to the upper periodic
 limit

---
 nodefinder/search/result/_cell_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index cda8ef4..ed211e2 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -69,7 +69,10 @@ class CellList:
 
     def get_index(self, frac):  # pylint: disable=missing-function-docstring
         vals = np.array(frac * self.num_cells, dtype=int)
-        if not self.periodic:
+        if self.periodic:
+            # Due to rounding errors, 'frac' can be exactly one.
+            vals %= self.num_cells
+        else:
             vals += 1
             vals = np.maximum(0, np.minimum(vals, self._total_num_cells - 1))  # pylint: disable=assignment-from-no-return,useless-suppression
         return tuple(vals)
-- 
2.43.0


From 7c68e0fd47e18d7bec0ab4dab6fe92301b0b9288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 18/25] fix: stop the search when the event loop is interrupted

---
 nodefinder/search/_run.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 04a55e0..a772f97 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -175,13 +175,38 @@ def run(*args, **kwargs):
             res = res_queue.get()
         else:
             SEARCH_LOGGER.debug('Running in the current thread.')
-            res = loop.run_until_complete(run_async(*args, **kwargs))
+            res = _run_in_loop(loop, run_async(*args, **kwargs))
     finally:
         if close_loop:
             loop.close()
     return res
 
 
+def _run_in_loop(loop, coro):
+    """
+    Run the coroutine in the given loop. KeyboardInterrupt and SystemExit stop
+    the loop immediately, in which case the tasks of the search are cancelled,
+    such that they do not continue when the loop is used again.
+    """
+    other_tasks = asyncio.all_tasks(loop)
+    task = loop.create_task(coro)
+    try:
+        return loop.run_until_complete(task)
+    except BaseException as exc:
+        while not task.done():
+            for search_task in asyncio.all_tasks(loop) - other_tasks:
+                search_task.cancel()
+            try:
+                loop.run_until_complete(task)
+            except asyncio.CancelledError:
+                pass
+            except BaseException as new_exc:
+                # The same exception is raised again by the minimization.
+                if new_exc is not exc and not task.done():
+                    raise
+        raise
+
+
 def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
     """
     Helper function that runs the search function, to be used as a thread target.
@@ -190,7 +215,7 @@ def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
     try:
         loop = asyncio.new_event_loop()
         try:
-            res = loop.run_until_complete(run_async(*args, **kwargs))
+            res = _run_in_loop(loop, run_async(*args, **kwargs))
         finally:
             loop.close()
         res_queue.put(res)
-- 
2.43.0


From 2fa68d66193bd3eeed9ea902042de9760421dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 19/25] fix: cancel evaluations of the initial simplex when one
 of them fails

---
 nodefinder/search/_minimization/_nelder_mead.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index bafc0cb..1dfa765 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -113,7 +113,13 @@ async def root_nelder_mead(
     sim = np.array(initial_simplex)
     assert sim.shape == (N + 1, N)
 
-    fsim = np.array(await asyncio.gather(*[func(x) for x in sim]), dtype=float)
+    evaluations = [asyncio.ensure_future(func(x)) for x in sim]
+    try:
+        fsim = np.array(await asyncio.gather(*evaluations), dtype=float)
+    finally:
+        # Do not continue with the other vertices if one of them failed.
+        for fut in evaluations:
+            fut.cancel()
     assert fsim.shape == (N + 1, )
 
     ind = np.argsort(fsim)
-- 
2.43.0


From f45749a6f157902d36e5487a6eee0bfaab83dac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 20/25] fix: create a new event loop if that of the thread is
 closed

---
 nodefinder/search/_run.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index a772f97..3e6bf1b 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -146,6 +146,8 @@ def run(*args, **kwargs):
     """
     try:
         loop = asyncio.get_event_loop()
+        if loop.is_closed():
+            raise RuntimeError('Event loop is closed')
         close_loop = False
     except RuntimeError:
         SEARCH_LOGGER.debug('Creating a new event loop.')
-- 
2.43.0


From 6a7667859e16ffcfa77cc138b8f990642d14874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 21/25] fix: count nodes exactly at a vertex when checking
 simplices

The fake potential and the check of starting simplices ignored nodes at
exactly the given position, although they are closer than the cutoff.
---
 nodefinder/search/_controller.py               |  4 +++-
 nodefinder/search/_fake_potential.py           |  3 ++-
 .../search/result/_search_result_container.py  | 18 ++++++++++++------
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index ad9a42b..cea4340 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -313,7 +313,9 @@ class Controller:
         """
         count = 0
         for pos in simplex:
-            for dist in self.state.result.get_neighbour_distance_iterator(pos):
+            for dist in self.state.result.get_neighbour_distance_iterator(
+                pos, skip_equal=False
+            ):
                 if dist < self.dist_cutoff:
                     count += 1
                     if count > self.simplex_check_cutoff:
diff --git a/nodefinder/search/_fake_potential.py b/nodefinder/search/_fake_potential.py
index 13503bb..21595fc 100644
--- a/nodefinder/search/_fake_potential.py
+++ b/nodefinder/search/_fake_potential.py
@@ -26,7 +26,8 @@ class FakePotential:
     def __call__(self, pos):  # pylint: disable=missing-function-docstring
         if any(
             dist < self.width
-            for dist in self.result.get_all_neighbour_distances(pos)
+            for dist in self.result.
+            get_all_neighbour_distances(pos, skip_equal=False)
         ):
             return float('inf')
         return 0
diff --git a/nodefinder/search/result/_search_result_container.py b/nodefinder/search/result/_search_result_container.py
index 75ee09d..9d9083a 100644
--- a/nodefinder/search/result/_search_result_container.py
+++ b/nodefinder/search/result/_search_result_container.py
@@ -127,13 +127,15 @@ class SearchResultContainer(SimpleHDF5Mapping):
         """
         return self.nodes.values() + self.rejected_results
 
-    def _get_neighbour_iterator(self, pos):
+    def _get_neighbour_iterator(self, pos, skip_equal=True):
         candidates = self.nodes.get_neighbour_values(
             frac=self.coordinate_system.get_frac(pos)
         )
-        return (c for c in candidates if np.any(c.pos != pos))
+        return (
+            c for c in candidates if not skip_equal or np.any(c.pos != pos)
+        )
 
-    def get_neighbour_distance_iterator(self, pos):
+    def get_neighbour_distance_iterator(self, pos, skip_equal=True):
         """
         Returns an iterator over the distance to neighbouring nodes from a given
         position. Only neighbours within ``dist_cutoff`` are taken into account.
@@ -142,8 +144,10 @@ class SearchResultContainer(SimpleHDF5Mapping):
         ---------
         pos : numpy.ndarray
             Position for which to calculate the distances.
+        skip_equal : bool
+            Do not include nodes which are at exactly the given position.
         """
-        candidates = self._get_neighbour_iterator(pos)
+        candidates = self._get_neighbour_iterator(pos, skip_equal=skip_equal)
         return (
             self.coordinate_system.distance(pos, c.pos) for c in candidates
         )
@@ -163,7 +167,7 @@ class SearchResultContainer(SimpleHDF5Mapping):
         )
         return (self.coordinate_system.distance(pos, c) for c in candidates)
 
-    def get_all_neighbour_distances(self, pos):
+    def get_all_neighbour_distances(self, pos, skip_equal=True):
         """
         Calculate the distances to neighbouring nodes from a given position.
         Only neighbours within ``dist_cutoff`` are taken into account.
@@ -172,8 +176,10 @@ class SearchResultContainer(SimpleHDF5Mapping):
         ---------
         pos : numpy.ndarray
             Position for which to calculate the distances.
+        skip_equal : bool
+            Do not include nodes which are at exactly the given position.
         """
-        candidates = self._get_neighbour_iterator(pos)
+        candidates = self._get_neighbour_iterator(pos, skip_equal=skip_equal)
         positions = np.array([c.pos for c in candidates])
 
         if positions.size == 0:
-- 
2.43.0


From 6a52969da1a7c0708c667065fe5a8c4e9fa78c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 22/25] fix: do not modify the initial state given to a search

---
 nodefinder/search/_controller.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index cea4340..a15e816 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -7,6 +7,7 @@ Defines the Controller, which implements the evaluation of the search step.
 """
 
 import os
+import copy
 import numbers
 import asyncio
 import tempfile
@@ -145,7 +146,11 @@ class Controller:
         if initial_state is not None:
             result = SearchResultContainer(
                 coordinate_system=self.coordinate_system,
-                minimization_results=initial_state.result.minimization_results,
+                # Positions are moved into the box, which must not change the
+                # initial state.
+                minimization_results=copy.deepcopy(
+                    initial_state.result.minimization_results
+                ),
                 gap_threshold=gap_threshold,
                 dist_cutoff=dist_cutoff,
                 refined_results=initial_state.result.refined_results
-- 
2.43.0


From 60ecf230173da611af4aadf2c5c560b532fe94ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:57 +0000
Subject: [PATCH 23/25] fix: find neighbours across a box smaller than half the
 cutoff

---
 nodefinder/search/result/_cell_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index ed211e2..bd3d350 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -30,8 +30,11 @@ class CellList:
         filler(self._cells, self._cells)
         self._values_flat = []
 
+        # A single cell can be smaller than the cutoff, in which case the
+        # 'boundary' boxes on its two sides are also neighbours.
+        max_offset = np.where(self.num_cells == 1, 2, 1)
         self._neighbour_offset = np.array(
-            list(itertools.product([-1, 0, 1], repeat=len(self.num_cells)))
+            list(itertools.product(*[range(-n, n + 1) for n in max_offset]))
         )
         self._neighbour_indices = dict()
 
-- 
2.43.0


From c65eba55241ec89c6af221b48b0265378a8a4733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:17 +0000
Subject: [PATCH 24/25] fix: report the value at the reported position if
 others are NaN

A gap function which is undefined (NaN) at some vertex of the last simplex gave
NaN as the value of the result, although the position is that of the best
defined value.
---
 nodefinder/search/_minimization/_nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index 1dfa765..2a5b7ac 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -207,7 +207,7 @@ async def root_nelder_mead(
             simplex_history[0] = np.copy(sim)
 
     x = sim[0]
-    fval = np.min(fsim)
+    fval = fsim[0]
     warnflag = 0
 
     if fcalls[0] >= maxfun:
-- 
2.43.0


From 084e4065d946d5c007e0231e02cd2679c65b78bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:37 +0000
Subject: [PATCH 25/25] fix: resume searches with pending positions without
 refinement

---
 nodefinder/search/_controller.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index a15e816..99ad387 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -205,14 +205,14 @@ class Controller:
         async with PeriodicTask(self.save, delay=self.save_delay):
             while (
                 not self.state.simplex_queue.finished
-            ) or self.state.position_queue.has_queued:
+            ) or self._has_refinement_positions:
                 # if (not self.state.simplex_queue.has_queued) and (self.state.position_queue.has_queued):
                 while (
                     self.state.simplex_queue.num_running <
                     self.num_minimize_parallel
                 ):
                     while not self.state.simplex_queue.has_queued:
-                        if self.state.position_queue.has_queued:
+                        if self._has_refinement_positions:
                             pos = self.state.position_queue.pop_queued()
                             if (not self.recheck_pos_dist
                                 ) or self._check_pos_refinement(
@@ -252,6 +252,17 @@ class Controller:
                 self.task_futures.difference_update(done_futures)
         await asyncio.gather(*self.task_futures)
 
+    @property
+    def _has_refinement_positions(self):
+        """
+        Shows if there are positions to be refined. Positions in the initial
+        state stay in the queue if the refinement is switched off.
+        """
+        return (
+            self.refinement_stencil is not None
+            and self.state.position_queue.has_queued
+        )
+
     def schedule_minimization(self, simplex):
         SEARCH_LOGGER.debug(
             'Scheduling minimization of simplex {}'.format(simplex)
-- 
2.43.0

