From d0d7782a0b9bdc4268d071c7ec1cb3d7ad6bddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 01/54] fix: restore the communicator before each dataset and
 geometry of an operation

Ranks without data in one subset were dropped from the following datasets and selection geometries.
---
 src/ocgis/ops/engine.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index e008936..19bb71d 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -107,6 +107,9 @@ class OperationsEngine(AbstractOcgisObject):
         # Process the incoming datasets. Convert from request datasets to fields as needed.
         for rds in itr_rd:
 
+            # Processing a dataset narrows the current communicator. Every dataset starts with all ranks.
+            vm.set_comm(self._original_subcomm)
+
             try:
                 msg = 'Processing URI(s): {0}'.format([rd.uri for rd in rds])
             except AttributeError:
@@ -296,8 +299,12 @@ class OperationsEngine(AbstractOcgisObject):
         assert isinstance(field, Field)
 
         ocgis_lh('processing geometries', self._subset_log, level=logging.DEBUG)
+        # Processing a geometry narrows the current communicator to the ranks with data in its subset. The other ranks may
+        # have data for the next geometry.
+        field_subcomm = vm.current_comm_name
         # Process each geometry.
         for subset_field in itr:
+            vm.set_comm(field_subcomm)
 
             # Initialize the collection storage.
             coll = self._get_initialized_collection_()
-- 
2.43.0


From 782a44fb8cd5aa08e3063c790b3d0746963dd22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 02/54] fix: decide collectively whether a subset grid carries
 a spatial mask

The mask variable existed on some ranks only when the masked cells were not on all of them.
---
 src/ocgis/spatial/grid.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index a22add9..3e2b08d 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -665,12 +665,13 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
             ret.set_mask(ret.get_mask().copy())
 
         if optimized_bbox_subset:
-            if original_mask is not None and original_mask.any():
+            if get_any_global(original_mask is not None and original_mask.any()):
                 # TODO: OPTIMIZE: Can we avoid the cascade? There is no reason to cascade the mask if it is going to be sliced off anyway.
                 ret.set_mask(original_mask, cascade=True)
             sliced_grid, _, the_slice = get_masking_slice(original_mask, ret, apply_slice=apply_slice)
             sliced_grid_mask = sliced_grid.get_mask()
-            if not original_grid_has_mask and sliced_grid_mask is not None and not sliced_grid_mask.any():
+            has_masked = sliced_grid_mask is not None and sliced_grid_mask.any()
+            if not get_any_global(has_masked) and not original_grid_has_mask and sliced_grid_mask is not None:
                 sliced_grid.set_mask(None)
         else:
             fill_mask = original_mask
@@ -706,9 +707,11 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
 
             sliced_grid, sliced_mask, the_slice = get_masking_slice(fill_mask, ret, apply_slice=apply_slice)
 
-            # Only modify the outgoing mask if any values are masked.
+            # Only modify the outgoing mask if any values are masked on any rank. The mask variable must be present on all
+            # ranks with data or on none of them.
             sliced_mask_value = sliced_mask.get_value()
-            if sliced_mask_value is not None and sliced_mask_value.any():
+            has_masked = sliced_mask_value is not None and sliced_mask_value.any()
+            if get_any_global(has_masked) and sliced_mask_value is not None:
                 sliced_grid.set_mask(sliced_mask_value, cascade=cascade)
 
         if perform_intersection:
@@ -1279,6 +1282,20 @@ def grid_set_geometry_variable_on_parent(func, grid, name, alloc_only=False):
     return ret
 
 
+def get_any_global(flag):
+    """
+    Collective! Return ``True`` if ``flag`` is ``True`` on any rank of the current communicator.
+
+    :rtype: bool
+    """
+    flags = vm.gather(bool(flag))
+    if vm.rank == 0:
+        ret = any(flags)
+    else:
+        ret = None
+    return vm.bcast(ret)
+
+
 def grid_set_mask_cascade(grid):
     members = grid.get_member_variables(include_bounds=True)
     grid.parent.set_mask(grid.mask_variable, exclude=members)
-- 
2.43.0


From ec4a915f9502b6c75352fa2a7c1f5424a385ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 03/54] fix: place a distributed dimension shorter than the
 minimum on one rank

A dimension with one element was empty on every rank.
---
 src/ocgis/vmachine/mpi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index 2cabba3..ba7169c 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -335,7 +335,8 @@ class OcgDist(AbstractOcgisObject):
                 # Use the minimum number of elements per rank to potentially adjust the size.
                 min_size = int(np.floor(len(distributed_dimension) / float(min_elements)))
                 if self.size > 1 and min_size < the_size:
-                    the_size = min_size
+                    # A dimension with fewer elements than the minimum is placed on a single rank.
+                    the_size = max(min_size, 1)
 
                 # Fix the global bounds.
                 distributed_dimension.bounds_global = (0, len(distributed_dimension))
-- 
2.43.0


From ec8d422504726e64137b39b88b20216b0082456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 04/54] fix: gather variables with bounds and scatter
 collections with groups

variable_gather raised for a variable with bounds on more than one rank; variable_collection_scatter indexed the scattered
child collection with 0.
---
 src/ocgis/vmachine/mpi.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index ba7169c..ef6b26a 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -748,7 +748,7 @@ def variable_collection_scatter(variable_collection, dest_dist):
     else:
         children = [None] * n_children
     for child in children:
-        scattered_child = variable_collection_scatter(child, dest_dist)[0]
+        scattered_child = variable_collection_scatter(child, dest_dist)
         svc.add_child(scattered_child, force=True)
 
     return svc
@@ -767,6 +767,12 @@ def variable_gather(variable, root=0):
             new_variable._mask = None
             new_variable._value = None
             new_variable._dimensions = None
+            if new_variable.has_bounds:
+                # The bounds are filled with the target variable.
+                new_bounds = new_variable.bounds
+                new_bounds.dtype = variable.bounds.dtype
+                new_bounds._mask = None
+                new_bounds._value = None
             assert not new_variable.has_allocated_value
         else:
             new_variable = None
-- 
2.43.0


From 5326844c7fb9bae8d304971e7c0f7578ffbd80f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 05/54] fix: keep the requests of the reindexing algorithms and
 answer searches while waiting

---
 src/ocgis/spatial/geomc.py | 118 ++++++++++++++++++-------------------
 src/ocgis/util/helpers.py  |  12 +++-
 2 files changed, 68 insertions(+), 62 deletions(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index e2850e0..408aa80 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -992,10 +992,13 @@ def reduce_reindex_coordinate_index(cindex, start_index=0):
 
 def run_rr_nonroot(new_cindex, cindex, uidx, destinations, has_u, overlaps, tag_child_finished, tag_found, tag_search,
                    tag_success):
+    # Open channels for the search requests coming from the destination ranks. These must stay open until every rank is
+    # finished. Replies to the searches are tracked to keep their buffers.
+    search_channels = create_Irecv_dct(destinations, tag_search)
+    replies = []
+
     # Fill each value in the coordinate index.
     for idx, ii in enumerate(cindex.flat):
-        # if idx % 100 == 0:
-        #     vm.rank_print('{} of {}'.format(idx+1, cindex.shape[0]))
         try:
             # If this rank has unique indices, try to retrieve the new indexing from its unique indexing hash.
             if has_u:
@@ -1005,58 +1008,42 @@ def run_rr_nonroot(new_cindex, cindex, uidx, destinations, has_u, overlaps, tag_
                 raise KeyError
         except KeyError:
             new_cindex_value = None
-            # Keep searching and waiting for the response from the overlap ranks.
-            # while new_cindex_value is None:
 
-            # Send the value to find to each of the destination ranks.
+            # Send the value to find to each of the overlap ranks and prepare for their answers.
             assert ii != MPI_EMPTY_VALUE
             assert ii >= 0
-            # vm.rank_print('idx', idx, 'sending to:', overlaps, 'receiving from:', destinations)
             search_reqs = [create_Isend(orank, tag_search, value=ii) for orank in overlaps]
-            # for s in search_reqs:
-            #     s.Test()
-
-            # vm.rank_print('receiving from:', destinations)
-            sent = search_for_destinations(destinations, uidx, tag_found, tag_search)
-
-            for s in search_reqs:
-                # vm.rank_print('waiting for search request', 'idx', idx, s[0])
-                s[1].wait()
+            found_reqs = [create_Irecv(orank, tag_found) for orank in overlaps]
 
-            # vm.rank_print('overlaps', overlaps, 'destinations', destinations)
-            # time.sleep(100)
+            # The overlap ranks may themselves be waiting on this rank. Hence, continue answering while waiting.
+            waiting = search_reqs + found_reqs
+            while len(waiting) > 0:
+                replies = keep_unfinished(replies)
+                replies += search_for_destinations(search_channels, uidx, tag_found, tag_search)
+                waiting = keep_unfinished(waiting)
 
-            for overlap_rank in overlaps:
-                data, req = create_Irecv(overlap_rank, tag_found)
-                req.wait()
-                # if req.Test():
+            for data, _ in found_reqs:
                 if data[0] != MPI_EMPTY_VALUE:
                     new_cindex_value = data[0]
 
-            for s in sent:
-                s[1].wait()
-
-                # for s in search_reqs:
-                #     s.wait()
-
-                # Free the search requests to avoid any race conditions in data buffers.
-
-                # cancel_free_requests(search_reqs)
-
         # Fill the new coordinate index array with the found value.
         assert new_cindex_value is not None
         new_cindex[idx] = new_cindex_value
 
     # Continue searching for destination ranks until the success signal is received from the root rank.
-    _, req_child_finished = create_Isend(0, tag_child_finished)
-    _, req_success = create_Irecv(0, tag_success)
+    _, req_child_finished = child_finished = create_Isend(0, tag_child_finished)
+    _, req_success = success = create_Irecv(0, tag_success)
 
     while not req_success.Test():
-        sent = search_for_destinations(destinations, uidx, tag_found, tag_search)
-        for s in sent:
-            s[1].wait()
-    # Wait until the child finished tag is received by the parent.
+        replies = keep_unfinished(replies)
+        replies += search_for_destinations(search_channels, uidx, tag_found, tag_search)
 
+    # Every rank is finished. There are no more searches to answer.
+    for _, req in replies:
+        req.wait()
+    cancel_free_requests([ii['req'] for ii in search_channels.values()])
+
+    # Wait until the child finished tag is received by the parent.
     req_child_finished.wait()
 
 
@@ -1070,14 +1057,15 @@ def run_rr_root(new_cindex, cindex, uidx, destinations, tag_child_finished, tag_
         new_cindex[idx] = uidx[ii]
     success = False
 
-    # Open channels for child finished signals.
-    children_finished_reqs = create_Irecv_dct(vm.ranks, tag_child_finished)
+    # Open channels for search requests and child finished signals.
+    search_channels = create_Irecv_dct(destinations, tag_search)
+    replies = []
+    children_finished_reqs = create_Irecv_dct([rank for rank in vm.ranks if rank != 0], tag_child_finished)
 
     while not success:
         # Check for any requests from destination ranks. These ranks need a value that may be on this rank.
-        sent = search_for_destinations(destinations, uidx, tag_found, tag_search)
-        for s in sent:
-            s[1].wait()
+        replies = keep_unfinished(replies)
+        replies += search_for_destinations(search_channels, uidx, tag_found, tag_search)
 
         # Check if children have finished. If they have finished. Send the success signal to other participating ranks.
         for idx, rank in enumerate(vm.ranks):
@@ -1089,30 +1077,40 @@ def run_rr_root(new_cindex, cindex, uidx, destinations, tag_child_finished, tag_
             success = True
             for rank in vm.ranks:
                 if rank != 0:
-                    _, req = create_Isend(rank, tag_success)
+                    buf, req = create_Isend(rank, tag_success)
                     req.wait()
 
+    for _, req in replies:
+        req.wait()
+    cancel_free_requests([ii['req'] for ii in search_channels.values()])
 
-def search_for_destinations(dest_ranks, uidx, tag_found, tag_search):
-    assert isinstance(dest_ranks, list)
+
+def keep_unfinished(pairs):
+    """
+    :param pairs: Sequence of buffer and request pairs.
+    :return: The pairs with requests that are not finished.
+    :rtype: list
+    """
+    return [(buf, req) for buf, req in pairs if not req.Test()]
+
+
+def search_for_destinations(search_channels, uidx, tag_found, tag_search):
+    """
+    Answer the searches received from destination ranks and open the channel for their next search.
+
+    :param dict search_channels: See :func:`create_Irecv_dct`. Updated in-place.
+    :return: Buffer and request pairs for the answers sent. The caller must hold these until the requests are complete.
+    :rtype: list
+    """
     sent = []
-    for dest_rank in dest_ranks:
-        data, req = create_Irecv(dest_rank, tag_search)
-        # data = np.array([MPI_EMPTY_VALUE], dtype='i')
-        # buf = [data, MPI.INT]
-        # req = vm.comm.Irecv(buf, source=dest_rank, tag=tag_search)
-        # req.wait()
-        if req.Test():
-            search_value = data[0]
-            # if data == MPI_EMPTY_VALUE:
-            #     print('rank=', vm.rank, 'bad data from rank:', dest_rank)
+    for dest_rank in list(search_channels.keys()):
+        channel = search_channels[dest_rank]
+        if channel['req'].Test():
+            search_value = channel['data'][0]
             assert search_value != MPI_EMPTY_VALUE
             assert search_value is not None
             assert search_value >= 0
-            # vm.rank_print('search_value', search_value)
             local_uidx = uidx.get(search_value, MPI_EMPTY_VALUE)
-            send_res = create_Isend(dest_rank, tag_found, value=local_uidx)
-            sent.append(send_res)
-        else:
-            cancel_free_requests([req])
+            sent.append(create_Isend(dest_rank, tag_found, value=local_uidx))
+            search_channels.update(create_Irecv_dct([dest_rank], tag_search))
     return sent
diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index d5d76b1..541e07f 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -1080,14 +1080,19 @@ def create_unique_global_array(arr):
     np_type = unique_local.dtype
     mpi_type = vm.get_mpi_type(np_type)
 
+    # Requests and their buffers must be kept until the sends are complete.
+    send_requests = []
     for o in overlaps:
         if vm.rank != o and vm.rank < o:
             dest_rank_bounds = lb_global[o]
             select_send = np.logical_and(unique_local >= dest_rank_bounds[0], unique_local <= dest_rank_bounds[1])
             u_src = unique_local[select_send]
             select_send_size = u_src.size
-            _ = vm.comm.Isend([np.array([select_send_size], dtype=np_type), mpi_type], dest=o, tag=tag_select_send_size)
-            _ = vm.comm.Isend([u_src, mpi_type], dest=o, tag=tag_overlap)
+            select_send_size = np.array([select_send_size], dtype=np_type)
+            req = vm.comm.Isend([select_send_size, mpi_type], dest=o, tag=tag_select_send_size)
+            send_requests.append((req, select_send_size))
+            req = vm.comm.Isend([u_src, mpi_type], dest=o, tag=tag_overlap)
+            send_requests.append((req, u_src))
 
     # Receive and process conflicts to reduce the unique local values.
     if vm.rank != 0:
@@ -1108,6 +1113,9 @@ def create_unique_global_array(arr):
                         utokeep[uidx] = False
                 unique_local = unique_local[utokeep]
 
+    for req, _ in send_requests:
+        req.wait()
+
     vm.barrier()
     return unique_local
 
-- 
2.43.0


From ebc054ff36071e05fdb85268a334d50ad8d6f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 06/54] fix: slice every dimension independently when several
 index arrays are given

---
 src/ocgis/util/helpers.py  | 22 +++++++++++++++++++++-
 src/ocgis/variable/base.py |  7 ++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index 541e07f..605393e 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -625,7 +625,7 @@ def get_optimal_slice_from_array(arr, check_diff=True):
     if arr.dtype == bool:
         ret = arr
     else:
-        if check_diff and np.any(np.diff(arr) > 1):
+        if check_diff and np.any(np.diff(arr) != 1):
             ret = arr
         else:
             arr_min, arr_max = arr.min(), arr.max()
@@ -633,6 +633,26 @@ def get_optimal_slice_from_array(arr, check_diff=True):
     return ret
 
 
+def get_orthogonal_slice(arr, slc):
+    """
+    Slice an array treating each element of the slice independently. NumPy broadcasts index arrays when there is more than
+    one in the slice.
+
+    :param arr: The array to slice.
+    :type arr: :class:`numpy.ndarray`
+    :param slc: A sequence with an element for each dimension of the array. See :func:`get_formatted_slice`.
+    :type slc: tuple
+    :rtype: :class:`numpy.ndarray`
+    """
+    if isinstance(slc, tuple) and len([s for s in slc if isinstance(s, np.ndarray)]) > 1:
+        ret = arr
+        for axis, s in enumerate(slc):
+            ret = ret.__getitem__((slice(None),) * axis + (s,))
+    else:
+        ret = arr.__getitem__(slc)
+    return ret
+
+
 def get_ordered_dicts_from_records_array(arr):
     """
     Convert a NumPy records array to an ordered dictionary.
diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 18c061c..b381ee6 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -19,7 +19,8 @@ from ocgis.exc import VariableInCollectionError, BoundsAlreadyAvailableError, Em
     ResolutionError, NoUnitsError, DimensionsRequiredError, DimensionMismatchError, MaskedDataFound, \
     PayloadProtectedError
 from ocgis.util.helpers import get_iter, get_formatted_slice, get_bounds_from_1d, get_extrapolated_corners_esmf, \
-    create_ocgis_corners_from_esmf_corners, is_crs_variable, arange_from_bool_ndarray, dict_first
+    create_ocgis_corners_from_esmf_corners, is_crs_variable, arange_from_bool_ndarray, dict_first, \
+    get_orthogonal_slice
 from ocgis.util.helpers import is_auto_dtype
 from ocgis.util.units import get_units_object, get_conformed_units
 from ocgis.variable.attributes import Attributes
@@ -324,9 +325,9 @@ class Variable(AbstractContainer, Attributes):
         new_mask = None
 
         if ret._value is not None:
-            new_value = ret.get_value().__getitem__(slc)
+            new_value = get_orthogonal_slice(ret.get_value(), slc)
         if ret._mask is not None:
-            new_mask = ret._mask.__getitem__(slc)
+            new_mask = get_orthogonal_slice(ret._mask, slc)
 
         if new_value is not None:
             ret._value = new_value
-- 
2.43.0


From c55cd5e5cac564e054adecfde13ff046cb3181c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 07/54] fix: agree across ranks on write state and failures
 when writing collections

Ranks holding data may differ for each collection. The first write, the records
used for tabular schemas, and failures are now decided by all ranks.
---
 src/ocgis/conv/base.py     | 112 ++++++++++++++++++++++++-------------
 src/ocgis/conv/nc.py       |   2 +-
 src/ocgis/driver/base.py   |  46 ++++++++++++++-
 src/ocgis/driver/csv_.py   |   2 +-
 src/ocgis/driver/vector.py |  41 ++++++++++----
 src/ocgis/ops/engine.py    |  37 ++++++++----
 6 files changed, 177 insertions(+), 63 deletions(-)

diff --git a/src/ocgis/conv/base.py b/src/ocgis/conv/base.py
index 5ab9891..7ec5ad2 100644
--- a/src/ocgis/conv/base.py
+++ b/src/ocgis/conv/base.py
@@ -13,6 +13,7 @@ from ocgis.base import AbstractOcgisObject
 from ocgis.collection.spatial import SpatialCollection
 from ocgis.constants import TagName, MPIWriteMode, KeywordArgument, SubcommName
 from ocgis.driver.vector import DriverVector
+from ocgis.exc import OcgException
 from ocgis.util.helpers import get_iter, get_tuple
 from ocgis.util.logging_ocgis import ocgis_lh
 from ocgis.vmachine.mpi import MPI_RANK
@@ -147,6 +148,20 @@ class AbstractCollectionConverter(AbstractFileConverter):
     def _write_coll_(self, f, coll):
         raise NotImplementedError
 
+    def _write_ugeom_(self, coll, write_mode):
+        """Write the user geometries if selected and there is one present on the incoming collection."""
+        if self._add_ugeom and coll.has_container_geometries:
+            with vm.scoped(SubcommName.UGEOM_WRITE, [0]):
+                if not vm.is_null:
+                    # The output file name for the user geometries.
+                    ugid_shp_name = self.prefix + '_ugid.shp'
+                    if self._add_ugeom_nest:
+                        ugeom_fiona_path = os.path.join(self._get_or_create_shp_folder_(), ugid_shp_name)
+                    else:
+                        ugeom_fiona_path = os.path.join(self.outdir, ugid_shp_name)
+                    for subset_field in list(coll.children.values()):
+                        subset_field.write(ugeom_fiona_path, write_mode=write_mode, driver=DriverVector)
+
     def _get_or_create_shp_folder_(self):
         path = os.path.join(self.outdir, 'shp')
         if not os.path.exists(path):
@@ -160,48 +175,48 @@ class AbstractCollectionConverter(AbstractFileConverter):
     def write(self):
         ocgis_lh('starting write method', self._log, logging.DEBUG)
 
-        # Indicates if user geometries should be written to file.
-        write_ugeom = False
-
         # Path to the output object.
         f = {KeywordArgument.PATH: self.path}
 
-        build = True
-        for i, coll in enumerate(self):
-            # This will be changed to "write" if we are on the build loop.
-            write_mode = MPIWriteMode.APPEND
-
-            if build:
-                # During a build loop, create the file and write the first series of records. Let the drivers determine
-                # the appropriate write modes for handling parallelism.
-                write_mode = None
-
-                # Write the user geometries if selected and there is one present on the incoming collection.
-                if self._add_ugeom and coll.has_container_geometries:
-                    write_ugeom = True
-
-                if write_ugeom:
-                    if vm.rank == 0:
-                        # The output file name for the user geometries.
-                        ugid_shp_name = self.prefix + '_ugid.shp'
-                        if self._add_ugeom_nest:
-                            ugeom_fiona_path = os.path.join(self._get_or_create_shp_folder_(), ugid_shp_name)
-                        else:
-                            ugeom_fiona_path = os.path.join(self.outdir, ugid_shp_name)
-                    else:
-                        ugeom_fiona_path = None
-
-                build = False
-
-            f[KeywordArgument.WRITE_MODE] = write_mode
-
-            self._write_coll_(f, self._preformatting_(i, coll))
+        # Iterating collections may change the communicator to the ranks having data.
+        original_comm_name = vm.current_comm_name
 
-            if write_ugeom:
-                with vm.scoped(SubcommName.UGEOM_WRITE, [0]):
-                    if not vm.is_null:
-                        for subset_field in list(coll.children.values()):
-                            subset_field.write(ugeom_fiona_path, write_mode=write_mode, driver=DriverVector)
+        # The count of collections written by any rank.
+        i = 0
+        colls = iter(self.colls)
+        try:
+            while True:
+                coll, exc = None, None
+                try:
+                    coll = next(colls, None)
+                except Exception as e:
+                    exc = e
+                should_write = coll is not None and (self._allow_empty or not coll.is_empty)
+
+                # Ranks with data may be different for each collection. All ranks must agree if this is the first write
+                # and if the operations failed.
+                with vm.scoped_by_name(original_comm_name):
+                    should_continue, should_write_global = _get_write_state_(coll is not None, should_write, exc)
+                if not should_continue:
+                    break
+
+                if should_write:
+                    # During a build loop, create the file and write the first series of records. Let the drivers
+                    # determine the appropriate write modes for handling parallelism.
+                    f[KeywordArgument.WRITE_MODE] = None if i == 0 else MPIWriteMode.APPEND
+                    try:
+                        self._write_coll_(f, self._preformatting_(i, coll))
+                        self._write_ugeom_(coll, f[KeywordArgument.WRITE_MODE])
+                    except Exception as e:
+                        exc = e
+                with vm.scoped_by_name(original_comm_name):
+                    _get_write_state_(True, should_write, exc)
+                if should_write_global:
+                    i += 1
+        finally:
+            # Release any resources associated with the iteration.
+            if hasattr(colls, 'close'):
+                colls.close()
 
         # The metadata and dataset descriptor files may only be written if OCGIS operations are present.
         ops = self.ops
@@ -248,6 +263,27 @@ class AbstractTabularConverter(AbstractCollectionConverter):
         super(AbstractTabularConverter, self).__init__(*args, **kwargs)
 
 
+def _get_write_state_(has_next, should_write, exc):
+    """
+    Collective! Share the state of the write loop. A failure is raised on every rank.
+
+    :param bool has_next: ``True`` if there is a collection on the current rank.
+    :param bool should_write: ``True`` if the current rank has data to write.
+    :param exc: The exception raised on the current rank.
+    :type exc: :class:`Exception` | ``None``
+    :return: Flags set to ``True`` if there is a collection to process and data to write on any rank.
+    :rtype: tuple(bool, bool)
+    """
+    states = vm.gather((has_next, should_write, None if exc is None else repr(exc)))
+    states = vm.bcast(states)
+    if exc is not None:
+        raise exc
+    for rank, state in enumerate(states):
+        if state[2] is not None:
+            raise OcgException('Operations failed on rank {}. {}'.format(rank, state[2]))
+    return any([state[0] for state in states]), any([state[1] for state in states])
+
+
 def get_converter(output_format):
     """
     Return the converter based on output extensions or key.
diff --git a/src/ocgis/conv/nc.py b/src/ocgis/conv/nc.py
index 6ef19be..76bb341 100644
--- a/src/ocgis/conv/nc.py
+++ b/src/ocgis/conv/nc.py
@@ -217,7 +217,7 @@ class NcConverter(AbstractCollectionConverter):
             if self.options.get('geom_dim', None):
                 gdim.set_name(self.options.get('geom_dim', None))
 
-            return coll
+        return coll
 
     def _get_file_format_(self):
         file_format = set()
diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 2d57377..b29eec2 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -15,7 +15,7 @@ from ocgis.collection.field import Field
 from ocgis.constants import MPIWriteMode, TagName, KeywordArgument, OcgisConvention, VariableName, DecompositionType
 from ocgis.driver.dimension_map import DimensionMap
 from ocgis.exc import DefinitionValidationError, NoDataVariablesFound, DimensionMapError, VariableMissingMetadataError, \
-    GridDeficientError, OcgWarning
+    GridDeficientError, OcgWarning, EmptyIterationError
 from ocgis.util.helpers import get_group
 from ocgis.util.logging_ocgis import ocgis_lh
 from ocgis.variable.base import SourcedVariable
@@ -880,6 +880,33 @@ class AbstractTabularDriver(AbstractDriver):
         """Return the preferred distributed dimension name."""
         return list(dimensions_metadata.values())[0]['name']
 
+    @staticmethod
+    def _get_archetype_record_(target, **kwargs):
+        """
+        Collective! Get a record to use as a template for the output format. All ranks receive the same record. Masked
+        values have no type information. The first unmasked value is used for each header.
+
+        :param target: The object to iterate.
+        :param dict kwargs: Keyword arguments to the iterator.
+        :rtype: dict
+        :raises: EmptyIterationError
+        """
+        record = None
+        for _, other in target.iter(**kwargs):
+            record = _update_archetype_record_(record, other)
+            if not any([v is None for v in record.values()]):
+                break
+        records = vm.gather(record)
+        archetype = None
+        if vm.rank == 0:
+            for other in records:
+                if other is not None:
+                    archetype = _update_archetype_record_(archetype, other)
+        archetype = vm.bcast(archetype)
+        if archetype is None:
+            raise EmptyIterationError(target.name)
+        return archetype
+
     @staticmethod
     def iterator_formatter_time_bounds(name, value, mask):
         if mask:
@@ -1078,3 +1105,20 @@ def iter_group_keys(ddict, keyseq):
         yld = deepcopy(keyseq)
         yld.append(key)
         yield yld
+
+
+def _update_archetype_record_(archetype, record):
+    """
+    Update values set to ``None`` in an archetype record.
+
+    :param archetype: The record to update. If ``None``, a copy of ``record`` is returned.
+    :type archetype: dict | ``None``
+    :param dict record: The record containing fill values.
+    :rtype: dict
+    """
+    if archetype is None:
+        return record.copy()
+    for k, v in record.items():
+        if archetype.get(k) is None:
+            archetype[k] = v
+    return archetype
diff --git a/src/ocgis/driver/csv_.py b/src/ocgis/driver/csv_.py
index 4a8534b..e78dc95 100644
--- a/src/ocgis/driver/csv_.py
+++ b/src/ocgis/driver/csv_.py
@@ -60,7 +60,7 @@ class DriverCSV(AbstractTabularDriver):
 
         iter_kwargs = kwargs.pop(KeywordArgument.ITER_KWARGS, {})
 
-        fieldnames = list(six.next(vc.iter(**iter_kwargs))[1].keys())
+        fieldnames = list(cls._get_archetype_record_(vc, **iter_kwargs).keys())
 
         if vm.rank == 0 and write_mode != MPIWriteMode.FILL:
             with driver_scope(cls, opened_or_path, mode='w') as opened:
diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index 26d5230..23d5830 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -1,5 +1,7 @@
 import datetime
 import itertools
+import json
+import os
 from collections import OrderedDict
 from copy import deepcopy
 
@@ -238,36 +240,53 @@ class DriverVector(AbstractTabularDriver):
             if fiona_crs is None:
                 if field.crs is not None:
                     fiona_crs = field.crs.value
-            _, archetype_record = next(field.iter(**iter_kwargs))
+            archetype_record = cls._get_archetype_record_(field, **iter_kwargs)
             archetype_record = format_record_for_fiona(fiona_driver, archetype_record)
             if fiona_schema is None:
-                fiona_schema = get_fiona_schema(geom_variable.geom_type, archetype_record)
+                fiona_schema = get_fiona_schema(geom_variable.geom_type_global, archetype_record)
         else:
             fiona_schema = opened_or_path.schema
             fiona_crs = opened_or_path.crs
             fiona_driver = opened_or_path.driver
 
-        # The Fiona GeoJSON driver does not support update.
-        if fiona_driver == 'GeoJSON':
-            mode = 'w'
-        else:
-            mode = 'a'
-
         # Write the template file.
-        if fiona_driver != 'GeoJSON':
-            if vm.rank == 0 and write_mode != MPIWriteMode.FILL:
+        if vm.rank == 0 and write_mode != MPIWriteMode.FILL:
+            if fiona_driver != 'GeoJSON':
                 with driver_scope(cls, opened_or_path=opened_or_path, mode='w', driver=fiona_driver, crs=fiona_crs,
                                   schema=fiona_schema) as _:
                     pass
+            elif not cls.inquire_opened_state(opened_or_path) and os.path.exists(opened_or_path):
+                # The file is created with the first records.
+                os.remove(opened_or_path)
 
         # Write data on each rank to the file.
         if write_mode != MPIWriteMode.TEMPLATE:
             for rank_to_write in vm.ranks:
+                itr = None
                 if vm.rank == rank_to_write:
+                    # All records may be masked on a rank.
+                    itr = field.iter(**iter_kwargs)
+                    first_record = next(itr, None)
+                    itr = None if first_record is None else itertools.chain([first_record], itr)
+                if itr is not None:
+                    existing = None
+                    mode = 'a'
+                    if fiona_driver == 'GeoJSON' and not cls.inquire_opened_state(opened_or_path):
+                        # The Fiona GeoJSON driver does not support update. Keep the records written by other ranks and
+                        # collections.
+                        mode = 'w'
+                        if os.path.exists(opened_or_path):
+                            with open(opened_or_path) as f:
+                                existing = json.load(f)
                     with driver_scope(cls, opened_or_path=opened_or_path, mode=mode, driver=fiona_driver,
                                       crs=fiona_crs, schema=fiona_schema) as sink:
-                        itr = field.iter(**iter_kwargs)
                         write_records_to_fiona(sink, itr, fiona_driver)
+                    if existing is not None:
+                        with open(opened_or_path) as f:
+                            updated = json.load(f)
+                        updated['features'] = existing['features'] + updated['features']
+                        with open(opened_or_path, 'w') as f:
+                            json.dump(updated, f)
                 vm.barrier()
 
 
diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index 19bb71d..5ae2174 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -10,6 +10,7 @@ from ocgis.collection.spatial import SpatialCollection
 from ocgis.constants import WrappedState, HeaderName, WrapAction, SubcommName, KeywordArgument
 from ocgis.exc import ExtentError, EmptySubsetError, BoundsAlreadyAvailableError, SubcommNotFoundError, \
     NoDataVariablesFound, WrappedStateEvalTargetMissing
+from ocgis.spatial.grid import get_any_global
 from ocgis.spatial.spatial_subset import SpatialSubsetOperation
 from ocgis.util.helpers import get_default_or_apply
 from ocgis.util.logging_ocgis import ocgis_lh, ProgressOcgOperations
@@ -127,7 +128,7 @@ class OperationsEngine(AbstractOcgisObject):
 
             for coll in self._process_subsettables_(rds):
                 # If there are calculations, do those now and return a collection.
-                if not vm.is_null and self.cengine is not None:
+                if not vm.is_null and self.cengine is not None and not (self.ops.allow_empty and coll.is_empty):
                     ocgis_lh('Starting calculations.', self._subset_log)
                     raise_if_empty(coll)
 
@@ -182,6 +183,8 @@ class OperationsEngine(AbstractOcgisObject):
             alias = None
 
         ocgis_lh('processing...', self._subset_log, alias=alias, level=logging.DEBUG)
+        # Set to true if a time or level subset is empty and empty returns are allowed.
+        is_empty_nonspatial = False
         # Create the field object. Field objects may be passed directly to operations.
         # Look for field optimizations. Field optimizations typically include pre-loaded datetime objects.
         if self.ops.optimizations is not None and 'fields' in self.ops.optimizations:
@@ -259,19 +262,25 @@ class OperationsEngine(AbstractOcgisObject):
             if self.ops.allow_empty:
                 ocgis_lh(msg='time or level subset empty but empty returns allowed', logger=self._subset_log,
                          level=logging.WARN)
-                coll = self._get_initialized_collection_()
-                name = '_'.join([rd.field_name for rd in rds])
-                field = Field(name=name, is_empty=True)
-                coll.add_field(field, None)
-                try:
-                    yield coll
-                finally:
-                    return
+                is_empty_nonspatial = True
             else:
                 # Raise an exception as empty subsets are not allowed.
                 ocgis_lh(exc=ExtentError(message=str(e)), alias=str([rd.field_name for rd in rds]),
                          logger=self._subset_log)
 
+        # Ranks without data in the source did not execute the time or level subset. All ranks must yield the same
+        # collections.
+        if self.ops.allow_empty:
+            with vm.scoped_by_name(self._original_subcomm):
+                is_empty_nonspatial = get_any_global(is_empty_nonspatial)
+        if is_empty_nonspatial:
+            coll = self._get_initialized_collection_()
+            name = '_'.join([rd.field_name for rd in rds])
+            field = Field(name=name, is_empty=True)
+            coll.add_field(field, None)
+            yield coll
+            return
+
         # Set iterator based on presence of slice. Slice always overrides geometry.
         if self.ops.slice is not None:
             itr = [None]
@@ -302,6 +311,8 @@ class OperationsEngine(AbstractOcgisObject):
         # Processing a geometry narrows the current communicator to the ranks with data in its subset. The other ranks may
         # have data for the next geometry.
         field_subcomm = vm.current_comm_name
+        # There is nothing to transform back until the field is transformed.
+        self._backtransform[constants.BackTransform.ROTATED_POLE] = None
         # Process each geometry.
         for subset_field in itr:
             vm.set_comm(field_subcomm)
@@ -323,7 +334,10 @@ class OperationsEngine(AbstractOcgisObject):
                 # Operate on the rotated pole coordinate system by first transforming it to the default coordinate
                 # system.
                 key = constants.BackTransform.ROTATED_POLE
-                self._backtransform[key] = self._get_update_rotated_pole_state_(field, subset_field)
+                original_rotated_pole_crs = self._get_update_rotated_pole_state_(field, subset_field)
+                # The field is only transformed for the first geometry.
+                if original_rotated_pole_crs is not None:
+                    self._backtransform[key] = original_rotated_pole_crs
 
                 # Check if the geometric abstraction is available on the field object.
                 self._assert_abstraction_available_(field)
@@ -360,9 +374,10 @@ class OperationsEngine(AbstractOcgisObject):
                 vm.create_subcomm_by_emptyable(SubcommName.FIELD_SUBSET, sfield, is_current=True, clobber=True)
 
                 if not vm.is_null:
-                    if not sfield.is_empty and not self.ops.allow_empty:
+                    if not self.ops.allow_empty:
                         raise_if_empty(sfield)
 
+                    if not sfield.is_empty:
                         # If the base size is being requested, bypass the rest of the operations.
                         if not self._request_base_size_only:
                             # Perform regridding operations if requested.
-- 
2.43.0


From f3c68662f4e56a7140907f49a8e92c6ebbbf7c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:19 +0000
Subject: [PATCH 08/54] fix: write masks and child groups to netCDF in parallel

The fill value of a variable was chosen from the mask on the first rank and the
mask on other ranks was lost. Child groups could not be written by several ranks.
---
 src/ocgis/driver/base.py | 13 ++++--
 src/ocgis/driver/nc.py   | 90 ++++++++++++++++++++++++++++++----------
 2 files changed, 79 insertions(+), 24 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index b29eec2..8ba8afb 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -792,13 +792,20 @@ class AbstractDriver(AbstractOcgisObject):
         # vm.rank_print('tkd: write_modes', write_modes)
 
         # Global string lengths are needed by the write. Set those while we still have global access.
-        for var in vc.values():
-            if var._string_max_length_global is None:
-                var.set_string_max_length_global()
+        cls._set_string_max_length_global_(vc)
 
         for write_mode in write_modes:
             cls._write_variable_collection_main_(vc, opened_or_path, write_mode, **kwargs)
 
+    @staticmethod
+    def _set_string_max_length_global_(vc):
+        """Collective! Set global string lengths on the variables in a collection and its children."""
+        for var in vc.values():
+            if var._string_max_length_global is None:
+                var.set_string_max_length_global()
+        for child in vc.children.values():
+            AbstractDriver._set_string_max_length_global_(child)
+
     @staticmethod
     def _close_(obj):
         """
diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index ddceca1..5f8740f 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -67,6 +67,8 @@ class DriverNetcdf(AbstractDriver):
         :keyword bool file_only: (``=False``) If ``True``, do not write the value to the output file. Create an empty
          netCDF file.
         :keyword bool unlimited_to_fixed_size: (``=False``) If ``True``, convert the unlimited dimension to a fixed size.
+        :keyword bool has_masked_values: (``=None``) If ``True``, the variable has masked values on at least one rank. If
+         ``None``, use the mask of the local variable.
         """
         # There should never be any write operations associated with an empty variable.
         raise_if_empty(var)
@@ -81,6 +83,7 @@ class DriverNetcdf(AbstractDriver):
 
         file_only = kwargs.pop(KeywordArgument.FILE_ONLY, False)
         unlimited_to_fixed_size = kwargs.pop(KeywordArgument.UNLIMITED_TO_FIXED_SIZE, False)
+        has_masked_values = kwargs.pop('has_masked_values', None)
 
         # No data should be written during a global write. Data will be filled in during the append process.
         if write_mode == MPIWriteMode.TEMPLATE:
@@ -120,7 +123,9 @@ class DriverNetcdf(AbstractDriver):
 
             # Only use the fill value if something is masked.
             is_nc3 = dataset.data_model.startswith('NETCDF3')
-            if ((len(dimensions) > 0 and var.has_masked_values) and (
+            if has_masked_values is None:
+                has_masked_values = var.has_masked_values
+            if ((len(dimensions) > 0 and has_masked_values) and (
                     write_mode == MPIWriteMode.TEMPLATE or not file_only)) or (
                     is_nc3 and not var.has_allocated_value and len(
                 dimensions) > 0) or (env.USE_NETCDF4_MPI and var.has_mask and vm.size > 1):
@@ -195,6 +200,13 @@ class DriverNetcdf(AbstractDriver):
         else:
             possible_ranks = vm.ranks
 
+        # The template is written by a single rank. Data may be masked on other ranks.
+        masked_ids = None
+        if write_mode == MPIWriteMode.TEMPLATE:
+            masked_ids = vm.gather(get_masked_variable_ids(vc))
+            if vm.rank == 0:
+                masked_ids = set(itertools.chain(*masked_ids))
+
         # Write the data on each rank.
         for idx, rank_to_write in enumerate(possible_ranks):
             # The template write only occurs on the first rank.
@@ -203,29 +215,42 @@ class DriverNetcdf(AbstractDriver):
             # If this is not a template write, fill the data.
             elif write_mode == MPIWriteMode.ASYNCHRONOUS or vm.rank == rank_to_write:
                 with driver_scope(cls, opened_or_path=opened_or_path, mode=mode, **dataset_kwargs) as dataset:
-                    # Write global attributes if we are not filling data.
-                    if write_mode != MPIWriteMode.FILL:
-                        vc.write_attributes_to_netcdf_object(dataset)
-                    # This is the main variable write loop.
-                    variables_to_write = get_variables_to_write(vc)
-                    for variable in variables_to_write:
-                        # Load the variable's data before orphaning. The variable needs its parent to know which
-                        # group it is in.
-                        variable.load()
-                        # Call the individual variable write method in fill mode. Orphaning is required as a
-                        # variable will attempt to write its parent first.
-                        with orphaned(variable, keep_dimensions=True):
-                            variable.write(dataset, write_mode=write_mode, **variable_kwargs)
-                    # Recurse the children.
-                    for child in list(vc.children.values()):
-                        if write_mode != MPIWriteMode.FILL:
-                            group = nc.Group(dataset, child.name)
-                        else:
-                            group = dataset.groups[child.name]
-                        child.write(group, write_mode=write_mode, **kwargs)
+                    cls._write_group_(vc, dataset, write_mode, variable_kwargs, masked_ids)
                     dataset.sync()
             vm.barrier()
 
+    @classmethod
+    def _write_group_(cls, vc, dataset, write_mode, variable_kwargs, masked_ids, group_names=()):
+        """
+        Write a collection and its children to an open dataset or group.
+
+        :param set masked_ids: Identifiers for variables with masked values on any rank. If ``None``, use the mask of the
+         local variable. See :func:`get_masked_variable_ids`.
+        :param tuple group_names: Names of the groups containing the collection.
+        """
+        # Write global attributes if we are not filling data.
+        if write_mode != MPIWriteMode.FILL:
+            vc.write_attributes_to_netcdf_object(dataset)
+        # This is the main variable write loop.
+        for variable in get_variables_to_write(vc):
+            # Load the variable's data before orphaning. The variable needs its parent to know which group it is in.
+            variable.load()
+            kwargs = variable_kwargs
+            if masked_ids is not None and not isinstance(variable, CoordinateReferenceSystem):
+                kwargs = dict(kwargs, has_masked_values=group_names + (variable.name,) in masked_ids)
+            # Call the individual variable write method in fill mode. Orphaning is required as a variable will attempt to
+            # write its parent first.
+            with orphaned(variable, keep_dimensions=True):
+                variable.write(dataset, write_mode=write_mode, **kwargs)
+        # Recurse the children.
+        for child in list(vc.children.values()):
+            if write_mode != MPIWriteMode.FILL:
+                group = nc.Group(dataset, child.name)
+            else:
+                group = dataset.groups[child.name]
+            cls._write_group_(child, group, write_mode, variable_kwargs, masked_ids,
+                              group_names=group_names + (child.name,))
+
     def _get_metadata_main_(self):
         with driver_scope(self) as ds:
             ret = parse_metadata(ds)
@@ -645,6 +670,29 @@ def get_value_from_request_dataset(variable):
     return ret
 
 
+def get_masked_variable_ids(vc, group_names=()):
+    """
+    Get identifiers for the variables having masked values in the collection and its children.
+
+    :param vc: The target collection.
+    :type vc: :class:`~ocgis.VariableCollection`
+    :param tuple group_names: Names of the groups containing the collection.
+    :return: A sequence of tuples. Each tuple contains group names and the variable name.
+    :rtype: list[tuple]
+    """
+    ret = []
+    for variable in get_variables_to_write(vc):
+        # Coordinate systems have no data.
+        if isinstance(variable, CoordinateReferenceSystem):
+            continue
+        variable.load()
+        if variable.has_masked_values:
+            ret.append(group_names + (variable.name,))
+    for child in vc.children.values():
+        ret += get_masked_variable_ids(child, group_names=group_names + (child.name,))
+    return ret
+
+
 def get_variables_to_write(vc):
     from ocgis.variable.geom import GeometryVariable
     ret = []
-- 
2.43.0


From 65eddc5e0d6f70871cc74a48782a23db47ccb845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 09/54] fix: spatial averages over several ranks use the areas
 and masks of all cells and any root

---
 src/ocgis/variable/geom.py | 152 +++++++++++++++++++++----------------
 1 file changed, 87 insertions(+), 65 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index ab6972b..a3af7a5 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -316,9 +316,13 @@ class GeometryVariable(AbstractSpatialVariable):
         :rtype: :class:`numpy.ma.MaskedArray`
         """
 
+        area = self._get_unscaled_weights_()
+        return area / area.max()
+
+    def _get_unscaled_weights_(self):
         area = self.area
         area.data[area.data == 0] = 1.0
-        return area / area.max()
+        return area
 
     def as_shapely(self):
         """
@@ -942,7 +946,7 @@ class GeometryVariable(AbstractSpatialVariable):
 
             # Pull unioned geometries and union again for the final unioned geometry.
             if vm.size > 1:
-                unioned_gathered = vm.gather(unioned)
+                unioned_gathered = vm.gather(unioned, root=root)
                 if vm.rank == root:
                     unioned = cascaded_union(unioned_gathered)
 
@@ -967,16 +971,25 @@ class GeometryVariable(AbstractSpatialVariable):
                         range_to_itr.append(len(dn))
                         names_to_itr.append(dn.name)
 
-                # Reference the weights on the source geometry variable.
-                weights = self[{nsa: slice(None) for nsa in names_to_slice_all}].weights
+                # Reference the weights on the source geometry variable. The weights of different ranks are only comparable
+                # if they are not scaled with the maximum area on the rank.
+                weights = self[{nsa: slice(None) for nsa in names_to_slice_all}]
+                weights = weights._get_unscaled_weights_() if vm.size > 1 else weights.weights
 
-                # Path if there are iteration dimensions. Checks for axes ordering in addition.
-                if len(range_to_itr) > 0:
-                    # New dimensions for the spatially averaged variable. Unioned dimension is always last. Remove the
-                    # dimensions aggregated by the weighted average.
-                    new_dimensions = [dim for dim in var_to_weight.dimensions if dim.name not in dimension_names]
-                    new_dimensions.append(union_dimension)
+                # Swap weight axes to make sure they align with the target variable.
+                swap_chain = get_swap_chain(dimension_names, names_to_slice_all)
+                if len(swap_chain) > 0:
+                    weights = weights.copy()
+                for sc in swap_chain:
+                    weights = weights.swapaxes(*sc)
 
+                # New dimensions for the spatially averaged variable. Unioned dimension is always last. Remove the
+                # dimensions aggregated by the weighted average.
+                new_dimensions = [dim for dim in var_to_weight.dimensions if dim.name not in dimension_names]
+                new_dimensions.append(union_dimension)
+
+                # Path if there are iteration dimensions.
+                if len(range_to_itr) > 0:
                     # Prepare the spatially averaged variable.
                     target = ret.parent[var_to_weight.name]
                     target.set_mask(None)
@@ -984,13 +997,6 @@ class GeometryVariable(AbstractSpatialVariable):
                     target.set_dimensions(new_dimensions)
                     target.allocate_value()
 
-                    # Swap weight axes to make sure they align with the target variable.
-                    swap_chain = get_swap_chain(dimension_names, names_to_slice_all)
-                    if len(swap_chain) > 0:
-                        weights = weights.copy()
-                    for sc in swap_chain:
-                        weights = weights.swapaxes(*sc)
-
                     # The main weighting loop. Can get quite intensive with many, large iteration dimensions.
                     len_names_to_itr = len(names_to_itr)
                     slice_none = slice(None)
@@ -999,6 +1005,8 @@ class GeometryVariable(AbstractSpatialVariable):
                     np_squeeze = np.squeeze
                     np_atleast_1d = np.atleast_1d
                     np_ma_average = np.ma.average
+                    rank_sums = np.zeros([2] + range_to_itr)
+                    averages_mask = np.zeros(range_to_itr, dtype=bool)
                     for nonweighted_indices in product(*[list(range(ri)) for ri in range_to_itr]):
                         w_slc = {names_to_itr[ii]: nonweighted_indices[ii] for ii in range(len_names_to_itr)}
                         for nsa in names_to_slice_all:
@@ -1006,8 +1014,24 @@ class GeometryVariable(AbstractSpatialVariable):
                         data_to_weight = var_to_weight[w_slc].get_masked_value()
                         if should_squeeze:
                             data_to_weight = np_squeeze(data_to_weight, axis=tuple(squeeze_out))
-                        weighted_value = np_atleast_1d(np_ma_average(data_to_weight, weights=weights))
-                        target[w_slc].get_value()[:] = weighted_value
+                        if vm.size > 1:
+                            rank_sums[(slice_none,) + nonweighted_indices] = get_weighted_sums(data_to_weight, weights)
+                        else:
+                            weighted_value = np_atleast_1d(np_ma_average(data_to_weight, weights=weights))
+                            averages_mask[nonweighted_indices] = np.ma.getmaskarray(weighted_value).all()
+                            target[w_slc].get_value()[:] = weighted_value
+
+                    # Combine the sums of all ranks.
+                    if vm.size > 1:
+                        weighted_value, averages_mask = get_global_average(rank_sums, root)
+                        if vm.rank == root:
+                            target.get_value()[:] = weighted_value.reshape(weighted_value.shape + (1,) * (
+                                target.ndim - weighted_value.ndim))
+                    # There is no average if there are no values.
+                    if averages_mask is not None and averages_mask.any():
+                        averages_mask = averages_mask.reshape(averages_mask.shape + (1,) * (
+                            target.ndim - averages_mask.ndim))
+                        target.set_mask(np.broadcast_to(averages_mask, target.shape).copy())
                 else:
                     target_to_weight = var_to_weight.get_masked_value()
                     # Sort to minimize floating point sum errors.
@@ -1017,58 +1041,23 @@ class GeometryVariable(AbstractSpatialVariable):
                     target_to_weight = target_to_weight[sindices]
                     weights = weights[sindices]
 
-                    weighted_value = np.atleast_1d(np.ma.average(target_to_weight, weights=weights))
+                    if vm.size > 1:
+                        weighted_value, averages_mask = get_global_average(get_weighted_sums(target_to_weight, weights),
+                                                                           root)
+                        if vm.rank == root:
+                            weighted_value = np.ma.array(np.atleast_1d(weighted_value),
+                                                         mask=np.atleast_1d(averages_mask))
+                        else:
+                            # Only the root rank returns.
+                            continue
+                    else:
+                        weighted_value = np.atleast_1d(np.ma.average(target_to_weight, weights=weights))
                     target = ret.parent[var_to_weight.name]
                     target.set_mask(None)
                     target._value = None
                     target.set_dimensions(new_dimensions)
                     target.set_value(weighted_value)
 
-            # Collect areas of live ranks and convert to weights.
-            if vm.size > 1:
-                # If there is no area information (points for example, we need to use counts).
-                if ret.area.data[0].max() == 0:
-                    weight_or_proxy = float(self.size)
-                else:
-                    weight_or_proxy = ret.area.data[0]
-
-                if vm.rank != root:
-                    vm.comm.send(weight_or_proxy, dest=root)
-                else:
-                    live_rank_areas = [weight_or_proxy]
-                    for tner in vm.ranks:
-                        if tner != vm.rank:
-                            recv_area = vm.comm.recv(source=tner)
-                            live_rank_areas.append(recv_area)
-                    live_rank_areas = np.array(live_rank_areas)
-
-                    rank_weights = live_rank_areas / np.max(live_rank_areas)
-
-                for var_to_weight in filter(lambda ii: ii.name in variable_names_to_weight, list(ret.parent.values())):
-                    dimensions_to_itr = [dim.name for dim in var_to_weight.dimensions if
-                                         dim.name != union_dimension.name]
-                    slc = {union_dimension.name: 0}
-                    for idx_slc in var_to_weight.iter_dict_slices(dimensions=dimensions_to_itr):
-                        idx_slc.update(slc)
-                        to_weight = var_to_weight[idx_slc].get_value().flatten()[0]
-                        if vm.rank == root:
-                            collected_to_weight = [to_weight]
-                        if not vm.rank == root:
-                            vm.comm.send(to_weight, dest=root)
-                        else:
-                            for tner in vm.ranks:
-                                if not tner == root:
-                                    recv_to_weight = vm.comm.recv(source=tner)
-                                    collected_to_weight.append(recv_to_weight)
-
-                            # Sort to minimize floating point sum errors.
-                            collected_to_weight = np.array(collected_to_weight)
-                            sindices = np.argsort(collected_to_weight)
-                            collected_to_weight = collected_to_weight[sindices]
-                            rank_weights = rank_weights[sindices]
-
-                            weighted = np.atleast_1d(np.ma.average(collected_to_weight, weights=rank_weights))
-                            var_to_weight[idx_slc].get_value()[:] = weighted
         if vm.rank == root:
             return ret
         else:
@@ -1299,6 +1288,39 @@ def get_masking_slice(intersects_mask_value, target, apply_slice=True):
     return ret, ret_mask, global_slice
 
 
+def get_weighted_sums(values, weights):
+    """
+    :param values: The values to sum.
+    :type values: :class:`numpy.ma.MaskedArray`
+    :param weights: The weights with the same shape as ``values``.
+    :type weights: :class:`numpy.ma.MaskedArray`
+    :return: A two-element array with the weighted sum and the sum of the weights of the values that are not masked.
+    :rtype: :class:`numpy.ndarray`
+    """
+    select = ~np.logical_or(np.ma.getmaskarray(values), np.ma.getmaskarray(weights))
+    weights = np.ma.getdata(weights)[select]
+    return np.array([np.sum(np.ma.getdata(values)[select] * weights), np.sum(weights)])
+
+
+def get_global_average(rank_sums, root):
+    """
+    Collective across the current :class:`~ocgis.OcgVM`.
+
+    :param rank_sums: Weighted sums (first element) and sums of weights (second element) on the current rank.
+    :type rank_sums: :class:`numpy.ndarray`
+    :param int root: The rank receiving the averages.
+    :return: Weighted averages across all ranks and a mask that is ``True`` where there is no average. Both elements are
+     ``None`` on ranks other than the ``root``.
+    :rtype: tuple(:class:`numpy.ndarray`, :class:`numpy.ndarray`)
+    """
+    gathered = vm.gather(rank_sums, root=root)
+    if vm.rank != root:
+        return None, None
+    sums, weights = np.sum(gathered, axis=0)
+    mask = np.array(weights == 0)
+    return np.array(sums / np.where(mask, 1.0, weights)), mask
+
+
 def get_geom_type(data):
     geom_type = None
     for geom in data.flat:
-- 
2.43.0


From 72c18569af44718210c506d161971dc4c0f1933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 10/54] fix: ranks with nothing but masked cells take part in
 clips and vector output

---
 src/ocgis/spatial/grid.py  | 18 ++++++------------
 src/ocgis/variable/geom.py | 17 +++++++++++------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 3e2b08d..bc6afe9 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -676,10 +676,11 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
         else:
             fill_mask = original_mask
             geometry_fill = None
+            # All ranks need the geometry variable. A rank with masked geometries only may still be part of the subset.
+            if perform_intersection:
+                geometry_fill = np.zeros(fill_mask.shape, dtype=object)
             # If everything is masked, there is no reason to load the grid geometries.
             if not original_mask.all():
-                if perform_intersection:
-                    geometry_fill = np.zeros(fill_mask.shape, dtype=object)
                 if vm.size > 1:
                     new_intersects_target = subset_geom.intersection(box(*self.extent).buffer(1e-6))
                 else:
@@ -692,17 +693,10 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
                         geometry_fill[idx] = current_geometry.intersection(subset_geom)
 
             if perform_intersection:
-                if geometry_fill is None:
-                    if use_bounds:
-                        name = self._polygon_name
-                    else:
-                        name = self._point_name
-                    geometry_variable = GeometryVariable(name=name)
+                if use_bounds:
+                    geometry_variable = ret.get_polygon(value=geometry_fill, mask=fill_mask)
                 else:
-                    if use_bounds:
-                        geometry_variable = ret.get_polygon(value=geometry_fill, mask=fill_mask)
-                    else:
-                        geometry_variable = ret.get_point(value=geometry_fill, mask=fill_mask)
+                    geometry_variable = ret.get_point(value=geometry_fill, mask=fill_mask)
                 ret.parent.add_variable(geometry_variable, force=True)
 
             sliced_grid, sliced_mask, the_slice = get_masking_slice(fill_mask, ret, apply_slice=apply_slice)
diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index a3af7a5..173fbcd 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -280,14 +280,19 @@ class GeometryVariable(AbstractSpatialVariable):
         :raises: :class:`~ocgis.exc.EmptyObjectError`
         """
         raise_if_empty(self)
-        geom_types = vm.gather(self.geom_type)
+        # All geometries may be masked on a rank.
+        has_geometries = self._geom_type != 'auto' or any([hasattr(g, 'geom_type') for g in self.get_value().flat])
+        geom_types = vm.gather(self.geom_type if has_geometries else None)
+        ret = None
         if vm.rank == 0:
             for g in geom_types:
-                if g.startswith('Multi'):
-                    break
-        else:
-            g = None
-        return vm.bcast(g)
+                if g is not None:
+                    ret = g
+                    if g.startswith('Multi'):
+                        break
+        ret = vm.bcast(ret)
+        assert ret is not None
+        return ret
 
     @property
     def has_z(self):
-- 
2.43.0


From 940839f893a25d5b49374280be26a81ba0f40687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 11/54] fix: update the global bounds of dimensions in spatial
 subsets on one rank

---
 src/ocgis/variable/geom.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 173fbcd..6c2e286 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1280,12 +1280,9 @@ def get_masking_slice(intersects_mask_value, target, apply_slice=True):
                                dtype=bool)
 
     if apply_slice:
-        if vm.size_global > 1:
-            ret = target.get_distributed_slice(global_slice)
-            ret_mask = intersects_mask.get_distributed_slice(global_slice)
-        else:
-            ret = target.__getitem__(global_slice)
-            ret_mask = intersects_mask.__getitem__(global_slice)
+        # The global bounds of the dimensions are only maintained by the distributed slice.
+        ret = target.get_distributed_slice(global_slice)
+        ret_mask = intersects_mask.get_distributed_slice(global_slice)
     else:
         ret = target
         ret_mask = intersects_mask
-- 
2.43.0


From 2f729a83071c7f60a5179b462368a622ef180535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 12/54] fix: spatial aggregates of raw calculations cover all
 ranks and keep masks

---
 src/ocgis/calc/base.py  | 22 +++++++++++++++++++---
 src/ocgis/ops/engine.py |  4 +++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index 5285ce7..b88843d 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -7,7 +7,7 @@ from copy import deepcopy
 import numpy as np
 import six
 from ocgis import constants
-from ocgis import env
+from ocgis import env, vm
 from ocgis.base import get_variables, get_dimension_names, AbstractOcgisObject
 from ocgis.constants import TagName, DimensionMapKey, HeaderName
 from ocgis.exc import SampleSizeNotImplemented, DefinitionValidationError, UnitsValidationError
@@ -441,6 +441,21 @@ class AbstractFunction(AbstractOcgisObject):
     def _get_parms_(self):
         return self.parms
 
+    def _get_spatial_aggregate_global_(self, values):
+        """
+        Spatially aggregate the values of all ranks. Collective across the current :class:`~ocgis.OcgVM`.
+
+        :param values: The rank-local values.
+        :type values: :class:`numpy.ma.MaskedArray`
+        :return: The same aggregate on all ranks.
+        """
+
+        if vm.size > 1:
+            gathered = vm.gather(np.ma.array(values).reshape(1, -1))
+            values = np.ma.concatenate(gathered, axis=1) if vm.rank == 0 else None
+            values = vm.bcast(values)
+        return self.aggregate_spatial(values, None)
+
     def _get_temporal_agg_fill_(self, variable, name, file_only, f=None, parms=None,
                                 add_repeat_record_archetype_name=True):
         # Depending on the computational class we may be just aggregating temporally or actually executing the
@@ -498,8 +513,9 @@ class AbstractFunction(AbstractOcgisObject):
                     res = f(calculation_value, **parms)
                     if self.spatial_aggregation:
                         # Weights are not currently conformed so should not be used.
-                        res = self.aggregate_spatial(res, None)
-                        carr_fill.data[ir, it, il, :, :] = res
+                        res = np.ma.array(self._get_spatial_aggregate_global_(res))
+                        carr_fill.data[ir, it, il, :, :] = res.data
+                        carr_fill.mask[ir, it, il, :, :] = np.ma.getmaskarray(res)
                     else:
                         try:
                             carr_fill.data[ir, it, il, :, :] = res.data
diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index 5ae2174..ff3e7fe 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -611,6 +611,7 @@ def _update_aggregation_wrapping_crs_(obj, alias, sfield, subset_sdim, subset_ug
 
         # Union the geometries and spatially average the data variables.
         # with vm.scoped(vm.get_live_ranks_from_object(sfield)):
+        sfield_name = sfield.name
         sfield = sfield.geom.get_unioned(spatial_average=sfield.data_variables)
         ocgis_lh('after sfield.geom.get_unioned in _update_aggregation_wrapping_crs_', obj._subset_log, alias=alias,
                  ugid=subset_ugid, level=logging.DEBUG)
@@ -620,7 +621,8 @@ def _update_aggregation_wrapping_crs_(obj, alias, sfield, subset_sdim, subset_ug
             if vm.size == 1:
                 raise ValueError('None should not be returned from get_unioned if running on a single processor.')
             else:
-                sfield = Field(is_empty=True)
+                # Keep the name. The field may replace an existing field in a collection.
+                sfield = Field(name=sfield_name, is_empty=True)
         else:
             sfield = sfield.parent
 
-- 
2.43.0


From d9b44661b9acbd76fd96fa44e374a0f7218e24ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 13/54] fix: wrapped state over several ranks follows the rules
 for one rank

---
 src/ocgis/variable/crs.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index d4f3fe3..415031e 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -260,13 +260,19 @@ class AbstractCRS(AbstractInterfaceObject):
 
         rets = vm.gather(ret)
         if vm.rank == 0:
-            rets = set(rets)
-            if WrappedState.WRAPPED in rets:
-                ret = WrappedState.WRAPPED
-            elif WrappedState.UNWRAPPED in rets:
+            # Ranks without data have no opinion.
+            rets = [r for r in rets if r is not None]
+            definitive = [r for r in rets if r != WrappedState.UNKNOWN]
+            if isinstance(target, AbstractXYZSpatialContainer) and WrappedState.UNWRAPPED in definitive:
+                # As for the coordinate array on a single rank, any coordinate past the 180th meridian is unwrapped.
                 ret = WrappedState.UNWRAPPED
+            elif len(definitive) > 0:
+                # As for geometries on a single rank, the first geometry with a known state decides.
+                ret = definitive[0]
+            elif len(rets) > 0:
+                ret = WrappedState.UNKNOWN
             else:
-                ret = list(rets)[0]
+                ret = None
         else:
             ret = None
         ret = vm.bcast(ret)
-- 
2.43.0


From b5de97af7eb444872cdd57e81364e97af3db9dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 14/54] fix: write single and multipart geometries to the same
 vector file

---
 src/ocgis/driver/vector.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index 23d5830..675d063 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -17,7 +17,12 @@ from ocgis.util.helpers import is_auto_dtype
 from ocgis.util.logging_ocgis import ocgis_lh
 from ocgis.variable.crs import CoordinateReferenceSystem
 from ocgis.variable.geom import GeometryVariable
-from shapely.geometry import mapping
+from shapely.geometry import MultiLineString, MultiPoint, MultiPolygon, mapping
+
+# Multipart classes by geometry type of a record and geometry type of the output.
+MULTIPART_CLASSES = {('Polygon', 'MultiPolygon'): MultiPolygon,
+                     ('Point', 'MultiPoint'): MultiPoint,
+                     ('LineString', 'MultiLineString'): MultiLineString}
 
 
 class DriverVector(AbstractTabularDriver):
@@ -440,5 +445,9 @@ def get_geometry_variable(field_like):
 def write_records_to_fiona(sink, itr, driver):
     for geom, record in itr:
         record = format_record_for_fiona(driver, record)
+        multi_class = MULTIPART_CLASSES.get((geom.geom_type, sink.schema['geometry']))
+        if multi_class is not None:
+            # Single and multipart geometries may be mixed on the source. Formats may not allow this.
+            geom = multi_class([geom])
         record = {'properties': record, 'geometry': mapping(geom)}
         sink.write(record)
-- 
2.43.0


From ebbb118e3602eaa737c2a61a69c44510dce75bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 15/54] fix: a communicator name in use is rejected before a
 communicator is made, and freed names are forgotten without MPI

---
 src/ocgis/vmachine/core.py | 46 ++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/ocgis/vmachine/core.py b/src/ocgis/vmachine/core.py
index aab6052..c516b54 100644
--- a/src/ocgis/vmachine/core.py
+++ b/src/ocgis/vmachine/core.py
@@ -106,24 +106,23 @@ class OcgVM(AbstractOcgisObject):
         return self.comm.bcast(*args, **kwargs)
 
     def create_subcomm(self, name, ranks, is_current=False, clobber=False):
+        if name in self._subcomms and not clobber:
+            raise SubcommAlreadyCreatedError(name)
+
         if self._is_dummy:
-            self._subcomms[name] = self._comm
+            subcomm = self._comm
+        elif len(ranks) == 0:
+            subcomm = COMM_NULL
         else:
-            if len(ranks) == 0:
-                self._subcomms[name] = COMM_NULL
-            else:
-                the_pool = self.comm.Get_group()
-                sub_group = the_pool.Incl(ranks)
-                try:
-                    ret = self.comm.Create(sub_group)
-                    if name in self._subcomms:
-                        if clobber:
-                            vm.free_subcomm(name=name)
-                        else:
-                            raise SubcommAlreadyCreatedError(name)
-                    self._subcomms[name] = ret
-                finally:
-                    sub_group.Free()
+            the_pool = self.comm.Get_group()
+            sub_group = the_pool.Incl(ranks)
+            try:
+                subcomm = self.comm.Create(sub_group)
+            finally:
+                sub_group.Free()
+        if name in self._subcomms:
+            self.free_subcomm(name=name)
+        self._subcomms[name] = subcomm
         if is_current:
             self._current_comm_name = name
         return name
@@ -134,13 +133,12 @@ class OcgVM(AbstractOcgisObject):
         return name, live_ranks
 
     def free_subcomm(self, subcomm=None, name=None):
-        if not self._is_dummy:
-            if subcomm is None:
-                if name not in self._subcomms:
-                    raise SubcommNotFoundError(name)
-                subcomm = self._subcomms.pop(name)
-            if subcomm != COMM_NULL:
-                subcomm.Free()
+        if subcomm is None:
+            if name not in self._subcomms:
+                raise SubcommNotFoundError(name)
+            subcomm = self._subcomms.pop(name)
+        if not self._is_dummy and subcomm != COMM_NULL:
+            subcomm.Free()
 
     def finalize(self):
         for v in self._subcomms.values():
@@ -192,7 +190,7 @@ class OcgVM(AbstractOcgisObject):
         if self._is_dummy:
             ret = target
         else:
-            ret = vm.comm.reduce(target, MPIOps.get_op(op), root=root)
+            ret = self.comm.reduce(target, MPIOps.get_op(op), root=root)
         return ret
 
     def set_comm(self, name=None):
-- 
2.43.0


From 30b8a6632c378dc31e07d7f35f681bc84ff53add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 16/54] fix: a failure to make the output directory is raised
 on every rank

---
 src/ocgis/ops/interpreter.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/ocgis/ops/interpreter.py b/src/ocgis/ops/interpreter.py
index c55f457..c3e58fd 100644
--- a/src/ocgis/ops/interpreter.py
+++ b/src/ocgis/ops/interpreter.py
@@ -78,16 +78,23 @@ class OcgInterpreter(Interpreter):
                 # Auxiliary files require that a directory be created.
                 outdir = os.path.join(self.ops.dir_output, prefix)
                 # Create and/or remove the output directory.
+                exc_outdir = None
                 if vm.rank == 0:
-                    if os.path.exists(outdir):
-                        if env.OVERWRITE:
-                            shutil.rmtree(outdir)
-                        else:
-                            raise IOError('The output directory exists but env.OVERWRITE is False: {0}'.format(outdir))
-                    os.mkdir(outdir)
+                    try:
+                        if os.path.exists(outdir):
+                            if env.OVERWRITE:
+                                shutil.rmtree(outdir)
+                            else:
+                                msg = 'The output directory exists but env.OVERWRITE is False: {0}'.format(outdir)
+                                raise IOError(msg)
+                        os.mkdir(outdir)
+                    except Exception as e:
+                        exc_outdir = e
                 # Block until output directory is created. Most often the zero rank manages writing, but this is not a
-                # requirement.
-                vm.Barrier()
+                # requirement. All ranks fail if there is no output directory.
+                exc_outdir = vm.bcast(exc_outdir)
+                if exc_outdir is not None:
+                    raise exc_outdir
                 # On an exception, the output directory needs to be removed.
                 made_output_directory = True
             else:
-- 
2.43.0


From c6b01bd867c3225ec19b47a3bf2e0e7fc890fa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 17/54] fix: writes, reads, scatters and redistributions use
 the ranks of the communicator in force

---
 src/ocgis/conv/base.py    |  3 +--
 src/ocgis/driver/base.py  |  3 ++-
 src/ocgis/spatial/grid.py |  3 +--
 src/ocgis/vmachine/mpi.py | 13 +++++++------
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/ocgis/conv/base.py b/src/ocgis/conv/base.py
index 7ec5ad2..a665ead 100644
--- a/src/ocgis/conv/base.py
+++ b/src/ocgis/conv/base.py
@@ -16,7 +16,6 @@ from ocgis.driver.vector import DriverVector
 from ocgis.exc import OcgException
 from ocgis.util.helpers import get_iter, get_tuple
 from ocgis.util.logging_ocgis import ocgis_lh
-from ocgis.vmachine.mpi import MPI_RANK
 
 FIONA_FIELD_TYPES_REVERSED = {v: k for k, v in fiona.FIELD_TYPES_MAP.items()}
 FIONA_FIELD_TYPES_REVERSED[str] = 'str'
@@ -220,7 +219,7 @@ class AbstractCollectionConverter(AbstractFileConverter):
 
         # The metadata and dataset descriptor files may only be written if OCGIS operations are present.
         ops = self.ops
-        if ops is not None and self.add_auxiliary_files and MPI_RANK == 0:
+        if ops is not None and self.add_auxiliary_files and vm.rank == 0:
             # Add OCGIS metadata output if requested.
             if self.add_meta:
                 ocgis_lh('adding OCGIS metadata file', 'conv', logging.DEBUG)
diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 8ba8afb..1f38728 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -203,7 +203,8 @@ class AbstractDriver(AbstractOcgisObject):
 
             # Only build a distribution if the group has more than one dimension.
             if len(dimensions) == 0:
-                _ = ompi.get_group(group=group_index)
+                for rank in ompi.ranks:
+                    _ = ompi.get_group(group=group_index, rank=rank)
             else:
                 for dimension_name, dimension_meta in list(group_meta['dimensions'].items()):
                     target_dimension = dimensions[dimension_name]
diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index bc6afe9..314a1fb 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -18,7 +18,6 @@ from ocgis.util.helpers import get_formatted_slice, get_iter
 from ocgis.variable.base import get_dslice, get_dimension_lengths
 from ocgis.variable.dimension import Dimension
 from ocgis.variable.geom import GeometryVariable, get_masking_slice, GeometryProcessor
-from ocgis.vmachine.mpi import MPI_SIZE
 from shapely.geometry import Polygon, Point, box
 from shapely.geometry.base import BaseGeometry, BaseMultipartGeometry
 
@@ -754,7 +753,7 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
         reorder_dimension = self.dimensions[1].name
         varying_dimension = self.dimensions[0].name
 
-        if self.dimensions[1].dist and MPI_SIZE > 1:
+        if self.dimensions[1].dist and vm.size > 1:
             raise ValueError('The reorder dimension may not be distributed.')
 
         # Reorder indices identify where the index translation occurs.
diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index ef6b26a..ea14366 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -692,9 +692,10 @@ def redistribute_by_src_idx(variable, dimname, dimension):
 
     # Build the new distribution based on the gathered source indices.
     global_src_idx_size = vm.bcast(global_src_idx_size)
-    dest_dist = OcgDist()
-    new_dim = dest_dist.create_dimension(dimname, global_src_idx_size, dist=True)
+    dest_dist = OcgDist(size=vm.size, ranks=vm.ranks)
+    dest_dist.create_dimension(dimname, global_src_idx_size, dist=True)
     dest_dist.update_dimension_bounds()
+    new_dim = dest_dist.get_dimension(dimname, rank=vm.rank)
 
     # This variable holds the new source indices.
     new_rank_src_idx = variable_scatter(global_src_idx, dest_dist)
@@ -857,16 +858,16 @@ def variable_scatter(variable, dest_dist, root=0, strict=False):
     # processes to more flexibly add undistributed dimensions. Distributed dimensions should be part of the destination
     # distribution already.
     not_in_dist = {}
-    if vm.rank == 0:
+    if vm.rank == root:
         for dest_dimension_name in dimension_names:
             try:
-                _ = dest_dist.get_dimension(dest_dimension_name, group=group)
+                _ = dest_dist.get_dimension(dest_dimension_name, group=group, rank=vm.rank)
             except DimensionNotFound:
                 if strict:
                     raise
                 else:
                     not_in_dist[dest_dimension_name] = variable.parent.dimensions[dest_dimension_name]
-    not_in_dist = vm.bcast(not_in_dist)
+    not_in_dist = vm.bcast(not_in_dist, root=root)
 
     # Synchronize the processes with the MPI distribution and the group containing the dimensions.
     dest_dist = vm.bcast(dest_dist, root=root)
@@ -880,7 +881,7 @@ def variable_scatter(variable, dest_dist, root=0, strict=False):
     dest_dimensions = [None] * len(dimension_names)
     for ii, dest_dimension_name in enumerate(dimension_names):
         try:
-            d = dest_dist.get_dimension(dest_dimension_name, group=group)
+            d = dest_dist.get_dimension(dest_dimension_name, group=group, rank=vm.rank)
         except DimensionNotFound:
             if strict:
                 raise
-- 
2.43.0


From 6a9fd7a32166581495b454015535ba57dbef58b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 18/54] fix: chunked-rwg never removes a working directory it
 did not create

An existing --wd is accepted with --spatial_subset and was removed with everything in it after the run; a missing one was
not created, and the run failed. A run with a single chunk and no --wd failed when removing a directory it did not have.
---
 src/ocgis/ocli.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/ocgis/ocli.py b/src/ocgis/ocli.py
index 847d514..071c477 100644
--- a/src/ocgis/ocli.py
+++ b/src/ocgis/ocli.py
@@ -131,25 +131,28 @@ def chunked_rwg(source, destination, weight, nchunks_dst, merge, esmf_src_type,
     # Make a temporary working directory is one is not provided by the client. Only do this if we are writing subsets
     # and it is not a merge only operation.
     should_create_wd = (nchunks_dst is None or not all([ii == 1 for ii in nchunks_dst])) or spatial_subset
-    if should_create_wd:
-        if wd is None:
-            if ocgis.vm.rank == 0:
-                wd = tempfile.mkdtemp(prefix='ocgis_chunked_rwg_')
-            wd = ocgis.vm.bcast(wd)
-        else:
-            exc = None
-            if ocgis.vm.rank == 0:
+    # Contents of a working directory not created by this operation belong to the client and must not be removed.
+    is_client_wd = False
+    if wd is None:
+        if ocgis.vm.rank == 0:
+            wd = tempfile.mkdtemp(prefix='ocgis_chunked_rwg_')
+        wd = ocgis.vm.bcast(wd)
+    else:
+        exc = None
+        if ocgis.vm.rank == 0:
+            if os.path.exists(wd):
+                is_client_wd = True
                 # The working directory must not exist to proceed.
-                if nchunks_dst is not None:
-                    if os.path.exists(wd):
-                        exc = ValueError("Working directory {} must not exist.".format(wd))
-                    else:
-                        # Make the working directory nesting as needed.
-                        os.makedirs(wd)
-            exc = ocgis.vm.bcast(exc)
-            if exc is not None:
-                raise exc
+                if should_create_wd and nchunks_dst is not None:
+                    exc = ValueError("Working directory {} must not exist.".format(wd))
+            else:
+                # Make the working directory nesting as needed.
+                os.makedirs(wd)
+        exc = ocgis.vm.bcast(exc)
+        if exc is not None:
+            raise exc
 
+    if should_create_wd:
         if merge and not spatial_subset or (spatial_subset and genweights):
             if _is_subdir_(wd, weight):
                 raise ValueError(
@@ -235,7 +238,7 @@ def chunked_rwg(source, destination, weight, nchunks_dst, merge, esmf_src_type,
 
     # Remove the working directory unless the persist flag is provided.
     if not persist:
-        if ocgis.vm.rank == 0:
+        if ocgis.vm.rank == 0 and not is_client_wd:
             msg = "Removing working directory since persist is False."
             ocgis_lh(msg=msg, level=logging.INFO, logger=CRWG_LOG)
             shutil.rmtree(wd)
-- 
2.43.0


From 2979de4bd972b35878f9935e9168ce271ea38586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 19/54] fix: chunked-rwg detects a weight file nested in the
 working directory

Only direct children were detected. The weight file was removed with the working directory.
---
 src/ocgis/ocli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/ocli.py b/src/ocgis/ocli.py
index 071c477..f3d5cbc 100644
--- a/src/ocgis/ocli.py
+++ b/src/ocgis/ocli.py
@@ -326,8 +326,8 @@ def _is_subdir_(path, potential_subpath):
     # https://stackoverflow.com/questions/3812849/how-to-check-whether-a-directory-is-a-sub-directory-of-another-directory#18115684
     path = os.path.realpath(path)
     potential_subpath = os.path.realpath(potential_subpath)
-    relative = os.path.relpath(path, potential_subpath)
-    return not relative.startswith(os.pardir + os.sep)
+    relative = os.path.relpath(potential_subpath, path)
+    return relative != os.pardir and not relative.startswith(os.pardir + os.sep)
 
 
 def _write_spatial_subset_(rd_src, rd_dst, spatial_subset_path, src_resmax=None):
-- 
2.43.0


From b4ee7ce0fa9390a6a63d62a601092a656aec90c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 20/54] fix: geometry files of another run are not overwritten
 without permission

Converters checked their main output file only. With add_auxiliary_files=False, the _ugid and _gid shapefiles were
overwritten although overwriting was off.
---
 src/ocgis/conv/base.py | 28 ++++++++++++++++++++++++----
 src/ocgis/conv/csv_.py |  6 ++++++
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/conv/base.py b/src/ocgis/conv/base.py
index a665ead..a8125db 100644
--- a/src/ocgis/conv/base.py
+++ b/src/ocgis/conv/base.py
@@ -76,13 +76,21 @@ class AbstractFileConverter(AbstractConverter):
             self.path = self.outdir
         else:
             self.path = os.path.join(self.outdir, prefix + '.' + self._ext)
-            if os.path.exists(self.path):
-                if not self.overwrite:
-                    msg = messages.M3.format(self.path)
-                    raise IOError(msg)
+            if not self.overwrite:
+                for path in [self.path] + self._get_geometry_paths_():
+                    if os.path.exists(path):
+                        msg = messages.M3.format(path)
+                        raise IOError(msg)
 
         self._log = ocgis_lh.get_logger('conv')
 
+    def _get_geometry_paths_(self):
+        """
+        :return: Paths to the geometry files written in addition to :attr:`path`.
+        :rtype: list[str]
+        """
+        return []
+
 
 @six.add_metaclass(abc.ABCMeta)
 class AbstractCollectionConverter(AbstractFileConverter):
@@ -141,9 +149,21 @@ class AbstractCollectionConverter(AbstractFileConverter):
         Remove previous output file from :attr:`ocgis.conv.base.AbstractFileConverter`.
         """
 
+    def _get_geometry_paths_(self):
+        ret = []
+        if self._add_ugeom and self.ops is not None and self.ops.geom is not None:
+            ret.append(os.path.join(self._get_ugeom_folder_(), self.prefix + '_ugid.shp'))
+        return ret
+
     def _get_return_(self):
         return self.path
 
+    def _get_ugeom_folder_(self):
+        if self._add_ugeom_nest:
+            return os.path.join(self.outdir, 'shp')
+        else:
+            return self.outdir
+
     def _write_coll_(self, f, coll):
         raise NotImplementedError
 
diff --git a/src/ocgis/conv/csv_.py b/src/ocgis/conv/csv_.py
index 43a8fe7..84cae56 100644
--- a/src/ocgis/conv/csv_.py
+++ b/src/ocgis/conv/csv_.py
@@ -59,6 +59,12 @@ class CsvShapefileConverter(CsvConverter):
         if self.ops is None:
             raise ValueError('The argument "ops" may not be "None".')
 
+    def _get_geometry_paths_(self):
+        ret = super(CsvShapefileConverter, self)._get_geometry_paths_()
+        if self.ops is not None and not self.ops.aggregate:
+            ret.append(os.path.join(self.outdir, 'shp', self.prefix + '_gid.shp'))
+        return ret
+
     def _write_coll_(self, f, coll, add_geom_uid=True):
         ocgis_lh(msg='entering _write_coll_ in {}'.format(self.__class__), logger='csv-shp.converter',
                  level=logging.DEBUG)
-- 
2.43.0


From 9f981e7678980e772bb1d1c54e30dc6968ba6cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 21/54] fix: shapefiles left incomplete by a killed run are
 replaced

---
 src/ocgis/driver/vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index 675d063..db89f6e 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -215,6 +215,9 @@ class DriverVector(AbstractTabularDriver):
                 kwargs[KeywordArgument.DRIVER_KWARGS] = driver_kwargs
             return GeomCabinetIterator(path=uri, **kwargs)
         elif mode in ('a', 'w'):
+            if mode == 'w' and kwargs.get('driver') == 'ESRI Shapefile' and os.path.isfile(uri):
+                # The library opens existing files first, and fails if they were left incomplete.
+                os.remove(uri)
             ret = fiona.open(uri, mode=mode, **kwargs)
         else:
             raise ValueError('Mode not supported: "{}"'.format(mode))
-- 
2.43.0


From 6e825da2d867ff3ae7213ab9a6c9746df1e229e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 22/54] fix: expression calculations keep the mask of their
 input

---
 src/ocgis/calc/eval_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/calc/eval_function.py b/src/ocgis/calc/eval_function.py
index ecc3b7a..1764216 100644
--- a/src/ocgis/calc/eval_function.py
+++ b/src/ocgis/calc/eval_function.py
@@ -74,6 +74,9 @@ class EvalFunction(AbstractUnivariateFunction):
                 carr_fill.data[:] = res.data
                 carr_fill.mask[:] = res.mask
 
+            # Setting the values ensures the mask is updated on the output variables.
+            fill.set_value(arr_fill)
+
         self._add_to_collection_({'fill': fill})
 
     @staticmethod
-- 
2.43.0


From 007cc8fbaf7f508305eb180723d68713abff600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 23/54] fix: file only operations do not calculate multivariate
 functions

---
 src/ocgis/calc/base.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index b88843d..78763cb 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -852,29 +852,31 @@ class AbstractMultivariateFunction(AbstractFunction):
         keys = list(calculation_targets.keys())
         crosswalks = [self._get_dimension_crosswalk_(calculation_targets[k]) for k in keys]
         variable_shapes = [calculation_targets[k].shape for k in keys]
-        arrs = [self.get_variable_value(calculation_targets[k]) for k in keys]
         archetype = calculation_targets[keys[0]]
         fill = self.get_fill_variable(archetype, self.alias, archetype.dimensions, self.file_only,
                                       add_repeat_record_archetype_name=False)
         fill.units = self.get_output_units()
-        arr_fill = self.get_variable_value(fill)
-
-        itrs = [self._iter_conformed_arrays_(crosswalks[idx], variable_shapes[idx], arrs[idx], arr_fill, None)
-                for idx in range(len(crosswalks))]
-
-        for yld in zip(*itrs):
-            parms = {}
-            for idx in range(len(keys)):
-                parms[keys[idx]] = yld[idx][0]
-            for k, v in self.parms.items():
-                if k not in self.required_variables:
-                    parms.update({k: v})
-            res = self.calculate(**parms)
-            carr_fill = yld[0][1]
-            carr_fill.data[:] = res.data
-            carr_fill.mask[:] = res.mask
 
+        # No values are loaded or calculated for file only operations.
         if not self.file_only:
+            arrs = [self.get_variable_value(calculation_targets[k]) for k in keys]
+            arr_fill = self.get_variable_value(fill)
+
+            itrs = [self._iter_conformed_arrays_(crosswalks[idx], variable_shapes[idx], arrs[idx], arr_fill, None)
+                    for idx in range(len(crosswalks))]
+
+            for yld in zip(*itrs):
+                parms = {}
+                for idx in range(len(keys)):
+                    parms[keys[idx]] = yld[idx][0]
+                for k, v in self.parms.items():
+                    if k not in self.required_variables:
+                        parms.update({k: v})
+                res = self.calculate(**parms)
+                carr_fill = yld[0][1]
+                carr_fill.data[:] = res.data
+                carr_fill.mask[:] = res.mask
+
             fill.set_value(arr_fill)
 
         if self.tgd is not None:
-- 
2.43.0


From 16eeba44a6d1955eaf077558b6fa33470484525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 24/54] fix: a valid moving window keeps masked values masked

---
 src/ocgis/calc/library/statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index 42629ae..d5bfbb8 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -64,9 +64,9 @@ class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
         if mode == 'valid':
             # slice the field and fill arrays
             # self.field = self.field[:, idx_start:origin + 1, :, :, :]
-            # Mask the invalid regions.
-            fill.mask[:] = True
-            fill.mask[:, idx_start:origin + 1, :, :, :] = False
+            # Mask the invalid regions. Masked values inside the valid region stay masked.
+            fill.mask[:, :idx_start, :, :, :] = True
+            fill.mask[:, origin + 1:, :, :, :] = True
             # self._finalize_slice = [slice(None), slice(idx_start, origin + 1), slice(None), slice(None), slice(None)]
         elif mode == 'same':
             pass
-- 
2.43.0


From f62620a3b9ec1901c646688705c43671aa3eb482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 25/54] fix: tiled computation restores the callback of the
 operations

---
 src/ocgis/util/large_array.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/ocgis/util/large_array.py b/src/ocgis/util/large_array.py
index db2d24c..3648f12 100644
--- a/src/ocgis/util/large_array.py
+++ b/src/ocgis/util/large_array.py
@@ -40,15 +40,6 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
     assert isinstance(ops, OcgOperations)
     assert ops.output_format == constants.OutputFormatName.NETCDF
 
-    # Ensure that progress is not showing 100% at first.
-    if ops.callback is not None:
-        orgcallback = ops.callback
-
-        def zeropercentagecallback(p, m):
-            orgcallback(0., m)
-
-        ops.callback = zeropercentagecallback
-
     tile_dimension = int(tile_dimension)
     if tile_dimension <= 0:
         raise ValueError('"tile_dimension" must be greater than 0')
@@ -73,8 +64,18 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
         ops_file_only.file_only = True
     # save the environment flag for calculation optimizations.
     orig_oc = ocgis.env.OPTIMIZE_FOR_CALC
+    # the callback is wrapped to report the progress of all tiles.
+    orgcallback = ops.callback
 
     try:
+        # Ensure that progress is not showing 100% at first.
+        if orgcallback is not None:
+            def zeropercentagecallback(p, m):
+                orgcallback(0., m)
+
+            ops.callback = zeropercentagecallback
+            ops_file_only.callback = zeropercentagecallback
+
         # tell the software we are optimizing for calculations   
         ocgis.env.OPTIMIZE_FOR_CALC = True
 
@@ -218,6 +219,7 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
             fds.close()
     finally:
         ocgis.env.OPTIMIZE_FOR_CALC = orig_oc
+        ops.callback = orgcallback
     if verbose:
         progress.endProgress()
         print('complete.')
-- 
2.43.0


From 3f6ab3fd549761edb8b6226579826ffdaad2465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 26/54] fix: tiled computation with optimizations applies time
 and level subsets

---
 src/ocgis/ops/engine.py       | 5 +++--
 src/ocgis/util/large_array.py | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index ff3e7fe..5ca7fcb 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -244,9 +244,10 @@ class OperationsEngine(AbstractOcgisObject):
                     if field.is_empty:
                         raise ValueError('No empty fields allowed.')
 
-                    # Time, level, etc. subsets.
-                    field = self._get_nonspatial_subset_(field)
+                # Time, level, etc. subsets.
+                field = self._get_nonspatial_subset_(field)
 
+                if not has_field_optimizations:
                     # Spatially reorder the data.
                     ocgis_lh(msg='before spatial reorder', logger=self._subset_log, level=logging.DEBUG)
                     if self.ops.spatial_reorder:
diff --git a/src/ocgis/util/large_array.py b/src/ocgis/util/large_array.py
index 3648f12..c6af136 100644
--- a/src/ocgis/util/large_array.py
+++ b/src/ocgis/util/large_array.py
@@ -9,6 +9,7 @@ from ocgis.calc.base import AbstractMultivariateFunction
 from ocgis.calc.engine import CalculationEngine
 from ocgis.constants import TagName
 from ocgis.ops.core import OcgOperations
+from ocgis.ops.engine import OperationsEngine
 from ocgis.util.helpers import ProgressBar
 
 
@@ -122,12 +123,14 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
         shp = template_field.grid.shape
 
         if use_optimizations:
+            oengine = OperationsEngine(ops)
             # if there is a calculation grouping, optimize for it. otherwise, pass
             # this value as None.
             try:
                 # tgd_field = ops.dataset.first().get()
                 archetype_dataset = list(ops.dataset)[0]
-                tgd_field = archetype_dataset.get()
+                # the tiles are grouped after any time subset.
+                tgd_field = oengine._get_nonspatial_subset_(archetype_dataset.get())
                 template_tgd = tgd_field.temporal.get_grouping(deepcopy(ops.calc_grouping))
                 if not has_multivariate:
                     key = archetype_dataset.field_name
-- 
2.43.0


From 4917e273c2b19ff36684be697c329e15a1fb53eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 27/54] fix: tiled computation with optimizations reorders and
 extrapolates bounds

---
 src/ocgis/util/large_array.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ocgis/util/large_array.py b/src/ocgis/util/large_array.py
index c6af136..3bdeaf4 100644
--- a/src/ocgis/util/large_array.py
+++ b/src/ocgis/util/large_array.py
@@ -144,6 +144,11 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
             field_optimizations = {}
             for rd in ops.dataset:
                 gotten_field = rd.get(format_time=ops.format_time)
+                # these operations modify the coordinates and are not executed on the cached fields.
+                if ops.spatial_reorder:
+                    oengine._update_spatial_order_(gotten_field)
+                if ops.interpolate_spatial_bounds:
+                    oengine._update_bounds_extrapolation_(gotten_field)
                 field_optimizations.update({rd.field_name: gotten_field})
             optimizations = optimizations or {}
             optimizations['fields'] = field_optimizations
-- 
2.43.0


From 26eed7ae822b22d480c6f9d90b81770facd1c8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 28/54] fix: tiled computation with a geometry may conform
 units

---
 src/ocgis/util/large_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ocgis/util/large_array.py b/src/ocgis/util/large_array.py
index 3bdeaf4..a8445a1 100644
--- a/src/ocgis/util/large_array.py
+++ b/src/ocgis/util/large_array.py
@@ -93,6 +93,8 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
             ops_offset = deepcopy(ops)
             ops_offset.output_format = constants.OutputFormatName.OCGIS
             ops_offset.calc = None
+            # conforming units requires the data values
+            ops_offset.conform_units_to = None
             ops_offset.agg_selection = True
             ops_offset.snippet = False
             coll = ops_offset.execute()
-- 
2.43.0


From 89dc673b434898ecc6eedf4c9613ead5fcb0e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 29/54] fix: tiled computation honours the slice of the
 operations

---
 src/ocgis/util/large_array.py | 46 +++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/util/large_array.py b/src/ocgis/util/large_array.py
index a8445a1..094e143 100644
--- a/src/ocgis/util/large_array.py
+++ b/src/ocgis/util/large_array.py
@@ -7,7 +7,7 @@ from ocgis import constants
 from ocgis.calc import tile
 from ocgis.calc.base import AbstractMultivariateFunction
 from ocgis.calc.engine import CalculationEngine
-from ocgis.constants import TagName
+from ocgis.constants import DimensionMapKey, TagName
 from ocgis.ops.core import OcgOperations
 from ocgis.ops.engine import OperationsEngine
 from ocgis.util.helpers import ProgressBar
@@ -113,6 +113,12 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
             col_offset = 0
             mask_spatial = None
 
+        # the tiles are relative to any slice requested by the operations.
+        source_shape = None
+        if ops.slice is not None:
+            archetype_field = list(ops.dataset)[0].get()
+            source_shape = archetype_field.grid.shape
+
         # get the shape for the tile schema
         if verbose:
             print('getting tile schema shape inputs...')
@@ -133,6 +139,8 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
                 archetype_dataset = list(ops.dataset)[0]
                 # the tiles are grouped after any time subset.
                 tgd_field = oengine._get_nonspatial_subset_(archetype_dataset.get())
+                if ops.slice is not None:
+                    tgd_field = oengine._get_slice_or_snippet_(tgd_field)
                 template_tgd = tgd_field.temporal.get_grouping(deepcopy(ops.calc_grouping))
                 if not has_multivariate:
                     key = archetype_dataset.field_name
@@ -192,7 +200,10 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
                 # copy the operations and modify arguments
                 ops_slice = deepcopy(ops)
                 ops_slice.geom = None
-                ops_slice.slice = [None, None, None, row, col]
+                if ops.slice is None:
+                    ops_slice.slice = [None, None, None, row, col]
+                else:
+                    ops_slice.slice = get_tile_slice(ops.slice, source_shape, row, col)
                 ops_slice.output_format = constants.OutputFormatName.OCGIS
                 ops_slice.optimizations = optimizations
                 # return the object slice
@@ -237,6 +248,37 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
     return fill_file
 
 
+def get_tile_slice(ops_slice, source_shape, row, col):
+    """
+    Convert the bounds of a tile to a slice of the source data when the operations slice the source data.
+
+    :param dict ops_slice: The slice requested by the operations.
+    :param tuple source_shape: Shape of the source grid. The first dimension is the row dimension.
+    :param row: Start and stop row index of the tile relative to the requested slice.
+    :type row: sequence of integers
+    :param col: Same as ``row`` for columns.
+    :type col: sequence of integers
+    :return: The value for the ``slice`` argument to the operations.
+    :rtype: list
+    """
+
+    keys = (DimensionMapKey.REALIZATION, DimensionMapKey.TIME, DimensionMapKey.LEVEL, DimensionMapKey.Y,
+            DimensionMapKey.X)
+    ret = [ops_slice.get(key) for key in keys]
+    for idx, size, bounds in zip((3, 4), source_shape, (row, col)):
+        requested = ret[idx]
+        if requested is None:
+            requested = slice(None)
+        elif not isinstance(requested, slice):
+            requested = slice(requested, None if requested == -1 else requested + 1)
+        selected = range(*requested.indices(size))[bounds[0]:bounds[1]]
+        ret[idx] = slice(selected.start, selected.stop if selected.stop >= 0 else None, selected.step)
+    for idx, value in enumerate(ret):
+        if isinstance(value, slice):
+            ret[idx] = [value.start, value.stop, value.step]
+    return ret
+
+
 def set_variable_spatial_mask(variable, mask_spatial, slice_row, slice_col):
     """
     Update the mask on ``variable`` in-place to match ``mask_spatial``. The array slice updated is constrained by
-- 
2.43.0


From c140cfa1b006d06fdba35c9ccb293a8909c6d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 30/54] fix: writing a field to netCDF leaves the attributes
 and masks of the field unchanged

---
 src/ocgis/driver/nc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 5f8740f..2befc38 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -502,6 +502,10 @@ class DriverNetcdfCF(AbstractDriverNetcdfCF):
         """Collective!"""
         ocgis_lh(level=10, logger="driver.nc", msg="entering _get_field_write_target_")
 
+        # The axis attributes are set by the grid. Other changes to attributes and masks are for the write only.
+        _ = field.grid
+        field = field.copy()
+
         if field.crs is not None:
             field.crs.format_spatial_object(field)
 
@@ -522,13 +526,11 @@ class DriverNetcdfCF(AbstractDriverNetcdfCF):
 
             # Putting units on bounds for netCDF-CF can confuse some parsers.
             if grid.has_bounds:
-                field = field.copy()
                 field.x.bounds.attrs.pop('units', None)
                 field.y.bounds.attrs.pop('units', None)
 
         # Remove the current coordinate system if this is a dummy coordinate system.
         if env.COORDSYS_ACTUAL is not None:
-            field = field.copy()
             field.set_crs(env.COORDSYS_ACTUAL, should_add=True)
 
         return field
-- 
2.43.0


From 5af1b20fa1269beaef8d8368d7c844988d95655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 31/54] fix: operations leave a field passed as dataset
 unchanged

---
 src/ocgis/ops/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/ops/engine.py b/src/ocgis/ops/engine.py
index 5ca7fcb..4b0ab22 100644
--- a/src/ocgis/ops/engine.py
+++ b/src/ocgis/ops/engine.py
@@ -212,7 +212,8 @@ class OperationsEngine(AbstractOcgisObject):
                         # Check that is indeed a field before a proceeding.
                         if not isinstance(rds_element, Field):
                             raise
-                        field_object = rds_element
+                        # The field is modified by the operations. Leave the original unchanged.
+                        field_object = rds_element.deepcopy()
 
                     field[ii] = field_object
 
-- 
2.43.0


From 955db55a2a15726fbcee8fbfb7f8c11f2fecc158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 32/54] fix: masks set along other dimensions are not written
 into shared masks

---
 src/ocgis/variable/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index b381ee6..0ca24ef 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -2529,6 +2529,9 @@ def set_mask_by_variable(source_variable, target_variable, slice_map=None, updat
             # If the target mask is none, we will need to generate one.
             if mask_target is None:
                 mask_target = np.zeros(target_variable.shape, dtype=bool)
+            else:
+                # The mask may be shared with the objects the target was copied or sliced from.
+                mask_target = mask_target.copy()
             template = [slice(None)] * target_variable.ndim
             for slc in itertools.product(*[list(range(ii)) for ii in source_variable.shape]):
                 # slc = [slice(s, s + 1) for s in slc]
-- 
2.43.0


From 94ca0f5acdcf4e594588ad1d875ddb27007e7de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 33/54] fix: spatial subsets restore the longitudes of the
 target when the subset fails

---
 src/ocgis/spatial/spatial_subset.py | 111 ++++++++++++++--------------
 1 file changed, 56 insertions(+), 55 deletions(-)

diff --git a/src/ocgis/spatial/spatial_subset.py b/src/ocgis/spatial/spatial_subset.py
index fb53302..9909aff 100644
--- a/src/ocgis/spatial/spatial_subset.py
+++ b/src/ocgis/spatial/spatial_subset.py
@@ -111,63 +111,64 @@ class SpatialSubsetOperation(AbstractOcgisObject):
         # Prepare the target field.
         self._prepare_target_()
 
-        # execute the spatial operation
-        slc = None
-        if operation == 'intersects':
-            if self.field.grid is None:
-                if keep_touches == 'auto':
-                    keep_touches = False
-                ret = self.field.geom.get_intersects(base_geometry, use_spatial_index=use_spatial_index,
-                                                     cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
-                if return_slice:
-                    ret, slc = ret
-                ret = ret.parent
-            else:
-                ret = self.field.grid.get_intersects(base_geometry, cascade=cascade,
-                                                     optimized_bbox_subset=optimized_bbox_subset,
-                                                     return_slice=return_slice, keep_touches=keep_touches)
-                if return_slice:
-                    ret, slc = ret
-                ret = ret.parent
-        elif operation in ('clip', 'intersection'):
-            if self.field.grid is None:
-                ret = self.field.geom.get_intersection(base_geometry, use_spatial_index=use_spatial_index,
-                                                       cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
-                if return_slice:
-                    ret, slc = ret
-                ret = ret.parent
+        try:
+            # execute the spatial operation
+            slc = None
+            if operation == 'intersects':
+                if self.field.grid is None:
+                    if keep_touches == 'auto':
+                        keep_touches = False
+                    ret = self.field.geom.get_intersects(base_geometry, use_spatial_index=use_spatial_index,
+                                                         cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
+                    if return_slice:
+                        ret, slc = ret
+                    ret = ret.parent
+                else:
+                    ret = self.field.grid.get_intersects(base_geometry, cascade=cascade,
+                                                         optimized_bbox_subset=optimized_bbox_subset,
+                                                         return_slice=return_slice, keep_touches=keep_touches)
+                    if return_slice:
+                        ret, slc = ret
+                    ret = ret.parent
+            elif operation in ('clip', 'intersection'):
+                if self.field.grid is None:
+                    ret = self.field.geom.get_intersection(base_geometry, use_spatial_index=use_spatial_index,
+                                                           cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
+                    if return_slice:
+                        ret, slc = ret
+                    ret = ret.parent
+                else:
+                    ret = self.field.grid.get_intersection(base_geometry, cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
+                    if return_slice:
+                        ret, slc = ret
+                    # An intersection with a grid returns a geometry variable. Set this on the field.
+                    ret.parent.set_geom(ret)
+                    ret = ret.parent
             else:
-                ret = self.field.grid.get_intersection(base_geometry, cascade=cascade, return_slice=return_slice, keep_touches=keep_touches)
-                if return_slice:
-                    ret, slc = ret
-                # An intersection with a grid returns a geometry variable. Set this on the field.
-                ret.parent.set_geom(ret)
-                ret = ret.parent
-        else:
-            msg = 'The spatial operation "{0}" is not supported.'.format(operation)
-            raise ValueError(msg)
-
-        with vm.scoped_by_emptyable('return finalize', ret):
-            if not vm.is_null:
-                # Select the nearest geometry if requested.
-                if select_nearest:
-                    ret.set_abstraction_geom()
-                    ret = ret.geom.get_nearest(base_geometry).parent
-
-                # check for rotated pole and convert back to default CRS
-                if self._original_rotated_pole_state is not None and self.output_crs == 'input':
-                    ret.update_crs(self._original_rotated_pole_state)
-
-                # wrap the data...
-                if self._get_should_wrap_(ret):
-                    ret.wrap()
-
-                # convert the coordinate system if requested...
-                if self.should_update_crs:
-                    ret.update_crs(self.output_crs)
+                msg = 'The spatial operation "{0}" is not supported.'.format(operation)
+                raise ValueError(msg)
 
-        # Return the target field to its original state.
-        self._finalize_target()
+            with vm.scoped_by_emptyable('return finalize', ret):
+                if not vm.is_null:
+                    # Select the nearest geometry if requested.
+                    if select_nearest:
+                        ret.set_abstraction_geom()
+                        ret = ret.geom.get_nearest(base_geometry).parent
+
+                    # check for rotated pole and convert back to default CRS
+                    if self._original_rotated_pole_state is not None and self.output_crs == 'input':
+                        ret.update_crs(self._original_rotated_pole_state)
+
+                    # wrap the data...
+                    if self._get_should_wrap_(ret):
+                        ret.wrap()
+
+                    # convert the coordinate system if requested...
+                    if self.should_update_crs:
+                        ret.update_crs(self.output_crs)
+        finally:
+            # Return the target field to its original state.
+            self._finalize_target()
 
         if return_slice:
             ret = (ret, slc)
-- 
2.43.0


From b7dfdfbcc4e60f022ad0fd44bdd2e4ad4c40ef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:33 +0000
Subject: [PATCH 34/54] fix: wrapping does not change coordinates shared with
 other objects

---
 src/ocgis/variable/crs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index 415031e..765da33 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -342,14 +342,16 @@ class AbstractCRS(AbstractInterfaceObject):
             if isinstance(target, GeometryVariable):
                 w = GeometryWrapper()
                 func = getattr(w, attr)
-                target_value = target.get_value()
+                # The array may be shared with the object the target was sliced or copied from.
+                target_value = target.get_value().copy()
                 for idx, target_geom in iter_array(target_value, use_mask=True, return_value=True,
                                                    mask=target.get_mask()):
                     target_value.__setitem__(idx, func(target_geom))
+                target.set_value(target_value)
             elif isinstance(target, Grid):
                 ca = CoordinateArrayWrapper()
                 func = getattr(ca, attr)
-                func(target.x.get_value())
+                target.x.set_value(func(target.x.get_value().copy()))
                 target.remove_bounds()
                 if target.has_allocated_point:
                     getattr(target.get_point(), attr)()
-- 
2.43.0


From a3a023ff4df5060d00029a650ebd62f4d8aef437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:45 +0000
Subject: [PATCH 35/54] fix: transforming geometries does not change geometries
 shared with other objects

---
 src/ocgis/variable/geom.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 6c2e286..12bafec 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1145,8 +1145,10 @@ class GeometryVariable(AbstractSpatialVariable):
                 inverse = True
             from_crs.transform_geometry(to_crs, self, inverse=inverse)
         elif from_crs != to_crs:
-            # Be sure and project masked geometries to maintain underlying geometries.
-            r_value = self.get_value().reshape(-1)
+            # Be sure and project masked geometries to maintain underlying geometries. The array may be shared with the
+            # object the target was sliced or copied from.
+            value = self.get_value().copy()
+            r_value = value.reshape(-1)
             r_loads = wkb.loads
             r_create = ogr.CreateGeometryFromWkb
             to_sr = to_crs.sr
@@ -1172,6 +1174,7 @@ class GeometryVariable(AbstractSpatialVariable):
                 ogr_geom.AssignSpatialReference(from_sr)
                 ogr_geom.TransformTo(to_sr)
                 r_value[idx] = r_loads(ogr_geom.ExportToWkb())
+            self.set_value(value)
         # Even if coordinate systems are measured equivalent, for consistency the new crs is the destination CRS.
         self.crs = to_crs
 
-- 
2.43.0


From b759fe8431e7b586d4ad891154eb4a6ef99e7c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:16 +0000
Subject: [PATCH 36/54] fix: all geometries of a vector source may be selected

---
 src/ocgis/variable/geom.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 12bafec..012f3ee 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1244,8 +1244,7 @@ def get_masking_slice(intersects_mask_value, target, apply_slice=True):
         if intersects_mask_value.all():
             local_slice = None
         elif not intersects_mask_value.any():
-            shp = intersects_mask_value.shape
-            local_slice = [(0, shp[0]), (0, shp[1])]
+            local_slice = [(0, size) for size in intersects_mask_value.shape]
         else:
             _, local_slice = get_trimmed_array_by_mask(intersects_mask_value, return_adjustments=True)
             local_slice = [(l.start, l.stop) for l in local_slice]
-- 
2.43.0


From f8f2fcb6fec82e82a71515188f7611f01ff77b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 37/54] fix: a cascaded spatial mask keeps the missing values
 of variables on the grid

---
 src/ocgis/spatial/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 314a1fb..d6a1f10 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -1291,7 +1291,7 @@ def get_any_global(flag):
 
 def grid_set_mask_cascade(grid):
     members = grid.get_member_variables(include_bounds=True)
-    grid.parent.set_mask(grid.mask_variable, exclude=members)
+    grid.parent.set_mask(grid.mask_variable, exclude=members, update=True)
 
 
 def expand_grid(grid):
-- 
2.43.0


From a854a7368a65bac386227c9e9cd60c1194ccbab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 38/54] fix: collections may be sliced with lists and
 open-ended slices

---
 src/ocgis/variable/base.py      | 2 ++
 src/ocgis/variable/dimension.py | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 0ca24ef..6de2ffe 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1773,6 +1773,8 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
             if len(self_dimensions) == 0:
                 raise DimensionsRequiredError
 
+            # The slice of a variable with one dimension is a sequence with one element.
+            item_or_slc = {k: get_formatted_slice(v, 1)[0] for k, v in list(item_or_slc.items())}
             ret = self.copy()
             for dimension_name, slc in list(item_or_slc.items()):
                 ret.dimensions[dimension_name] = self_dimensions[dimension_name].__getitem__(slc)
diff --git a/src/ocgis/variable/dimension.py b/src/ocgis/variable/dimension.py
index 26454c4..af3df69 100644
--- a/src/ocgis/variable/dimension.py
+++ b/src/ocgis/variable/dimension.py
@@ -414,13 +414,13 @@ class Dimension(AbstractNamedObject):
                 # Likely a NoneType slice.
                 if slc.start is None:
                     if slc.stop is not None and slc.stop > 0:
-                        length = length_self
+                        length = min(slc.stop, length_self)
                     elif slc.stop is None:
                         length = length_self
                     else:
                         length = length_self + slc.stop
                 elif slc.stop is None:
-                    if slc.start > 0:
+                    if slc.start >= 0:
                         length = length_self - slc.start
                     else:
                         length = abs(slc.start)
@@ -530,6 +530,9 @@ def slice_source_index(slc, src_idx):
                 else:
                     new_si = np.array(src_idx) - offset
                     start, stop = slc.start, slc.stop
+                    # Open-ended slices keep the respective bound.
+                    start = 0 if start is None else start
+                    stop = new_si[1] if stop is None else stop
 
                     if start < 0:
                         new_si[0] = new_si[1] + start
-- 
2.43.0


From 1718271caf0be3a658b629b1100b5c1d532d235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:25 +0000
Subject: [PATCH 39/54] fix: loading a variable from a table reads its records
 and leaves other variables alone

---
 src/ocgis/driver/base.py   | 19 +++++++++++++++
 src/ocgis/driver/csv_.py   | 47 ++++++++++++++++++++++--------------
 src/ocgis/driver/vector.py | 49 ++++++++++++++++----------------------
 3 files changed, 68 insertions(+), 47 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 1f38728..ea21604 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -888,6 +888,25 @@ class AbstractTabularDriver(AbstractDriver):
         """Return the preferred distributed dimension name."""
         return list(dimensions_metadata.values())[0]['name']
 
+    @staticmethod
+    def _get_variables_to_load_(variable):
+        """
+        Loading a variable loads the variables it shares its records with. Variables not from the source, loaded before,
+        or holding other records are left out.
+
+        :param variable: The variable to load.
+        :type variable: :class:`~ocgis.variable.base.SourcedVariable`
+        :rtype: `list` of :class:`~ocgis.variable.base.SourcedVariable`
+        """
+        ret = [variable]
+        if variable.parent is not None:
+            for v in list(variable.parent.values()):
+                if v is not variable and isinstance(v, SourcedVariable) and not v.is_empty and \
+                        v._request_dataset is variable._request_dataset and not v._has_initialized_value and \
+                        not v.has_allocated_value and v.dimensions == variable.dimensions:
+                    ret.append(v)
+        return ret
+
     @staticmethod
     def _get_archetype_record_(target, **kwargs):
         """
diff --git a/src/ocgis/driver/csv_.py b/src/ocgis/driver/csv_.py
index e78dc95..fcc7367 100644
--- a/src/ocgis/driver/csv_.py
+++ b/src/ocgis/driver/csv_.py
@@ -1,10 +1,11 @@
 import csv
 from collections import OrderedDict
 
+import numpy as np
 import six
 from ocgis import vm
 from ocgis.base import raise_if_empty
-from ocgis.constants import MPIWriteMode, KeywordArgument, DriverKey
+from ocgis.constants import MPIWriteMode, KeywordArgument, DriverKey, SourceIndexType
 from ocgis.driver.base import driver_scope, AbstractTabularDriver
 
 
@@ -19,25 +20,35 @@ class DriverCSV(AbstractTabularDriver):
 
     def get_variable_value(self, variable):
         # For CSV files, it makes sense to load all variables from source simultaneously.
-        if variable.parent is None:
-            to_load = [variable]
-        else:
-            to_load = list(variable.parent.values())
+        to_load = self._get_variables_to_load_(variable)
 
+        # Rows are always selected by source index.
+        dimension = variable.dimensions[0]
+        src_idx = dimension._src_idx
+        if src_idx is None:
+            src_idx = np.arange(*dimension.bounds_local)
+        elif dimension._src_idx_type == SourceIndexType.BOUNDS:
+            src_idx = np.arange(*src_idx)
+        select = {}
+        for idx, row_idx in enumerate(src_idx.tolist()):
+            select.setdefault(row_idx, []).append(idx)
+
+        # Values are set when all of them are read.
+        values = [np.zeros(tl.shape, dtype=tl.dtype) for tl in to_load]
+        remaining = len(select)
         with driver_scope(self) as f:
-            reader = csv.DictReader(f)
-            bounds_local = variable.dimensions[0].bounds_local
-            for idx, row in enumerate(reader):
-                if idx < bounds_local[0]:
-                    continue
-                else:
-                    if idx >= bounds_local[1]:
-                        break
-                for tl in to_load:
-                    if not tl.has_allocated_value:
-                        tl.allocate_value()
-                    tl.get_value()[idx - bounds_local[0]] = row[tl.name]
-        return variable.get_value()
+            for row_idx, row in enumerate(csv.DictReader(f)):
+                if remaining == 0:
+                    break
+                if row_idx in select:
+                    remaining -= 1
+                    for tl, value in zip(to_load, values):
+                        for idx in select[row_idx]:
+                            value[idx] = row[tl.source_name]
+        for tl, value in zip(to_load, values):
+            if tl is not variable:
+                tl.set_value(value, update_mask=True)
+        return values[0]
 
     def _get_metadata_main_(self):
         with driver_scope(self) as f:
diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index db89f6e..b27ec17 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -42,10 +42,10 @@ class DriverVector(AbstractTabularDriver):
         value = self.get_variable_value(variable)
 
         if variable.parent is None:
-            variable.set_value(list(value.values())[0])
+            variable.set_value(list(value.values())[0], update_mask=True)
         else:
             for k, v in list(value.items()):
-                variable.parent[k].set_value(v)
+                variable.parent[k].set_value(v, update_mask=True)
 
         # Conform the units if requested.
         for k in list(value.keys()):
@@ -127,35 +127,26 @@ class DriverVector(AbstractTabularDriver):
             if as_geometry_iterator:
                 return (row['geom'] for row in g)
 
+            # Initialize the variable data as zero arrays.
             ret = {}
-            if variable.parent is None:
-                ret[variable.name] = np.zeros(variable.shape, dtype=variable.dtype)
-                for idx, row in enumerate(g):
-                    ret[variable.name][idx] = row['properties'][variable.name]
-            else:
-                ret = {}
-                # Initialize the variable data as zero arrays.
-                for v in list(variable.parent.values()):
-                    if not isinstance(v, CoordinateReferenceSystem):
-                        ret[v.name] = np.ma.array(np.zeros(v.shape, dtype=v.dtype), mask=False)
-                # Fill those arrays.
-                for idx, row in enumerate(g):
-                    for dv in list(variable.parent.values()):
-                        if isinstance(dv, (CoordinateReferenceSystem, GeometryVariable)):
-                            continue
-                        dv = dv.name
-                        try:
-                            ret[dv][idx] = row['properties'][dv]
-                        except TypeError:
-                            # Property value may be none. Set the data to masked if this is the case.
-                            if row['properties'][dv] is None:
-                                ret[dv].mask[idx] = True
-                            else:
-                                raise
+            to_load = self._get_variables_to_load_(variable)
+            for v in to_load:
+                ret[v.name] = np.ma.array(np.zeros(v.shape, dtype=v.dtype), mask=False)
+            # Fill those arrays.
+            for idx, row in enumerate(g):
+                for v in to_load:
+                    if isinstance(v, GeometryVariable):
+                        ret[v.name][idx] = row['geom']
+                        continue
+                    property_value = row['properties'][v.source_name]
                     try:
-                        ret[constants.VariableName.GEOMETRY_VARIABLE][idx] = row['geom']
-                    except KeyError:
-                        pass
+                        ret[v.name][idx] = property_value
+                    except TypeError:
+                        # Property value may be none. Set the data to masked if this is the case.
+                        if property_value is None:
+                            ret[v.name].mask[idx] = True
+                        else:
+                            raise
 
         # Only supply a mask if something is actually masked. Otherwise, remove the mask.
         is_masked = any([v.mask.any() for v in ret.values()])
-- 
2.43.0


From c7f1b71adfde68b2771e1db929d9713112a02c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:36 +0000
Subject: [PATCH 40/54] fix: strings and variables of several files may be
 loaded by index arrays

---
 src/ocgis/driver/nc.py | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 2befc38..ecfdf81 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -7,7 +7,7 @@ from copy import deepcopy
 import netCDF4 as nc
 import numpy as np
 import six
-from netCDF4._netCDF4 import VLType, MFDataset, MFTime
+from netCDF4._netCDF4 import VLType, MFDataset, MFTime, _Variable as MFVariable
 
 from ocgis import constants, vm
 from ocgis import env
@@ -18,7 +18,8 @@ from ocgis.constants import MPIWriteMode, DimensionMapKey, KeywordArgument, Driv
 from ocgis.driver.base import AbstractDriver, driver_scope
 from ocgis.exc import ProjectionDoesNotMatch, PayloadProtectedError, NoDataVariablesFound, \
     GridDeficientError
-from ocgis.util.helpers import itersubclasses, get_iter, get_formatted_slice, get_by_key_list, is_auto_dtype, get_group
+from ocgis.util.helpers import itersubclasses, get_iter, get_formatted_slice, get_by_key_list, is_auto_dtype, get_group, \
+    get_orthogonal_slice
 from ocgis.util.logging_ocgis import ocgis_lh
 from ocgis.variable.base import SourcedVariable, ObjectType, get_slice_sequence_using_local_bounds
 from ocgis.variable.crs import CFCoordinateReferenceSystem, CoordinateReferenceSystem, CFRotatedPole, CFSpherical, \
@@ -727,14 +728,44 @@ def get_variable_value(variable, dimensions):
         slc = get_formatted_slice(to_format, len(dimensions))
     else:
         slc = slice(None)
+
+    # Index arrays do not work with string variables and variables of multi-file datasets. Read the range holding the
+    # indices and select from it.
+    slc_loaded = None
+    if isinstance(slc, tuple) and (variable.dtype == str or isinstance(variable, MFVariable)):
+        if any([isinstance(s, np.ndarray) and s.size > 0 for s in slc]):
+            slc, slc_loaded = get_bounding_slice(slc)
+
     try:
         ret = variable.__getitem__(slc)
     except IndexError:
         # TODO: Hack! Slicing the top-level MFTime variable does not work with multifiles.
         ret = super(MFTime, variable).__getitem__(slc)
+    if slc_loaded is not None:
+        ret = get_orthogonal_slice(ret, slc_loaded)
     return ret
 
 
+def get_bounding_slice(slc):
+    """
+    Convert index arrays in the sequence to slices.
+
+    :param slc: Sequence of slices and integer index arrays.
+    :return: The slices and the sequence selecting the elements of ``slc`` from the sliced array.
+    :rtype: tuple(tuple, tuple)
+    """
+    bounding, remaining = [], []
+    for s in slc:
+        if isinstance(s, np.ndarray) and s.size > 0:
+            lower = s.min()
+            bounding.append(slice(lower, s.max() + 1))
+            remaining.append(s - lower)
+        else:
+            bounding.append(s)
+            remaining.append(slice(None))
+    return tuple(bounding), tuple(remaining)
+
+
 def create_dimension_or_pass(dim, dataset, write_mode=MPIWriteMode.NORMAL):
     if dim.name not in dataset.dimensions:
         if dim.is_unlimited:
-- 
2.43.0


From 937a2a5daf1f0e490ba8407b6bd4944b2a5cf4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 41/54] fix: renaming a dimension leaves other collections with
 the dimension alone

---
 src/ocgis/variable/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 6de2ffe..70ef25e 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -2233,7 +2233,8 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
         :param str old_name: The dimension's original name.
         :param str new_name: The dimension's new name.
         """
-        target_dimension = self.dimensions.pop(old_name)
+        # The dimension may be shared with other collections.
+        target_dimension = self.dimensions.pop(old_name).copy()
         target_dimension.set_name(new_name)
         self.dimensions[new_name] = target_dimension
         for var in self.values():
-- 
2.43.0


From a6f6a61d31844cc957b7a682dc1de3d91a48baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 42/54] fix: extrapolated grid bounds are set on both
 coordinates or on none

---
 src/ocgis/spatial/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index d6a1f10..665eefd 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -795,6 +795,10 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
         :param str name_y_variable: Name for the y-coordinate bounds variable.
         :param str name_dimension: Name for the bounds/corner dimension.
         """
+        # Load both coordinates first. The grid must not be left with bounds on one coordinate only.
+        for coordinate_variable in (self.x, self.y):
+            if not coordinate_variable.is_empty:
+                coordinate_variable.get_value()
         self.x.set_extrapolated_bounds(name_x_variable, name_dimension)
         self.y.set_extrapolated_bounds(name_y_variable, name_dimension)
         self.parent = self.y.parent
-- 
2.43.0


From 43c45c34727e452f73b915bf286e3b34a0153c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:33 +0000
Subject: [PATCH 43/54] fix: chunks of small dimensions have elements

---
 src/ocgis/driver/nc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index ecfdf81..0ba77f3 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -550,6 +550,10 @@ def create_slices_for_dimension(size, splits):
     for rank in range(splits):
         dimension = ompi.get_dimension(dimname, rank=rank)
         slices.append(dimension.bounds_local)
+    if any(start == stop for start, stop in slices):
+        # The distribution does not fill all of its ranks with small dimensions. There are no splits without elements.
+        sections = np.array_split(np.arange(size), min(splits, size))
+        slices = [(int(s[0]), int(s[-1]) + 1) for s in sections]
     return slices
 
 
-- 
2.43.0


From 3977205688e4a30ed193ce29eb700b2c83818d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:33 +0000
Subject: [PATCH 44/54] fix: the resolution of coordinates on both sides of
 zero or with a single element

---
 src/ocgis/driver/nc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index 0ba77f3..4ee6843 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -385,15 +385,16 @@ class DriverNetcdfCF(AbstractDriverNetcdfCF):
             resolution_limit = constants.RESOLUTION_LIMIT
             is_vectorized = value.ndim == 1
             if is_vectorized:
-                target = np.abs(np.diff(np.abs(value[0:resolution_limit])))
+                target = np.abs(np.diff(value[0:resolution_limit]))
             else:
                 if axis == 0:
-                    target = np.abs(np.diff(np.abs(value[:, 0:resolution_limit]), axis=axis))
+                    target = np.abs(np.diff(value[:, 0:resolution_limit], axis=axis))
                 elif axis == 1:
-                    target = np.abs(np.diff(np.abs(value[0:resolution_limit, :]), axis=axis))
+                    target = np.abs(np.diff(value[0:resolution_limit, :], axis=axis))
                 else:
                     raise NotImplementedError(axis)
-            ret = np.mean(target)
+            # There is no resolution along a dimension with a single element.
+            ret = np.mean(target) if target.size > 0 else 0.0
             return ret
 
     def create_dimension_map(self, group_metadata, strict=False):
-- 
2.43.0


From 21ded9d9c40d9bf64004d3a7be1056865fadb14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:33 +0000
Subject: [PATCH 45/54] fix: the resolutions of distributed grids in a grid
 chunker are the same on all ranks

---
 src/ocgis/spatial/grid_chunker.py | 32 +++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/spatial/grid_chunker.py b/src/ocgis/spatial/grid_chunker.py
index 5c08f8f..9763113 100644
--- a/src/ocgis/spatial/grid_chunker.py
+++ b/src/ocgis/spatial/grid_chunker.py
@@ -188,11 +188,11 @@ class GridChunker(AbstractOcgisObject):
         if self._buffer_value is None:
             try:
                 if self.dst_grid_resolution is None:
-                    dst_grid_resolution = self.dst_grid.resolution_max
+                    dst_grid_resolution = get_resolution_max(self.dst_grid)
                 else:
                     dst_grid_resolution = self.dst_grid_resolution
                 if self.src_grid_resolution is None:
-                    src_grid_resolution = self.src_grid.resolution_max
+                    src_grid_resolution = get_resolution_max(self.src_grid)
                 else:
                     src_grid_resolution = self.src_grid_resolution
 
@@ -256,8 +256,8 @@ class GridChunker(AbstractOcgisObject):
         """
         if self._optimized_bbox_subset == 'auto':
             if (self.src_grid_resolution is not None and self.dst_grid_resolution is not None) or (
-                    self.src_grid.resolution_max is not None or self.src_grid_resolution is not None) and (
-                    self.dst_grid.resolution_max is not None or self.dst_grid_resolution is not None):
+                    get_resolution_max(self.src_grid) is not None or self.src_grid_resolution is not None) and (
+                    get_resolution_max(self.dst_grid) is not None or self.dst_grid_resolution is not None):
                 ret = True
             else:
                 ret = False
@@ -955,6 +955,30 @@ def get_file_path(rd):
     return rd.uri
 
 
+def get_resolution_max(grid):
+    """
+    Get the grid's maximum resolution. The grid may be empty or have a single element along a dimension on some ranks.
+    Collective across the current VM.
+    """
+    not_implemented = None
+    resolution = None
+    if vm.size == 1 or not grid.is_empty:
+        try:
+            resolution = grid.resolution_max
+        except NotImplementedError as e:
+            not_implemented = e
+    if vm.size > 1:
+        gathered = vm.bcast(vm.gather((resolution, not_implemented)))
+        for _, e in gathered:
+            if e is not None:
+                raise e
+        resolution = [r for r, _ in gathered if r is not None]
+        resolution = max(resolution) if len(resolution) > 0 else None
+    elif not_implemented is not None:
+        raise not_implemented
+    return resolution
+
+
 def global_grid_shape(grid):
     with vm.scoped_by_emptyable('global grid shape', grid):
         if not vm.is_null:
-- 
2.43.0


From eb9ebc3879076931ef23ac85a0f6aedf75881458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:42 +0000
Subject: [PATCH 46/54] fix: creating a grid chunker leaves its arguments and
 the default paths alone

---
 src/ocgis/spatial/grid_chunker.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ocgis/spatial/grid_chunker.py b/src/ocgis/spatial/grid_chunker.py
index 9763113..2aec042 100644
--- a/src/ocgis/spatial/grid_chunker.py
+++ b/src/ocgis/spatial/grid_chunker.py
@@ -124,8 +124,9 @@ class GridChunker(AbstractOcgisObject):
 
         if esmf_kwargs is None:
             esmf_kwargs = {}
+        # The arguments are left alone.
+        esmf_kwargs = esmf_kwargs.copy()
         if self.genweights:
-            esmf_kwargs = esmf_kwargs.copy()
             from ocgis.regrid.base import update_esmf_kwargs
             update_esmf_kwargs(esmf_kwargs)
         self.esmf_kwargs = esmf_kwargs
@@ -151,11 +152,11 @@ class GridChunker(AbstractOcgisObject):
         # Construct default paths if None are provided.
         defaults = constants.GridChunkerConstants.DEFAULT_PATHS
         if paths is None:
-            paths = defaults
-        else:
-            for k, v in defaults.items():
-                if k not in paths:
-                    paths[k] = v
+            paths = {}
+        paths = paths.copy()
+        for k, v in defaults.items():
+            if k not in paths:
+                paths[k] = v
         if 'wd' not in paths:
             paths['wd'] = os.getcwd()
         self.paths = paths
-- 
2.43.0


From c3e8c791ec98be255471222bef268c63a29d2409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:44 +0000
Subject: [PATCH 47/54] fix: missing values are inserted as missing values of
 the destination

---
 src/ocgis/spatial/grid_chunker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/spatial/grid_chunker.py b/src/ocgis/spatial/grid_chunker.py
index 2aec042..3a219b5 100644
--- a/src/ocgis/spatial/grid_chunker.py
+++ b/src/ocgis/spatial/grid_chunker.py
@@ -447,7 +447,7 @@ class GridChunker(AbstractOcgisObject):
                         assert not source_data.has_allocated_value
                         with nc.Dataset(dst_master_path, 'a') as ds:
                             ds.variables[data_variable.name][time_index, y_bounds[vidx][0]:y_bounds[vidx][1],
-                            x_bounds[vidx][0]:x_bounds[vidx][1]] = source_data.get_value()
+                            x_bounds[vidx][0]:x_bounds[vidx][1]] = source_data.get_masked_value()
             elif data_variable.ndim == 2:
                 for vidx, source_path in enumerate(joined):
                     source_path = os.path.join(dst_wd, source_path)
@@ -455,7 +455,7 @@ class GridChunker(AbstractOcgisObject):
                     assert not source_data.has_allocated_value
                     with nc.Dataset(dst_master_path, 'a') as ds:
                         ds.variables[data_variable.name][y_bounds[vidx][0]:y_bounds[vidx][1],
-                        x_bounds[vidx][0]:x_bounds[vidx][1]] = source_data.get_value()
+                        x_bounds[vidx][0]:x_bounds[vidx][1]] = source_data.get_masked_value()
             else:
                 raise NotImplementedError(data_variable.ndim)
 
-- 
2.43.0


From 612d1c394970de07e5b6e92a039b3b3857298a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:14 +0000
Subject: [PATCH 48/54] fix: asking a dimension map for a missing topology no
 longer adds an empty entry

---
 src/ocgis/driver/dimension_map.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index f64903a..2c8d442 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -274,7 +274,9 @@ class DimensionMap(AbstractOcgisObject):
 
         if ret is not None:
             ret = self._storage[DMK.TOPOLOGY].get(topology, default)
-            self._storage[DMK.TOPOLOGY][topology] = ret
+            # A topology which does not exist is not added by asking for it.
+            if ret is not None:
+                self._storage[DMK.TOPOLOGY][topology] = ret
 
         # if ret is None:
         #     ret = GridAbstraction.AUTO
-- 
2.43.0


From bcf266730a728228edb5559c750e6b0d6dc25099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:14 +0000
Subject: [PATCH 49/54] fix: node indices with a start index of one are neither
 changed in place nor shifted at breaks, two-dimensional ESMF connectivity is
 readable

---
 src/ocgis/spatial/geomc.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index 408aa80..6b91aac 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -376,7 +376,11 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
                 if cindex is not None:
                     ec_idx = get_element_node_connectivity_by_index(cindex, idx)
                     if start_index > 0:
-                        ec_idx -= start_index
+                        # The connectivity may be a view of the variable's value. There are no nodes for breaks.
+                        shifted = ec_idx - start_index
+                        if has_multi:
+                            shifted = np.where(ec_idx == mbv, ec_idx, shifted)
+                        ec_idx = shifted
                 else:
                     ec_idx = idx
 
@@ -747,12 +751,15 @@ class PolygonGC(AbstractGeometryCoordinates):
         # ESMF unstructured uses counts...
         if self.dimension_map.get_driver() == DriverKey.NETCDF_ESMF_UNSTRUCT:
             num_element_conn_value = self.parent['numElementConn'].get_value()
-            if idx == 0:
-                start = 0
+            if element_connectivity.ndim == 2:
+                ret = element_connectivity[idx, 0:num_element_conn_value[idx]]
             else:
-                start = num_element_conn_value[0:idx].sum()
-            stop = num_element_conn_value[0:idx + 1].sum()
-            ret = element_connectivity[start:stop]
+                if idx == 0:
+                    start = 0
+                else:
+                    start = num_element_conn_value[0:idx].sum()
+                stop = num_element_conn_value[0:idx + 1].sum()
+                ret = element_connectivity[start:stop]
         else:
             ret = element_connectivity[idx, ...].flatten()
             if element_connectivity.dtype == object:
-- 
2.43.0


From be966f4b6a13a403ae7b0569c5693117fefc4b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:14 +0000
Subject: [PATCH 50/54] fix: conversion detects multi-part geometries of any
 record and of any rank

---
 src/ocgis/variable/geom.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 012f3ee..3e3524f 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -483,6 +483,10 @@ class GeometryVariable(AbstractSpatialVariable):
                         geom = to_transform.get_value()[0]
 
                     if geom.geom_type in polygon_types:
+                        # The type of some formats covers single and multi-geometries.
+                        if geom.geom_type.startswith('Multi'):
+                            is_multi = True
+
                         # Identify and remove self-intersections if requested. These can create virtual holes/interiors
                         # in polygon objects leading to issues with splitting for node reduction and hole removal.
                         if remove_self_intersects:
@@ -584,7 +588,9 @@ class GeometryVariable(AbstractSpatialVariable):
                 element_index = Variable(name=element_index_name, value=element_index, dimensions=element_index_dims,
                                          dtype=ocgis_dtype, attrs={AttributeName.START_INDEX: start_index})
 
-                # Indicate there are multi-geometries in the coordinates objects.
+                # Indicate there are multi-geometries in the coordinates objects. They may be on other ranks only.
+                if vm.size > 1:
+                    is_multi = any(vm.bcast(vm.gather(is_multi)))
                 if is_multi:
                     element_index.attrs[name_mbv] = multi_break_value
                 else:
-- 
2.43.0


From 6aff3fa4913eeed1c66fff4dded5e2478a56390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:14 +0000
Subject: [PATCH 51/54] fix: unstructured files written on several ranks have
 indices into the global nodes, whatever the start index

---
 src/ocgis/driver/base.py             | 32 ++++++++++++++++++++++++++
 src/ocgis/driver/nc_esmf_unstruct.py | 34 ++++------------------------
 src/ocgis/driver/nc_ugrid.py         | 13 ++++++++++-
 3 files changed, 48 insertions(+), 31 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index ea21604..8e340f8 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -993,6 +993,38 @@ class AbstractUnstructuredDriver(AbstractOcgisObject):
         mbv_name = OcgisConvention.Name.MULTI_BREAK_VALUE
         return cindex.attrs.get(mbv_name)
 
+    @staticmethod
+    def get_global_cindex_value(gc):
+        """
+        Get the element node connectivity with indices into the global node dimension as required by files. The indices
+        of an object may refer to the nodes of the current rank. Collective across the current VM.
+
+        :param gc: The object with the connectivity.
+        :type gc: :class:`~ocgis.spatial.geomc.AbstractGeometryCoordinates` | :class:`~ocgis.spatial.grid.GridUnstruct`
+        :rtype: :class:`numpy.ndarray`
+        """
+        ret = gc.cindex.get_value()
+        if vm.size > 1:
+            node_dim = gc.node_dim
+            is_local = node_dim.dist
+            if is_local:
+                # If there is an index outside of the rank's nodes, the indices are global. The largest index of a rank
+                # refers to its last node.
+                compressed = gc.cindex.get_masked_value().compressed()
+                highest = max([np.max(ii) for ii in compressed]) - gc.start_index
+                is_local = highest < len(node_dim)
+            if all(vm.bcast(vm.gather(is_local))):
+                adjust = node_dim.bounds_local[0]
+                if ret.dtype == object:
+                    adjusted = np.empty_like(ret)
+                    for idx, ii in np.ndenumerate(ret):
+                        # Breaks in multi-geometries are negative.
+                        adjusted[idx] = np.where(ii < 0, ii, ii + adjust)
+                else:
+                    adjusted = np.where(ret < 0, ret, ret + adjust)
+                ret = adjusted
+        return ret
+
 
 @contextmanager
 def driver_scope(ocgis_driver, opened_or_path=None, mode='r', **kwargs):
diff --git a/src/ocgis/driver/nc_esmf_unstruct.py b/src/ocgis/driver/nc_esmf_unstruct.py
index df37323..8eeebd9 100644
--- a/src/ocgis/driver/nc_esmf_unstruct.py
+++ b/src/ocgis/driver/nc_esmf_unstruct.py
@@ -1,7 +1,7 @@
 import numpy as np
 
-from ocgis import vm, env
-from ocgis.constants import DriverKey, CFName, OcgisConvention, Topology, DMK, MPITag, DecompositionType, AttributeName
+from ocgis import env
+from ocgis.constants import DriverKey, CFName, OcgisConvention, Topology, DMK, DecompositionType, AttributeName
 from ocgis.driver.base import AbstractUnstructuredDriver
 from ocgis.driver.nc import AbstractDriverNetcdfCF
 from ocgis.variable.base import Variable, VariableCollection
@@ -112,41 +112,15 @@ class DriverESMFUnstruct(AbstractUnstructuredDriver, AbstractDriverNetcdfCF):
         # Transform ragged array to one-dimensional array. #############################################################
 
         cindex = grid.cindex
-        elements = cindex.get_value()
+        elements = AbstractUnstructuredDriver.get_global_cindex_value(grid)
         num_element_conn_data = [e.shape[0] for e in elements.flat]
         length_connection_count = sum(num_element_conn_data)
         esmf_element_conn = np.zeros(length_connection_count, dtype=elements[0].dtype)
         start = 0
 
-        tag_start_index = MPITag.START_INDEX
-
-        # Collapse the ragged element index array into a single dimensioned vector. This communication block finds the
-        # size for the new array. ######################################################################################
-
-        if vm.size > 1:
-            max_index = max([ii.max() for ii in elements.flat])
-            if vm.rank == 0:
-                vm.comm.isend(max_index + 1, dest=1, tag=tag_start_index)
-                adjust = 0
-            else:
-                adjust = vm.comm.irecv(source=vm.rank - 1, tag=tag_start_index)
-                adjust = adjust.wait()
-                if vm.rank != vm.size - 1:
-                    vm.comm.isend(max_index + 1 + adjust, dest=vm.rank + 1, tag=tag_start_index)
-
-        # Fill the new vector for the element connectivity. ############################################################
+        # Collapse the ragged element index array into a single dimensioned vector using indices into the global nodes. ##
 
         for ii in elements.flat:
-            if vm.size > 1:
-                if grid.archetype.has_multi:
-                    mbv = cindex.attrs[OcgisConvention.Name.MULTI_BREAK_VALUE]
-                    replace_breaks = np.where(ii == mbv)[0]
-                else:
-                    replace_breaks = []
-                ii = ii + adjust
-                if len(replace_breaks) > 0:
-                    ii[replace_breaks] = mbv
-
             esmf_element_conn[start: start + ii.shape[0]] = ii
             start += ii.shape[0]
 
diff --git a/src/ocgis/driver/nc_ugrid.py b/src/ocgis/driver/nc_ugrid.py
index 408a980..eaaf928 100644
--- a/src/ocgis/driver/nc_ugrid.py
+++ b/src/ocgis/driver/nc_ugrid.py
@@ -1,4 +1,4 @@
-from ocgis import Variable, constants
+from ocgis import Variable, constants, vm
 from ocgis.constants import DriverKey, DMK, VariableName, Topology, KeywordArgument, DecompositionType
 from ocgis.driver.base import AbstractUnstructuredDriver
 from ocgis.driver.nc import DriverNetcdfCF
@@ -129,6 +129,17 @@ class DriverNetcdfUGRID(AbstractUnstructuredDriver, DriverNetcdfCF):
             field.dimension_map.set_variable(DMK.ATTRIBUTE_HOST, attr_host)
             field.add_variable(attr_host)
 
+        # The file has global indices.
+        if vm.size > 1 and Topology.POLYGON in field.dimension_map.get_available_topologies():
+            polygon_gc = field.grid.abstractions_available[Topology.POLYGON]
+            if polygon_gc.cindex is not None:
+                cindex_value = cls.get_global_cindex_value(polygon_gc)
+                if cindex_value is not polygon_gc.cindex.get_value():
+                    field = field.copy()
+                    cindex = field[polygon_gc.cindex.name].copy()
+                    cindex.set_value(cindex_value)
+                    field.add_variable(cindex, force=True)
+
         return field
 
 
-- 
2.43.0


From 84d993edb8dfe37d9a1994074855209cdc7d6efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:55 +0000
Subject: [PATCH 52/54] fix: reducing the nodes of a mesh keeps the start index
 and handles ranks without nodes of their own

---
 src/ocgis/spatial/geomc.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index 6b91aac..49a39a6 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -660,11 +660,20 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
         new_cindex, uidx = reduce_reindex_coordinate_index(self.cindex, start_index=self.start_index)
         ocgis_lh(msg='finished reduce_reindex_coordinate_index', logger='geomc', level=logging.DEBUG)
 
-        new_cindex = Variable(name=self.cindex.name, value=new_cindex, dimensions=self.cindex.dimensions)
+        new_attrs = self.cindex.attrs.copy()
+        new_attrs[AttributeName.START_INDEX] = self.start_index
+        new_cindex = Variable(name=self.cindex.name, value=new_cindex, dimensions=self.cindex.dimensions, attrs=new_attrs)
+
+        # All nodes of a rank may be in use by other ranks. The nodes are shared evenly in this case.
+        if vm.size > 1:
+            uidx_global = vm.bcast(vm.gather(uidx))
+            if any([len(ii) == 0 for ii in uidx_global]):
+                uidx_global = np.concatenate([ii for ii in uidx_global if len(ii) > 0])
+                uidx = np.array_split(uidx_global, vm.size)[vm.rank]
 
         ret = self.copy()
         if self.start_index == 1:
-            uidx -= 1
+            uidx = uidx - 1
         new_parent = self.x[uidx].parent
 
         cdim = new_parent[self.x.name].dimensions[0]
-- 
2.43.0


From fc1620453a824f8413a18ba50b8f2392f6ac539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:26 +0000
Subject: [PATCH 53/54] fix: variables in nested groups could not be read,
 their metadata was looked up without the group's parents

---
 src/ocgis/driver/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 8e340f8..b2d8879 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -349,10 +349,11 @@ class AbstractDriver(AbstractOcgisObject):
             group_metadata = self.rd.metadata
 
         field = Field(name=name, source_name=source_name, uid=uid, attrs=group_metadata.get('global_attributes'))
-        for var in self.create_variables(group_metadata, parent=field).values():
-            field.add_variable(var, force=True)
+        # Variables find their metadata through the group hierarchy.
         if parent is not None:
             parent.add_child(field)
+        for var in self.create_variables(group_metadata, parent=field).values():
+            field.add_variable(var, force=True)
         for k, v in group_metadata.get('groups', {}).items():
             _ = self.create_raw_field(v, name=k, parent=field, group_name=k)
         return field
-- 
2.43.0


From ef4ee155afb18b35d0843b5a914069fa251e22d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:05 +0000
Subject: [PATCH 54/54] fix: selection geometries were written once for every
 dataset

---
 src/ocgis/conv/base.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/conv/base.py b/src/ocgis/conv/base.py
index a8125db..6eaad80 100644
--- a/src/ocgis/conv/base.py
+++ b/src/ocgis/conv/base.py
@@ -1,5 +1,6 @@
 import abc
 import csv
+import itertools
 import logging
 from pprint import pformat
 
@@ -121,6 +122,9 @@ class AbstractCollectionConverter(AbstractFileConverter):
         self.add_meta = kwargs.pop('add_meta', True)
         self.add_auxiliary_files = kwargs.pop('add_auxiliary_files', True)
 
+        # Identifiers of the user geometries written by any rank.
+        self._ugids_written = set()
+
         super(AbstractCollectionConverter, self).__init__(**kwargs)
 
     def __iter__(self):
@@ -178,7 +182,10 @@ class AbstractCollectionConverter(AbstractFileConverter):
                         ugeom_fiona_path = os.path.join(self._get_or_create_shp_folder_(), ugid_shp_name)
                     else:
                         ugeom_fiona_path = os.path.join(self.outdir, ugid_shp_name)
-                    for subset_field in list(coll.children.values()):
+                    for ugid, subset_field in list(coll.children.items()):
+                        if ugid in self._ugids_written:
+                            # There is a collection for each dataset and geometry.
+                            continue
                         subset_field.write(ugeom_fiona_path, write_mode=write_mode, driver=DriverVector)
 
     def _get_or_create_shp_folder_(self):
@@ -202,6 +209,7 @@ class AbstractCollectionConverter(AbstractFileConverter):
 
         # The count of collections written by any rank.
         i = 0
+        self._ugids_written = set()
         colls = iter(self.colls)
         try:
             while True:
@@ -230,6 +238,10 @@ class AbstractCollectionConverter(AbstractFileConverter):
                         exc = e
                 with vm.scoped_by_name(original_comm_name):
                     _get_write_state_(True, should_write, exc)
+                    if self._add_ugeom:
+                        # Ranks with data may be different for the other datasets.
+                        ugids = vm.bcast(vm.gather(list(coll.children.keys()) if should_write else []))
+                        self._ugids_written.update(itertools.chain(*ugids))
                 if should_write_global:
                     i += 1
         finally:
-- 
2.43.0

