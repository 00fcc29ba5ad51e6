From 2b3022e81213cade218fea9074ace923681c6496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 01/34] fix: do not access empty event arrays in in1d_sorted
 and getEventsInBothArrays

---
 beam_telescope_analysis/cpp/AnalysisFunctions.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/cpp/AnalysisFunctions.h b/beam_telescope_analysis/cpp/AnalysisFunctions.h
index 55ef771..a26c643 100644
--- a/beam_telescope_analysis/cpp/AnalysisFunctions.h
+++ b/beam_telescope_analysis/cpp/AnalysisFunctions.h
@@ -32,7 +32,7 @@ unsigned int getEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int&
 				break;
 			}
 		}
-		if (rEventArrayTwo[tActualIndex] == tActualEventNumber) {
+		if (tActualIndex < rSizeArrayTwo && rEventArrayTwo[tActualIndex] == tActualEventNumber) {
 			rEventArrayIntersection[tActualResultIndex] = tActualEventNumber;
 			tActualResultIndex++;
 		}
@@ -126,7 +126,6 @@ unsigned int getMaxEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned i
 // Does the same as np.in1d but uses the fact that the arrays are sorted
 void in1d_sorted(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, int64_t*& rEventArrayTwo, const unsigned int& rSizeArrayTwo, uint8_t*& rSelection)
 {
-	rSelection[0] = true;
 	int64_t tActualEventNumber = -1;
 	unsigned int tActualIndex = 0;
 	for (unsigned int i = 0; i < rSizeArrayOne; ++i) {  // loop over all event numbers in first array
@@ -137,7 +136,7 @@ void in1d_sorted(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, in
 				break;
 			}
 		}
-		if (rEventArrayTwo[tActualIndex] == tActualEventNumber)
+		if (tActualIndex < rSizeArrayTwo && rEventArrayTwo[tActualIndex] == tActualEventNumber)
 			rSelection[i] = 1;
 		else
 			rSelection[i] = 0;
-- 
2.43.0


From c45aa5991419d644a7bf66921d5a761084ef47a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 02/34] fix: merge with an empty event array in
 getMaxEventsInBothArrays

---
 beam_telescope_analysis/cpp/AnalysisFunctions.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/beam_telescope_analysis/cpp/AnalysisFunctions.h b/beam_telescope_analysis/cpp/AnalysisFunctions.h
index a26c643..a773571 100644
--- a/beam_telescope_analysis/cpp/AnalysisFunctions.h
+++ b/beam_telescope_analysis/cpp/AnalysisFunctions.h
@@ -43,6 +43,16 @@ unsigned int getEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int&
 // Takes two event number arrays and returns a event number array with the maximum occurrence of each event number in array one and two
 unsigned int getMaxEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, int64_t*& rEventArrayTwo, const unsigned int& rSizeArrayTwo, int64_t*& result, const unsigned int& rSizeArrayResult)
 {
+	if (rSizeArrayOne == 0 || rSizeArrayTwo == 0) {  // nothing to merge, the result is the other array
+		unsigned int tSize = 0;
+		for (unsigned int k = 0; k < rSizeArrayOne + rSizeArrayTwo; ++k) {
+			if (tSize >= rSizeArrayResult)
+				throw std::out_of_range("The result histogram is too small. Increase size.");
+			result[tSize++] = (rSizeArrayOne == 0) ? rEventArrayTwo[k] : rEventArrayOne[k];
+		}
+		return tSize;
+	}
+
 	int64_t tFirstActualEventNumber = rEventArrayOne[0];
 	int64_t tSecondActualEventNumber = rEventArrayTwo[0];
 	int64_t tFirstLastEventNumber = rEventArrayOne[rSizeArrayOne - 1];
-- 
2.43.0


From c870b3bdf640b803432248576466052d3e556ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 03/34] fix: reject histogram indices that do not fit into 32
 bit instead of wrapping them

---
 .../tools/analysis_utils.py                   | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 997388a..aac3f1b 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -308,6 +308,16 @@ def get_events_in_both_arrays(events_one, events_two):
     return event_result[:count]
 
 
+def _as_index(x):
+    """
+    Contiguous 32-bit indices for the C++ library. An index that does not fit is out of range of every histogram.
+
+    """
+    if np.any(x < 0) or np.any(x > 2147483647):
+        raise IndexError('The histogram index is out of range.')
+    return np.ascontiguousarray(x.astype(np.int32))  # change memory alignment for c++ library
+
+
 def hist_1d_index(x, shape):
     """
     Fast 1d histogram of 1D indices with C++ inner loop optimization.
@@ -328,8 +338,7 @@ def hist_1d_index(x, shape):
     if len(shape) != 1:
         raise NotImplementedError('The shape has to describe a 1-d histogram')
 
-    # change memory alignment for c++ library
-    x = np.ascontiguousarray(x.astype(np.int32))
+    x = _as_index(x)
     result = np.zeros(shape=shape, dtype=np.uint32)
     analysis_functions.hist_1d(x, shape[0], result)
     return result
@@ -358,9 +367,8 @@ def hist_2d_index(x, y, shape):
     if x.shape != y.shape:
         raise ValueError('The dimensions in x / y have to match')
 
-    # change memory alignment for c++ library
-    x = np.ascontiguousarray(x.astype(np.int32))
-    y = np.ascontiguousarray(y.astype(np.int32))
+    x = _as_index(x)
+    y = _as_index(y)
     result = np.zeros(shape=shape, dtype=np.uint32).ravel()  # ravel hist in c-style, 3D --> 1D
     analysis_functions.hist_2d(x, y, shape[0], shape[1], result)
     return np.reshape(result, shape)  # rebuilt 3D hist from 1D hist
@@ -390,10 +398,9 @@ def hist_3d_index(x, y, z, shape):
     if x.shape != y.shape or x.shape != z.shape:
         raise ValueError('The dimensions in x / y / z have to match')
 
-    # change memory alignment for c++ library
-    x = np.ascontiguousarray(x.astype(np.int32))
-    y = np.ascontiguousarray(y.astype(np.int32))
-    z = np.ascontiguousarray(z.astype(np.int32))
+    x = _as_index(x)
+    y = _as_index(y)
+    z = _as_index(z)
     result = np.zeros(shape=shape, dtype=np.uint16).ravel()  # ravel hist in c-style, 3D --> 1D
     analysis_functions.hist_3d(x, y, z, shape[0], shape[1], shape[2], result)
     return np.reshape(result, shape)  # rebuilt 3D hist from 1D hist
-- 
2.43.0


From 60140db5ccf3e042908cc449ad307033148b3933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:08 +0000
Subject: [PATCH 04/34] fix: event range selection with event number 0, a start
 after the last event and open ranges

---
 beam_telescope_analysis/tools/analysis_utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index aac3f1b..84a3b2f 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -423,8 +423,8 @@ def get_data_in_event_range(array, event_start=None, event_stop=None, assume_sor
         hit array with the hits in the event range.
     '''
     event_number = array['event_number']
-    if not np.any(event_number):  # No events in selection
-        return np.array([])
+    if event_number.shape[0] == 0:  # No events in selection
+        return array[0:0]
     if assume_sorted:
         data_event_start = event_number[0]
         data_event_stop = event_number[-1]
@@ -437,6 +437,8 @@ def get_data_in_event_range(array, event_start=None, event_stop=None, assume_sor
         else:
             if event_number[0] > event_start:
                 min_index_data = 0
+            elif event_number[-1] < event_start:
+                min_index_data = event_number.shape[0]
             else:
                 min_index_data = np.argmin(event_number < event_start)
 
@@ -452,6 +454,12 @@ def get_data_in_event_range(array, event_start=None, event_stop=None, assume_sor
             min_index_data = 0
         return array[min_index_data:max_index_data]
     else:
+        if event_start is None and event_stop is None:
+            return array
+        if event_start is None:
+            return array[event_number < event_stop]
+        if event_stop is None:
+            return array[event_number >= event_start]
         return array[ne.evaluate('(event_number >= event_start) & (event_number < event_stop)')]
 
 
-- 
2.43.0


From 073cea73486f3e53589147e906349ef3f90b2d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:24 +0000
Subject: [PATCH 05/34] fix: data_aligned_at_events with try_speedup lost the
 event in front of the stop event

---
 beam_telescope_analysis/tools/analysis_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 84a3b2f..719e9cc 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -537,8 +537,9 @@ def data_aligned_at_events(table, start_event_number=None, stop_event_number=Non
             if stop_indices.shape[0] != 0:  # set the stop index if possible, stop index is excluded
                 stop_index = stop_indices[0]
                 stop_index_known = True
+                table_max_rows = stop_index  # the event in front of the stop event is not divided
 
-    if start_index_known and stop_index_known and start_index + chunk_size >= stop_index:  # special case, one read is enough, data not bigger than one chunk and the indices are known
+    if start_index_known and stop_index_known and start_index < stop_index and start_index + chunk_size >= stop_index:  # special case, one read is enough, data not bigger than one chunk and the indices are known
         yield table.read(start=start_index, stop=stop_index), stop_index
     else:  # read data in chunks, chunks do not divide events, abort if stop_event_number is reached
 
-- 
2.43.0


From ef921f7112881156c5cfaf52094b54981c237e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:20 +0000
Subject: [PATCH 06/34] fix: max_events selection divided by zero when all
 events were stored before the last chunk

---
 beam_telescope_analysis/tools/data_selection.py | 4 ++++
 beam_telescope_analysis/track_analysis.py       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 8305787..eca80ff 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -159,6 +159,8 @@ def reduce_events(input_file, max_events, output_file=None, chunk_size=1000000):
                         select_n_events = max_events - total_n_events_stored
                     elif total_n_events_stored == 0:  # first chunk
                         select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
+                    elif total_n_events_stored == max_events:  # already enough events
+                        select_n_events = 0
                     else:
                         # calculate correction of number of selected events
                         correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
@@ -441,6 +443,8 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
                             select_n_events = max_events - total_n_events_stored
                         elif total_n_events_stored == 0:  # first chunk
                             select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
+                        elif total_n_events_stored == max_events:  # already enough events
+                            select_n_events = 0
                         else:
                             # calculate correction of number of selected events
                             correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 6fd1a04..654a5e3 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -213,6 +213,8 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                         select_n_events = max_events - total_n_events_stored
                     elif total_n_events_stored == 0:  # first chunk
                         select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
+                    elif total_n_events_stored == max_events:  # already enough events
+                        select_n_events = 0
                     else:
                         # calculate correction of number of selected events
                         correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
@@ -895,6 +897,8 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
                             select_n_events = max_events - total_n_events_stored
                         elif total_n_events_stored == 0:  # first chunk
                             select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
+                        elif total_n_events_stored == max_events:  # already enough events
+                            select_n_events = 0
                         else:
                             # calculate correction of number of selected events
                             correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
-- 
2.43.0


From ef7663fb8f04940edcac65c8bc0d711b67b6551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:20 +0000
Subject: [PATCH 07/34] fix: find_tracks sorted hit columns of DUT 10 and above
 twice (dut_1 matched dut_10)

---
 beam_telescope_analysis/track_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 654a5e3..4f8bc3e 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -289,7 +289,7 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                 # copy the columns to the result array
                 for dut_index in range(n_duts):
                     for column_name in tracklets_data_chunk.dtype.names:
-                        if 'dut_%d' % dut_index in column_name:
+                        if column_name.endswith('_dut_%d' % dut_index):
                             tracklets_data_chunk[column_name] = tracklets_data_chunk[column_name][indices[:, dut_index]]
                 # calculate new hit flags
                 for dut_index in range(n_duts):
-- 
2.43.0


From dd4557f49e82d1a3997bdb42344b92e1bfca0585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:04 +0000
Subject: [PATCH 08/34] fix: find_tracks with an empty
 select_extrapolation_duts list

---
 beam_telescope_analysis/track_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 4f8bc3e..a24087f 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -9,7 +9,7 @@ from collections.abc import Iterable
 
 import tables as tb
 import numpy as np
-from numba import njit
+from numba import njit, int64
 from numba.typed import List
 from scipy.stats import gaussian_kde
 from scipy.stats import chi2
@@ -75,7 +75,7 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
         raise ValueError("Invalid value for select_extrapolation_duts")
 
     # Create typed list for numba (see http://numba.pydata.org/numba-doc/latest/reference/deprecation.html#deprecation-of-reflection-for-list-and-set-types)
-    typed_select_extrapolation_duts = List()
+    typed_select_extrapolation_duts = List.empty_list(int64)
     [typed_select_extrapolation_duts.append(x) for x in select_extrapolation_duts]
     select_extrapolation_duts = typed_select_extrapolation_duts
 
-- 
2.43.0


From 5992ebdd18ba85de298a62d01ad2a9272998982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:10 +0000
Subject: [PATCH 09/34] fix: line parallel to the plane raised an error instead
 of giving nan intersections

---
 .../tools/geometry_utils.py                   | 1035 ++++++++---------
 1 file changed, 517 insertions(+), 518 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index b2f4ce4..1aebce3 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -1,518 +1,517 @@
-''' Helper functions for geometrical operations.
-'''
-from __future__ import division
-
-import logging
-
-import numpy as np
-
-
-def skew(v):
-    matr = np.zeros(np.prod(np.r_[v.shape, 3]))
-    matr[::9] = v.flatten()[::3]
-    matr[4::9] = v.flatten()[1::3]
-    matr[8::9] = v.flatten()[2::3]
-    matr = matr.reshape(np.r_[v.shape, 3])
-
-    if len(v.shape) == 1:
-        matr_skv = np.roll(np.roll(matr, 1, 1), -1, 0)
-        return matr_skv - matr_skv.T
-    else:
-        matr_skv = np.roll(np.roll(matr, 1, 2), -1, 1)
-        return matr_skv - matr_skv.transpose((0, 2, 1))
-
-
-def get_plane_normal(direction_vector_1, direction_vector_2):
-    ''' Normal vector of a plane.
-
-    Plane is define by two non parallel direction vectors within the plane.
-
-    Parameters
-    ----------
-    direction_vector_1 : array
-        Array with x, y and z.
-    direction_vector_2 : array
-        Array with x, y and z.
-
-    Returns
-    -------
-    Array with x, y and z.
-    '''
-    return np.cross(direction_vector_1, direction_vector_2)
-
-
-def get_line_intersections_with_dut(line_origins, line_directions, translation_x, translation_y, translation_z, rotation_alpha, rotation_beta, rotation_gamma):
-    ''' Calculates the intersection of lines with a DUT.
-
-    If there is no intersection point (line is parallel to plane or the line is
-    in the plane) the intersection point is set to nan.
-
-    Notes
-    -----
-    Further information:
-    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
-
-    Parameters
-    ----------
-    line_origins : array
-        A point (x, y and z) on the line for each of the n lines.
-    line_directions : array
-        The direction vector of the line for n lines.
-    translation_x, translation_y, translation_z : float
-        The coordianates of the DUT (in um).
-    rotation_alpha, rotation_beta, rotation_gamma : float
-        The rotation angles of the DUT (in radians).
-
-    Returns
-    -------
-    Array with shape (n, 3) with the intersection point.
-    '''
-    dut_position = np.array([
-        translation_x,
-        translation_y,
-        translation_z],
-        dtype=np.float64)
-    dut_rotation_matrix = rotation_matrix(
-        alpha=rotation_alpha,
-        beta=rotation_beta,
-        gamma=rotation_gamma)
-    basis_global = dut_rotation_matrix.T.dot(np.eye(3, dtype=np.float64))
-    dut_normal = basis_global[2]
-    dut_normal /= np.sqrt(np.dot(dut_normal, dut_normal))
-    if dut_normal[2] < 0:
-        dut_normal = -dut_normal
-    return get_line_intersections_with_plane(
-        line_origins=line_origins,
-        line_directions=line_directions,
-        position_plane=dut_position,
-        normal_plane=dut_normal)
-
-
-def get_line_intersections_with_plane(line_origins, line_directions, position_plane, normal_plane):
-    ''' Calculates the intersection of n lines with one plane.
-
-    If there is no intersection point (line is parallel to plane or the line is
-    in the plane) the intersection point is set to nan.
-
-    Notes
-    -----
-    Further information:
-    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
-
-    Parameters
-    ----------
-    line_origins : array
-        A point (x, y and z) on the line for each of the n lines.
-    line_directions : array
-        The direction vector of the line for n lines.
-    position_plane : array
-        A array (x, y and z) to the plane.
-    normal_plane : array
-        The normal vector (x, y and z) of the plane.
-
-    Returns
-    -------
-    Array with shape (n, 3) with the intersection point.
-    '''
-    # Calculate offsets and extend in missing dimension
-    offsets = position_plane[np.newaxis, :] - line_origins
-
-    # Precalculate to be able to avoid division by 0
-    # (line is parallel to the plane or in the plane)
-    norm_dot_off = np.dot(normal_plane, offsets.T)
-    # Dot product is transformed to be at least 1D for special n = 1
-    norm_dot_dir = np.atleast_1d(np.dot(normal_plane,
-                                        line_directions.T))
-
-    # Initialize result to nan
-    t = np.full_like(norm_dot_off, fill_value=np.nan, dtype=np.float64)
-
-    # Warn if some intersection cannot be calculated
-    if np.any(norm_dot_dir == 0):
-        raise
-        logging.warning('Some line plane intersection could not be calculated')
-
-    # Calculate t scalar for each line simultaniously, avoid division by 0
-    sel = norm_dot_dir != 0
-    t[sel] = norm_dot_off[sel] / norm_dot_dir[sel]
-
-    # Calculate the intersections for each line with the plane
-    intersections = line_origins + line_directions * t[:, np.newaxis]
-
-    return intersections
-
-
-def cartesian_to_spherical(x, y, z):
-    ''' Does a transformation from cartesian to spherical coordinates.
-
-    Convention: r = 0 --> phi = theta = 0
-
-    Parameters
-    ----------
-    x, y, z : float
-        Position in cartesian space.
-
-    Returns
-    -------
-    Spherical coordinates phi, theta and r.
-    '''
-    r = np.sqrt(x * x + y * y + z * z)
-    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = 0
-    theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
-    # Avoid division by zero
-    # https://en.wikipedia.org/wiki/Atan2
-    phi[x != 0] = np.arctan2(y[x != 0], x[x != 0])
-    phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
-    theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
-    return phi, theta, r
-
-
-def spherical_to_cartesian(phi, theta, r):
-    ''' Transformation from spherical to cartesian coordinates.
-
-    Including error checks.
-
-    Parameters
-    ----------
-    phi, theta, r : float
-        Position in spherical space.
-
-    Returns
-    -------
-    Cartesian coordinates x, y and z.
-    '''
-    if np.any(r < 0):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because r < 0')
-    if np.any(theta < 0) or np.any(theta >= np.pi):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because theta exceeds [0, Pi[')
-    if np.any(phi < 0) or np.any(phi >= 2 * np.pi):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because phi exceeds [0, 2*Pi[')
-    x = r * np.cos(phi) * np.sin(theta)
-    y = r * np.sin(phi) * np.sin(theta)
-    z = r * np.cos(theta)
-
-    return x, y, z
-
-
-def rotation_matrix_x(alpha):
-    ''' Calculates the rotation matrix for the rotation around the x axis by an angle alpha in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    alpha : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[1, 0, 0],
-                     [0, np.cos(alpha), -np.sin(alpha)],
-                     [0, np.sin(alpha), np.cos(alpha)]],
-                    dtype=np.float64)
-
-
-def rotation_matrix_y(beta):
-    ''' Calculates the rotation matrix for the rotation around the y axis by an angle beta in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    beta : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[np.cos(beta), 0, np.sin(beta)],
-                     [0, 1, 0],
-                     [-np.sin(beta), 0, np.cos(beta)]],
-                    dtype=np.float64)
-
-
-def rotation_matrix_z(gamma):
-    ''' Calculates the rotation matrix for the rotation around the z axis by an angle gamma in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    gamma : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[np.cos(gamma), -np.sin(gamma), 0],
-                     [np.sin(gamma), np.cos(gamma), 0],
-                     [0, 0, 1]],
-                    dtype=np.float64)
-
-
-def rotation_matrix(alpha, beta, gamma):
-    ''' Calculates the rotation matrix for the rotation around the three cartesian
-    axis x, y, z in a right-handed coordinate system.
-
-    Note
-    ----
-    The matrix represents a rotation around the x axis, then the y axis,
-    and then the z axis in a right-handed coordinate system.
-
-    Remember:
-        - Transform to the locale coordinate system before applying rotations
-        - Rotations are associative but not commutative
-
-    Usage
-    -----
-        A rotation by (alpha, beta, gamma) of the vector (x, y, z) in the local
-        coordinate system can be done by:
-            np.dot(rotation_matrix(alpha, beta, gamma), np.array([x, y, z]))
-
-    Parameters
-    ----------
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.linalg.multi_dot([rotation_matrix_z(gamma=gamma), rotation_matrix_y(beta=beta), rotation_matrix_x(alpha=alpha)])
-
-
-def euler_angles(R):
-    ''' Calculates the Euler angles from rotation matrix R.
-
-    Note
-    ----
-    In a right-handed system. The rotation is done around x then y then z.
-
-    Note:
-        - Transform to the local coordinate system before applying rotations
-        - Rotations are associative but not commutative
-        - In cases of beta = pi/2 and -pi/2, gamma and alpha are linked (gimbal lock).
-          In this case, gamma is set to zero.
-
-    Parameters
-    ----------
-    R : array
-        Rotation matrix.
-
-    Returns
-    -------
-    Returns Euler angles alpha, beta and gamma.
-    '''
-    def is_rotation_matrix(R):
-        norm = np.linalg.norm(np.identity(3, dtype=R.dtype) - np.dot(R.T, R))
-        return np.isclose(0.0, norm)
-
-    if not is_rotation_matrix(R):
-        raise ValueError("%s is not a rotation matrix" % str(R))
-
-    if R[2, 0] == -1:
-        gamma = 0.0  # gimbal lock
-        alpha = gamma + np.arctan2(R[0, 1], R[0, 2])
-        beta = np.pi / 2
-    elif R[2, 0] == 1:
-        gamma = 0.0  # gimbal lock
-        alpha = -gamma + np.arctan2(-R[0, 1], -R[0, 2])
-        beta = -np.pi / 2
-    else:
-        beta_1 = -np.arcsin(R[2, 0])
-        # for very small values use 0.0 and remove minus sign from 0.0
-        if beta_1 <= np.finfo(beta_1.dtype).eps and beta_1 >= -np.finfo(beta_1.dtype).eps:
-            beta_1 = 0.0
-        beta_2 = np.pi - beta_1
-        alpha_1 = np.arctan2(R[2, 1] / np.cos(beta_1), R[2, 2] / np.cos(beta_1))
-        if alpha_1 <= np.finfo(alpha_1.dtype).eps and alpha_1 >= -np.finfo(alpha_1.dtype).eps:
-            alpha_1 = 0.0
-        alpha_2 = np.arctan2(R[2, 1] / np.cos(beta_2), R[2, 2] / np.cos(beta_2))
-        if alpha_2 <= np.finfo(alpha_2.dtype).eps and alpha_2 >= -np.finfo(alpha_2.dtype).eps:
-            alpha_2 = 0.0
-        gamma_1 = np.arctan2(R[1, 0] / np.cos(beta_1), R[0, 0] / np.cos(beta_1))
-        if gamma_1 <= np.finfo(gamma_1.dtype).eps and gamma_1 >= -np.finfo(gamma_1.dtype).eps:
-            gamma_1 = 0.0
-        gamma_2 = np.arctan2(R[1, 0] / np.cos(beta_2), R[0, 0] / np.cos(beta_2))
-        if gamma_2 <= np.finfo(gamma_2.dtype).eps and gamma_2 >= -np.finfo(gamma_2.dtype).eps:
-            gamma_2 = 0.0
-        # # chose the angles with smaller values
-        # if np.sum(np.abs([alpha_1, beta_1, gamma_1])) <= np.sum(np.abs([alpha_2, beta_2, gamma_2])):
-        #     alpha, beta, gamma = alpha_1, beta_1, gamma_1
-        # else:
-        #     alpha, beta, gamma = alpha_2, beta_2, gamma_2
-    return alpha_1, beta_1, gamma_1
-
-
-def translation_matrix(x, y, z):
-    ''' Calculates the translation matrix for the translation in x, y, z in a cartesian right-handed system.
-
-    Note
-    ----
-    Remember: Translations are associative and commutative
-
-    Usage
-    -----
-        A translation of a vector (x, y, z) by dx, dy, dz can be done by:
-          np.dot(translation_matrix(dx, dy, dz), np.array([x, y, z, 1]))
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    translation_matrix = np.eye(4, 4, 0, dtype=np.float64)
-    translation_matrix[3, :3] = np.array([x, y, z], dtype=np.float64)
-
-    return translation_matrix.T
-
-
-def global_to_local_transformation_matrix(x, y, z, alpha, beta, gamma):
-    ''' Transformation matrix that applies a translation and rotation.
-
-    Translation is T=(-x, -y, -z) to the local coordinate system followed
-    by a rotation = R(alpha, beta, gamma).T in the local coordinate system.
-
-    Note
-    ----
-        - This function is the inverse of
-          local_to_global_transformation_matrix()
-        - The resulting transformation matrix is 4 x 4
-        - Translation and Rotation operations are not commutative
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    # Extend rotation matrix R by one dimension
-    R = np.eye(4, 4, 0, dtype=np.float64)
-    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma).T
-
-    # Get translation matrix T
-    T = translation_matrix(x=-x, y=-y, z=-z)
-
-    return np.dot(R, T)
-
-
-def local_to_global_transformation_matrix(x, y, z, alpha, beta, gamma):
-    ''' Transformation matrix that applies a inverse translation and rotation.
-
-    Inverse rotation in the local coordinate system followed by an inverse
-    translation by x, y, z to the global coordinate system.
-
-    Note
-    ----
-        - The resulting transformation matrix is 4 x 4
-        - Translation and Rotation operations do not commutative
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    # Extend inverse rotation matrix R by one dimension
-    R = np.eye(4, 4, 0, dtype=np.float64)
-    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma)
-
-    # Get inverse translation matrix T
-    T = translation_matrix(x=x, y=y, z=z)
-
-    return np.dot(T, R)
-
-
-def apply_transformation_matrix(x, y, z, transformation_matrix):
-    ''' Takes arrays for x, y, z and applies a transformation matrix (4 x 4).
-
-    Parameters
-    ----------
-    x : array
-        Array of x coordinates.
-    y : array
-        Array of y coordinates.
-    z : array
-        Array of z coordinates.
-
-    Returns
-    -------
-    Array with transformed coordinates.
-    '''
-    # Add extra 4th dimension
-    pos = np.column_stack((x, y, z, np.ones_like(x, dtype=np.float64))).T
-
-    # Transform and delete extra dimension
-    pos_transformed = np.dot(transformation_matrix, pos).T[:, :-1]
-
-    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
-
-
-def apply_rotation_matrix(x, y, z, rotation_matrix):
-    ''' Takes array in x, y, z and applies a rotation matrix (3 x 3).
-
-    Parameters
-    ----------
-    x : array
-        Array of x coordinates.
-    y : array
-        Array of x coordinates.
-    z : array
-        Array of x coordinates.
-
-    Returns
-    -------
-    Array with rotated coordinates.
-    '''
-    pos = np.column_stack((x, y, z)).T
-    pos_transformed = np.dot(rotation_matrix, pos).T
-
-    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
+''' Helper functions for geometrical operations.
+'''
+from __future__ import division
+
+import logging
+
+import numpy as np
+
+
+def skew(v):
+    matr = np.zeros(np.prod(np.r_[v.shape, 3]))
+    matr[::9] = v.flatten()[::3]
+    matr[4::9] = v.flatten()[1::3]
+    matr[8::9] = v.flatten()[2::3]
+    matr = matr.reshape(np.r_[v.shape, 3])
+
+    if len(v.shape) == 1:
+        matr_skv = np.roll(np.roll(matr, 1, 1), -1, 0)
+        return matr_skv - matr_skv.T
+    else:
+        matr_skv = np.roll(np.roll(matr, 1, 2), -1, 1)
+        return matr_skv - matr_skv.transpose((0, 2, 1))
+
+
+def get_plane_normal(direction_vector_1, direction_vector_2):
+    ''' Normal vector of a plane.
+
+    Plane is define by two non parallel direction vectors within the plane.
+
+    Parameters
+    ----------
+    direction_vector_1 : array
+        Array with x, y and z.
+    direction_vector_2 : array
+        Array with x, y and z.
+
+    Returns
+    -------
+    Array with x, y and z.
+    '''
+    return np.cross(direction_vector_1, direction_vector_2)
+
+
+def get_line_intersections_with_dut(line_origins, line_directions, translation_x, translation_y, translation_z, rotation_alpha, rotation_beta, rotation_gamma):
+    ''' Calculates the intersection of lines with a DUT.
+
+    If there is no intersection point (line is parallel to plane or the line is
+    in the plane) the intersection point is set to nan.
+
+    Notes
+    -----
+    Further information:
+    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
+
+    Parameters
+    ----------
+    line_origins : array
+        A point (x, y and z) on the line for each of the n lines.
+    line_directions : array
+        The direction vector of the line for n lines.
+    translation_x, translation_y, translation_z : float
+        The coordianates of the DUT (in um).
+    rotation_alpha, rotation_beta, rotation_gamma : float
+        The rotation angles of the DUT (in radians).
+
+    Returns
+    -------
+    Array with shape (n, 3) with the intersection point.
+    '''
+    dut_position = np.array([
+        translation_x,
+        translation_y,
+        translation_z],
+        dtype=np.float64)
+    dut_rotation_matrix = rotation_matrix(
+        alpha=rotation_alpha,
+        beta=rotation_beta,
+        gamma=rotation_gamma)
+    basis_global = dut_rotation_matrix.T.dot(np.eye(3, dtype=np.float64))
+    dut_normal = basis_global[2]
+    dut_normal /= np.sqrt(np.dot(dut_normal, dut_normal))
+    if dut_normal[2] < 0:
+        dut_normal = -dut_normal
+    return get_line_intersections_with_plane(
+        line_origins=line_origins,
+        line_directions=line_directions,
+        position_plane=dut_position,
+        normal_plane=dut_normal)
+
+
+def get_line_intersections_with_plane(line_origins, line_directions, position_plane, normal_plane):
+    ''' Calculates the intersection of n lines with one plane.
+
+    If there is no intersection point (line is parallel to plane or the line is
+    in the plane) the intersection point is set to nan.
+
+    Notes
+    -----
+    Further information:
+    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
+
+    Parameters
+    ----------
+    line_origins : array
+        A point (x, y and z) on the line for each of the n lines.
+    line_directions : array
+        The direction vector of the line for n lines.
+    position_plane : array
+        A array (x, y and z) to the plane.
+    normal_plane : array
+        The normal vector (x, y and z) of the plane.
+
+    Returns
+    -------
+    Array with shape (n, 3) with the intersection point.
+    '''
+    # Calculate offsets and extend in missing dimension
+    offsets = position_plane[np.newaxis, :] - line_origins
+
+    # Precalculate to be able to avoid division by 0
+    # (line is parallel to the plane or in the plane)
+    norm_dot_off = np.dot(normal_plane, offsets.T)
+    # Dot product is transformed to be at least 1D for special n = 1
+    norm_dot_dir = np.atleast_1d(np.dot(normal_plane,
+                                        line_directions.T))
+
+    # Initialize result to nan
+    t = np.full_like(norm_dot_off, fill_value=np.nan, dtype=np.float64)
+
+    # Warn if some intersection cannot be calculated
+    if np.any(norm_dot_dir == 0):
+        logging.warning('Some line plane intersection could not be calculated')
+
+    # Calculate t scalar for each line simultaniously, avoid division by 0
+    sel = norm_dot_dir != 0
+    t[sel] = norm_dot_off[sel] / norm_dot_dir[sel]
+
+    # Calculate the intersections for each line with the plane
+    intersections = line_origins + line_directions * t[:, np.newaxis]
+
+    return intersections
+
+
+def cartesian_to_spherical(x, y, z):
+    ''' Does a transformation from cartesian to spherical coordinates.
+
+    Convention: r = 0 --> phi = theta = 0
+
+    Parameters
+    ----------
+    x, y, z : float
+        Position in cartesian space.
+
+    Returns
+    -------
+    Spherical coordinates phi, theta and r.
+    '''
+    r = np.sqrt(x * x + y * y + z * z)
+    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = 0
+    theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
+    # Avoid division by zero
+    # https://en.wikipedia.org/wiki/Atan2
+    phi[x != 0] = np.arctan2(y[x != 0], x[x != 0])
+    phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
+    theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
+    return phi, theta, r
+
+
+def spherical_to_cartesian(phi, theta, r):
+    ''' Transformation from spherical to cartesian coordinates.
+
+    Including error checks.
+
+    Parameters
+    ----------
+    phi, theta, r : float
+        Position in spherical space.
+
+    Returns
+    -------
+    Cartesian coordinates x, y and z.
+    '''
+    if np.any(r < 0):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because r < 0')
+    if np.any(theta < 0) or np.any(theta >= np.pi):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because theta exceeds [0, Pi[')
+    if np.any(phi < 0) or np.any(phi >= 2 * np.pi):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because phi exceeds [0, 2*Pi[')
+    x = r * np.cos(phi) * np.sin(theta)
+    y = r * np.sin(phi) * np.sin(theta)
+    z = r * np.cos(theta)
+
+    return x, y, z
+
+
+def rotation_matrix_x(alpha):
+    ''' Calculates the rotation matrix for the rotation around the x axis by an angle alpha in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    alpha : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[1, 0, 0],
+                     [0, np.cos(alpha), -np.sin(alpha)],
+                     [0, np.sin(alpha), np.cos(alpha)]],
+                    dtype=np.float64)
+
+
+def rotation_matrix_y(beta):
+    ''' Calculates the rotation matrix for the rotation around the y axis by an angle beta in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    beta : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[np.cos(beta), 0, np.sin(beta)],
+                     [0, 1, 0],
+                     [-np.sin(beta), 0, np.cos(beta)]],
+                    dtype=np.float64)
+
+
+def rotation_matrix_z(gamma):
+    ''' Calculates the rotation matrix for the rotation around the z axis by an angle gamma in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    gamma : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[np.cos(gamma), -np.sin(gamma), 0],
+                     [np.sin(gamma), np.cos(gamma), 0],
+                     [0, 0, 1]],
+                    dtype=np.float64)
+
+
+def rotation_matrix(alpha, beta, gamma):
+    ''' Calculates the rotation matrix for the rotation around the three cartesian
+    axis x, y, z in a right-handed coordinate system.
+
+    Note
+    ----
+    The matrix represents a rotation around the x axis, then the y axis,
+    and then the z axis in a right-handed coordinate system.
+
+    Remember:
+        - Transform to the locale coordinate system before applying rotations
+        - Rotations are associative but not commutative
+
+    Usage
+    -----
+        A rotation by (alpha, beta, gamma) of the vector (x, y, z) in the local
+        coordinate system can be done by:
+            np.dot(rotation_matrix(alpha, beta, gamma), np.array([x, y, z]))
+
+    Parameters
+    ----------
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.linalg.multi_dot([rotation_matrix_z(gamma=gamma), rotation_matrix_y(beta=beta), rotation_matrix_x(alpha=alpha)])
+
+
+def euler_angles(R):
+    ''' Calculates the Euler angles from rotation matrix R.
+
+    Note
+    ----
+    In a right-handed system. The rotation is done around x then y then z.
+
+    Note:
+        - Transform to the local coordinate system before applying rotations
+        - Rotations are associative but not commutative
+        - In cases of beta = pi/2 and -pi/2, gamma and alpha are linked (gimbal lock).
+          In this case, gamma is set to zero.
+
+    Parameters
+    ----------
+    R : array
+        Rotation matrix.
+
+    Returns
+    -------
+    Returns Euler angles alpha, beta and gamma.
+    '''
+    def is_rotation_matrix(R):
+        norm = np.linalg.norm(np.identity(3, dtype=R.dtype) - np.dot(R.T, R))
+        return np.isclose(0.0, norm)
+
+    if not is_rotation_matrix(R):
+        raise ValueError("%s is not a rotation matrix" % str(R))
+
+    if R[2, 0] == -1:
+        gamma = 0.0  # gimbal lock
+        alpha = gamma + np.arctan2(R[0, 1], R[0, 2])
+        beta = np.pi / 2
+    elif R[2, 0] == 1:
+        gamma = 0.0  # gimbal lock
+        alpha = -gamma + np.arctan2(-R[0, 1], -R[0, 2])
+        beta = -np.pi / 2
+    else:
+        beta_1 = -np.arcsin(R[2, 0])
+        # for very small values use 0.0 and remove minus sign from 0.0
+        if beta_1 <= np.finfo(beta_1.dtype).eps and beta_1 >= -np.finfo(beta_1.dtype).eps:
+            beta_1 = 0.0
+        beta_2 = np.pi - beta_1
+        alpha_1 = np.arctan2(R[2, 1] / np.cos(beta_1), R[2, 2] / np.cos(beta_1))
+        if alpha_1 <= np.finfo(alpha_1.dtype).eps and alpha_1 >= -np.finfo(alpha_1.dtype).eps:
+            alpha_1 = 0.0
+        alpha_2 = np.arctan2(R[2, 1] / np.cos(beta_2), R[2, 2] / np.cos(beta_2))
+        if alpha_2 <= np.finfo(alpha_2.dtype).eps and alpha_2 >= -np.finfo(alpha_2.dtype).eps:
+            alpha_2 = 0.0
+        gamma_1 = np.arctan2(R[1, 0] / np.cos(beta_1), R[0, 0] / np.cos(beta_1))
+        if gamma_1 <= np.finfo(gamma_1.dtype).eps and gamma_1 >= -np.finfo(gamma_1.dtype).eps:
+            gamma_1 = 0.0
+        gamma_2 = np.arctan2(R[1, 0] / np.cos(beta_2), R[0, 0] / np.cos(beta_2))
+        if gamma_2 <= np.finfo(gamma_2.dtype).eps and gamma_2 >= -np.finfo(gamma_2.dtype).eps:
+            gamma_2 = 0.0
+        # # chose the angles with smaller values
+        # if np.sum(np.abs([alpha_1, beta_1, gamma_1])) <= np.sum(np.abs([alpha_2, beta_2, gamma_2])):
+        #     alpha, beta, gamma = alpha_1, beta_1, gamma_1
+        # else:
+        #     alpha, beta, gamma = alpha_2, beta_2, gamma_2
+    return alpha_1, beta_1, gamma_1
+
+
+def translation_matrix(x, y, z):
+    ''' Calculates the translation matrix for the translation in x, y, z in a cartesian right-handed system.
+
+    Note
+    ----
+    Remember: Translations are associative and commutative
+
+    Usage
+    -----
+        A translation of a vector (x, y, z) by dx, dy, dz can be done by:
+          np.dot(translation_matrix(dx, dy, dz), np.array([x, y, z, 1]))
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    translation_matrix = np.eye(4, 4, 0, dtype=np.float64)
+    translation_matrix[3, :3] = np.array([x, y, z], dtype=np.float64)
+
+    return translation_matrix.T
+
+
+def global_to_local_transformation_matrix(x, y, z, alpha, beta, gamma):
+    ''' Transformation matrix that applies a translation and rotation.
+
+    Translation is T=(-x, -y, -z) to the local coordinate system followed
+    by a rotation = R(alpha, beta, gamma).T in the local coordinate system.
+
+    Note
+    ----
+        - This function is the inverse of
+          local_to_global_transformation_matrix()
+        - The resulting transformation matrix is 4 x 4
+        - Translation and Rotation operations are not commutative
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    # Extend rotation matrix R by one dimension
+    R = np.eye(4, 4, 0, dtype=np.float64)
+    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma).T
+
+    # Get translation matrix T
+    T = translation_matrix(x=-x, y=-y, z=-z)
+
+    return np.dot(R, T)
+
+
+def local_to_global_transformation_matrix(x, y, z, alpha, beta, gamma):
+    ''' Transformation matrix that applies a inverse translation and rotation.
+
+    Inverse rotation in the local coordinate system followed by an inverse
+    translation by x, y, z to the global coordinate system.
+
+    Note
+    ----
+        - The resulting transformation matrix is 4 x 4
+        - Translation and Rotation operations do not commutative
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    # Extend inverse rotation matrix R by one dimension
+    R = np.eye(4, 4, 0, dtype=np.float64)
+    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma)
+
+    # Get inverse translation matrix T
+    T = translation_matrix(x=x, y=y, z=z)
+
+    return np.dot(T, R)
+
+
+def apply_transformation_matrix(x, y, z, transformation_matrix):
+    ''' Takes arrays for x, y, z and applies a transformation matrix (4 x 4).
+
+    Parameters
+    ----------
+    x : array
+        Array of x coordinates.
+    y : array
+        Array of y coordinates.
+    z : array
+        Array of z coordinates.
+
+    Returns
+    -------
+    Array with transformed coordinates.
+    '''
+    # Add extra 4th dimension
+    pos = np.column_stack((x, y, z, np.ones_like(x, dtype=np.float64))).T
+
+    # Transform and delete extra dimension
+    pos_transformed = np.dot(transformation_matrix, pos).T[:, :-1]
+
+    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
+
+
+def apply_rotation_matrix(x, y, z, rotation_matrix):
+    ''' Takes array in x, y, z and applies a rotation matrix (3 x 3).
+
+    Parameters
+    ----------
+    x : array
+        Array of x coordinates.
+    y : array
+        Array of x coordinates.
+    z : array
+        Array of x coordinates.
+
+    Returns
+    -------
+    Array with rotated coordinates.
+    '''
+    pos = np.column_stack((x, y, z)).T
+    pos_transformed = np.dot(rotation_matrix, pos).T
+
+    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
-- 
2.43.0


From f89077c515a66fab670c354e9b5ff4dc68ad3054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:10 +0000
Subject: [PATCH 10/34] fix: spherical coordinates of points with x = 0 and of
 points on the negative z axis

---
 beam_telescope_analysis/tools/geometry_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index 1aebce3..ef39269 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -156,12 +156,14 @@ def cartesian_to_spherical(x, y, z):
     Spherical coordinates phi, theta and r.
     '''
     r = np.sqrt(x * x + y * y + z * z)
-    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = 0
+    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = y = 0
     theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
     # Avoid division by zero
     # https://en.wikipedia.org/wiki/Atan2
-    phi[x != 0] = np.arctan2(y[x != 0], x[x != 0])
+    sel = np.logical_or(x != 0, y != 0)
+    phi[sel] = np.arctan2(y[sel], x[sel])
     phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
+    phi[phi >= 2. * np.pi] = 0.0  # tiny negative values are rounded to 2 pi
     theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
     return phi, theta, r
 
@@ -182,8 +184,8 @@ def spherical_to_cartesian(phi, theta, r):
     '''
     if np.any(r < 0):
         raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because r < 0')
-    if np.any(theta < 0) or np.any(theta >= np.pi):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because theta exceeds [0, Pi[')
+    if np.any(theta < 0) or np.any(theta > np.pi):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because theta exceeds [0, Pi]')
     if np.any(phi < 0) or np.any(phi >= 2 * np.pi):
         raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because phi exceeds [0, 2*Pi[')
     x = r * np.cos(phi) * np.sin(theta)
-- 
2.43.0


From 3ec7fcf8b316a1d534c8fde499357e2eb7c0426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:10 +0000
Subject: [PATCH 11/34] fix: Euler angles at gimbal lock, reject reflections

---
 .../tools/geometry_utils.py                   | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index ef39269..e939386 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -320,21 +320,22 @@ def euler_angles(R):
     '''
     def is_rotation_matrix(R):
         norm = np.linalg.norm(np.identity(3, dtype=R.dtype) - np.dot(R.T, R))
-        return np.isclose(0.0, norm)
+        return np.isclose(0.0, norm) and np.linalg.det(R) > 0.0
 
     if not is_rotation_matrix(R):
         raise ValueError("%s is not a rotation matrix" % str(R))
 
-    if R[2, 0] == -1:
-        gamma = 0.0  # gimbal lock
-        alpha = gamma + np.arctan2(R[0, 1], R[0, 2])
-        beta = np.pi / 2
-    elif R[2, 0] == 1:
-        gamma = 0.0  # gimbal lock
-        alpha = -gamma + np.arctan2(-R[0, 1], -R[0, 2])
-        beta = -np.pi / 2
+    cos_beta = np.sqrt(R[0, 0]**2 + R[1, 0]**2)
+    if cos_beta < 1e-8:  # gimbal lock
+        gamma_1 = 0.0
+        if R[2, 0] < 0:
+            alpha_1 = np.arctan2(R[0, 1], R[0, 2])
+            beta_1 = np.pi / 2
+        else:
+            alpha_1 = np.arctan2(-R[0, 1], -R[0, 2])
+            beta_1 = -np.pi / 2
     else:
-        beta_1 = -np.arcsin(R[2, 0])
+        beta_1 = np.arctan2(-R[2, 0], cos_beta)
         # for very small values use 0.0 and remove minus sign from 0.0
         if beta_1 <= np.finfo(beta_1.dtype).eps and beta_1 >= -np.finfo(beta_1.dtype).eps:
             beta_1 = 0.0
-- 
2.43.0


From 999c98da01630b1b75a925c58c713a5be2360582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 12/34] fix: Kalman smoother mixed up reference states when the
 detectors are not numbered in z order

---
 beam_telescope_analysis/tools/kalman.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/kalman.py b/beam_telescope_analysis/tools/kalman.py
index 6aadc87..7ea9ba9 100644
--- a/beam_telescope_analysis/tools/kalman.py
+++ b/beam_telescope_analysis/tools/kalman.py
@@ -830,7 +830,7 @@ class KalmanFilter(object):
             initial_state_covariance=initial_state_covariance)
 
         # Improve track_seed
-        track_seed = reference_states[:, 0, :] + filtered_states_b[:, 0, :]
+        track_seed = reference_states[:, z_sorted_dut_indices[0], :] + filtered_states_b[:, z_sorted_dut_indices[0], :]
 
         # Extrapolate track_seed and store as reference state
         for i, dut_index in enumerate(z_sorted_dut_indices):
@@ -842,7 +842,7 @@ class KalmanFilter(object):
                     beta=seed_dut.rotation_beta,
                     gamma=seed_dut.rotation_gamma)
                 seed_dut_position = np.array([seed_dut.translation_x, seed_dut.translation_y, seed_dut.translation_z])
-                reference_states[:, i, :] = track_seed
+                reference_states[:, dut_index, :] = track_seed
 
             else:
                 rotation_matrix_actual_dut = geometry_utils.rotation_matrix(
@@ -851,7 +851,7 @@ class KalmanFilter(object):
                     gamma=actual_dut.rotation_gamma)
                 actual_dut_position = np.array([actual_dut.translation_x, actual_dut.translation_y, actual_dut.translation_z])
                 # Extrapolate track seed
-                reference_states[:, i, :] = _extrapolate_state(
+                reference_states[:, dut_index, :] = _extrapolate_state(
                     track_state=track_seed,
                     dut_position=np.tile(seed_dut_position, reps=(track_seed.shape[0], 1)),
                     target_dut_position=np.tile(actual_dut_position, reps=(track_seed.shape[0], 1)),
-- 
2.43.0


From f556b62d363c7d8359ffda6990dcfc4786ca2ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 13/34] fix: in-pixel position was measured from the wrong
 matrix edge (differs for odd numbers of columns in cells of several pixels)

---
 beam_telescope_analysis/telescope/dut.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/beam_telescope_analysis/telescope/dut.py b/beam_telescope_analysis/telescope/dut.py
index ff59691..666886f 100644
--- a/beam_telescope_analysis/telescope/dut.py
+++ b/beam_telescope_analysis/telescope/dut.py
@@ -383,8 +383,8 @@ class RectangularPixelDut(Dut):
         # check for valid z coordinates
         if z is not None and not np.allclose(np.nan_to_num(z), 0.0):
             raise RuntimeError('The local z positions contain values z!=0.')
-        x_primitve_cell = np.mod(x + self.x_extent()[0], self.column_size)
-        y_primitve_cell = np.mod(y + self.y_extent()[0], self.row_size)
+        x_primitve_cell = np.mod(x - self.x_extent()[0], self.column_size)
+        y_primitve_cell = np.mod(y - self.y_extent()[0], self.row_size)
         return x_primitve_cell, y_primitve_cell
 
 
@@ -397,8 +397,8 @@ class RectangularPixelDutWithDoubleColumns(RectangularPixelDut):
         # check for valid z coordinates
         if z is not None and not np.allclose(np.nan_to_num(z), 0.0):
             raise RuntimeError('The local z positions contain values z!=0.')
-        x_mod, x_primitve_cell = np.divmod(x + self.x_extent()[0], self.column_size * 2.0)
-        y_mod, y_primitve_cell = np.divmod(y + self.y_extent()[0], self.row_size)
+        x_mod, x_primitve_cell = np.divmod(x - self.x_extent()[0], self.column_size * 2.0)
+        y_mod, y_primitve_cell = np.divmod(y - self.y_extent()[0], self.row_size)
         return x_primitve_cell, y_primitve_cell
 
 
@@ -428,8 +428,8 @@ class RD53A_8x8(RectangularPixelDut):
         # check for valid z coordinates
         if z is not None and not np.allclose(np.nan_to_num(z), 0.0):
             raise RuntimeError('The local z positions contain values z!=0.')
-        x_primitve_cell = np.mod(x + self.x_extent()[0], self.column_size * 8.0)
-        y_primitve_cell = np.mod(y + self.y_extent()[0], self.row_size * 8.0)
+        x_primitve_cell = np.mod(x - self.x_extent()[0], self.column_size * 8.0)
+        y_primitve_cell = np.mod(y - self.y_extent()[0], self.row_size * 8.0)
         return x_primitve_cell, y_primitve_cell
 
     def get_primitive_cell_size(self):
@@ -504,8 +504,8 @@ class ITkPix_8x8(RectangularPixelDut):
         # check for valid z coordinates
         if z is not None and not np.allclose(np.nan_to_num(z), 0.0):
             raise RuntimeError('The local z positions contain values z!=0.')
-        x_primitve_cell = np.mod(x + self.x_extent()[0], self.column_size * 8.0)
-        y_primitve_cell = np.mod(y + self.y_extent()[0], self.row_size * 8.0)
+        x_primitve_cell = np.mod(x - self.x_extent()[0], self.column_size * 8.0)
+        y_primitve_cell = np.mod(y - self.y_extent()[0], self.row_size * 8.0)
         return x_primitve_cell, y_primitve_cell
 
     def get_primitive_cell_size(self):
@@ -531,8 +531,8 @@ class TJMonopix1_2x2(RectangularPixelDut):
         # check for valid z coordinates
         if z is not None and not np.allclose(np.nan_to_num(z), 0.0):
             raise RuntimeError('The local z positions contain values z != 0.')
-        x_primitve_cell = np.mod(x + self.x_extent()[0], self.column_size * 2.0)
-        y_primitve_cell = np.mod(y + self.y_extent()[0], self.row_size * 2.0)
+        x_primitve_cell = np.mod(x - self.x_extent()[0], self.column_size * 2.0)
+        y_primitve_cell = np.mod(y - self.y_extent()[0], self.row_size * 2.0)
         return x_primitve_cell, y_primitve_cell
 
 
-- 
2.43.0


From 5100a9c3698123e607b77530e99ff30f3b1db597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 14/34] fix: Kalman alignment applied rotation corrections on
 the wrong side of the stored rotation

---
 beam_telescope_analysis/dut_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index a6e552c..1013a32 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -2095,7 +2095,7 @@ def _combine_karimaki(initial_rotation_matrix, initial_position_vector, delta_fr
     ''' Apply corrections ('delta') to initial alignment.
         Reference: https://cds.cern.ch/record/619975/files/cr03_022.pdf
     '''
-    combined_rot = np.matmul(delta_frame[0], initial_rotation_matrix)
+    combined_rot = np.matmul(initial_rotation_matrix, delta_frame[0])
     combined_offset = delta_frame[1] + initial_position_vector
     return combined_rot, combined_offset
 
-- 
2.43.0


From d636fe7957554a516e3a10e43fee6a2161c44536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 15/34] fix: saving a telescope with keep_others into an empty
 configuration file raised an error

---
 beam_telescope_analysis/telescope/telescope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/telescope/telescope.py b/beam_telescope_analysis/telescope/telescope.py
index 5e45ddf..94a7d82 100644
--- a/beam_telescope_analysis/telescope/telescope.py
+++ b/beam_telescope_analysis/telescope/telescope.py
@@ -168,11 +168,11 @@ class Telescope(object):
         if configuration_file:
             if keep_others and os.path.isfile(os.path.abspath(configuration_file)):
                 with open(os.path.abspath(configuration_file), mode='r') as f:
-                    configuration = safe_load(f)
+                    configuration = safe_load(f) or {}
             else:
                 configuration = {}
             # create Telescope configuration
-            if 'TELESCOPE' not in configuration:
+            if not configuration.get('TELESCOPE'):
                 configuration["TELESCOPE"] = {}
             for name in self.telescope_attributes:
                 configuration["TELESCOPE"][name] = getattr(self, name)
-- 
2.43.0


From e0975940a35e8ac6af80b1aa1aed7ccf083c7bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 16/34] fix: track angles had the wrong sign for tracks
 reversed when going from local into global coordinates

---
 beam_telescope_analysis/result_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index faf38fb..9d76329 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -2539,8 +2539,8 @@ def histogram_track_angle(telescope_configuration, input_tracks_file, select_dut
 
 
 def get_angles(slopes, xz_plane_normal, yz_plane_normal, dut_plane_normal):
-    # Make z-slope pointing into positive z-direction (z-slope is reveresed when going from local into global coord. system) and normalize track slopes to 1.
-    slopes[:, 2] = np.abs(slopes[:, 2])
+    # Make track slopes pointing into positive z-direction (track slopes can be reversed when going from local into global coord. system) and normalize track slopes to 1.
+    slopes[slopes[:, 2] < 0.0] = -slopes[slopes[:, 2] < 0.0]
     slopes_mag = np.sqrt(np.einsum('ij,ij->i', slopes, slopes))
     slopes /= slopes_mag[:, np.newaxis]
     track_slopes_onto_xz_plane = slopes - np.matmul(xz_plane_normal, slopes.T).reshape(-1, 1) * xz_plane_normal
-- 
2.43.0


From cacef408d9e67e95bd0c90d835578ec665f43349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 17/34] fix: keeping all track candidates in the track table
 used undefined names

---
 beam_telescope_analysis/track_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index a24087f..7615980 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -1402,9 +1402,9 @@ def create_results_array(n_duts, dut_offsets, dut_slopes, track_chi2s, track_chi
                 tracks_array['slope_z_dut_%d' % index_dut][~select_fit_tracks] = np.nan
         tracks_array['track_chi2'][select_fit_tracks] = track_chi2s
         tracks_array['track_chi2'][~select_fit_tracks] = np.nan
-        tracks_array['track_chi_red'][select_fit_tracks] = track_chi2_red
+        tracks_array['track_chi_red'][select_fit_tracks] = track_chi2s_red
         tracks_array['track_chi_red'][~select_fit_tracks] = np.nan
-        tracks_array['track_chi_prob'][select_fit_tracks] = track_chi2_prob
+        tracks_array['track_chi_prob'][select_fit_tracks] = track_chi2s_prob
         tracks_array['track_chi_prob'][~select_fit_tracks] = np.nan
         tracks_array['quality_flag'][select_fit_tracks] = quality_flag
         tracks_array['quality_flag'][~select_fit_tracks] = 0
-- 
2.43.0


From 1bc458c8d29eb454f88a468d1dcd7f72db037d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 18/34] fix: keeping all track candidates dropped chunks
 without any selected track

---
 beam_telescope_analysis/track_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 7615980..689adf3 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -889,7 +889,7 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
 
                     unique_events = np.unique(track_candidates_chunk["event_number"][select_tracks_for_storage])
                     n_events_chunk = unique_events.shape[0]
-                    if n_events_chunk == 0:
+                    if n_events_chunk == 0 and not keep_data:
                         continue
 
                     if max_events:
-- 
2.43.0


From 960973736f392ca5a21f245130d1379a14f39cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 19/34] fix: table_where could not see the columns named in the
 query

---
 beam_telescope_analysis/tools/data_selection.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index eca80ff..e4ee9fc 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -2,7 +2,6 @@
 from __future__ import division
 
 import logging
-import re
 import os
 from collections.abc import Iterable
 
@@ -483,7 +482,7 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
 
 
 def table_where(arr, query_str):
-    for variable in set(re.findall(r'(\d*[a-zA-Z_]+\d*)', query_str)):
-        exec(variable + ' = arr[\'' + variable + '\']')  # expose variables; not a copy, this is just a reference
+    # expose columns; not a copy, this is just a reference
+    variables = {name: arr[name] for name in arr.dtype.names}
 
-    return arr[ne.evaluate(query_str, casting="safe")]
+    return arr[ne.evaluate(query_str, local_dict=variables, casting="safe")]
-- 
2.43.0


From 6bef59aae5c8434fd5a55a91fc2f96aa7a05d4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 20/34] fix: select_tracks divided by zero in its summary when
 a selection is unused or leaves no track

---
 beam_telescope_analysis/tools/data_selection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index e4ee9fc..8cbb4c7 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -349,6 +349,9 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
     if len(query) != len(select_duts):  # empty iterable
         raise ValueError("Parameter query has the wrong length.")
 
+    def percent(part, total):
+        return 100.0 * part / total if total else 0.0
+
     with tb.open_file(input_tracks_file, mode='r') as in_file_h5:
         with tb.open_file(output_tracks_file, mode="w") as out_file_h5:
             for index, actual_dut_index in enumerate(select_duts):
@@ -476,7 +479,7 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
                     # total_n_tracks_last = total_n_tracks
                     last_index_chunk = index_chunk
                 pbar.close()
-                logging.info('Track selection summary: In total selected %.2f %% of tracks\nHit selection: %.2f\nQuality selection: %.2f %%\nIsolated tracks selection: %.2f %%\nIsolated hits selection: %.2f %%\nQuery string selection: %.2f %%' % (100.0 * n_tracks_query / total_n_tracks, 100.0 * n_tracks_hit_mask / total_n_tracks, 100.0 * n_tracks_quality_mask / n_tracks_hit_mask, 100.0 * n_tracks_iso_track_mask / n_tracks_quality_mask, 100.0 * n_tracks_iso_hit_mask / n_tracks_iso_track_mask, 100.0 * n_tracks_query / n_tracks_iso_hit_mask))
+                logging.info('Track selection summary: In total selected %.2f %% of tracks\nHit selection: %.2f\nQuality selection: %.2f %%\nIsolated tracks selection: %.2f %%\nIsolated hits selection: %.2f %%\nQuery string selection: %.2f %%' % (percent(n_tracks_query, total_n_tracks), percent(n_tracks_hit_mask, total_n_tracks), percent(n_tracks_quality_mask, n_tracks_hit_mask), percent(n_tracks_iso_track_mask, n_tracks_quality_mask), percent(n_tracks_iso_hit_mask, n_tracks_iso_track_mask), percent(n_tracks_query, n_tracks_iso_hit_mask)))
 
     return output_tracks_file
 
-- 
2.43.0


From d8e96b4ea9469de0180ce49fc3305475ca2d190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 21/34] fix: apply_alignment converted the tracks of DUT 10 and
 above with the alignment of DUT 1, too

---
 beam_telescope_analysis/dut_alignment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 1013a32..d9004d5 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -103,7 +103,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
 
         if "Tracks" in node.name:
             format_strings = ['offset_{dimension}_dut_{dut_index}']
-            if "DUT%d" % dut_index in node.name:
+            if node.name.endswith("DUT%d" % dut_index):
                 format_strings.extend(['offset_{dimension}'])
             for format_string in format_strings:
                 if format_string.format(dimension='x', dut_index=dut_index) in node.dtype.names:
@@ -119,7 +119,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
                         rotation_gamma=dut.rotation_gamma)
 
             format_strings = ['slope_{dimension}_dut_{dut_index}']
-            if "DUT%d" % dut_index in node.name:
+            if node.name.endswith("DUT%d" % dut_index):
                 format_strings.extend(['slope_{dimension}'])
             for format_string in format_strings:
                 if format_string.format(dimension='x', dut_index=dut_index) in node.dtype.names:
-- 
2.43.0


From b4f6f695fd949db59cfcaef438895d35b1f1c16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 22/34] fix: apply_alignment failed on files with a group,
 e.g., the stored arguments of the function that created the file

---
 beam_telescope_analysis/dut_alignment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index d9004d5..ee172cc 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -154,6 +154,8 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
     with tb.open_file(input_file, mode='r') as in_file_h5:
         with tb.open_file(output_file, mode='w') as out_file_h5:
             for node in in_file_h5.root:  # Loop over potential hit tables in data file
+                if type(node) == tb.group.Group:
+                    continue
                 logging.info('== Apply alignment to node %s ==', node.name)
                 hits_aligned_table = out_file_h5.create_table(
                     where=out_file_h5.root,
-- 
2.43.0


From 18bcf9bc5ef784e85d5660a257be569dcb88d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 23/34] fix: convert_coordinates with a given output file used
 an undefined name

---
 beam_telescope_analysis/hit_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 6f95c9e..529b8c0 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -108,10 +108,10 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
     '''
 
     if output_hit_file is None:
-        output_file = os.path.splitext(input_hit_file)[0] + ('_local_coordinates.h5' if index_to_local else '_index.h5')
+        output_hit_file = os.path.splitext(input_hit_file)[0] + ('_local_coordinates.h5' if index_to_local else '_index.h5')
 
     with tb.open_file(input_hit_file, mode='r') as in_file_h5:
-        with tb.open_file(output_file, mode='w') as out_file_h5:
+        with tb.open_file(output_hit_file, mode='w') as out_file_h5:
             node = in_file_h5.root.Hits
             logging.info('== Converting coordinates of %s ==' % dut.name)
 
@@ -174,7 +174,7 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
                 pbar.update(data_chunk.shape[0])
             pbar.close()
 
-    return output_file
+    return output_hit_file
 
 
 @save_arguments
-- 
2.43.0


From e5c1345ceee6cde8319ca7533947dc23a99bf296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 24/34] fix: convert_coordinates truncated the calculated
 index, some hits ended up in the neighboring pixel

---
 beam_telescope_analysis/hit_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 529b8c0..be653ea 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -164,11 +164,13 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
                         column=data_chunk['column'],
                         row=data_chunk['row'])
                 else:
-                    out_data['column'], out_data['row'] = dut.local_position_to_index(
+                    column, row = dut.local_position_to_index(
                         x=data_chunk['x'],
                         y=data_chunk['y'],
                         # z=data_chunk['z'])
                         z=0.0)
+                    # round, positions of pixel centers may result in values slightly smaller than the index
+                    out_data['column'], out_data['row'] = np.rint(column), np.rint(row)
 
                 out_table.append(out_data)
                 pbar.update(data_chunk.shape[0])
-- 
2.43.0


From e302ad2f3f72664b8e7e02a97135afbc28bd51c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 25/34] fix: unsorted select_duts assigned the files to the
 wrong DUTs in convert, check, mask and cluster

---
 beam_telescope_analysis/hit_analysis.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index be653ea..c7ff556 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -62,11 +62,11 @@ def convert(telescope_configuration, input_hit_files, output_hit_files=None, sel
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Converting coordinates of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    selected_telescope_duts = [telescope[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_hit_files is not None and len(select_duts) != len(output_hit_files):
@@ -213,11 +213,11 @@ def check(telescope_configuration, input_hit_files, output_check_files=None, sel
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Checking hit files of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    selected_telescope_duts = [telescope[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_check_files is not None and len(select_duts) != len(output_check_files):
@@ -468,11 +468,11 @@ def mask(telescope_configuration, input_hit_files, output_mask_files=None, selec
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Masking pixels of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    selected_telescope_duts = [telescope[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_mask_files is not None and len(select_duts) != len(output_mask_files):
@@ -708,11 +708,11 @@ def cluster(telescope_configuration, input_hit_files, input_mask_files=None, out
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Clustering hits of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    selected_telescope_duts = [telescope[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if input_mask_files is not None and len(select_duts) != len(input_mask_files):
@@ -1276,7 +1276,7 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Correlating %d DUTs ===', len(select_duts))
 
-- 
2.43.0


From 3785676651b0b1b95134801ba1fd935987732b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 26/34] fix: SMC mixed up the entries of multidimensional
 histograms with different shapes

---
 beam_telescope_analysis/tools/smc.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 9f0f373..4052d53 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -290,11 +290,13 @@ class SMC(object):
                 else:
                     # Check if array needs to be resized
                     new_shape = np.maximum(hists[i].shape, res_data[i].shape)
-                    hists[i].resize(new_shape)
-                    # Copym resize and add array to result
-                    hist_copy = res_data[i].copy()
-                    hist_copy.resize(new_shape)
-                    hists[i] += hist_copy
+                    if np.any(new_shape != hists[i].shape):
+                        # Do not use ndarray.resize, it does not keep the position of the entries of multidimensional arrays
+                        resized_hist = np.zeros(new_shape, dtype=hists[i].dtype)
+                        resized_hist[tuple(slice(n) for n in hists[i].shape)] = hists[i]
+                        hists[i] = resized_hist
+                    # Add array to result
+                    hists[i][tuple(slice(n) for n in res_data[i].shape)] += res_data[i]
 
         if not self.force_stop.is_set():
             for i, curr_node_desc in enumerate(self.node_desc):
-- 
2.43.0


From fc84b9cfff95ff9febcebf8d5b368b38f6d20e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 27/34] fix: SMC did not create the output nodes for empty
 tables

---
 beam_telescope_analysis/tools/smc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 4052d53..5d02255 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -179,7 +179,10 @@ class SMC(object):
         except Exception:
             self.force_stop.set()
             raise
-        gen_data = analysis_utils.data_aligned_at_events(node, chunk_size=self.chunk_size)
+        if self.n_rows == 0:
+            gen_data = iter([(node[:], 0)])  # func has to be called at least once to create the output nodes
+        else:
+            gen_data = analysis_utils.data_aligned_at_events(node, chunk_size=self.chunk_size)
         while not self.force_stop.wait(0.01):
             try:
                 try:
-- 
2.43.0


From e19eec51a13e668a0e5242cee38d8a580277bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 28/34] fix: SMC ignored exceptions of its threads, the output
 was missing or incomplete, and could wait forever

---
 beam_telescope_analysis/tools/smc.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 5d02255..1bb7395 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -154,6 +154,7 @@ class SMC(object):
         self.async_worker_thread = None
         self.writer_thread = None
         self.out_file = None
+        self.exception = None
         self.out_file_opened = Event()
         self.force_stop = Event()
         self.data_deque = deque()
@@ -162,6 +163,16 @@ class SMC(object):
         # compute data
         self.split_map_combine()
 
+    def _run(self, func):
+        ''' Stop all threads if one of them fails, the exception is raised after all threads have finished.
+        '''
+        try:
+            func()
+        except Exception as e:
+            if self.exception is None:
+                self.exception = e
+            self.force_stop.set()
+
     def _reader(self):
         if self.input_filename == self.output_filename:
             # wait for output file to be ready
@@ -336,15 +347,15 @@ class SMC(object):
 
         self.out_file_opened.clear()
         self.force_stop.clear()
-        self.writer_thread = Thread(target=self._writer, name='WriterThread')
+        self.writer_thread = Thread(target=self._run, args=(self._writer,), name='WriterThread')
         self.writer_thread.daemon = True
         self.writer_thread.start()
 
-        self.async_worker_thread = Thread(target=self._async_worker, name='AsyncWorkerThread')
+        self.async_worker_thread = Thread(target=self._run, args=(self._async_worker,), name='AsyncWorkerThread')
         self.async_worker_thread.daemon = True
         self.async_worker_thread.start()
 
-        self.reader_thread = Thread(target=self._reader, name='ReaderThread')
+        self.reader_thread = Thread(target=self._run, args=(self._reader,), name='ReaderThread')
         self.reader_thread.daemon = True
         self.reader_thread.start()
 
@@ -361,6 +372,11 @@ class SMC(object):
         self.pool.join()
         self.pool = None
 
+        if self.exception is not None:
+            if self.out_file is not None and self.out_file.isopen:
+                self.out_file.close()
+            raise self.exception
+
 
 if __name__ == '__main__':
     pass
-- 
2.43.0


From 2fd350c3e8a6c5ec86a90237750e3b9817f170b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 29/34] fix: combine_files failed for empty tables or continued
 with the event numbers of another table

---
 beam_telescope_analysis/tools/data_selection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 8cbb4c7..a8317fa 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -99,7 +99,8 @@ def combine_files(input_files, output_file=None, names=None, event_number_offset
                         out_tables[table.name].append(data_chunk)
                         out_tables[table.name].flush()
                     if last_event_numbers[table.name] is not None:
-                        last_event_numbers[table.name] = data_chunk[-1]['event_number']
+                        if table.nrows != 0:
+                            last_event_numbers[table.name] = data_chunk[-1]['event_number']
                         applied_event_number_offsets[table.name].append(event_number_offset)
 
     return output_file, applied_event_number_offsets
-- 
2.43.0


From 2acf776e169a05ca1afcc4fd861d03a3b7bbb3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 30/34] fix: calculate_efficiency failed or used the histograms
 of the previous DUT when the first chunk has no valid hit

---
 beam_telescope_analysis/result_analysis.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 9d76329..62e5f38 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1011,6 +1011,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
 
                 pbar = tqdm(total=node.shape[0], ncols=80)
                 initialize = True
+                count_tracks_2d_hist = np.zeros(shape=(hist_2d_x_n_bins, hist_2d_y_n_bins), dtype=np.float64)
                 start_index_cluster_hits = 0
                 chunk_indices = []
                 efficiency_chunks = []
@@ -1268,14 +1269,14 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     _, closest_indices_with_hit = pixel_center_extended_kd_tree.query(np.column_stack((intersection_x_local[select_valid_hit], intersection_y_local[select_valid_hit])))
                     count_tracks_with_hit_pixel_hist += np.bincount(closest_indices_with_hit, minlength=pixel_center_data.shape[0])[:pixel_center_data.shape[0]]
 
+                    # 2D tracks
+                    # Per chunk
+                    count_tracks_2d_hist_chunk = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
+                    count_tracks_2d_hist += count_tracks_2d_hist_chunk
                     # Check if DUT has valid hits
                     if initialize:
-                        initialize = False
-                        # 2D tracks
-                        count_tracks_2d_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)
-                        # Per chunk
-                        count_tracks_2d_hist_chunk = count_tracks_2d_hist
                         if np.any(select_valid_hit):  # Check for valid hits
+                            initialize = False
                             # 2D hits
                             count_hits_2d_hist, _, _, _ = stats.binned_statistic_2d(x=hit_x_local[select_valid_hit], y=hit_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges)
                             # 2D tracks with valid hit
@@ -1339,10 +1340,6 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # Per chunk
                             count_tracks_with_hit_2d_hist_chunk = count_tracks_with_hit_2d_hist
                     else:
-                        # 2D tracks
-                        count_tracks_2d_hist_tmp = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
-                        # Per chunk
-                        count_tracks_2d_hist_chunk = count_tracks_2d_hist_tmp
                         if np.any(select_valid_hit):  # Check for valid hits
                             count_tracks_with_hit_2d_hist_tmp = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges)[0]
                             # 2D hits
@@ -1415,7 +1412,6 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # updated last:
                             # 2D tracks with valid hit
                             count_tracks_with_hit_2d_hist += count_tracks_with_hit_2d_hist_tmp
-                        count_tracks_2d_hist += count_tracks_2d_hist_tmp
                     if in_cluster_file_h5:
                         # get 2D indices (without overflow bins)
                         binnumber = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges, expand_binnumbers=True).binnumber
@@ -1475,6 +1471,9 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     pbar.update(tracks_chunk.shape[0])
                 pbar.close()
 
+                if initialize:
+                    raise RuntimeError('All efficiencies for DUT%d are zero, consider changing cut values!' % actual_dut_index)
+
                 # Calculate efficiency
                 stat_2d_efficiency_hist = np.full_like(count_tracks_2d_hist, fill_value=np.nan, dtype=np.float64)
                 stat_2d_efficiency_hist[count_tracks_2d_hist != 0] = count_tracks_with_hit_2d_hist[count_tracks_2d_hist != 0].astype(np.float64) / count_tracks_2d_hist[count_tracks_2d_hist != 0].astype(np.float64) * 100.0
-- 
2.43.0


From d416480201b8c0014b7ee9cac3e4bab37e8bf7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 31/34] fix: calculate_efficiency could not handle None inside
 of tuples for resolutions and cut distances

---
 beam_telescope_analysis/result_analysis.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 62e5f38..aa2274c 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -821,10 +821,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                 resolution = resolutions[index]
                 if resolution is None:
                     resolution = actual_dut.pixel_size
-                if resolution[0] is None:
-                    resolution[0] = actual_dut.pixel_size[0]
-                if resolution[1] is None:
-                    resolution[1] = actual_dut.pixel_size[1]
+                resolution = [pitch if value is None else value for value, pitch in zip(resolution, actual_dut.pixel_size)]
                 extend_area = extend_areas[index]
 
                 # select cluster shapes for analysis
@@ -867,10 +864,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     in_pixel_resolution = in_pixel_resolutions[index]
                     if in_pixel_resolution is None:
                         in_pixel_resolution = list(map(min, zip(resolution, [pitch / 10.0 for pitch in actual_dut.pixel_size])))
-                    if in_pixel_resolution[0] is None:
-                        in_pixel_resolution[0] = min(resolution[0], actual_dut.pixel_size[0] / 10.0)
-                    if in_pixel_resolution[1] is None:
-                        in_pixel_resolution[1] = min(resolution[1], actual_dut.pixel_size[1] / 10.0)
+                    in_pixel_resolution = [min(resolution[i], actual_dut.pixel_size[i] / 10.0) if value is None else value for i, value in enumerate(in_pixel_resolution)]
                     # generate hists for each region
                     efficiency_regions_efficiencies = []
                     efficiency_regions_efficiencies_chunk = []
@@ -1065,10 +1059,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     cut_distance = cut_distances[index]
                     if cut_distance is None:
                         cut_distance = (np.inf, np.inf)
-                    if cut_distance[0] is None:
-                        cut_distance[0] = np.inf
-                    if cut_distance[1] is None:
-                        cut_distance[1] = np.inf
+                    cut_distance = [np.inf if value is None else value for value in cut_distance]
 
                     # Select data where distance between the hit and track is smaller than the given value
                     select_valid_hit = np.isfinite(hit_x_local)
-- 
2.43.0


From 871c8aaec154d6c273ceb9222b09aa50a9d5ad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 32/34] fix: numpy.unravel_index has no argument dims any more,
 calculate_efficiency failed with cluster files

---
 beam_telescope_analysis/result_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index aa2274c..911435b 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1418,10 +1418,10 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # actual_tracks = np.repeat(tracks_chunk[select_valid_hit][selected_indices], tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit][selected_indices])
                             # expand size of index array so that the length matches the cluster array
                             actual_bin_center_indices = np.repeat(tracks_with_hits_to_bin_center_index[selected_indices], tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit][selected_indices])
-                            actual_bin_center_col_row_pair = np.column_stack(np.unravel_index(actual_bin_center_indices, dims=(count_pixel_hits_2d_hist.shape[0], count_pixel_hits_2d_hist.shape[1])))
+                            actual_bin_center_col_row_pair = np.column_stack(np.unravel_index(actual_bin_center_indices, shape=(count_pixel_hits_2d_hist.shape[0], count_pixel_hits_2d_hist.shape[1])))
                             # get the corresponding pixel center for each track
                             actual_pixel_center_indices = bin_center_to_pixel_center[actual_bin_center_indices]
-                            actual_pixel_center_col_row_pair = np.column_stack(np.unravel_index(indices=actual_pixel_center_indices, dims=(actual_dut.n_columns, actual_dut.n_rows)))
+                            actual_pixel_center_col_row_pair = np.column_stack(np.unravel_index(indices=actual_pixel_center_indices, shape=(actual_dut.n_columns, actual_dut.n_rows)))
                             # get the corresponding cluster hits
                             actual_cluster_hits_col_row_pair = np.column_stack((actual_cluster_hits['column'] - 1, actual_cluster_hits['row'] - 1))
                             # calculate the relative index
-- 
2.43.0


From a7d9156e1ad9b0e214c953949322a74d2f50fbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:49 +0000
Subject: [PATCH 33/34] fix: calculate_efficiency divided by zero for
 efficiency regions without tracks or hits in a chunk

---
 beam_telescope_analysis/result_analysis.py | 31 ++++++++++++----------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 911435b..39c5da6 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1143,11 +1143,14 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             select_valid_tracks_efficiency_region &= intersection_y_local > min(region[1])
                             select_valid_tracks_efficiency_region &= intersection_y_local < max(region[1])
 
-                            # Moving average
-                            efficiency_regions_efficiencies[region_index] = (efficiency_regions_efficiencies[region_index] * efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region])) / (efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region))
-                            efficiency_regions_stat[region_index] = efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region)
-                            # Per chunk
-                            efficiency_regions_efficiencies_chunk[region_index] = np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region]) / np.count_nonzero(select_valid_tracks_efficiency_region)
+                            if np.any(select_valid_tracks_efficiency_region):  # Check for tracks in region
+                                # Moving average
+                                efficiency_regions_efficiencies[region_index] = (efficiency_regions_efficiencies[region_index] * efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region])) / (efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region))
+                                efficiency_regions_stat[region_index] = efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region)
+                                # Per chunk
+                                efficiency_regions_efficiencies_chunk[region_index] = np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region]) / np.count_nonzero(select_valid_tracks_efficiency_region)
+                            else:
+                                efficiency_regions_efficiencies_chunk[region_index] = np.nan
                             if efficiency_regions_count_1d_charge_hist[region_index] is None:
                                 efficiency_regions_count_1d_charge_hist[region_index] = np.bincount(charge[select_valid_tracks_efficiency_region & select_valid_hit].astype(np.int64))
                             else:
@@ -1175,23 +1178,23 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 else:
                                     efficiency_region_count_1d_cluster_size_hist_tmp.resize(efficiency_regions_count_1d_cluster_size_hist[region_index].size, refcheck=False)
                                 efficiency_regions_count_1d_cluster_size_hist[region_index] += efficiency_region_count_1d_cluster_size_hist_tmp
-                            if efficiency_regions_count_1d_total_angle_hist[region_index] is None:
-                                local_total_mean = np.nanmean(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                local_total_std = np.nanstd(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
+                            if efficiency_regions_count_1d_total_angle_hist[region_index] is None or not np.any(efficiency_regions_count_1d_total_angle_hist[region_index]):
+                                local_total_mean = np.nan_to_num(np.nanmean(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit]))
+                                local_total_std = np.nan_to_num(np.nanstd(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit]))
                                 efficiency_regions_count_1d_total_angle_hist[region_index], efficiency_regions_count_1d_total_angle_hist_edges[region_index] = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_total_mean - 5 * local_total_std, local_total_mean + 5 * local_total_std))
                             else:
                                 efficiency_region_count_1d_total_angle_hist_tmp = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_total_angle_hist_edges[region_index])[0]
                                 efficiency_regions_count_1d_total_angle_hist[region_index] += efficiency_region_count_1d_total_angle_hist_tmp
-                            if efficiency_regions_count_1d_alpha_angle_hist[region_index] is None:
-                                local_alpha_mean = np.nanmean(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                local_alpha_std = np.nanstd(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
+                            if efficiency_regions_count_1d_alpha_angle_hist[region_index] is None or not np.any(efficiency_regions_count_1d_alpha_angle_hist[region_index]):
+                                local_alpha_mean = np.nan_to_num(np.nanmean(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit]))
+                                local_alpha_std = np.nan_to_num(np.nanstd(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit]))
                                 efficiency_regions_count_1d_alpha_angle_hist[region_index], efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_alpha_mean - 5 * local_alpha_std, local_alpha_mean + 5 * local_alpha_std))
                             else:
                                 efficiency_region_count_1d_alpha_angle_hist_tmp = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_alpha_angle_hist_edges[region_index])[0]
                                 efficiency_regions_count_1d_alpha_angle_hist[region_index] += efficiency_region_count_1d_alpha_angle_hist_tmp
-                            if efficiency_regions_count_1d_beta_angle_hist[region_index] is None:
-                                local_beta_mean = np.nanmean(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                local_beta_std = np.nanstd(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
+                            if efficiency_regions_count_1d_beta_angle_hist[region_index] is None or not np.any(efficiency_regions_count_1d_beta_angle_hist[region_index]):
+                                local_beta_mean = np.nan_to_num(np.nanmean(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit]))
+                                local_beta_std = np.nan_to_num(np.nanstd(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit]))
                                 efficiency_regions_count_1d_beta_angle_hist[region_index], efficiency_regions_count_1d_beta_angle_hist_edges[region_index] = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_beta_mean - 5 * local_beta_std, local_beta_mean + 5 * local_beta_std))
                             else:
                                 efficiency_region_count_1d_beta_angle_hist_tmp = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_beta_angle_hist_edges[region_index])[0]
-- 
2.43.0


From 68cd77a59e1f4e7db094d108219a1854cdcc2930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:25 +0000
Subject: [PATCH 34/34] fix: numpy does not build arrays from lists of
 different lengths any more, voronoi_finite_polygons_2d and
 calculate_efficiency failed

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 719e9cc..8f0df7d 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -1154,7 +1154,7 @@ def voronoi_finite_polygons_2d(points, dut_extent=None):
     ridge_vertices_with_vertex_inside_sel &= np.all(np.isin(vor_ridge_vertices, vertices_indices_inside), axis=1)
     ridge_vertices_indices_with_vertex_inside = np.where(ridge_vertices_with_vertex_inside_sel)[0]
     # TODO: remove not used vertices and update indices lists
-    return vor.points, np.array(vor.regions)[new_regions_indices].tolist(), vor_ridge_vertices[ridge_vertices_indices_with_vertex_inside].tolist(), vor.vertices
+    return vor.points, np.array(vor.regions, dtype=object)[new_regions_indices].tolist(), vor_ridge_vertices[ridge_vertices_indices_with_vertex_inside].tolist(), vor.vertices
 
 
 def polygon_area(x, y):
-- 
2.43.0

