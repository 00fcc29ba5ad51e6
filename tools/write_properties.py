#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
B = 'beam_telescope_analysis/'
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[B + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'observe_at': observe} if observe else {}), **({'state': state} if state else {}))))

p('C01', 'Chunked event reading loses, repeats or splits no event',
  'Reading an event-sorted table in chunks returns consecutive, non-empty row blocks in table order, no longer than the chunk size, that together are exactly the rows of the requested event and row range, and each reported index is the table row right after its block. All rows of one event are in the same block. If some event is too big for the chunk size an error is raised instead of a partial or silent result.',
  ['inputs', 'configurations'], 'every event-sorted table, every chunk size, every start/stop event number and row range',
  'The tests read a handful of fixture tables with one chunk size (and those fixtures are missing here); where a chunk boundary falls relative to an event boundary is an input dimension they do not sample.',
  ['tools/analysis_utils.py'], [('data_aligned_at_events', 'tools/analysis_utils.py')], ['the (block, index) pairs produced by the chunk iterator'])
p('C02', 'Event-number intersection and membership on sorted arrays are exact',
  'For two sorted event-number arrays, the common-event list contains every event number that occurs in both exactly once in rising order and nothing else, and the membership mask is true at exactly those positions of the first array whose event number occurs in the second. No array is read or written outside its bounds, also when an array is empty.',
  ['inputs'], 'all pairs of sorted 64-bit event arrays of any length, with repeats, negative numbers and empty arrays included',
  'Tests compare two fixed arrays; the scan pointer logic depends on the relative position of every pair of elements.',
  ['cpp/AnalysisFunctions.h', 'cpp/analysis_functions.pyx', 'tools/analysis_utils.py'],
  [('getEventsInBothArrays', 'cpp/AnalysisFunctions.h'), ('in1d_sorted', 'cpp/AnalysisFunctions.h'), ('get_events_in_both_arrays, in1d_events', 'tools/analysis_utils.py')])
p('C03', 'Maximum-multiplicity event merge is exact',
  'Merging two sorted event-number arrays yields the sorted array in which every event number occurs as often as in the array where it occurs more often. The result buffer is never overrun and no array is read outside its bounds.',
  ['inputs'], 'all pairs of sorted 64-bit event arrays of any length and multiplicity, empty arrays included',
  'One example in the tests; the two-pointer scan with finish flags has many orderings of the last events.',
  ['cpp/AnalysisFunctions.h', 'cpp/analysis_functions.pyx', 'tools/analysis_utils.py'],
  [('getMaxEventsInBothArrays', 'cpp/AnalysisFunctions.h'), ('get_max_events_in_both_arrays', 'tools/analysis_utils.py')])
p('C04', 'Index histograms count every entry exactly once in the right bin',
  'A one-, two- or three-dimensional index histogram has in every bin exactly the number of entries with that index tuple, so the bin sum equals the number of entries. An index outside the histogram shape, or an overflowing bin, raises an error and never writes outside the histogram.',
  ['inputs'], 'all index arrays and histogram shapes whose bin count is addressable',
  'Tests histogram random in-range data of one shape; out-of-range indices, unequal axis lengths and bin overflow are not reached.',
  ['cpp/AnalysisFunctions.h', 'cpp/analysis_functions.pyx', 'tools/analysis_utils.py'],
  [('histogram_1d/2d/3d', 'cpp/AnalysisFunctions.h'), ('hist_1d_index, hist_2d_index, hist_3d_index', 'tools/analysis_utils.py')])
p('C05', 'Event-wise merging and correlation use every pair of one event and no other',
  'Merging two event-sorted tables by event number yields exactly one row pair for every combination of rows with equal event number, in table order, and correlating two event-sorted hit lists adds exactly one entry per such combination to the right histogram cell. Correlating hits over a range of events counts exactly the pairs whose event distance is between one and the range.',
  ['inputs'], 'all pairs of event-sorted arrays with any multiplicities and gaps',
  'No surviving test covers these loops; permutation counts depend on multiplicity patterns of both arrays.',
  ['tools/analysis_utils.py'], [('merge_on_event_number', 'tools/analysis_utils.py'), ('correlate_position_on_event_number', 'tools/analysis_utils.py'), ('correlate_hits_on_event_range', 'tools/analysis_utils.py')])
p('C06', 'Cluster-to-event mapping keeps every cluster in its own event',
  'Mapping clusters onto an event list puts the k-th cluster of an event into the k-th slot of that event as an unchanged row and leaves every slot without such a cluster untouched, so no cluster is duplicated or moved to another event. When the event list has as many slots per event as the detector with most clusters, no cluster is lost.',
  ['inputs'], 'all event-sorted cluster tables and all sorted event lists',
  'One fixed example in the tests.',
  ['tools/analysis_utils.py', 'hit_analysis.py'], [('map_cluster', 'tools/analysis_utils.py'), ('merge_cluster_data', 'hit_analysis.py')])
p('C07', 'Event-range selection returns exactly the rows in the range',
  'Selecting rows with start <= event number < stop returns exactly those rows, in their original order, for sorted and unsorted tables. An omitted bound does not restrict that side.',
  ['inputs'], 'all tables and all combinations of start and stop event number',
  'The surviving tests do not call it; bounds before, inside and after the data and omitted bounds are separate code paths.',
  ['tools/analysis_utils.py'], [('get_data_in_event_range', 'tools/analysis_utils.py')])
p('C08', 'Local/global position transforms are inverse rigid motions',
  'For every detector plane, transforming positions from local to global coordinates and back returns the original positions, and in either direction distances between points are unchanged; the local origin maps to the plane position. A translation or rotation given explicitly is used in place of the stored one, and local positions off the plane (z not 0) are rejected when the stored alignment is used.',
  ['inputs', 'configurations'], 'all positions, translations and rotation angles, all detector types, any array length',
  'Tests check a few random angles and points numerically; they do not cover the override arguments nor general angles.',
  ['telescope/dut.py', 'tools/geometry_utils.py'], [('local_to_global_position, global_to_local_position', 'telescope/dut.py'), ('global_to_local_transformation_matrix, local_to_global_transformation_matrix, apply_transformation_matrix', 'tools/geometry_utils.py')])
p('C09', 'Pixel index and local position map onto each other and stay in the sensor',
  'For every pixel detector, converting a column/row index to a local position and back returns the index, an index maps to the centre of its pixel with the pixel matrix centred on the origin, and extents are the outer matrix edges. Indices or positions outside the pixel matrix, by however little, raise an error.',
  ['inputs', 'configurations'], 'all index and position values, pixel sizes and matrix sizes, all detector classes with a regular pixel grid',
  'The surviving tests do not test detector classes at all.',
  ['telescope/dut.py'], [('index_to_local_position, local_position_to_index, x_extent, y_extent, z_extent', 'telescope/dut.py')])
p('C10', 'Rotation matrices are proper rotations and Euler angles recover them',
  'The rotation matrix of any three angles is orthogonal with determinant one and equals the rotation about x, then y, then z. The Euler angles computed from any rotation matrix reproduce that matrix, also at gimbal lock, and a matrix that is not a rotation is rejected.',
  ['inputs'], 'all angle triples and all rotation matrices',
  'Tests check axis-aligned angles; gimbal lock and out-of-range angles are not exercised.',
  ['tools/geometry_utils.py'], [('rotation_matrix, rotation_matrix_x/y/z, euler_angles', 'tools/geometry_utils.py')])
p('C11', 'Line-plane intersections lie on the line and on the plane',
  'The intersection computed for a line and a plane, or for a line and a detector, lies on both for every line not parallel to the plane. For a parallel line the result is not-a-number, without an error and without affecting the other lines.',
  ['inputs'], 'all lines, planes and detector orientations, any number of lines',
  'No surviving test covers it; parallel lines raise instead of giving the documented result.',
  ['tools/geometry_utils.py'], [('get_line_intersections_with_plane, get_line_intersections_with_dut', 'tools/geometry_utils.py')])
p('C12', 'Cartesian and spherical coordinates convert back and forth',
  'Converting any cartesian point to spherical coordinates and back returns the point; the radius is its length, theta lies in [0, pi] and phi in [0, 2 pi). Spherical coordinates outside these ranges are rejected.',
  ['inputs'], 'all points of space, points on the axes and coordinate planes included',
  'The tests sample points on a grid that omits the x = 0 half-planes.',
  ['tools/geometry_utils.py'], [('cartesian_to_spherical, spherical_to_cartesian', 'tools/geometry_utils.py')])
p('C13', 'In-pixel positions are congruent to the position and inside the cell',
  'Mapping a local position to the primitive cell of a detector gives a position inside [0, cell size) in both directions that differs from the distance to the matrix edge by a whole number of cells, where the cell is the documented number of pixels of that detector type.',
  ['inputs', 'configurations'], 'all positions, pixel sizes, matrix sizes and detector types',
  'No test covers it.',
  ['telescope/dut.py'], [('map_to_primitive_cell', 'telescope/dut.py')])
p('C14', 'Track finding only permutes hits within one event and detector',
  'Track finding assigns to the track candidates of an event, for every detector, exactly the hits of that event and detector: no hit is lost, duplicated or moved to another event or detector, and all columns of a hit stay together. Each candidate carries a hit flag that has a detector bit set if and only if it holds a hit of that detector.',
  ['inputs'], 'all merged hit tables, numbers of detectors, missing hits and hit positions',
  'The tests compare against stored tables (missing here); the sorting is a data-dependent recursive swap.',
  ['track_analysis.py'], [('_find_tracks_loop, _find_tracks, find_tracks', 'track_analysis.py')])
p('C15', 'Isolation flags mark exactly the tracks or hits with a close neighbour',
  'A row is flagged as non-isolated exactly if another row of the same event with a finite position lies within the configured distance in both directions (or within the ellipse), and rows of different events never influence each other.',
  ['inputs'], 'all event-sorted arrays, positions (missing ones included) and distances',
  'Pair relations inside events of arbitrary multiplicity are not sampled by the tests.',
  ['track_analysis.py'], [('_find_small_distance', 'track_analysis.py')])
p('C16', 'Kalman extrapolation stays on the track line and its Jacobian is exact',
  'Extrapolating a track state from one detector plane to another gives the point where the same straight line meets the target plane, with the same direction expressed in the target frame. The Jacobian used for error propagation is the exact derivative of that extrapolation.',
  ['inputs', 'configurations'], 'all track states and all relative positions and orientations of the two planes for which the line meets the target plane',
  'Tests only see final chi2 distributions of a full fit.',
  ['tools/kalman.py'], [('_extrapolate_state, _calculate_track_jacobian, _calculate_scatter_gain_matrix', 'tools/kalman.py')])
p('C17', 'Kalman filter and smoother steps implement the estimator exactly',
  'Each prediction, correction and smoothing step returns the state, covariance and chi-square of the Kalman filter equations for its inputs, and every track of a chunk is treated independently of the others. A plane without a measurement leaves the prediction unchanged and contributes no chi-square.',
  ['inputs'], 'all states, covariances, measurements and numbers of tracks, with any pattern of missing hits',
  'A numerical end-to-end comparison cannot distinguish formula errors from noise; missing-hit patterns are not enumerated.',
  ['tools/kalman.py'], [('_filter_predict_f/_b, _filter_correct, _mat_mul, _vec_mul, _vec_vec_mul, _mat_trans, smooth', 'tools/kalman.py')])
p('C18', 'A telescope configuration survives saving and loading',
  'Saving a telescope and loading it again gives the same telescope: the same detectors with the same types and attribute values under the same numbers, and the same telescope alignment. Saving with preservation of other content keeps all unrelated content of the file, and detectors reject changes of attributes that are not theirs to change.',
  ['configurations', 'histories'], 'all telescopes of any number, type and attribute values of detectors',
  'The tests load fixed configurations only.',
  ['telescope/telescope.py', 'telescope/dut.py'], [('save_configuration, load_configuration, add_dut', 'telescope/telescope.py'), ('attribute setters', 'telescope/dut.py')])
p('C19', 'Applying an alignment and its inverse restores all positions',
  'Applying the alignment to a hit or track file transforms every detector position with that detector\'s alignment (and the beam alignment if requested) and changes nothing else, row for row; directions are rotated only, errors of track files are rotated and made positive. Applying the inverse afterwards restores all positions, offsets and slopes.',
  ['inputs', 'configurations'], 'all hit files, all alignments, both directions, with and without beam alignment',
  'Tests run on missing fixture files with one geometry.',
  ['dut_alignment.py'], [('apply_alignment', 'dut_alignment.py')])
p('C20', 'Cluster shape codes and bit counts are exact',
  'Encoding any 8x8 pixel pattern as a cluster shape number and decoding it returns the pattern, different patterns have different numbers, and the bit count of a 32-bit word is its number of set bits.',
  ['inputs'], 'all 2^64 pixel patterns and all 2^32 words',
  'The domain is far beyond enumeration; tests use none of these functions.',
  ['tools/analysis_utils.py'], [('xy2d_morton, morton_1, d2xy_morton, calculate_cluster_shape, calculate_cluster_array, number_of_set_bits', 'tools/analysis_utils.py')])
p('C21', 'Track selection keeps exactly the tracks that pass the configured flags',
  'Selecting tracks with required, forbidden, quality and isolation flags keeps exactly the tracks whose flags satisfy the selection for the detector, with unchanged content and in order.',
  ['inputs', 'configurations'], 'all flag words of a track and all combinations of selection settings',
  'Tests cover one setting on a missing fixture.',
  ['tools/data_selection.py'], [('select_tracks', 'tools/data_selection.py')])
p('C22', 'Alignment corrections are applied and weighted exactly',
  'Applying alignment corrections to a detector composes the correction rotation with the stored rotation (correction applied in the frame of the detector) and adds the correction shift, so the result is again a proper rotation and zero corrections change nothing. The Jacobian that weights a track is the derivative of its local position in the detector with respect to exactly these corrections. Parameters with zero uncertainty are never changed by a track, and the update is the weighted least-squares (Kalman) update of the parameters.',
  ['inputs', 'configurations'], 'all corrections, rotations, track states and parameter covariances',
  'Only end-to-end alignment residuals are tested, within tolerances.',
  ['dut_alignment.py'], [('_update_alignment, _create_karimaki_delta, _combine_karimaki, _calculate_alignment_parameters, _jacobian_alignment, _calculate_annealing', 'dut_alignment.py')])
p('C23', 'Track angles are invariant under scaling and match the track direction',
  'The track angles with respect to the detector depend only on the line of the track, not on the length or the orientation of its direction vector (a track points in the positive z direction). The total angle is the angle between track and detector normal and the two projected angles are the signed angles of the projections onto the detector planes.',
  ['inputs'], 'all non-degenerate track directions and all orthonormal detector frames',
  'Angles are only plotted in the tests.',
  ['result_analysis.py'], [('get_angles', 'result_analysis.py')])
p('C24', 'Track result rows stay aligned with their tracks',
  'In the stored track table every row holds offset, slope, chi-square, flags and hit information of one and the same track candidate, and exactly the candidates selected for storage appear, in order.',
  ['inputs', 'configurations'], 'all track candidate tables, selections, fit results and numbers of detectors',
  'Column mix-ups between detectors or rows only show for particular selections that the tests do not sample.',
  ['track_analysis.py'], [('store_track_data, create_results_array', 'track_analysis.py')])
p('C25', 'Combining and reducing event files keeps events whole and distinct',
  'Combining files keeps every row of every input in order and shifts event numbers so that events of different files never collide, and limiting a file to a number of events keeps whole events only, unchanged and in order, and never more than that number of distinct events; processed in one chunk, it keeps exactly that number (or all when there are fewer), and with several chunks the last one is used to fill up to the limit as far as its events allow.',
  ['inputs', 'configurations'], 'all input files, offsets, event limits and chunk sizes',
  'No test covers these functions.',
  ['tools/data_selection.py'], [('combine_files, reduce_events', 'tools/data_selection.py')])
p('C26', 'Index lookup and neighbour search helpers are exact',
  'Looking up the positions of one array\'s values in another returns exactly the matching positions (or the fill value), and the closest-value search returns an index whose value is nearest to each query.',
  ['inputs'], 'all arrays of unique values (sorted where demanded) and all queries, queries beyond the ends included',
  'No test covers these functions.',
  ['tools/analysis_utils.py'], [('in1d_index, find_closest', 'tools/analysis_utils.py')])
p('C27', 'Shuffling simulated hits permutes hits within their event only',
  'Randomising the hit order of simulated data returns, for every event, exactly the hits of that event in some order.',
  ['inputs', 'configurations'], 'all event structures, hit data and random seeds',
  'No test checks this.',
  ['tools/simulate_data.py'], [('shuffle_event_hits', 'tools/simulate_data.py')])
p('C28', 'Hit coordinate conversion changes coordinates only and is reversible',
  'Converting a hit file from pixel index to local position keeps every row, its order and all other columns, and gives each hit the centre of its pixel; converting the result back returns the original pixel indices.',
  ['inputs', 'configurations'], 'all hit files, detector types and chunk sizes',
  'No test covers it.',
  ['hit_analysis.py'], [('convert_coordinates', 'hit_analysis.py')])
p('C29', 'Noisy pixel masking marks only and all pixels above threshold',
  'The noisy pixel mask marks exactly the pixels whose occupancy exceeds the configured threshold over their neighbourhood, never a pixel without hits, and masked pixels stay masked in later iterations.',
  ['inputs', 'configurations'], 'all occupancy maps, thresholds, filter sizes and iteration counts',
  'Tests use missing fixtures.',
  ['hit_analysis.py'], [('mask_pixels', 'hit_analysis.py')])
p('C30', 'Parallel chunk processing gives the sequential result',
  'Processing a table in parallel chunks writes the same output, in the same order, as processing it in one piece, for every scheduling of the worker processes.',
  ['schedules', 'inputs'], 'all interleavings of reader, workers and writer, all tables and chunk sizes',
  'Schedules cannot be sampled exhaustively.',
  ['tools/smc.py'], [('SMC', 'tools/smc.py')])
p('C31', 'Hit clustering groups adjacent hits and conserves charge and hits',
  'Every unmasked hit belongs to exactly one cluster of its event, clusters are the groups of hits connected within the configured distances, and cluster size, charge and charge-weighted position follow from its hits.',
  ['inputs', 'configurations'], 'all hit files and clustering settings',
  'Compared with one stored result only.',
  ['hit_analysis.py'], [('cluster_hits', 'hit_analysis.py')])
p('C32', 'Efficiency is the fraction of tracks with a matching hit',
  'The efficiency per bin is the number of selected tracks with an associated hit within the cut distance divided by the number of selected tracks in the bin, so it lies in [0, 1] and every track is counted in exactly one bin.',
  ['inputs', 'configurations'], 'all track files and binning, cut and region settings',
  'Compared with one stored result only.',
  ['result_analysis.py'], [('calculate_efficiency', 'result_analysis.py')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
