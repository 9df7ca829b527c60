"""The properties, in words."""

NOTE = ("Held on the executions of this run (see the evidence for what the oracle judged); says nothing about inputs the "
        "generators do not reach. Trusts numpy, the reference model in vlib/ref.py and the stated domain.")


def define(P, pkg):
    P("C01", "Projection follows the refracted light path and inverts ray tracing",
      "For every calibrated camera outside a flat wall and every point in the fluid seen at less than 60 degrees "
      "incidence (the camera in the thinnest medium), the projected flat image coordinates are those of the light path that obeys the law of refraction at both "
      "faces of the wall, to 0.001 length units at the point; a wall of several layers refracts at each face. With one layer, the ray traced back from those coordinates passes through the point. "
      "Distorted coordinates are the lens distortion of the flat ones, and array versions equal the scalar ones row by row.",
      ["inputs", "configurations"],
      "all camera poses and rolls, wall orientations and distances, wall thickness and refractive indices (one layer), focal lengths, and points in the fluid",
      "the tests pin a handful of cameras, nearly all with an axis-aligned wall and mostly against stored numbers; the guarantee is over a continuum of geometries",
      pkg("imgcoord", "multimed", "ray_tracing", "trafo", "calibration"),
      [("radial shift iteration", "multimed.fast_multimed_r_nlay"), ("transform to wall coordinates", "multimed.fast_trans_cam_point / fast_back_trans_point"),
       ("collinearity", "imgcoord.flat_image_coord"), ("ray tracing", "ray_tracing.fast_ray_tracing")],
      ["flat_image_coord", "img_coord", "flat_image_coordinates", "image_coordinates", "ray_tracing"],
      "runtime oracle: every projection judged against an independent bisection solver of Snell's law, and a round-trip monitor", NOTE)
    P("C02", "A traced ray obeys the law of refraction at both wall faces",
      "For every image point whose ray meets the wall, ray tracing returns a unit direction and a point on the wall's inner face, "
      "both those of the path refracted by Snell's law at the two faces, staying in the plane of incidence; with one index throughout the path is a straight line through the camera. "
      "Moving along the ray to a given depth gives the point of that ray at that depth, and single-camera positioning gives the one at mid depth of the volume.",
      ["inputs", "configurations"],
      "all image points, camera poses, wall orientations, thicknesses and index triples without total reflection, including rays normal to the wall",
      "two cameras with stored numbers are tested; nothing tests the law itself, the normal ray or tilted walls",
      pkg("ray_tracing", "multimed", "epi"),
      [("ray tracing", "ray_tracing.fast_ray_tracing"), ("depth", "multimed.move_along_ray"), ("2D positioning", "epi.epi_mm_2D")],
      ["ray_tracing", "move_along_ray", "epi_mm_2D"],
      "runtime oracle: every ray judged against the vector form of Snell's law", NOTE)
    P("C03", "Pixel, metric and distortion conversions are exact mutual inverses",
      "Pixel and metric sensor coordinates convert by x = (px - imx/2) pix_x, y = (imy/2 - py) pix_y and back without loss, alike for points and for arrays. "
      "Distortion is the documented Brown-affine formula, and for distortions of up to a few percent correcting a distorted point (with or without the principal point shift) gives back the point within the tolerance asked for. "
      "No conversion modifies its input.",
      ["inputs", "configurations"],
      "all sensor sizes and pixel pitches, all pixels including borders and outside, all distortion parameter sets of realistic strength with scaling and shear",
      "the tests use a few hand-picked points and mostly one non-zero coefficient at a time",
      pkg("trafo"),
      [("pixel/metric", "trafo.pixel_to_metric, metric_to_pixel, arr_*"), ("distortion", "trafo.distort_brown_affine, correct_brown_affine"),
       ("principal point", "trafo.flat_to_dist, dist_to_flat")],
      ["pixel_to_metric", "metric_to_pixel", "arr_pixel_to_metric", "arr_metric_to_pixel", "distort_brown_affine", "correct_brown_affine", "flat_to_dist", "dist_to_flat"],
      "runtime oracle: reference formulas and round-trip monitors", NOTE)
    P("C04", "A calibration object is consistent, independent of others and comparable",
      "After any history of public setters, copies and recalculations every getter returns the last value set, and setting angles or recalculating makes the rotation matrix the proper orthonormal one of the angles. "
      "A calibration never shares state with another calibration, with the arrays it was given or made of or with what its getters gave out, nor changes unless it is told to. "
      "Two calibrations compare equal exactly when pose, interior, glass and distortion are equal.",
      ["histories", "inputs"],
      "all sequences of setter, copy and rotation calls on several objects made of any numbers, all angles including gimbal lock and many turns",
      "tests call each setter once on a fresh object; aliasing and staleness only show over histories",
      pkg("calibration"),
      [("setters and getters", "calibration.Calibration.set_*/get_*"), ("rotation", "calibration.rotation_matrix, Calibration.set_rotation_matrix"), ("comparison", "calibration.compare_*")],
      ["Calibration", "rotation_matrix", "compare_calibration", "compare_exterior", "compare_interior", "compare_glass", "compare_addpar"],
      "runtime oracle: random call histories checked step by step against a shadow model", NOTE,
      ["Calibration.ext_par", "Calibration.int_par", "Calibration.glass_par", "Calibration.added_par"])
    P("C05", "Calibration files keep a calibration to their printed precision",
      "Writing a calibration to its ori and addpar files and reading them back gives the same calibration to the printed precision of each field, with a rotation matrix that belongs to the angles; writing what was read reproduces the files byte for byte, and the ori file may be written alone. "
      "Files laid out by other tools (spacing, exponents, blank lines) read the same, and a missing addpar gives no distortion. "
      "A missing ori file is refused, and writing does not change the calibration.",
      ["inputs", "histories"],
      "all calibrations with magnitudes from 1e-9 to 1e6, all three readers and writers, files that already exist",
      "the tests read the few stored files and write one back",
      pkg("calibration"),
      [("ori files", "calibration.write_ori, read_ori, read_calibration"), ("methods", "calibration.Calibration.from_file, write")],
      ["Calibration.from_file", "Calibration.write", "read_calibration", "write_calibration", "read_ori", "write_ori"],
      "runtime oracle: round-trip monitor over generated files", NOTE)
    P("C06", "Stereo positions are where the refracted rays meet",
      "The position of a point imaged by two or more cameras is the mean of the midpoints between all pairs of its refracted rays and its convergence measure their mean distance, for every row of an array; for exact image points the position is the true point and the measure zero. "
      "Unused cameras and the order of cameras do not matter, and a single camera gives the mid-depth point of its ray. "
      "Dumbbell precision is the mean measure plus the weighted mean relative length error.",
      ["inputs", "configurations"],
      "all sets of two to six cameras behind one flat wall, all subsets of cameras used, all image points (rays of a pair crossing at more than 0.02 rad), any number of points",
      "the tests triangulate one or two points with four stored cameras and never more than the first row of an array",
      pkg("orientation", "ray_tracing", "epi"),
      [("pairs of rays", "orientation.skew_midpoint, point_position"), ("arrays", "orientation.point_positions, multi_cam_point_positions, single_cam_point_positions"),
       ("dumbbell", "orientation.weighted_dumbbell_precision")],
      ["point_position", "point_positions", "skew_midpoint", "weighted_dumbbell_precision", "dumbbell_target_func"],
      "runtime oracle: positions judged against rays traced by an independent reference and against the true points", NOTE)
    P("C07", "Multimedia table and volume extents agree with exact refraction",
      "Making a multimedia table, once or again for another volume, changes neither the calibration nor any projection; inside the table, which reaches all that the image corners see at the extreme depths, its factor is the exact refracted-path factor to interpolation accuracy, outside it there is none, and no position makes it fail. "
      "The volume extents are the smallest box holding the given one and what every camera's image corners see at the two extreme depths.",
      ["inputs", "configurations", "histories"],
      "all cameras in front of a wall facing them, media, volumes, one or two table constructions, positions in, on the edges of and beyond the table; one to four cameras",
      "one camera, one volume and two positions are tested, never an edge; volume extents are not tested at all",
      pkg("multimed", "imgcoord"),
      [("table", "multimed.init_mmlut"), ("lookup", "multimed.get_mmf_from_mmlut, multimed_r_nlay, multimed_nlay"), ("extents", "multimed.volumedimension")],
      ["init_mmlut", "get_mmf_from_mmlut", "multimed_r_nlay", "multimed_nlay", "volumedimension", "image_coordinates"],
      "runtime oracle: factors judged against a bisection solver of the refracted path, extents against reference-traced corner rays", NOTE,
      ["Calibration.mmlut", "Calibration.mmlut_data"])
    P("C08", "Epipolar lines and the candidate search along them are exact",
      "The ends of an epipolar line, and every point of an epipolar curve, are the images in the second camera of the refracted ray at the depths of the observed volume, so a particle seen by both cameras lies on its line. "
      "The candidates of a target are exactly the first 40, in x order, of the listed targets inside the line's window, nearer to it than eps0 and similar enough in size and brightness, with their distance and score, for target lists of any length. "
      "Neither calibrations nor targets are modified.",
      ["inputs", "configurations"],
      "all pairs of cameras behind a wall (views within 45 degrees of the axis, 60 degrees incidence), level and sloping volumes; lists of up to 20479 targets, with ties; lines of all slopes",
      "a few lines between stored cameras and lists of about a dozen targets are tested; the binary search only fails in long lists",
      pkg("epi", "find_candidate", "multimed", "trafo"),
      [("lines", "epi.epi_mm, epi_mm_2D, epipolar_curve"), ("search", "find_candidate.find_candidate"), ("start of the search", "find_candidate.find_start_point_binary"),
       ("similarity", "find_candidate.quality_ratio")],
      ["epi_mm", "epipolar_curve", "find_candidate", "find_start_point", "quality_ratio"],
      "runtime oracle: lines judged against reference-traced rays, searches against brute force", NOTE)
    P("C09", "Correspondences are the best disjoint sets of mutually consistent targets",
      "The candidate list of each target holds the candidates on its epipolar line, with their score and distance; a match is a set of targets, at most one per camera, of which all pairs are in those lists and whose score (sum of scores over sum of distances) exceeds corrmin. "
      "Matches are taken best score first, quadruplets before triplets before pairs (only targets with a single candidate pair, and nothing below a full set when all cameras are required), and no target is in two. "
      "Counts, target back references and the arrays for the user say exactly which matches were taken, for two to four cameras; with one camera every target is its own match.",
      ["inputs", "configurations"],
      "all sets of two to four cameras, target lists with missing, spurious and noisy targets in any order, matched before or not, all thresholds, and the all-cameras flag",
      "one four-camera grid with a perfect match is tested; competing cliques, missing targets and other numbers of cameras are not",
      pkg("correspondences", "find_candidate", "epi", "tracking_frame_buf"),
      [("candidate lists", "correspondences.match_pairs"), ("cliques", "correspondences.four_camera_matching, three_camera_matching, consistent_pair_matching"),
       ("selection", "correspondences.take_best_candidates"), ("user arrays", "correspondences.py_correspondences, single_cam_correspondence")],
      ["correspondences", "match_pairs", "py_correspondences", "Target.tnr"],
      "runtime oracle: matches judged by invariants and by a clique enumeration over the observed candidate lists", NOTE)
    P("C10", "Every unambiguously imaged particle is matched and placed where it is",
      "A particle seen by at least two cameras, whose images have no other candidates, becomes one match of exactly the cameras that see it, and no match joins images of different particles. "
      "The positions computed from the matches are those of the particles, to the accuracy of the images. "
      "On the way the flat coordinates of each target are sorted, one per target, and can be looked up by target number.",
      ["inputs", "configurations"],
      "all scenes of two to four cameras behind a wall with up to 30 particles in random subsets of the views, with exact or slightly noisy images",
      "the tests match one grid seen by all four cameras, and never go from images to positions",
      pkg("correspondences", "tracking_frame_buf", "orientation", "trafo"),
      [("flat coordinates", "tracking_frame_buf.match_coords, get_by_pnrs, matched_coords_as_arrays"), ("matching", "correspondences.correspondences"), ("positions", "orientation.point_positions")],
      ["match_coords", "correspondences", "py_correspondences", "point_positions", "get_by_pnrs", "matched_coords_as_arrays"],
      "runtime oracle: ground truth scenes", NOTE)
    P("C11", "Target recognition reports every bright region once, exactly, and nothing else",
      "The targets of an image are, in reading order, the regions that grow from a local maximum above the threshold of that camera by 4-connected steps which neither rise nor border a rise of more than the discontinuity, within the searched part less a one-pixel border, whose pixel count, extents and grey sum are within the limits. "
      "Each has the count, extents and sum above threshold of its region and its centre weighted by grey value above threshold (pixel centres at half integers), so an isolated spot is found once, within a quarter pixel. "
      "No pixel serves two targets, the image is not modified, and a searched part larger than the image is refused.",
      ["inputs", "configurations"],
      "all 8-bit images (plateaus, ties, saturated areas, shapes at borders, tens of thousands of dots), all thresholds, discontinuities, limits and searched parts",
      "the tests find one or two square blobs in tiny images",
      pkg("segmentation"),
      [("recognition", "segmentation.target_recognition, targ_rec, fast_targ_rec")],
      ["target_recognition"],
      "runtime oracle: recognised targets judged against an independent region-growing model and against known spots", NOTE)
    P("C12", "Image filters compute what they say and leave the input alone",
      "Preparing an 8-bit image takes its background, the box average of the asked half width (zero beyond the border), out of it and then applies the second filter asked for: none, a 3x3 average, or the 3x3 matrix of a file. "
      "The 3x3 filters, box blur, subtraction (never below zero), masking and copying give the exact result for every pixel including the border. "
      "No input is modified, and images that are not 8-bit and unusable filter files are refused.",
      ["inputs", "configurations"],
      "all 8-bit images of any size and content, all half widths, all normalised 3x3 kernels and layouts of their file",
      "one 5x5 image is filtered in the tests, and only its middle is looked at",
      pkg("image_processing"),
      [("preparation", "image_processing.prepare_image, preprocess_image"), ("filters", "image_processing.filter_3, lowpass_3, fast_box_blur, subtract_img, subtract_mask, copy_images")],
      ["prepare_image", "preprocess_image", "filter_3", "lowpass_3", "fast_box_blur", "subtract_img", "subtract_mask"],
      "runtime oracle: every filtered image judged against integer reference filters", NOTE)
    P("C13", "Known points get the nearest detection, and the files that hold them are read",
      "For every known point the sorted list holds a copy of the detection nearest to where the point projects, numbered with the point, if one lies inside the box of the given radius around that place, and the unused marker otherwise or when the place is further outside the image than the radius. "
      "Detections, points and calibration are left as they were, and no two entries are one object. "
      "Calibration block, manual orientation and radius files are read row by row as they are laid out, and missing or unusable ones give no points or the default radius.",
      ["inputs", "configurations"],
      "all cameras, bodies of known points inside and outside the image, detections in any order with ties, clutter and gaps, all radii, all number formats and spacings of the files",
      "the tests sort one detection with one stored camera, and read one block",
      pkg("sortgrid", "orientation"),
      [("sorting", "sortgrid.sortgrid, nearest_neighbour_pix"), ("files", "sortgrid.read_calblock, read_sortgrid_par, orientation.read_man_ori_fix")],
      ["sortgrid", "match_detection_to_ref", "nearest_neighbour_pix", "read_calblock", "read_man_ori_fix"],
      "runtime oracle: every entry judged against an exhaustive nearest neighbour, files by an own writer", NOTE)
    P("C14", "Calibration recovers the camera and moves only what it is told to",
      "From a start a few degrees and percent off, a full calibration that converges fits the detected points as well as the true camera does, and for exact detections without flags finds its pose; it either reports failure and leaves the calibration untouched or returns, for exactly the targets it used, the differences between projection and detection, with the standard deviation of unit weight. "
      "Interior, distortion and glass parameters without their flag stay exactly as they were, and points without a detection or excluded by the use flag have no influence. "
      "The first guess from four or more points gives the pose that projects onto them, leaves interior and glass alone and sets no distortion.",
      ["inputs", "configurations"],
      "all cameras behind a wall, bodies of 16 to 60 points spread in depth, every flag alone and common combinations, adjustable wall, exact and noisy detections, missing detections and hopeless ones",
      "the tests calibrate one stored camera back to itself with a single flag and loose tolerances",
      pkg("orientation", "sortgrid", "imgcoord", "calibration"),
      [("adjustment", "orientation.orient, num_deriv_exterior"), ("first guess", "orientation.raw_orient, external_calibration"), ("report", "orientation.full_calibration")],
      ["full_calibration", "external_calibration", "orient", "match_detection_to_ref"],
      "runtime oracle: recovery of known cameras, frame condition on unflagged parameters, residuals recomputed from the result", NOTE)
    P("C15", "Parameters survive files, YAML and dictionaries, and comparison sees every field",
      "Every parameter class reads its legacy file line by line in the documented order, for any number format and spacing, and gives exactly the values in it; a file that breaks off is refused. "
      "Writing to YAML or to a dictionary and back gives an equal object and changes neither the object nor the dictionary, then or when the other changes later. "
      "Comparison is true exactly for equal values, setters change what they name and getters return it, objects share no state, and layers of unequal number are refused.",
      ["inputs", "histories"],
      "all values of all fields of ten parameter classes, all layouts of their files, sequences of setter calls",
      "the tests read one stored file per class and compare one or two fields",
      pkg("parameters"),
      [("classes", "parameters.*Par.from_file, to_yaml, from_yaml, to_dict, from_dict"), ("comparison", "parameters.compare_*"), ("writers", "parameters.write_target_par, PftVersionPar.write")],
      ["SequencePar", "TrackPar", "VolumePar", "ControlPar", "MultimediaPar", "TargetPar", "OrientPar", "CalibrationPar", "ExaminePar", "PftVersionPar"],
      "runtime oracle: field-by-field model of every object and its files", NOTE)
    P("C16", "Target and path files give back what was written",
      "Targets written for a camera and a frame are read back with all their numbers exact and their position to four decimals, particles with all links, priorities and targets exact and their position to three decimals, for any number of rows including none, and for every way of naming the files. "
      "Writing makes just the files of that frame, with as many rows as their header says, reports failure when it cannot, and changes neither the data nor other files. "
      "Reading a file that is missing or breaks off never gives rows that are not in it.",
      ["inputs", "configurations", "histories"],
      "all target lists and linked particles, spare entries in the buffers, all frame numbers and base names, files with other spacing and number formats, missing and broken-off files",
      "the tests round-trip two targets and read one stored frame",
      pkg("tracking_frame_buf"),
      [("targets", "tracking_frame_buf.read_targets, write_targets"), ("particles", "tracking_frame_buf.read_path_frame, write_path_frame")],
      ["read_targets", "write_targets", "read_path_frame", "write_path_frame"],
      "runtime oracle: own parser and writer of the files, directory snapshots", NOTE)
    P("C17", "The frame buffer is a ring of frames over the files of the sequence",
      "Advancing moves every frame one place towards the start and brings the first to the end, stepping back undoes it; reading replaces the last frame by what was written last under that number (without its links if not asked for), writing stores the first one, and no operation touches another frame or file. "
      "The positions are those of the particles in order and the target positions those of their targets in a camera, undefined where there is none. "
      "Reading a frame of which a file is missing is reported; a new buffer's frames share nothing.",
      ["histories", "configurations"],
      "all histories of advancing, stepping back, reading, writing and changing frames, on buffers of 2 to 6 frames and 1 to 4 cameras, with and without priority files",
      "the tests read one frame and never advance a buffer outside a tracking run",
      pkg("tracking_frame_buf"),
      [("ring", "tracking_frame_buf.FrameBufBase.fb_next, fb_prev, push, pop"), ("frames", "tracking_frame_buf.Frame.read, write, positions, target_positions_for_camera"), ("buffer", "tracking_frame_buf.FrameBuf.read_frame_at_end, disk_read_frame_at_end, write_frame_from_start")],
      ["FrameBuf", "Frame", "fb_next", "fb_prev", "read_frame_at_end", "write_frame_from_start", "positions", "target_positions_for_camera"],
      "runtime oracle: model of the ring and of the disk, compared after every operation", NOTE)
    P("C18", "Tracked frames stay whole: links are mutual, nothing read is lost or altered",
      "After every forward tracking step and in the files it leaves, links are one to one and known to both frames, the first frame has no predecessors and the last no successors, and particles, targets and correspondences that were read are unchanged and in place. "
      "Particles are added only if asked for, after those read, inside the volume, from at least two targets of different cameras that no particle had, and each target belongs to one particle at most. "
      "The files of every frame hold what the frame held, under its own number, and the run's sums are those of the particles and links.",
      ["histories", "inputs", "configurations"],
      "all sequences of two frames and more, also as part of longer ones, 2 to 4 cameras, all kinds of motion and clutter, all bounds, with and without adding and priority files",
      "the tests track three stored sequences and look at numbers of particles and links",
      pkg("track", "tracking_run", "tracking_frame_buf"),
      [("steps", "track.track_forward_start, trackcorr_c_loop, trackcorr_c_finish"), ("adding", "track.add_particle"), ("sums and volume", "tracking_run.TrackingRun")],
      ["track_forward_start", "trackcorr_c_loop", "trackcorr_c_finish", "add_particle", "TrackingRun", "tr_new"],
      "runtime oracle: invariants of the ring judged after every step, own reading of the files at the end", NOTE)
    P("C19", "Forward tracking links the particles the documented criteria select",
      "Every step links each particle to the candidate of least cost among those whose continuation or past fits the bounds of velocity, angle and acceleration, a conflict goes to the lower cost, and particles are added where the criteria allow; the decision value kept with a link is the cost it was chosen by. "
      "Angle and acceleration are those of the predicted and the found displacement, defined also for resting and collinear particles, and bounds are strict. "
      "Particles well apart on smooth paths are all linked, each to itself.",
      ["histories", "inputs", "configurations"],
      "all sequences of frames with 2 to 4 cameras, all motions, bounds and clutter; steps in which two choices are equal within rounding are left out",
      "the tests compare the number of links of three stored sequences",
      pkg("track", "tracking_run"),
      [("decisions", "track.trackcorr_c_loop"), ("rules", "track.angle_acc, pos3d_in_bounds, search_volume_center_moving, predict, sort"), ("parameters", "tracking_run.tr_new")],
      ["trackcorr_c_loop", "angle_acc", "pos3d_in_bounds", "search_volume_center_moving", "predict", "sort", "tr_new"],
      "runtime oracle: model of the tracking decisions run beside the code step by step, and ground truth of the simulated particles", NOTE)
    P("C20", "Candidate search finds exactly the nearest targets in the search window",
      "A search of a list of targets sorted by y, of any length, returns the up to four nearest targets that belong to a particle, or the nearest that belongs to none, strictly inside the window and the image, and none if the centre is off the image. "
      "Candidates of several cameras are ranked by the number of cameras that found them, each once, and those of fewer than two are dropped while there are better ones. "
      "The window of a search volume holds the images of all its points that are on the image.",
      ["inputs", "configurations"],
      "all sorted target lists up to 40000 targets including none, all windows and centres, all tables of candidates of up to 4 cameras",
      "the tests search lists of a handful of targets",
      pkg("track"),
      [("search", "track.candsearch_in_pix, candsearch_in_pix_rest"), ("ranking", "track.sort_candidates_by_freq, sorted_candidates_in_volume"),
       ("window", "track.searchquader"), ("new positions", "track.assess_new_position")],
      ["candsearch_in_pix", "candsearch_in_pix_rest", "register_closest_neighbs", "sort_candidates_by_freq", "sorted_candidates_in_volume", "searchquader", "assess_new_position"],
      "runtime oracle: searches over the whole list", NOTE)
    P("C21", "Calls are pure: arguments stay, the same call gives the same, nothing is shared",
      "A call to the numerical interface changes nothing but what it is documented to fill, gives the same result when it is made again, at once or after other work, follows every change of the objects it is given, and a result does not change when later calls are made. "
      "A tracking run over the same files, run again, run over its own results or alternating with another run in the same process, leaves the same files and sums, and the parameters and cameras it was given as they were.",
      ["histories", "inputs"],
      "all sequences of calls of the workloads of the other properties, with their arguments and results watched; pairs of tracking runs of any kind",
      "tests make one call on fresh objects; leftover state, aliasing and modified inputs show only over histories of calls",
      pkg("imgcoord", "multimed", "ray_tracing", "trafo", "epi", "orientation", "correspondences", "segmentation", "image_processing", "track", "tracking_run", "tracking_frame_buf", "sortgrid", "vec_utils"),
      [("kernels", "multimed, ray_tracing, trafo, epi, correspondences"), ("tables", "calibration.Calibration.mmlut, multimed.init_mmlut"), ("tracking", "tracking_run.TrackingRun, tracking_frame_buf.FrameBuf")],
      ["every function the other monitors call"],
      "runtime monitor: snapshots of arguments and results around every call, repeated calls and repeated runs", NOTE)
    P("C22", "Kernels stay inside their arrays and use no memory nobody wrote",
      "No kernel reads or writes outside the arrays it is given or has made, neither beyond the end nor wrapped round below the start, and no result or outcome depends on memory that nobody wrote. "
      "Compiled kernels and the same code interpreted agree.",
      ["inputs", "configurations"],
      "all inputs of the workloads of the other properties, in builds of the kernels with every index checked and with unwritten memory filled with chosen bytes",
      "numba kernels check no index: a read beyond the end gives whatever is there, and the tests pass or fail by accident of memory layout",
      pkg("correspondences", "multimed", "ray_tracing", "trafo", "segmentation", "image_processing", "orientation", "track", "tracking_frame_buf", "epi", "vec_utils"),
      [("kernels", "every @njit function"), ("buffers", "correspondences.safely_allocate_adjacency_lists, tracking_frame_buf.Frame, multimed.init_mmlut")],
      ["every function the other monitors call"],
      "sanitizers: bounds-checked compilation, index instrumentation by a rewriting import hook, poisoned memory; judged by the oracles of the other properties", NOTE)
    P("C23", "Calls in several threads on objects of their own do not disturb each other",
      "Work done by several threads at once, each on objects and files of its own, gives every thread what it would get alone: projection, positioning, table making, correspondence, segmentation, calibration, reading and writing, tracking. "
      "No such call fails, crashes the process or hangs because others are running.",
      ["schedules", "inputs"],
      "all interleavings of the calls of 4 to 12 threads, of the same and of different kinds, that share no object and no file",
      "the tests are single-threaded; scratch space shared between calls shows only under particular schedules",
      pkg("multimed", "ray_tracing", "trafo", "imgcoord", "orientation", "correspondences", "segmentation", "image_processing", "track", "tracking_frame_buf", "epi"),
      [("kernels", "every @njit function"), ("objects", "calibration.Calibration, tracking_run.TrackingRun, tracking_frame_buf.FrameBuf")],
      ["every function the other monitors call"],
      "thread stress with perturbed switching, judged by the oracles of the other properties run alone", NOTE)
    P("C24", "Tracking back extends paths at their start and changes nothing else",
      "Tracking back over linked frames keeps every link there is and gives a predecessor only to particles that start a path, by the documented criteria; links stay one to one and mutual and paths are joined only if they fit. "
      "Particles, targets and correspondences of every frame are kept under the frame's own number, and added particles come after them from at least two unused targets, only if asked for. "
      "A link missing in a smooth path of a well separated particle is restored, and the result is the average number of predecessors.",
      ["histories", "inputs", "configurations"],
      "all linked sequences of at least 2 frames, whatever links are missing, with and without adding, results of forward tracking included",
      "the tests run it on two stored sequences and compare the average number of links",
      pkg("track", "tracking_frame_buf"),
      [("tracking back", "track.trackback_c"), ("adding", "track.add_particle, assess_new_position"), ("frames", "tracking_frame_buf.FrameBuf.read_frame_at_end")],
      ["trackback_c"],
      "runtime oracle: files before and after, a model of the decisions, and the truth where links were cut", NOTE)
    P("C25", "From images to trajectories: what is in the scene is what is in the files",
      "Particles imaged as spots well apart, without a second candidate on their epipolar lines, come out of recognition, matching, positioning, files and tracking as themselves: one target per camera, one match, the right position, and one unbroken path of mutual links, whatever cameras, sequence, naming and image size. "
      "The same holds with cameras that were calibrated from images of a body of known points. "
      "Target numbers, back references, correspondences, positions and links say the same at every stage and in the files, and tracking back changes none of it.",
      ["inputs", "configurations", "histories"],
      "all scenes of particles that leave no doubt, rigs of two to four cameras behind a flat wall, sequences of at least 4 frames",
      "the tests look at each stage with stored inputs of its own; conventions that have to agree between stages (pixel centres, axes, numbering, sorting, units, file precision) are never followed through",
      pkg("segmentation", "trafo", "imgcoord", "multimed", "epi", "find_candidate", "correspondences", "orientation", "sortgrid", "tracking_frame_buf", "tracking_run", "track"),
      [("recognition", "segmentation.target_recognition"), ("matching", "correspondences.py_correspondences"), ("positions", "orientation.point_positions"),
       ("files", "tracking_frame_buf.write_path_frame, write_targets"), ("tracking", "track.trackcorr_c_loop, trackback_c"), ("calibration", "sortgrid.sortgrid, orientation.full_calibration")],
      ["results of each stage", "rt_is, ptv_is and target files"],
      "end-to-end monitor against the scene the images were rendered from, with optics and sensor model of its own", NOTE)
    P("C26", "Records compare, sort, copy and reset whole; vector helpers are exact",
      "Two targets, path records or correspondence lists are equal exactly if all their fields are, however small the difference. Sorting matches, coordinates or targets gives the same records, whole, in order of the key; copying or resetting candidate records, registering link candidates and setting parts of a target touch just the part named, and new records share nothing with old ones. "
      "The vector helpers give the exact result to rounding, in memory of its own, and leave their arguments alone.",
      ["inputs", "histories"],
      "all finite vectors of any layout in memory, all records and single-field differences, arrays of any size with ties, sequences of changes to a record",
      "the tests look at one or two records and vectors of small whole numbers; a field left out of a comparison or a row torn apart by a sort needs the right difference to show",
      pkg("vec_utils", "tracking_frame_buf", "epi", "track"),
      [("vectors", "vec_utils"), ("comparison", "tracking_frame_buf.compare_targets, compare_path_info, compare_corres"), ("sorting", "tracking_frame_buf.quicksort_n_tupel, sort_target_y, epi.sort_coord2d_x, sort_coord2d_y"),
       ("candidates", "track.copy_foundpix_array, reset_foundpix_array, tracking_frame_buf.Pathinfo.register_link_candidate, reset_links")],
      ["the functions named", "Target, Pathinfo, Corres records"],
      "runtime oracle: extended-precision arithmetic and field-by-field models of the records", NOTE)
