SAMPLED = (
    "Sampling: a clean run is evidence over the seeded histories the evidence file counts, "
    "not a proof. "
)

prop(
    "S01",
    "An acknowledged target list is read back whole",
    "When writing the targets of a camera and frame reports success, reading that camera and frame "
    "returns exactly the targets that were to be written (as many as asked, in order, with every "
    "field and the stored precision), however many other cameras, frames and name patterns were "
    "written, overwritten, failed or crashed before and after. They are in the file that the pattern "
    "and frame name, as other programs read it. A write on a healthy disk succeeds, "
    "and a read under a disk fault either fails or returns the whole list.",
    ["histories", "crash_points", "fault_sequences", "inputs"],
    "every history of reads and writes, over cameras, frame numbers and the supported file name "
    "patterns (printf conversion, '#', none), list lengths from 0 up, and every fault or crash "
    "inside an operation",
    "The tests write one list of two targets and read the shipped samples; they never overwrite, "
    "mix name patterns, write none or fewer than given, or fail in between.",
    ["tracking_frame_buf.py"],
    [("read_targets, write_targets and the shared file name", "tracking_frame_buf.py")],
    ["read_targets", "write_targets"],
    note=SAMPLED + "Disk model: writes are in place, in order, and survive the process; a crash "
    "stops the process at any raw operation or inside one.",
)
prop(
    "S02",
    "An acknowledged tracking frame is read back whole",
    "When writing a frame (positions, correspondences, links, priorities, and the targets of its "
    "cameras) reports success, reading it returns the same particles in the same order with every "
    "field at the stored precision, and the same targets, whatever was read, written, failed or "
    "crashed around it. Reading without links or without priorities returns the documented "
    "defaults for those fields and everything else unchanged. The files of links and priorities repeat "
    "links and positions alike, for other programs.",
    ["histories", "crash_points", "fault_sequences", "inputs"],
    "every history of frame reads and writes over frame numbers, 0 to 4 cameras, with and without "
    "priorities, particle counts from 0 up, with faults and crashes inside operations",
    "The tests read one shipped frame and write another; no history, no empty frame, no fault.",
    ["tracking_frame_buf.py"],
    [
        ("read_path_frame, write_path_frame", "tracking_frame_buf.py"),
        ("Frame.read, Frame.write", "tracking_frame_buf.py"),
    ],
    ["read_path_frame", "write_path_frame", "Frame.read", "Frame.write"],
    note=SAMPLED + "Same disk model as S01.",
)
prop(
    "S03",
    "A damaged frame is never taken for a complete one",
    "When a file of a tracking frame or of its targets is missing, cut short, has lost lines, holds "
    "zeros, or doesn't hold as many entries as its files promise, reading the frame reports failure "
    "instead of returning particles or targets that were never written. What was readable before "
    "the damage to another frame stays readable.",
    ["crash_points", "fault_sequences"],
    "every prefix a crash in a write can leave, and every cut, loss, zero-fill and mix of files of "
    "different frames",
    "Tests only read intact files; crash points are never reached.",
    ["tracking_frame_buf.py"],
    [
        ("read_path_frame, read_targets refuse truncated files", "tracking_frame_buf.py"),
        ("Frame.read reports failure", "tracking_frame_buf.py"),
        ("FrameBuf.disk_read_frame_at_end reports failure", "tracking_frame_buf.py"),
    ],
    ["read_path_frame", "read_targets", "Frame.read", "FrameBuf.read_frame_at_end"],
    note=SAMPLED + "A file cut inside its last number or before its last newline can't be told from "
    "a complete one by its format; there only the values before the cut are checked.",
)
prop(
    "S04",
    "A write that failed is never acknowledged and hurts nothing else",
    "When the disk fails while targets, frames, calibrations or parameters are written, the call "
    "either reports failure or what it acknowledged is on the disk. Files of other cameras, "
    "frames and parameter sets keep their content, and the same write succeeds once the fault is gone.",
    ["fault_sequences", "crash_points"],
    "every open, write and close that a writer makes, every error (no space, I/O error, quota, "
    "no permission, no descriptors), at every byte",
    "No test makes a write fail.",
    ["tracking_frame_buf.py", "calibration.py", "parameters.py"],
    [
        ("write_targets, write_path_frame, Frame.write", "tracking_frame_buf.py"),
        ("FrameBuf.write_frame_from_start", "tracking_frame_buf.py"),
        ("write_ori, write_calibration, Calibration.write", "calibration.py"),
        ("to_yaml, PftVersionPar.write, write_target_par", "parameters.py"),
    ],
    ["the return value or exception of each writer", "the files it leaves"],
    note=SAMPLED,
)
prop(
    "S05",
    "A calibration written is the calibration read",
    "A calibration that was written successfully is read back with the same position, angles (and "
    "the rotation matrix that belongs to them), principal point, glass vector and, when stored, "
    "added parameters, at the stored precision, by every reader. Its files are independent of those "
    "of other cameras and of earlier, failed or interrupted writes that were followed by it, and hold "
    "these numbers in the usual order for other programs.",
    ["histories", "crash_points", "fault_sequences", "inputs"],
    "every history of calibration writes and reads over several cameras, with and without added "
    "parameters, by every writer and reader, with faults and crashes inside operations",
    "The tests round-trip one calibration once.",
    ["calibration.py"],
    [("read_ori, write_ori", "calibration.py"), ("Calibration.from_file, write", "calibration.py")],
    ["read_calibration", "Calibration.from_file", "read_ori"],
    note=SAMPLED,
)
prop(
    "S06",
    "Parameters written are the parameters read",
    "A parameter set that was written (as YAML, or in the legacy format where a writer exists) is "
    "read back with every field equal and of the same kind, for every parameter class, also through "
    "a dictionary. Writing one parameter set changes no other one.",
    ["histories", "crash_points", "fault_sequences", "inputs"],
    "every history of parameter writes and reads, over every parameter class and every field value, "
    "with faults and crashes inside operations",
    "The tests round-trip few classes with one set of values.",
    ["parameters.py"],
    [("to_yaml, from_yaml, to_dict, from_dict", "parameters.py"), ("write, from_file", "parameters.py")],
    ["from_yaml", "from_dict", "from_file"],
    note=SAMPLED,
)
prop(
    "S07",
    "Input that is lost or torn is reported, never made up",
    "Reading a parameter file, calibration, calibration block, or list of fixed points that is "
    "missing, empty, cut short, zero-filled or hits a read error ends with an exception or failure "
    "value, never with values that weren't in the file. An intact file is read with its values, also "
    "after an earlier read failed.",
    ["crash_points", "fault_sequences", "inputs"],
    "every parameter, calibration and calibration-target file format, every prefix and every lost "
    "line, every open or read error",
    "The tests read intact files and a few missing ones.",
    ["parameters.py", "calibration.py", "orientation.py"],
    [
        ("from_file of the parameter classes", "parameters.py"),
        ("read_ori, Calibration.from_file", "calibration.py"),
        ("read_calblock, read_man_ori_fix", "orientation.py"),
    ],
    ["values or exceptions of the readers"],
    note=SAMPLED + "A file cut inside its last value can't be told from a complete one.",
)
prop(
    "T01",
    "The frame buffer moves frames and changes none",
    "A frame held in the tracking frame buffer keeps its particles, links and targets through every "
    "move of the buffer, and through reads, writes and failures that concern other frames. Reading "
    "at the end fills the last slot with what the disk holds, writing from the start writes the "
    "first slot, and moving forward and back returns every frame to its place.",
    ["histories", "fault_sequences"],
    "every sequence of reads, writes and moves, over buffer lengths, 1 to 4 cameras, with disk faults",
    "One test does one read and one move on a healthy disk.",
    ["tracking_frame_buf.py"],
    [("FrameBuf.fb_next, fb_prev, read_frame_at_end, write_frame_from_start", "tracking_frame_buf.py")],
    ["FrameBuf.buf"],
    note=SAMPLED,
)
WORLD = (
    "Scenes: 2 to 4 cameras looking through a glass into a tank (or through air), up to 5 particles "
    "plus phantoms, 4 to 7 frames; the projection is computed independently of the library. "
)
prop(
    "T02",
    "Tracking leaves links that are mutual, one-to-one and within bounds",
    "After forward tracking, in every stored frame each next link names an existing particle of the "
    "next frame whose previous link names this particle, and the other way round; the first frame "
    "has no previous and the last no next links; and no link spans a displacement beyond the "
    "velocity bounds of the tracking parameters by more than twice the acceleration bound.",
    ["histories", "fault_sequences", "inputs"],
    "every sequence of frames that detection and matching can leave, with missed detections, failed "
    "matches, dark cameras, ghosts, phantoms, particles entering and leaving",
    "Tests track two shipped sequences and count links.",
    ["track.py", "tracking_run.py"],
    [("trackcorr_c_loop, trackcorr_c_finish", "track.py"), ("track_forward_start", "track.py")],
    ["ptv_is files", "rt_is files"],
    note=SAMPLED + WORLD,
)
prop(
    "T03",
    "Tracking loses, moves and invents nothing",
    "Forward tracking leaves every particle and every target of every frame as it was, under the "
    "same number; all files of a frame agree on the particles. With adding off the number of "
    "particles stays. With adding on, each added particle comes after them, is seen by at least two "
    "cameras, uses only targets that no other particle uses, each by one particle, and lies where "
    "its targets are.",
    ["histories", "fault_sequences", "inputs"],
    "every sequence of frames as in T02, with and without adding particles",
    "Tests count particles on shipped sequences and don't compare frames before and after.",
    ["track.py", "tracking_frame_buf.py"],
    [
        ("add_particle, assess_new_position", "track.py"),
        ("FrameBuf.write_frame_from_start", "tracking_frame_buf.py"),
    ],
    ["rt_is, ptv_is, added and target files"],
    note=SAMPLED + WORLD + "An added particle may be 8 pixels off its targets.",
)
prop(
    "T04",
    "Tracking is repeatable: restarts and other runs don't change it",
    "Tracking a stored sequence leaves the same bytes each time: when repeated on its own result, "
    "when another sequence is tracked in turns with it in the same process, and when it crashed "
    "(losing at most the frame being written) and was started again; also when followed by backward "
    "tracking.",
    ["schedules", "crash_points", "histories"],
    "every interleaving of the steps of two runs, every crash point in and between steps",
    "Tests run one tracker, once, to its end.",
    ["track.py", "tracking_run.py", "tracking_frame_buf.py"],
    [("TrackingRun", "tracking_run.py"), ("trackcorr_c_loop", "track.py"), ("FrameBuf", "tracking_frame_buf.py")],
    ["all files of a sequence"],
    note=SAMPLED + WORLD + "Restart and repeat are checked without adding particles, which changes "
    "the input of the next run.",
)
prop(
    "T05",
    "Tracking stops at a disk fault and keeps what it finished",
    "When a frame can't be read or written, forward and backward tracking report it instead of going "
    "on; the frames finished before are as a fault-free run leaves them, those after are untouched, "
    "and running again once the fault is gone (and the torn frame put back) succeeds with the "
    "result of a fault-free run.",
    ["fault_sequences", "histories"],
    "every open, read, write and close of a tracking run and every error there, and every missing or "
    "torn frame",
    "No test makes the disk fail while tracking.",
    ["track.py", "tracking_frame_buf.py"],
    [
        ("trackcorr_c_loop, trackback_c", "track.py"),
        ("FrameBuf.read_frame_at_end, write_frame_from_start", "tracking_frame_buf.py"),
    ],
    ["exceptions of the tracking functions", "all files of a sequence"],
    note=SAMPLED + WORLD,
)
prop(
    "T06",
    "Backward tracking closes gaps and changes nothing else",
    "Backward tracking of a linked sequence leaves particles, targets, priorities and existing links "
    "as they were, in every frame under its own number. It only joins a particle without previous "
    "to one without next, mutually, where the displacement is within the velocity bounds and the "
    "path deviates by less than the acceleration bound; and it does so wherever exactly one "
    "particle can close a gap, well within the limits.",
    ["histories", "fault_sequences", "inputs"],
    "every linked sequence that forward tracking or another tracker can leave, with links lost "
    "anywhere, under the faults of T02",
    "Tests count the links of one shipped sequence after tracking back.",
    ["track.py"],
    [("trackback_c", "track.py")],
    ["rt_is, ptv_is, added and target files"],
    note=SAMPLED + WORLD + "That backward tracking adds no particles, even with adding on, is how "
    "it is implemented (here and in the C library) and is part of what is checked.",
)
prop(
    "T07",
    "Tracking links by evidence, and follows what is unambiguous",
    "Forward tracking makes a link only where the frames justify it: the displacement continues the "
    "path so far within the acceleration and angle bounds, or a particle of the following frame does, "
    "or unmatched detections in two cameras are where it leads. Where several links are possible, "
    "the one that clearly fits best (small, smooth, seen by many cameras) is made. A particle that exactly one particle of the next "
    "frame can continue, well within the limits, is linked to it, whatever ghosts, missed "
    "detections, dark cameras or other particles are around.",
    ["histories", "fault_sequences", "inputs"],
    "every scene of moving, accelerating, resting and passing particles, with crowds of ghosts and the "
    "faults of T02",
    "Tests compare link counts on shipped sequences with what the code gave before.",
    ["track.py"],
    [
        ("trackcorr_c_loop", "track.py"),
        ("candsearch_in_pix, candsearch_in_pix_rest", "track.py"),
        ("sort_candidates_by_freq", "track.py"),
        ("angle_acc", "track.py"),
    ],
    ["ptv_is files"],
    note=SAMPLED + WORLD + "Links into the last frame, for which no following frame exists, must be "
    "made when the path so far predicts them, but may be made without evidence.",
)
prop(
    "T08",
    "Particles out of each other's reach are tracked independently",
    "When the particles and detections of a sequence fall into groups that are out of each other's "
    "reach in every camera and frame, each group comes out of forward and backward tracking (links, "
    "priorities, positions, added particles and the detections they take) exactly as if the others "
    "weren't there.",
    ["histories", "fault_sequences", "inputs"],
    "every scene of moving particles with missed detections, failed matches, ghosts, phantoms and "
    "dark cameras that splits into groups",
    "Tests track a single shipped sequence, always as a whole.",
    ["track.py", "tracking_frame_buf.py"],
    [
        ("trackcorr_c_loop, trackback_c", "track.py"),
        ("candsearch_in_pix, candsearch_in_pix_rest, sorted_candidates_in_volume", "track.py"),
        ("assess_new_position, add_particle", "track.py"),
    ],
    ["rt_is, ptv_is, added and target files"],
    note=SAMPLED + WORLD + "Reach: three steps of the velocity bounds plus three acceleration bounds.",
)
prop(
    "V01",
    "Every stereo match is consistent, and uses a detection once",
    "Whatever the detectors report, each match that correspondence finds holds one detection in each "
    "of its cameras, pairwise on each other's epipolar lines within the given distance, similar "
    "enough in size and brightness, and above the least correlation; no detection is in two "
    "matches; the counts add up; each target is numbered by its match, or not at all, also when "
    "the same targets are matched again.",
    ["inputs", "histories", "fault_sequences"],
    "every scene of bodies seen by 2 to 4 cameras with noise, ghosts, missed detections and dark "
    "cameras, all matching parameters, and repeated matchings of the same targets",
    "Tests match shipped or made-up scenes of a few clean points once; no ghosts, no missed "
    "detections, nothing dark, never twice.",
    ["correspondences.py", "find_candidate.py", "epi.py"],
    [
        ("correspondences, py_correspondences", "correspondences.py"),
        ("find_candidate", "find_candidate.py"),
        ("epi_mm", "epi.py"),
    ],
    ["result of correspondences and py_correspondences", "targets and their tnr"],
    note=SAMPLED + WORLD,
)
prop(
    "V02",
    "Matching takes the best of the consistent matches",
    "The matches found are those that accepting all consistent ones gives, larger before smaller and "
    "better before worse, each using only detections still free; bodies that nothing can be confused "
    "with are matched in all cameras that see them. The order in which detections are listed plays "
    "no part.",
    ["inputs", "histories", "fault_sequences"],
    "scenes as in V01, with the detections of each camera in any order, as long as no two choices "
    "are equally good",
    "Tests only compare counts for clean scenes; competition between matches doesn't occur in them.",
    ["correspondences.py", "find_candidate.py"],
    [
        ("four_camera_matching, three_camera_matching", "correspondences.py"),
        ("consistent_pair_matching, take_best_candidates", "correspondences.py"),
    ],
    ["result of correspondences"],
    note=SAMPLED + WORLD + "The reference model enumerates all cliques and accepts them greedily; "
    "scenes in which borderline distances or equal qualities leave the result open are only held "
    "to V01.",
)
prop(
    "V03",
    "A position is where the rays of the cameras that see it meet",
    "The position given for a point is the mean of the closest points of the rays of all pairs of "
    "cameras that see it, with their mean distance as its convergence, whatever cameras lost the "
    "point, gave an outlier, or are listed in another order; positions in a batch depend on no "
    "other point of it, exact observations give the true position, and a single camera the point "
    "halfway between the depth limits. Coordinates picked by detection number are those of that "
    "detection. Observations and calibrations stay as they were.",
    ["inputs", "histories", "fault_sequences"],
    "points in and around the tank, 1 to 4 cameras, lost in any cameras but two, with noise and "
    "outliers, positioned alone, in batches, in any order, over histories of calls",
    "Tests position a few points with all cameras, one call each.",
    ["orientation.py", "ray_tracing.py", "tracking_frame_buf.py"],
    [
        ("point_position, point_positions", "orientation.py"),
        ("fast_ray_tracing", "ray_tracing.py"),
        ("epi_mm_2D", "epi.py"),
        ("get_by_pnrs", "tracking_frame_buf.py"),
        ("dumbbell_target_func", "orientation.py"),
    ],
    ["point_position(s)", "get_by_pnrs", "dumbbell_target_func"],
    note=SAMPLED + WORLD,
)
prop(
    "C01",
    "A failed calibration changes nothing, a successful one fits",
    "When a full calibration fails, by contradictory dots, too few iterations, or an error in the "
    "solver or of memory at any point, the camera is exactly as before, and a later attempt gives "
    "what it would have given without the failure. When it succeeds, only the parameters set free "
    "(with interfflag the direction of the glass, not its distance) and the pose have changed, no "
    "camera near it fits the dots better, each residual is the misfit of the dot it is reported "
    "for, dots that aren't to be used have no influence, and exact dots are met and the camera's true "
    "pose and glass found. The dots and flags given stay as they were. An orientation from picked "
    "points that fails likewise changes nothing, and one that succeeds only the pose.",
    ["fault_sequences", "histories", "inputs"],
    "blocks of dots with any lost, all sets of one or two free parameters with values off or not, "
    "all ways to use every other point, walls in all directions, guessed right or tilted, and histories of attempts that fail at any solver call, "
    "inversion or projection",
    "Tests calibrate once, successfully, a shipped or exact setup without lens distortion.",
    ["orientation.py"],
    [
        ("orient, full_calibration", "orientation.py"),
        ("num_deriv_exterior", "orientation.py"),
    ],
    ["full_calibration", "the calibration after it"],
    note=SAMPLED + "One camera, the projection of which is written out independently; the solver and "
    "memory fail by injection where the code calls scipy, numpy and the projection.",
)
prop(
    "C02",
    "Calibration dots are paired with the detections nearest to them",
    "For each dot of a calibration block whose projection falls into the image, pairing gives the "
    "detection nearest to it within the search radius, with all its properties, numbered as the dot, "
    "and an empty one if there is none, in the order of the dots; it doesn't depend on the order of "
    "the detections and changes none of them. From a rough guess and a few picked points, orientation, "
    "pairing and full calibration, repeated, end at the true camera.",
    ["inputs", "histories", "fault_sequences"],
    "blocks of 8 to 30 dots, some lost or out of view, ghosts near and far, detections in any order, "
    "displaced guesses, all search radii, and the sequence of steps from guess to calibration",
    "Tests pair the dots of one shipped image, with few lost, and don't look at the detections given.",
    ["sortgrid.py", "orientation.py"],
    [
        ("sortgrid, nearest_neighbour_pix", "sortgrid.py"),
        ("match_detection_to_ref, external_calibration", "orientation.py"),
    ],
    ["match_detection_to_ref", "external_calibration", "full_calibration"],
    note=SAMPLED + "One camera, projected independently.",
)
prop(
    "M01",
    "A refraction table is complete and right, or as it was",
    "After its table was filled, the refraction shift of a camera for any point it covers is what "
    "refraction gives there, for the camera position, walls and volume of the last filling that "
    "ended, also if the table was filled before for others or a later filling failed halfway; "
    "the points the camera sees within the depth limits are covered; elsewhere the table tells "
    "that it has no value. A copy of a camera has the same table, but its own. Filling a table changes nothing else, and "
    "projections don't depend on it.",
    ["histories", "fault_sequences", "inputs"],
    "histories of filling tables for several cameras, volumes, walls and positions, failures at any "
    "point of the filling, and points all over",
    "Tests fill a table once and read a few points of it.",
    ["multimed.py"],
    [
        ("init_mmlut, get_mmf_from_mmlut", "multimed.py"),
        ("fast_multimed_r_nlay", "multimed.py"),
    ],
    ["get_mmf_from_mmlut", "img_coord"],
    note=SAMPLED + "Values are compared with an independent model to 2e-3 and the iteration limit of "
    "the library; within 2 mm of the camera's axis, where the table has 1, only roughly; the lower "
    "depth limit is taken 2 mm higher, as the table rounds it.",
)
prop(
    "X01",
    "Independent work in one process doesn't interfere",
    "Work on separate data (positions, projections, epipolar lines, matching, forward and backward "
    "tracking in directories of their own, calibration of different cameras, pairing, refraction "
    "tables, target, frame, calibration and parameter files) that shares only cameras and "
    "parameters it reads gives the same results, to the bit, and leaves the same files, in threads "
    "that are switched anywhere as alone in a fresh process. The shared cameras and parameters are "
    "left as they were. Work that is aborted by an exception at any point can be done once more, "
    "with the result it would have had, and disturbs nobody.",
    ["schedules", "crash_points", "histories"],
    "every interleaving of threads between lines of the library, every line work may be aborted "
    "at, and every mix of the kinds of work",
    "The tests run one thing at a time in one thread and never abort anything.",
    ["track.py", "tracking_frame_buf.py", "correspondences.py", "orientation.py", "multimed.py"],
    [("the library keeps no state between calls", "track.py")],
    ["TrackingRun", "correspondences", "point_positions", "full_calibration", "init_mmlut"],
    note=SAMPLED + "Threads switch between lines of the library, not within a line, and without "
    "numba's compilation. A lock the library takes is honoured.",
)
prop(
    "G01",
    "Cameras see points, and look along lines, as optics gives",
    "Whatever the position, direction and lens of a camera, the wall of one or more layers it looks "
    "through and its direction, a point is seen where the ray that is refracted at each surface meets "
    "the sensor, and the line of sight of an image position, the epipolar lines and curves drawn from "
    "it, and the volume a tracking run takes for what the cameras see, are those of that same ray, to the "
    "precision of the documented iterations. Array functions "
    "give what the single ones give for each element. Results depend on what cameras and walls are "
    "when asked, not on what they were before, and asking changes nothing.",
    ["inputs", "histories", "fault_sequences"],
    "all camera arrangements, walls of one to three layers in any direction, points and image "
    "positions, and histories of uses with objects altered in place, turned or exchanged, refraction "
    "tables filled or failed, in between",
    "Tests project a few points through two shipped cameras, one wall, one direction, against values "
    "recorded from the code.",
    ["imgcoord.py", "multimed.py", "ray_tracing.py", "trafo.py", "epi.py"],
    [
        ("flat_image_coord, img_coord, image_coordinates", "imgcoord.py"),
        ("fast_multimed_r_nlay, trans_cam_point, back_trans_point, move_along_ray", "multimed.py"),
        ("volumedimension", "multimed.py"),
        ("fast_ray_tracing", "ray_tracing.py"),
        ("pixel/metric, distort_brown_affine, correct_brown_affine", "trafo.py"),
        ("epi_mm, epi_mm_2D, epipolar_curve", "epi.py"),
    ],
    ["image_coordinates", "img_coord", "ray_tracing", "epi_mm", "epipolar_curve"],
    note=SAMPLED + "Positions on the sensor to 1e-4 mm, sight lines to 1e-7 mm; corrected lens "
    "positions as precise as the documented iteration. Sight lines and epipolar lines with walls of "
    "one layer, as ray tracing documents.",
)
prop(
    "D01",
    "Detection finds every separate bright spot, whole and once",
    "Each connected spot of pixels brighter than the threshold that touches no other one nor the rim, "
    "falls off as the discontinuity allows and meets the limits of size and brightness, gives exactly "
    "one target, with its pixels, extents, brightness and centre; what violates a limit gives none. No "
    "target is made of pixels that are not bright, and no pixel counts in two targets. Camera, "
    "region, order of calls and what lies outside the region don't matter, and the image isn't changed.",
    ["inputs", "histories", "fault_sequences"],
    "rendered pictures of spots of all sizes and contrasts on noise, with hot and dead pixels, rows "
    "and columns, all thresholds, limits and regions, several cameras, and sequences of frames",
    "Tests detect in a few drawn pictures of one or two spots.",
    ["segmentation.py"],
    [("target_recognition, targ_rec", "segmentation.py")],
    ["target_recognition"],
    note=SAMPLED + "Spots that touch each other or the rim are only held to the general claims.",
)
prop(
    "P01",
    "A repeated or resumed evaluation ends with the same, true files",
    "An evaluation of a sequence (detection, matching, positions, tracking, through files) in which "
    "stages fail or crash, are done again, twice, or in another order of frames, leaves the same files "
    "as one done in order on a healthy disk. What these files say agrees with the bodies that moved: "
    "those seen alone are detected, matched, placed and linked as themselves.",
    ["histories", "crash_points", "fault_sequences"],
    "experiments of 2 to 4 cameras and moving bodies, rendered or detected with losses, noise and "
    "ghosts; any order and repetition of stages in fresh processes, with disk faults and crashes at "
    "any raw operation",
    "Tests run single stages on shipped files; the only whole run is compared with recorded counts.",
    ["segmentation.py", "correspondences.py", "orientation.py", "tracking_frame_buf.py", "track.py"],
    [
        ("target_recognition", "segmentation.py"),
        ("match_coords, correspondences", "correspondences.py"),
        ("point_positions", "orientation.py"),
        ("Frame.write, read_path_frame", "tracking_frame_buf.py"),
        ("trackcorr_c_loop", "track.py"),
    ],
    ["target_recognition", "correspondences", "point_positions", "Frame.write", "trackcorr_c_loop"],
    note=SAMPLED + "A crash is one of the process; the script that calls the stages is the harness's.",
)
prop(
    "O01",
    "Cameras and parameters in memory hold what was last set, each its own",
    "A calibration or parameter object returns from its getters and fields what was last put there "
    "by constructor, setter, field, reader or copy; position, angles and rotation matrix stay "
    "consistent; copies, defaults, and files read twice share nothing, so changing one object, or what "
    "a getter returned, changes no other; and comparisons tell whether the compared values agree.",
    ["histories", "fault_sequences"],
    "every history of creating, setting, getting, copying, storing, reading, comparing and altering "
    "calibrations and parameter objects, with failing reads and writes in between",
    "Tests set and get each value of one object once.",
    ["calibration.py", "parameters.py"],
    [
        ("Calibration setters, getters, copy, write, from_file", "calibration.py"),
        ("compare_*", "calibration.py"),
        ("setters, getters, from_file, to_yaml, from_yaml", "parameters.py"),
    ],
    ["Calibration", "MultimediaPar, ControlPar, SequencePar, TrackPar, VolumePar, …"],
    note=SAMPLED + "Lists given to parameter setters are taken over, as documented by their use.",
)
na(
    "N01",
    "The image filters compute the filter they name",
    "Box blur, the 3x3 filters, subtraction and masking give at each pixel the value that the named "
    "filter has there, for every image and filter size.",
    ["inputs"],
    "all images, filter sizes and kernels",
    "Tests filter one 5x5 image.",
    ["image_processing.py"],
    [("prepare_image", "image_processing.py")],
    "A pure function of one array: no state, time, schedule, I/O or party on which a simulated "
    "execution could differ from a call. Most of these functions don't compile (scipy under njit), "
    "and a test pins `image | lowpass` where the comment says subtraction. The one part with I/O, "
    "the filter file of prepare_image, is decided under S07.",
)
na(
    "N02",
    "The vector and rotation helpers satisfy the identities of vector algebra",
    "Norm, dot, cross, unit vector and comparison agree with their mathematical definitions for all "
    "finite vectors, the zero vector included.",
    ["inputs"],
    "all vectors of three finite numbers",
    "Tests evaluate a few vectors.",
    ["vec_utils.py"],
    [("vec_dot, vec_cross, unit_vector, vec_cmp", "vec_utils.py")],
    "Pure functions of their arguments, with nothing for a scheduler or fault injector to decide; "
    "those the pipeline uses are covered where they matter (G01, V03, C01).",
)
