STD_CC = "bounded exhaustive enumeration of executions of the real C++ code against a reference model (stateless explorer)"
prop("C01", "Assignment solver returns a maximum-weight perfect matching",
     "For every square matrix of non-negative integer weights the bipartite assignment solver terminates and returns a permutation whose total weight is the maximum over all permutations. The dual labels it optionally returns are feasible (row label + column label >= weight) and sum to that optimum.",
     ["inputs"], "all n x n non-negative integer matrices, any n >= 1, including ties, zero rows, all-equal and very large weights",
     "The tests try a handful of matrices; optimality and termination are statements over all matrices, and tie patterns that force long alternating paths are what a sample misses.",
     ["metrics/hungarian.cc", "metrics/hungarian.h"],
     [("alternating tree growth and label improvement", "metrics/hungarian.cc")],
     technique=STD_CC,
     note="Exhaustive over all matrices up to 3x3 (4 values), 4x4 binary, row-alphabet matrices up to 6x6 and a parametric family up to 64x64; larger unstructured matrices are not covered.")
prop("C02", "Frame matching is one-to-one, admissible, optimal and history-free",
     "For every set of predictions, ground truths, similarity values, thresholds and subsets, matching is one-to-one, pairs only objects of the same type whose similarity reaches the threshold of the prediction's type, and either maximises the total similarity weight or (score-first mode) is greedy by descending prediction score, each prediction taking the best still-free admissible ground truth. Either output may be omitted, unmatched entries are -1, and the two outputs agree. The result depends only on the objects, subsets and configuration currently set, never on earlier calls, cached values or previous contents of the output vectors.",
     ["inputs", "histories", "configurations"], "all prediction/ground truth/similarity/threshold/subset combinations and all call sequences on one matcher object, including longitudinal-error-tolerant configurations",
     "Tests call each matcher once or twice with fresh vectors and full subsets; stale caches, stale outputs and subset/position mix-ups need particular call histories.",
     ["metrics/matcher.cc", "metrics/matcher.h", "metrics/iou.cc"],
     [("similarity and affinity caches", "metrics/matcher.cc"), ("optimal and score-first matchers", "metrics/matcher.cc"), ("longitudinal-error-tolerant hooks", "metrics/matcher.cc")],
     state=[("caches", "per-pair similarity computed so far; must be dropped when objects change", "metrics/matcher.h")],
     technique="exhaustive exploration of all call histories up to a depth on the real matcher, in lockstep with a reference model",
     note="All tables up to 3x3 over a small value alphabet, all histories of 5 (thorough 6) operations; similarity values outside the alphabet are not covered.")
prop("C03", "Box overlap and its longitudinal-tolerant variant are geometrically right",
     "For every pair of boxes the reported overlap is intersection over union of the two shapes (axis-aligned, rotated 2D, or upright 3D) in [0,1], symmetric, unchanged by moving or rotating the whole scene and by full turns of heading, 0 for disjoint boxes and for boxes with a degenerate or absurdly large dimension, and the batched form agrees with the single form. The longitudinal affinity is 1 minus the range error along the ground truth's line of sight divided by its tolerance, clamped to [0,1], and the error-tolerant overlap first moves the prediction as the configured alignment mode prescribes, relative to the sensor position.",
     ["inputs", "configurations"], "all box pairs (positions, sizes, headings, nesting, touching, containment), box types, alignment modes, tolerances and sensor positions",
     "Tests check a few hand-made boxes; wrong clipping, aliasing or clamping shows only for particular relative poses.",
     ["metrics/iou.cc", "math/polygon2d.cc", "math/box2d.cc", "math/aabox2d.h"],
     [("IoU by box type", "metrics/iou.cc"), ("alignment and affinity", "metrics/iou.cc"), ("convex clipping", "math/polygon2d.cc")],
     technique=STD_CC, note="Complete grid of relative poses compared with independent exact/raster-free clipping in long double; continuous poses between grid points are not covered.")
prop("C04", "Planar geometry queries agree with exact geometry",
     "For all convex polygons, segments, oriented boxes and axis-aligned boxes, containment, area, bounds, distance, side-of-line, crossing, intersection and sampling queries return what exact plane geometry prescribes, whichever shape is the receiver and however the shapes are rotated or translated, also when edges touch, coincide or almost coincide. A polygon is recognised as convex, with its orientation, exactly when it is convex and simple. Derived values of a shape (heading, length, corners, bounds, area) depend only on its current definition, also after it was flipped, rotated, shifted, resized, copied or assigned. Angles wrap into [-pi, pi).",
     ["inputs", "histories"], "all convex polygons/segments/boxes on a grid under rotation, translation and tiny perturbation, degenerate shapes included, and all sequences of mutating operations up to a depth",
     "Tests use a few shapes and never mutate a shape and re-query its derived values.",
     ["math/polygon2d.cc", "math/segment2d.cc", "math/segment2d.h", "math/box2d.cc", "math/box2d.h", "math/aabox2d.h", "math/math_util.h", "math/vec2d.h"],
     [("segment with cached heading/length", "math/segment2d.h"), ("polygon predicates and intersection", "math/polygon2d.cc"), ("oriented box", "math/box2d.h")],
     state=[("derived values", "cached heading, length, inverse length and bounds", "math/segment2d.h")],
     technique=STD_CC, note="Exhaustive on integer grids, rotated/translated/perturbed copies of them, and operation sequences to depth 4 (thorough 5); other coordinates are not covered. Points exactly on a polygon boundary are not judged.")
prop("C05", "Exact arithmetic is exact",
     "Arbitrary-precision floating values built from doubles add, subtract, multiply, negate and compare exactly, convert back to the correctly rounded double, round to the requested number of bits in the requested mode, and classify zero, infinity and not-a-number (with sign) as IEEE arithmetic does. Printed forms with sufficient digits identify the value.",
     ["inputs", "programs"], "all expressions up to a small depth over operands of widely different magnitude, special values included",
     "Tests sample a few constants; exactness is a statement about all operand pairs, in particular those with very different exponents or exact cancellation.",
     ["math/exactfloat.cc", "math/exactfloat.h"],
     [("mantissa/exponent representation", "math/exactfloat.cc"), ("rounding", "math/exactfloat.cc")],
     technique=STD_CC, note="All expressions of depth 1-2 over a fixed operand alphabet, oracle in exact integer arithmetic.")
prop("C06", "Spatial index answers equal brute force",
     "For every collection of axis-aligned boxes and every box of the collection, the spatial index returns exactly the indices of the other boxes that overlap it (touching counts, except that contact which exists only up to the rounding of the coordinates may go either way), each once, as a linear scan over all pairs would, whatever the size of the collection, the insertion order, duplicates, and however often the index was rebuilt or queried before.",
     ["inputs", "histories"], "all small box collections on a grid in all orders, structured collections up to several hundred boxes, rebuild/query sequences",
     "No test enumerates ties, identical boxes and boxes on partition boundaries.",
     ["math/aabox2d.h"], [("recursive partition and pruned search", "math/aabox2d.h")],
     state=[("tree", "boxes and nodes of the last build", "math/aabox2d.h")],
     technique=STD_CC, note="All box sequences up to 3 boxes over 36 grid boxes, up to 7 over 4-6 boxes, parametric families up to 300 boxes.")
prop("C07", "Breakdown shards partition objects and names are consistent",
     "Every object falls into exactly the breakdown shard(s) its type, range, speed, size or camera dictates (interval ends included), or into none when the breakdown does not apply to it; objects kept for matching in a ground-truth-only breakdown are exactly those of the right type. The number, order and naming of breakdown entries, difficulty levels and score cutoffs produced for a configuration are the same in the native and the Python code, names are unique, and shard lists line up with metric outputs.",
     ["inputs", "configurations"], "all objects over type x range x speed x size x camera including interval boundaries, all breakdown generator lists and difficulty lists",
     "Tests check selected objects and one configuration; boundary values and cross-language order are not compared.",
     ["metrics/breakdown_generator.cc", "metrics/config_util.cc", "metrics/metrics_utils.cc", "metrics/python/config_util_py.py"],
     [("shard functions", "metrics/breakdown_generator.cc"), ("names", "metrics/config_util.cc"), ("python names", "metrics/python/config_util_py.py")],
     technique=STD_CC + "; Python names enumerated over the same configurations", note="Full product of the attribute alphabets; the Python side is checked against the same table.")
prop("C08", "Per-frame detection counts account for every object correctly",
     "For every frame, configuration, breakdown shard, difficulty level and score cutoff, each prediction at or above the cutoff is counted as a true positive, a false positive, or is excused (overlapping a no-label zone, overlapping a ground truth of another shard in a ground-truth-only breakdown, or matched with a heading error beyond the configured limit), and each ground truth in the shard is counted as matched, as a false negative, or is excused (harder than the level); heading accuracy and longitudinal affinity are summed over the true positives. Recorded details list exactly the counted objects. The counts do not depend on the order in which predictions or ground truths are listed.",
     ["inputs", "configurations"], "all small frames over position, type, score, heading, difficulty, no-label-zone flag; all breakdowns, difficulty lists, cutoffs and matcher types",
     "Tests run a few scenes; the accounting rules interact (difficulty x breakdown x NLZ x cutoff), and only enumeration covers the interactions.",
     ["metrics/detection_metrics.cc", "metrics/metrics_utils.cc", "metrics/matcher.cc", "metrics/breakdown_generator.cc"],
     [("counting", "metrics/detection_metrics.cc"), ("subsets per breakdown and cutoff", "metrics/metrics_utils.cc")],
     technique=STD_CC, note="All frames with up to 2 predictions x 2 ground truths (3x3 on reduced alphabets).")
prop("C09", "Detection metrics aggregate frames and integrate the P/R curve correctly",
     "Dataset-level detection counts are the sums of the per-frame counts whatever the order or grouping in which frames are merged; precision, recall and their heading- and affinity-weighted forms follow from them, and average precision is the area under the interpolated precision/recall curve (precision made non-increasing in recall, gaps wider than the recall step filled conservatively). Computing from objects directly equals merging per-frame measurements first. Automatically chosen score cutoffs split the observed scores evenly.",
     ["inputs", "histories", "configurations"], "all small frame sequences, all merge orders and groupings, all small precision/recall lists and recall steps, all score lists",
     "Tests aggregate a few frames in one order; curve integration has corner cases (gaps, duplicate recalls, empty data) only enumeration reaches.",
     ["metrics/detection_metrics.cc", "metrics/metrics_utils.cc"],
     [("merge", "metrics/detection_metrics.cc"), ("curve integration", "metrics/metrics_utils.cc"), ("cutoff choice", "metrics/metrics_utils.cc")],
     technique="exhaustive enumeration of merge orders/groupings and P/R lists on the real code against a reference model",
     note="Exhaustive within small frame counts and value alphabets.")
prop("C10", "Multi-object tracking accounting follows the CLEAR-MOT state machine",
     "Over every sequence of frames the tracker evaluation keeps an existing ground-truth-to-track correspondence as long as both are present and may match, matches the rest optimally, and counts misses, false positives, identity switches, matches and matching cost per frame accordingly; an identity switch is counted for each ground truth matched to a track other than the one it is remembered with, and for each track taken over from a remembered ground truth that is absent from the frame. Unmatched objects harder than the level are neither missed nor counted as ground truth, and unmatched predictions overlapping a no-label zone are not false positives; recorded details list exactly the counted objects. The correspondence memory stays one-to-one and totals equal the sum of the frame counts.",
     ["histories", "inputs", "configurations"], "all sequences of frames up to a depth over small sets of objects with presence, overlap, difficulty and no-label-zone flags",
     "Tests replay a few sequences; identity-switch accounting depends on the whole history of correspondences.",
     ["metrics/mot.cc", "metrics/mot.h", "metrics/matcher.cc"],
     [("per-frame evaluation", "metrics/mot.cc"), ("correspondence memory", "metrics/mot.h")],
     state=[("current correspondences and most recent partners", "what the next frame is compared with", "metrics/mot.h")],
     technique="breadth-first / exhaustive exploration of frame histories on the real tracker evaluation in lockstep with a reference state machine",
     note="Every transition from every reachable memory state over 3 ground truths x 3 tracks (so histories of any length over that alphabet), plus all histories of 3 frames (2x2) and 6-7 frames over 8 frame kinds. Duplicate ids within one frame are not judged.")
prop("C11", "Tracking metrics pick the best operating point and aggregate scenes correctly",
     "For every set of scenes the tracking metrics per breakdown, difficulty and cutoff are computed from the sums of the per-scene counts (MOTA from misses, false positives and switches over ground truths; MOTP from matching cost over matches), independently of scene order and grouping, with tracks never carried from one scene or breakdown into another. The reported operating point is the cutoff with the highest positive MOTA (the lowest such cutoff on ties), and automatically chosen cutoffs are derived from exactly the scores of all predictions; recorded details of merged scenes are kept. When velocities are to be estimated, a prediction without one takes the velocity of a ground truth it overlaps best.",
     ["inputs", "histories", "configurations"], "all small scene sets, orders, groupings, cutoffs, difficulties and breakdowns",
     "Tests use one or two scenes and fixed cutoffs.",
     ["metrics/tracking_metrics.cc", "metrics/metrics_utils.cc", "metrics/mot.cc"],
     [("merge and operating point", "metrics/tracking_metrics.cc")],
     technique=STD_CC, note="Exhaustive within small scene counts.")
prop("C12", "Motion prediction metrics equal their definitions",
     "For every scenario, prediction set and configuration, the minimum average and final displacement errors, miss rate, overlap rate, mean average precision and soft mean average precision, per object type and measurement step and over joint as well as single-agent predictions, equal their published definitions, taking the best (or most confident) of the allowed number of trajectories and ignoring invalid ground truth steps. Accumulated results do not depend on the order or grouping of scenarios or on the order of predictions.",
     ["inputs", "configurations", "histories"], "all small scenarios/predictions over trajectory shape, validity masks, confidences, types, joint groups, measurement configurations and merge orders",
     "Tests use a handful of scenarios; ties, invalid steps, empty predictions and merge order interact.",
     ["metrics/motion_metrics.cc", "metrics/motion_metrics_utils.cc"],
     [("per-scenario metrics", "metrics/motion_metrics.cc"), ("buckets and accumulation", "metrics/motion_metrics.cc"), ("trajectory type and miss thresholds", "metrics/motion_metrics_utils.cc")],
     technique=STD_CC, note="Exhaustive over small alphabets of trajectories, validity masks, confidences, types, shapes, neighbours and merge orders; predictions that stand still (heading undefined) are not used in overlap cases.")
prop("C13", "Malformed motion predictions are rejected with an error, never miscomputed",
     "For every configuration, scenario and submission, a motion evaluation request that violates the format (trajectories or tracks of the wrong length, missing or unknown objects, an object repeated within a joint prediction, predictions of one group for different objects or without trajectories, non-finite positions, NaN confidences, differing scenario ids, invalid track indices, invalid configuration) returns an error status and never crashes or produces metrics, and every well-formed one is accepted. A prediction group without any prediction contributes nothing. Converting a challenge submission to predictions preserves every trajectory, object, confidence and grouping.",
     ["inputs", "configurations"], "all single and pairwise format deviations from a well-formed request, over all submission types",
     "Tests try a few malformed inputs one at a time.",
     ["metrics/motion_metrics.cc", "metrics/motion_metrics_utils.cc"],
     [("validation", "metrics/motion_metrics.cc"), ("submission conversion", "metrics/motion_metrics_utils.cc")],
     technique=STD_CC, note="All combinations of 14 configurations, 23x23 group deviations, object lists, track lengths and ids (quick: at most 3 deviate at once). Objects repeated across groups and a prediction limit of 0 are not judged.")
prop("C14", "Segmentation metrics count every labelled point exactly once",
     "For every sequence of frames, each point whose true class is evaluated adds exactly one to the cell (true class, predicted class), a prediction outside the evaluated classes counting as a miss of the true class, and every other point adds nothing; per-class IoU is true positives over true positives + false positives + false negatives, classes absent from both ground truth and prediction count as 1, and mIoU averages the evaluated classes. Results are independent of frame order and grouping (merge, at any count size), a reset returns to the initial state, and malformed frames do not change the counts. The command line evaluation counts frames without usable prediction as unpredicted and skips frames without ground truth.",
     ["inputs", "histories", "configurations"], "all sequences of update/merge/reset/compute operations over small frames and class sets",
     "Tests run one update; merging, resetting and recomputing in other orders is not covered.",
     ["metrics/segmentation_metrics.cc", "metrics/segmentation_metrics.h", "metrics/tools/compute_segmentation_metrics_main.cc"],
     [("confusion matrix", "metrics/segmentation_metrics.cc")],
     state=[("confusion matrix", "accumulated counts", "metrics/segmentation_metrics.h")],
     technique="exhaustive exploration of operation histories on the real accumulator in lockstep with a reference model",
     note="All histories up to a depth over a small frame alphabet.")
prop("C15", "Scenario conversion preserves states, map and selection rules",
     "For every scenario and conversion configuration, the produced example contains, for each selected agent, exactly its states at the past, current and future steps (invalid steps marked), agents to predict first and then context agents by validity and distance, map samples of every feature in priority order with correct positions, unit directions, types and ids at the requested spacing, and traffic light states per step; unused slots carry the padding value and everything is truncated to the configured sizes. Malformed scenarios yield an error, never a crash.",
     ["inputs", "configurations"], "all small scenarios over track validity, map feature kinds/shapes, lights, agent counts and size limits",
     "Tests convert one or two scenarios.",
     ["data_conversion/scenario_conversion.cc"],
     [("agent selection", "data_conversion/scenario_conversion.cc"), ("map sampling", "data_conversion/scenario_conversion.cc")],
     technique=STD_CC, note="All small scenarios within the stated alphabets.")
prop("C16", "Camera projection and back-projection are consistent",
     "For every camera calibration (intrinsics, distortion, pose, rolling shutter direction, image size) and vehicle motion, projecting a world point gives the pixel of the documented camera model at the moment that pixel is read out, back-projecting a pixel at its depth returns to the point, and points behind the camera, outside the image or without a solution are reported as not visible. Results depend only on the calibration, the current image metadata and the point, not on earlier calls on the same camera object.",
     ["inputs", "histories", "configurations"], "all combinations of calibration, shutter direction, motion and grid points; all call sequences on one camera object",
     "Tests project a few points with one calibration.",
     ["wdl_limited/camera/camera_model.cc", "wdl_limited/camera/camera_model.h"],
     [("projection and rolling shutter solver", "wdl_limited/camera/camera_model.cc")],
     state=[("prepared projection state", "per-image values reused across points", "wdl_limited/camera/camera_model.cc")],
     technique=STD_CC, note="Grid of calibrations, motions and points; reference model solves the readout-time equation independently.")
prop("C17", "Tensor interfaces compute the same results as the library",
     "For every batch of rows, the detection, tracking, motion and matching tensor interfaces return the same numbers as evaluating the described frames, scenes or scenarios with the library: rows are grouped by their frame and sequence ids, each column lands in its field, and the result is independent of row order and of how many worker threads are used. Detection state returned by the interface can be summed over batches and turned into the same metrics as one evaluation of all batches. The camera tensor interfaces project every point of a batch, in both floating point widths, to what the camera library gives for that point alone.",
     ["inputs", "configurations", "schedules"], "all small row tables over ids, types, boxes, scores, flags, in all row orders and splits into batches",
     "The tensor tests cannot even run here and sample single batches.",
     ["metrics/ops/detection_metrics_ops.cc", "metrics/ops/tracking_metrics_ops.cc", "metrics/ops/motion_metrics_ops.cc", "metrics/ops/matcher_ops.cc", "metrics/ops/utils.cc", "wdl_limited/camera/ops/camera_model_ops.cc"],
     [("row parsing and grouping", "metrics/ops/utils.cc"), ("operators", "metrics/ops/detection_metrics_ops.cc")],
     technique=STD_CC, note="Operator kernels created and executed through the TensorFlow runtime; their worker threads run under a controlled scheduler that explores every task order and every placement of one preemption at an allocation.")
prop("C18", "Range image compression is lossless up to the declared precision",
     "For every range image, compressing and decompressing yields, in every channel, the value rounded to the declared quantisation step, with the same shape and with empty pixels still empty, whatever the pattern of empty and filled pixels. The caller's image is left unchanged, and the same input always gives the same bytes. The bytes are the published format: the zlib compression of a DeltaEncodedData message whose mask holds, channel by channel, the run lengths of filled and empty pixels starting with filled ones and whose residuals are the differences between consecutive filled pixels; any writer's bytes in that format are read back, and any reader of that format reads the encoder's bytes. Non-positive steps, step lists of the wrong length and images with a side over 65535 are rejected.",
     ["inputs", "configurations"], "all small range images over value/empty patterns, shapes, channels, quantisation steps and value types",
     "Tests round-trip one image.",
     ["utils/compression/delta_encoder.py"],
     [("quantise, run-length mask, delta residuals", "utils/compression/delta_encoder.py")],
     technique="exhaustive enumeration of small images through the real Python encoder/decoder against a reference", note="All occupancy patterns of images up to 14 pixels, all value pairs/triples over an alphabet with halves and extremes, all value types and memory layouts, all steps of a grid, and the byte format against an independent reader and writer; images without pixels, NaN/inf and steps given as numpy scalars are not judged.")
prop("C19", "Rater feedback scores follow the published rule",
     "For every set of predicted trajectories with probabilities and rater-scored trajectories, the score is the probability-weighted sum over predictions of the average over the evaluation times of the best rater score discounted by how far the prediction leaves that rater's speed-scaled longitudinal/lateral trust region, with the floor applied when it is not fully inside any region. The trust regions it reports are those used. It is independent of the order of raters and predictions and of how rated trajectories are given (lists or arrays): preparing them keeps the first ones and the first waypoints up to the target counts and otherwise repeats the last trajectory with its label and the last waypoint. Inconsistent shapes and settings are rejected.",
     ["inputs", "configurations"], "all small sets of predictions/raters over offsets, speeds, lengths, probabilities and labels",
     "Tests check a few fixed cases.",
     ["metrics/python/rater_feedback_utils.py"],
     [("trust region and discount", "metrics/python/rater_feedback_utils.py")],
     technique="exhaustive enumeration of small cases through the real Python code against a scalar reference model", note="Grid of offsets, headings, speeds, path shapes, lengths, labels, probabilities, batches and settings; points within 1e-7 of a region's edge are not judged.")
prop("C20", "Map plotting shows every map feature once, in its place and style",
     "For every list of map features, the produced figure marks every point of each lane, road line, road edge, crosswalk, speed bump, driveway and stop sign at its coordinates in the colour of its kind, and joins the points of each feature, in order, by one line in the colour and dash style of its kind, closed for the polygons (crosswalk, speed bump, driveway). Nothing is dropped, invented, merged with another feature or misplaced, and empty maps and features without points are handled.",
     ["inputs"], "all small maps over every feature kind and subtype, point count and id",
     "Tests plot one map and look at few elements.",
     ["utils/plot_maps.py"], [("per-kind point collection and trace creation", "utils/plot_maps.py")],
     technique="exhaustive enumeration of small maps through the real plotting code against a reference", note="All ordered pairs and chosen triples of feature kinds and subtypes with 0-4 points each; adjacent features with equal ids are not judged.")
prop("C21", "Sim agents submissions: accepted exactly when complete, converted without loss",
     "A set of scenario rollouts passes validation exactly when its scenario id is set, it has the required number of scenes, and in each scene every trajectory belongs to an agent that must be simulated, has the required number of steps in x, y, z and heading, and no agent that must be simulated is missing (an agent given twice does not replace a missing one); otherwise a ValueError is raised. The agents to simulate are those valid at the current step; those to evaluate are the AV and the tracks to predict, without repeats, or all simulated ones for scenario generation. Converting a logged scenario copies every simulated agent's states, boxes, type and validity over the challenge's steps and refuses scenarios with another number of steps. Reading a scene back gives, in the scene's order of agents, the logged history followed by the simulated states, with the current step's box sizes and all steps (or, if asked, the logged steps) valid; for scenario generation the given states and boxes, valid where the agent is valid at the current step. Trajectories can be sliced in time and selected by index or by id; absent or ambiguous ids are refused.",
     ["inputs", "configurations"], "all scenarios over per-agent validity, all single and pairwise deviations of a submission, all orders and selections of agents, both challenge types",
     "Tests try a few invalid submissions and look at shapes.",
     ["utils/sim_agents/submission_specs.py", "utils/sim_agents/converters.py", "utils/trajectory_utils.py"],
     [("validation", "utils/sim_agents/submission_specs.py"), ("conversion", "utils/sim_agents/converters.py"), ("selection", "utils/trajectory_utils.py")],
     technique="exhaustive enumeration of small scenarios and submissions through the real Python code against a reference", note="Runs on a numpy stand-in for TensorFlow. A complete scene with a repeated agent and whether the scenario id is the right one are not judged.")
prop("C22", "v2 component tables: columns, objects and joins agree",
     "Every v2 component flattens into uniquely named columns following the documented naming rule ([Component].field.sub, [*] for repeated fields, key fields under key.), its schema lists exactly those columns in the same order with their declared types, and reading an object from its columns restores every field, absent optional parts as missing values, whatever other columns stand beside them and in whatever order. Component tags are unique. Merging two component tables joins them on all key columns they share: rows with equal keys combine, rows without partner appear (with missing values on the other side) only if the other side is nullable, and a grouped side with extra keys has the rows with equal shared keys collected into lists in order; no input table is changed.",
     ["inputs", "schemas", "configurations"], "all published components and all user-definable ones of small nesting, all subsets of absent parts, all column orders and neighbours; all pairs of small tables, key layouts and merge options",
     "Tests flatten a few classes and merge a few tables.",
     ["v2/component.py", "v2/dataframe_utils.py", "v2/__init__.py"],
     [("flatten and unflatten", "v2/component.py"), ("merge", "v2/dataframe_utils.py")],
     technique="exhaustive enumeration of component schemas, column arrangements and small tables through the real Python code against a reference", note="Arrow types are a stand-in (names only). Null keys and grouping an empty table are not judged.")
prop("C23", "v1 frames convert to v2 components without loss",
     "Each extractor of v2 components yields, for one label, image, laser, calibration or frame of a v1 Frame, exactly one component when the data exists and none when it is absent, with the keys (segment, timestamp, camera or laser name, object id) of that very item and every field's value, whatever other items surround it; an optional part that is not set becomes a missing value, a part that is set to zero does not. A keypoint lacking its type, location or visibility raises ExtractionError and a box lacking a required dimension is refused. The announced component type and schema match what is yielded, the frame is not changed, range images keep values and shape, and a projected box's laser object id and camera are separated correctly for every 22-character id.",
     ["inputs"], "all presence patterns of the fields each extractor reads, zero and non-zero values, all cameras, lasers and sizes of range images within bounds",
     "Tests convert one stored frame or a few hand-made labels.",
     ["v2/perception/compat_v1/box.py", "v2/perception/compat_v1/camera_image.py", "v2/perception/compat_v1/context.py", "v2/perception/compat_v1/keypoints.py", "v2/perception/compat_v1/lidar.py", "v2/perception/compat_v1/pose.py", "v2/perception/compat_v1/segmentation.py", "v2/perception/compat_v1/interfaces.py", "v2/perception/utils/lidar_utils.py"],
     [("extractors", "v2/perception/compat_v1"), ("range image parsing", "v2/perception/utils/lidar_utils.py")],
     technique="exhaustive enumeration of field presence patterns through the real extractors against a reference", note="3D points of camera keypoints may be kept or left out. Projected ids that are not 22 characters are not judged.")
prop("C24", "Lidar range images and point clouds agree with exact geometry",
     "For every lidar calibration (extrinsics, inclination table or range), image size and vehicle motion, turning a range image into points gives, for every valid pixel, the point at that range along that pixel's row inclination and column azimuth, taken through the lidar and (for per-pixel poses) the vehicle pose of the pixel, in every dataset version and code path (v1 frames, v2 components, motion dataset lasers); pixels without return give no point and no camera projection, and points and their projections stay paired, in row-major order. Building a range image from points puts each point of any direction into the cell of its row and column, keeping the nearest when several fall together and leaving the other cells empty, so images survive the round trip; range, intensity and elongation encoding is exact up to the published quantisation; camera depth images keep the nearest depth of each pixel; cropping and pooling keep the addressed cells only.",
     ["inputs", "configurations"], "all combinations of calibration, image size, motion, missing pixels and directions on a grid with the wrap-around at +-pi included; every code of every encoded feature",
     "Tests convert one stored frame or a few hand-made pixels.",
     ["utils/range_image_utils.py", "utils/frame_utils.py", "utils/transform_utils.py", "utils/womd_lidar_utils.py", "v2/perception/utils/lidar_utils.py"],
     [("range image geometry", "utils/range_image_utils.py"), ("frame conversion", "utils/frame_utils.py"), ("motion dataset lasers", "utils/womd_lidar_utils.py"), ("v2 conversion", "v2/perception/utils/lidar_utils.py")],
     technique="exhaustive enumeration of small lidar scenes through the real Python code against a reference", note="Runs on a numpy stand-in for TensorFlow. v1 frames without TOP laser or second returns are not judged; a point on a cell's edge may take either cell and equal quantised ranges either tie.")
prop("C25", "Python box and polygon geometry agrees with exact plane geometry",
     "For every box (any size, heading and place) a point is reported inside exactly when it lies in the box, in 2D and 3D, and the points per box are counted; the corners are those of the box, layer by layer counter-clockwise; moving points and boxes between coordinate frames and back gives the same physical points, corners and sizes. The signed distance of a point to a convex polygon is the distance to its outline, negative inside, whatever vertex comes first; the Minkowski sum of two boxes is the convex outline of all corner sums for every pair of headings, axis-aligned and parallel ones included; cross and dot products and rotations hold for every rank and broadcast.",
     ["inputs"], "all combinations of sizes, headings, places, frames and first vertices on a grid with degenerate and parallel boxes",
     "Tests check a few boxes and points.",
     ["utils/box_utils.py", "utils/geometry_utils.py"],
     [("boxes", "utils/box_utils.py"), ("polygons", "utils/geometry_utils.py")],
     technique="exhaustive enumeration of small configurations through the real Python code against a reference", note="Runs on a numpy stand-in for TensorFlow. Points on a box's boundary, clockwise or zero-size boxes in the Minkowski sum and boxes moved between tilted frames are not judged.")
prop("C26", "Keypoint labels, pose metrics and pose matching",
     "Laser and camera labels of a frame are grouped by object: each laser object has exactly the camera labels associated with it. Keypoint and box tensors hold each keypoint at its type's place in the requested order with its location and visibility (missing, occluded, visible), default values elsewhere, and subsets and stacking keep them. MPJPE, PEM, PCK, visibility precision and recall and OKS precision at each threshold are the documented weighted means over all keypoints or objects given, whatever the split into updates, object weights or subsets, OKS AP is the mean of the reported precisions, and results are named by metric, subset and threshold; OKS compares labelled keypoints, or with the box three times enlarged when none is labelled. The distance of a keypoint to a box is the shortest move into the box, counting visible keypoints only. Matching first gives unlabelled boxes the predictions with most keypoints inside, then matches the rest with the least total pose error (or greatest overlap for the box matcher); aligning truths and predictions keeps every visible object exactly once, beside its match or beside padding, and drops predictions matched to unlabelled objects.",
     ["inputs", "configurations", "histories"], "all small frames, keypoint states, orders, splits into updates, weights, and all small sets of truths and predictions over places and visibilities",
     "Tests check a few objects and one update.",
     ["utils/keypoint_data.py", "metrics/python/keypoint_metrics.py"],
     [("labels and tensors", "utils/keypoint_data.py"), ("metrics", "metrics/python/keypoint_metrics.py"), ("matching", "metrics/python/keypoint_metrics.py")],
     state=[("metric state", "running sums across updates", "metrics/python/keypoint_metrics.py")],
     technique="exhaustive enumeration of small cases and update splits through the real Python code against a scalar reference", note="Runs on a numpy stand-in for TensorFlow and scipy. Headings of box tensors are taken clockwise as documented there; label headings are not (known finding). Ties accept any optimal matching.")
prop("C27", "Occupancy and flow grids of motion scenes",
     "Every agent box valid at a requested step is sampled on its length-by-width grid of points (box ends included, the centre for one point per side), moved so that the SDC stands at its grid cell and, if asked, heads up, and fills the cells its points round to, per agent class, scene and step; observed agents are those valid at some past or current step, occluded agents the others (for requests covering the future; asking for neither is an error). Flow at a cell is the mean displacement, in cells and back in time by one waypoint length, of the points of that class lying there whose agent is valid at both steps. Waypoint grids take the last step of each waypoint, or when cumulative the maximum occupancy and the mean of the non-zero flow components over its steps, flow origins one waypoint length earlier; future steps not a multiple of the waypoints, or waypoints longer than the history, are refused. Road points and agent trails fill their cells; SDC fields are the SDC's own, examples are parsed feature by feature or refused; occupancy pictures blend road, vehicles, pedestrians, cyclists in that order with gamma, flow pictures code direction and magnitude relative to the largest of the scene. Metrics are means over waypoints with vehicle truth of PR-AUC, soft IoU, end-point error over cells with true flow, and flow-warped occupancy, with their counts.",
     ["inputs", "configurations"], "all validity patterns, requests, motions, poses, and waypoint layouts within small scenes and grids",
     "Tests use one scene and one configuration and compare sums.",
     ["utils/occupancy_flow_data.py", "utils/occupancy_flow_renderer.py", "utils/occupancy_flow_grids.py", "utils/occupancy_flow_metrics.py", "utils/occupancy_flow_vis.py"],
     [("rendering", "utils/occupancy_flow_renderer.py"), ("waypoints", "utils/occupancy_flow_grids.py"), ("metrics", "utils/occupancy_flow_metrics.py"), ("pictures", "utils/occupancy_flow_vis.py"), ("parsing", "utils/occupancy_flow_data.py")],
     technique="exhaustive enumeration of small scenes and configurations through the real Python code against a scalar reference", note="Runs on a numpy stand-in for TensorFlow. Cells reached only by points within 0.002 of a rounding tie are not judged. The warp inside the metrics is disabled upstream (NotImplementedError); the check stands in for it.")
prop("C28", "Realism metrics of simulated agents",
     "For every scenario and simulation, the realism features are what they are defined to be: speeds and accelerations (linear, and angular with wrapped headings) are central differences, undefined and invalid at ends and beside invalid steps; the distance to the nearest object is the signed distance between corner-rounded boxes over the valid others, a collision when negative; the time to collision is gap over closing speed to the nearest valid object ahead in the same direction and lane, capped at 5 s, whatever the headings' wrap; the distance to the road edge is the largest over the box's bottom corners of the signed distance to the nearest edge at that height, negative to the left of it, open or closed, whatever other edges exist, off road when positive; a red light is violated exactly when an object seen at both steps passes, on the lane nearest to it, the stop point of that lane's signal while it is red. Likelihoods are the smoothed histogram, Bernoulli or Gaussian-kernel probability of each logged value among the simulated ones, pooled over steps and objects as configured; per-feature scores are exponentials of their means over valid values (time to collision and red lights for vehicles only), flags hold if any valid step has them, the meta-metric is the weighted sum with the challenge's weights, which sum to one, scenario results average, and buckets are weighted means of their features. Inconsistent arguments are refused.",
     ["inputs", "configurations"], "all combinations of motions, headings, validity patterns, neighbours, maps, signals, estimator settings, shapes and rollouts within small scenes, plus whole scenarios",
     "Tests check a few hand-made scenes and sums over one stored scenario.",
     ["wdl_limited/sim_agents_metrics/trajectory_features.py", "wdl_limited/sim_agents_metrics/interaction_features.py", "wdl_limited/sim_agents_metrics/map_metric_features.py", "wdl_limited/sim_agents_metrics/traffic_light_features.py", "wdl_limited/sim_agents_metrics/metric_features.py", "wdl_limited/sim_agents_metrics/estimators.py", "wdl_limited/sim_agents_metrics/metrics.py"],
     [("features", "wdl_limited/sim_agents_metrics/metric_features.py"), ("likelihoods", "wdl_limited/sim_agents_metrics/estimators.py"), ("scores", "wdl_limited/sim_agents_metrics/metrics.py")],
     technique="exhaustive enumeration of small scenes, maps, signals and estimator settings through the real Python code against a scalar reference", note="Runs on a numpy stand-in for TensorFlow and scikit-learn. Not judged: invalid objects' time to collision, scenes without any valid vehicle, degenerate edges, places just on a border.")
prop("C30", "Object assets: compressed camera rays and asset geometry",
     "For every image size, depth and tile size, an image cut into tiles (row by row, the border filled by reflection) and put together again is the same image, and tiles of any content go back to their own place; tiles of another size are refused. The PCA codec encodes the image less its per-channel mean, tile by tile, as the projections of the standardised values on the principal directions, in quantisation steps, rounded and kept within 32 bits, and decodes codes to exactly the image they stand for, so with all directions kept every value survives within the steps; a codec configuration survives JSON; camera rays keep their key, shape, origins and directions through the compressed component. Fitting gives the mean, deviation and orthonormal directions of most variance first. A ray hits a box exactly when some point ahead of it lies in the box, with the distances where it enters (negative from inside) and leaves, both negative when it misses; points, rays and directions moved into and out of an object's box frame and back are the same physical ones, and camera images of assets (rgb, masks, depth, rays) keep values and shape as arrays and tensors.",
     ["inputs", "configurations"], "all image sizes, depths and tile sizes up to bounds, codec configurations over basis, number of directions and step, rays over origins and directions, frames over heading, tilt and place",
     "Tests use one image, one box and a few rays.",
     ["utils/compression/pca_codec.py", "utils/compression/tiling.py", "v2/perception/utils/object_asset_codec.py", "v2/perception/utils/object_asset_utils.py", "v2/perception/object_asset.py", "v2/column_types.py"],
     [("tiles", "utils/compression/tiling.py"), ("PCA codec", "utils/compression/pca_codec.py"), ("rays codec", "v2/perception/utils/object_asset_codec.py"), ("geometry", "v2/perception/utils/object_asset_utils.py")],
     technique="exhaustive enumeration of small images, configurations and rays through the real Python code against a reference", note="Runs on a numpy stand-in for TensorFlow and scikit-learn. Images too small to fill the border by one reflection may be refused; rays grazing a box and rounding ties are not judged.")
prop("C31", "Camera panoptic labels: ids, submissions and wSTQ",
     "Panoptic codes separate class and instance for every positive divisor and integer type without overflow. Decoding any set of camera segmentation labels, v1 or v2 alike, keeps every pixel's class, gives pixels of one global instance of one sequence the same id in every label and different instances different ids (the global id itself for a single sequence, consecutive ones on request), leaves unmapped ids, and pairs them with their own tracked mask and camera coverage (one where not given); the divisor returned separates them, the requested one if given, and a ValueError is raised when an id does not fit it; the labels given are not changed. A prediction saved in a label reads back with the same classes and, through the stored mapping, the same instances, with compact ids, or is refused when it does not fit in 16 bits. Loading keeps the first labelled frames, at most as many as asked, of one sequence only. Colours are those of the class with the green channel shifted per instance and clipped. wSTQ, wAQ and mIoU are those of the pixels weighted by one over the cameras covering them, with untracked instances as crowd, whatever the split into sequences and their order; scoring changes neither labels nor metric objects, and inputs of different lengths are refused.",
     ["inputs", "histories", "configurations"], "all small sets of labels over sequences, id mappings, divisors and options; all small frame lists; all small sets of truth and prediction frames",
     "Tests decode two hand-made labels and only bound the metric between 0 and 1.",
     ["utils/camera_segmentation_utils.py", "wdl_limited/camera_segmentation/camera_segmentation_metrics.py"],
     [("ids and divisors", "utils/camera_segmentation_utils.py"), ("weights and crowd", "wdl_limited/camera_segmentation/camera_segmentation_metrics.py")],
     state=[("metric objects", "per-sequence sums across frames, merged over sequences", "wdl_limited/camera_segmentation/camera_segmentation_metrics.py")],
     technique="exhaustive enumeration of small label sets through the real Python code against a per-pixel reference", note="Runs on numpy stand-ins for TensorFlow, scikit-image and DeepLab2's quality metric. Unmapped ids that coincide with global ids of other instances, one pixel wide images as colours and codes of exactly 65535 are not judged.")
prop("C29", "Streaming metrics, the evaluator and matching equal one batch computation",
     "After any sequence of updates, the value of each detection, tracking or motion metric built by the get_*_metric_ops functions is the metric op's result over everything given so far, named by breakdown and kind, filtered by name where asked, the same however often values are read and whether updates are run together or one by one; inputs left out (speeds, no-label-zone flags, object ids, scenario ids) count as zeros, false or distinct per agent and scenario, and a new session starts from nothing. Recall at a precision is the highest recall among the cutoffs with greater precision, zero if there is none. States of disjoint frame sets with fixed cutoffs add up to the result of their union. The detection evaluator's result is the op's over all updates accepted since its start or last reset; an update lacking a required field raises ValueError and changes nothing; result resets, evaluate does not. match pairs boxes of one batch entry as the configured matcher does, each at most once, above the IoU threshold, empty boxes never, plain and batched inputs alike.",
     ["histories", "inputs", "configurations"], "all sequences of updates, refusals, evaluations and resets up to depth 3 or 4 over small frames and scenarios, several configurations, optional inputs and layouts",
     "Tests run one or two updates with one configuration.",
     ["metrics/python/detection_metrics.py", "metrics/python/tracking_metrics.py", "metrics/python/motion_metrics.py", "metrics/python/wod_detection_evaluator.py", "metrics/python/matcher.py", "metrics/ops/py_metrics_ops.py"],
     [("streaming metrics", "metrics/python"), ("op wrappers", "metrics/ops/py_metrics_ops.py"), ("evaluator", "metrics/python/wod_detection_evaluator.py"), ("matching", "metrics/python/matcher.py")],
     state=[("local variables", "everything given so far, one per input", "metrics/python/detection_metrics.py"), ("evaluator lists", "tensors of accepted updates", "metrics/python/wod_detection_evaluator.py")],
     technique="exhaustive enumeration of bounded update histories through the real Python code and the real C++ ops against one computation over all data", note="Runs on a numpy stand-in for TensorFlow graphs and sessions; ops run in a separate process. Not judged: precision exactly at the threshold, evaluating nothing, speeds given in some updates only, repeated ids in a frame, two sets of metric ops in one graph.")
prop("C32", "Command line tools score files and prepare submissions faithfully",
     "Given prediction and truth files, the detection, longitudinal-error-tolerant detection and tracking tools print, for every breakdown of their published configuration, the metric values of the objects in the files grouped into frames by context, time and (for detection) camera, or for tracking into sequences by context with frames in time order, whatever the order of objects in the files. Detection scores only truths with at least one lidar point in their box (the error-tolerant tool: one top lidar point and a camera that sees it, with the camera-synced box), gives a truth without difficulty the second level up to five points and the first above, and keeps a given one. Files that cannot be read give no results. The submission tool writes exactly the asked number of shards, each with the given submission data, that together hold once every prediction scoring at least 0.03 without NaN box fields, unchanged except for box sizes raised to at least 1e-6; input files may end in a line break, and any encoding of predictions is read whole. Missing or unusable flags, submission files without names and unreadable inputs are refused and nothing is written.",
     ["inputs", "configurations"], "all small sets of truths and predictions over frames, contexts, cameras, lidar point counts, levels and file orders; all small sets of prediction files over scores, sizes, NaN fields, last bytes, shard counts; all missing-flag combinations",
     "There is no test of the tools, only two sample files.",
     ["metrics/tools/compute_detection_metrics_main.cc", "metrics/tools/compute_detection_let_metrics_main.cc", "metrics/tools/compute_tracking_metrics_main.cc", "metrics/tools/create_submission.cc"],
     [("detection", "metrics/tools/compute_detection_metrics_main.cc"), ("tracking", "metrics/tools/compute_tracking_metrics_main.cc"), ("submission", "metrics/tools/create_submission.cc")],
     technique="exhaustive enumeration of small input files through the real tools, each run in a process of its own, against the metrics library and an own reading of the files", note="absl's command line flags are replaced by a stand-in, as the installed TensorFlow carries no matching library. A score of exactly 0.03, NaN scores and the exit status for unreadable metric inputs are not judged.")
prop("C33", "Latency evaluation: timing, files and comparison with the submission",
     "The latency evaluator initialises the submitted model once before anything else, runs it exactly once per frame directory with exactly the requested arrays of that frame, stores its boxes, scores and classes unchanged in the frame's own output directory together with the names of the inputs, and writes one time per frame, that of the model run alone; outputs that miss an array, have another one or differ in length are refused; entries that are not directories are passed over. Their conversion holds once each stored detection with its context, time, score, type and box, except those scoring under 0.03 or with a dimension under 0.01; 2D boxes carry the camera of their single input image and are refused without one. The comparison accepts exactly when, for each context, time and camera with typed latency detections of at least the minimum score, the full results have that frame and at most 5% as many of its detections are unmatched, missing, added, retyped or scored more than 0.05 apart under the best one-to-one matching at the overlap threshold (3D boxes if they have a heading, 2D otherwise), whether the full results come as Objects, as Submissions under any method name, or both, in any split and order.",
     ["inputs", "configurations"], "all sets of frames over contexts, times and cameras; all small sets of near copies of a detection; frames of up to 60 detections with up to 4 discrepancies of each kind; all short method names; all small detection arrays and input lists",
     "There is no test of this code.",
     ["latency/wod_latency_evaluator.py", "latency/make_objects_file_from_latency_results.py", "latency/compare_objects_file_to_submission_main.cc"],
     [("evaluator", "latency/wod_latency_evaluator.py"), ("conversion", "latency/make_objects_file_from_latency_results.py"), ("comparison", "latency/compare_objects_file_to_submission_main.cc")],
     technique="exhaustive enumeration of small frame sets and result files through the real scripts (with a model and clock of the harness) and the real tool against a reference", note="absl's command line flags are replaced by a stand-in. Boxes with neither 4 nor 7 numbers, mixed headings, an unreadable latency file and detections on a threshold are not judged.")
prop("C34", "Camera model ops equal the camera model",
     "For float and double tensors alike, the WorldToImage and WorldToImageMovingPoint ops give for every point the pixel column, pixel row, its depth when asked for and then whether the projection is valid, and ImageToWorld gives the world point, exactly as the camera model does for the calibration (extrinsic row by row, nine intrinsics, width, height and rolling shutter direction) and the image data (pose, velocity, pose time, shutter, trigger time, readout done time) given in that call: points keep their order, points out of view are reported invalid among valid ones, no point depends on the others, no call depends on earlier calls of the same op, and no point at all gives an empty result. Shape inference gives the number of points by the columns the op returns, also when the number of points is unknown.",
     ["inputs", "configurations", "histories"], "all choices of op, number type, depth, calibrations, shutter directions, motions and up to 2 (thorough 3) of 7 points and velocities; all sequences of 3 (thorough 4) calls",
     "The Python test projects a few points of one stored image.",
     ["wdl_limited/camera/ops/camera_model_ops.cc", "wdl_limited/camera/ops/py_camera_model_ops.py"],
     [("kernels and shapes", "wdl_limited/camera/ops/camera_model_ops.cc")],
     technique="exhaustive enumeration of calls and call histories through the real TensorFlow kernels against the camera model", note="The camera model itself is C16's. Malformed shapes abort (CHECK) and are not judged.")
prop("C35", "Drawing keypoints and simulated scenes, equality of examples, tokens",
     "For every set of keypoints, camera and laser wireframes hold exactly one dot per keypoint at its place with its type's colour, its size times the dot factor, its name (with ? and a black border when occluded), and exactly the configured edges whose keypoints are all present, as wide as configured times the line factor: two-coloured edges as two halves in the colours of their ends (grey if none is given), solid ones in the colour of their start, edges between groups from mean to mean with grey for groups of several; drawing puts exactly these on the axes or figure. Cropping moves all keypoints by one whole-pixel offset, keeps everything else of them, the pixel under each and the box with its margin up to a pixel, within the image. Maps show exactly the road edges and road lines, boxes have their corners at heading and size in their palette colour, and after any order of frames an animation shows exactly that frame's boxes over the map. Examples are equal exactly when they have the same features of the same kind with equal values, floats within the tolerances, in either order. Camera tokens are appended to a copy of the scenario, and embeddings are the codebook's rows of the tokens, refused with ValueError when one is out of range. Inputs stay unchanged.",
     ["inputs", "configurations", "histories"], "all subsets of keypoints with mixed occlusion, small edge configurations, boxes and margins in small images, small maps, box poses, all frame orders up to 3 (thorough 4), pairs of examples over 21 feature values, token lists",
     "Tests draw one wireframe and compare a few examples; the simulation drawings have no tests.",
     ["utils/keypoint_draw.py", "utils/sim_agents/visualizations.py", "utils/example_utils.py", "utils/womd_camera_utils.py"],
     [("wireframes and crops", "utils/keypoint_draw.py"), ("simulated scenes", "utils/sim_agents/visualizations.py"), ("examples", "utils/example_utils.py"), ("camera tokens", "utils/womd_camera_utils.py")],
     state=[("animation", "boxes on the axes between frames", "utils/sim_agents/visualizations.py")],
     technique="exhaustive enumeration of small inputs and frame orders through the real Python code against a reference", note="Runs on stand-ins for TensorFlow and matplotlib that record what is drawn. Boxes outside the image, colours missing for drawn dots, drawing an empty wireframe, empty map lines, NaN values and empty token lists are not judged.")
