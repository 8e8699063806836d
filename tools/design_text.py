"""Hand-written parts of DESIGN.md (assembled by tools/design.py)."""
INTRO = '''# Design

Model checking of waymo-open-dataset. Every check enumerates a bounded space of
executions of the *real code* (histories of calls, orders, schedules, and small
configurations of inputs) completely, and judges every one of them against a
small reference written independently in the harness, from the documentation and
the property, not from the code. There is no separate model that could drift from
the code: the transitions explored are calls of the implementation. "State" in
the evidence is an observed state of the implementation (results, memories,
printed output), "transition" a call into it. Nothing is sampled and no solver
decides anything. Where a family is too large for the quick tier it is thinned by
a fixed stride written in the family's bound ("every fourth ..."); such a family
is complete for the stated subset only, and the thorough tier is denser or
complete. VERIF_SEED does not influence anything.

## Machinery

* `cc/mc.h` — stateless explorer for C++ harnesses. A *family* is a body that
  draws its input/history from `choose(n)`; the explorer runs the body on every
  choice sequence (simplest first), deals the leaves to 8 forked workers, turns
  crashes, failed CHECKs and hangs of the code under test into violations, counts
  distinct states and outcomes, and replays a recorded choice sequence
  (`lib/replay.py FILE`).
* `py/mcpy.py` — the same for Python harnesses. An operation missing from a
  stand-in library (see below) ends the check with "no answer", never with a
  violation.
* `lib/wodbuild.py` — compiles each harness with the repository sources it reaches
  (found through #include lines and BUILD files) from /repo's working tree,
  generates the protobufs (C++ and Python), and lays a Python overlay of the
  working tree; nothing prebuilt of the repository is trusted.
* `lib/run.py ID` — runs a property's parts, applies `known_findings.json`,
  writes evidence and replay files. `lib/checks.py` maps properties to parts.
* `lib/props_data.py` — source of `properties.jsonl` and `MANIFEST.json`
  (`python3 lib/props.py` regenerates both).
* `tools/mutate.py` — not a check: small syntactic changes in the anchored files,
  each run against the property's check, used to find gaps (see the end).
* `tools/design.py` — assembles this file.

No hooks were needed in /repo; the only commits there are repairs ("fix:").

### Libraries that are not installed

TensorFlow's Python side, pyarrow, dask, scipy, matplotlib, scikit-learn,
scikit-image, tensorflow-probability, deeplab2 and absl's C++ flags are missing
from the sandbox, while large parts of the repository import them. `py/tfshim/`
holds stand-ins written for this purpose:

* `tensorflow` — eager ops on numpy with TensorFlow's semantics (dtype strictness,
  broadcasting, ragged and gather/scatter rules, gradients not needed), plus a
  graph mode (`_graph.py`: placeholders, local variables, sessions, control
  dependencies) for the streaming metrics. Custom ops of the repository run as the
  real C++ kernels in a separate process (`cc/ops_server.cc`, linked against the
  installed libtensorflow_framework).
* `tensorflow_probability`, `sklearn`, `scipy`, `skimage`, `deeplab2` — only the
  parts used (histograms and categorical/Bernoulli distributions, kernel density,
  linear assignment, PCA, colour conversion, segmentation-and-tracking quality),
  from their published definitions.
* `pyarrow`, `dask` — column metadata types and a partitioned data frame on pandas.
* `matplotlib` — records artists; `cc/absl/flags` — parses command lines.

Conformance: the repository's own TensorFlow tests run on these stand-ins, and
nearly all pass: keypoint_metrics 81, keypoint_data 22, keypoint_draw 12,
map_metric_features 11, interaction_features 15, traffic_light 2, trajectory 16,
estimators 18, camera_segmentation_utils 12, camera_segmentation_metrics 5,
detection_metrics 2, motion_metrics 4, tracking_metrics 2, example_utils 6,
womd_camera_utils 4, geometry/box/range image/frame/occupancy/v2 tests. What does
not run needs data files or pybind modules that are absent (config_util_test,
womd_lidar_utils_test, v2 compat_v1 tests and lidar_utils with missing tfrecords)
or is too slow on numpy (metric_features_test, metrics_test; their code is C28's).
The stand-ins are part of the trusted base: a property that depends on behaviour
of the real library that the stand-in gets wrong would be misjudged. The C++ parts
use the real libraries throughout.

### How results are judged without false alarms

References compare with tolerances far above float noise and far below what a
wrong formula gives; inputs are chosen off decision boundaries, or results within
rounding of a boundary are accepted either way; ties accept every admissible
answer (any optimal assignment, any equally near point); only public functions,
classes, command lines and ops are called, so that helpers may be moved, renamed
or rewritten; messages are not compared. A harness that cannot be built or run
exits 2, which is neither a pass nor a violation.
'''

HOW = {
 'C01': 'calling the assignment routine on every matrix of the families and comparing the total weight with the optimum found by a dynamic programme over subsets (n up to 12), for larger structured matrices by successive shortest augmenting paths in 64-bit arithmetic; that the answer is a permutation is checked too. Tests try a handful of matrices; the failures of this algorithm need particular tie patterns.',
 'C02': 'driving every matcher object through all tables and all short call histories and comparing matches with a brute force over all one-to-one pairings of admissible pairs (total quantised weight for the Hungarian matcher, greedy in score order for the score-first one). Histories matter since matchers cache weights between calls.',
 'C03': 'evaluating IoU, LET affinity and longitudinal correction for every pair of poses against polygon clipping in long double, written in the harness.',
 'C04': 'enumerating pairs of shapes on small grids (where touching, coincidence and degeneracy are frequent), rotated and shifted copies, and all histories of mutators and cached getters of one shape, against exact or long double plane geometry.',
 'C05': 'evaluating all operand pairs, nested expressions and rounding modes against arithmetic on wide integers.',
 'C06': 'building the tree from every small collection and every structured larger one, and asking for every box, against a linear scan; histories rebuild one tree object with other collections.',
 'C07': 'enumerating objects around every published limit and every generator list, comparing shards with the documented limits, names with the Python naming code (which must agree), and subsets with a partition computed in the harness.',
 'C08': 'enumerating whole frames (types, levels, zones, scores, IoU tables realised by boxes or by a test matcher) and recomputing counts, sums and details per breakdown, level and cutoff.',
 'C09': 'enumerating groupings of frames and merge trees (every order and every binary tree of merges), and count and precision/recall lists, against the published formulas.',
 'C10': 'breadth-first enumeration of every reachable correspondence memory times every frame (a complete transition relation for 3 x 3 objects), and all frame histories of bounded length, against a CLEAR-MOT reference that carries the memory explicitly.',
 'C11': 'enumerating scenes of up to 3 frames, groupings into scenes, and cutoff distributions against sums computed in the harness.',
 'C12': 'enumerating predictions, validity masks and track shapes against direct formulas for each metric and for the trajectory classification.',
 'C13': 'enumerating every single and many double faults of a valid input (lengths, ids, rates, indices, NaN): exactly the malformed ones must be refused, none may crash or read out of bounds (-D_GLIBCXX_ASSERTIONS).',
 'C14': 'enumerating label pairs, resets and merges on the metric object, and whole files through the command line tool (zlib and proto framing written by the harness).',
 'C15': 'enumerating small scenarios field by field and converting each to tf.Example features, compared feature by feature with the documented layout.',
 'C16': 'enumerating cameras, motions, shutters and points; the projection is compared with an independent solution of the documented equations, with round trips and histories of PrepareProjection on one object.',
 'C17': 'running the real kernels on enumerated tensors against the library on the same objects, and under a controlled scheduler: all orders in which the tasks of one op may run, plus every placement of one preemption at allocation points.',
 'C18': 'enumerating arrays, dtypes and step sizes; decode(encode(x)) and the stream are compared with the documented code.',
 'C19': 'enumerating rated trajectories, speeds and predictions around the trust region, against a scalar reference.',
 'C20': 'enumerating maps of small features and comparing the plotly figure trace by trace.',
 'C21': 'enumerating submissions and scenarios with missing, extra, repeated and late agents, and conversions of logged scenarios, against the documented rules.',
 'C22': 'enumerating component values, tables, keys and join options of the v2 columnar format through the real code on pandas-backed stand-ins of pyarrow and dask.',
 'C23': 'enumerating presence patterns of every field of v1 frames and comparing the extracted v2 components field by field.',
 'C24': 'enumerating range images, extrinsics, inclinations and poses; extraction, building, pooling and cropping are compared per pixel with a scalar reference, and frames as a whole in both formats.',
 'C25': 'enumerating boxes and points on grids against a scalar reference.',
 'C26': 'enumerating frames, keypoint states, splits into updates, and small matching problems against brute force over all matchings.',
 'C27': 'enumerating validity patterns, poses, waypoint layouts and grids against a per-point reference.',
 'C28': 'enumerating small scenes per feature, estimator settings, and whole scenarios, against scalar references of each definition.',
 'C29': 'enumerating update histories in the stand-in graph mode with the real ops, against one evaluation of the real op over everything given so far.',
 'C30': 'enumerating images, tile sizes, codec configurations and rays against direct evaluation.',
 'C31': 'enumerating label sets, mappings and divisors against a per-pixel reference, and truth/prediction sequences against an own computation of STQ with weights.',
 'C32': 'running the real command line tools in processes of their own on enumerated files in scratch directories, with expected output computed from an own reading of the files through the metrics library.',
 'C33': 'running the real latency scripts with a model and a clock of the harness, and the real comparison tool on enumerated near copies of results, against brute force over matchings.',
 'C34': 'running the real kernels on every enumerated call and history against the camera model (decided by C16).',
 'C35': 'running the drawing functions against recording stand-ins and comparing everything drawn with a list computed in the harness; animations are driven through every order of frames.',
}

LIMITS = {
 'C07': 'positions within rounding of a limit accept either side.',
 'C08': 'NaN values; scores exactly on a cutoff follow "at least".',
 'C10': 'duplicate ids in one frame; MOTA ties within 2e-6.',
 'C11': 'the number of ground truths when it differs between cutoffs; duplicate ids in one frame.',
 'C12': 'objects repeated across groups; max_predictions 0; NaN.',
 'C15': 'rounding of timestamp_micros (+-1.5 us); Padded counters may be negative; dynamic states longer than the timestamps.',
 'C16': 'the angular velocity is taken in the vehicle frame as the code does; the linear time/coordinate mapping of the solver is tolerated by a computed slip; an unknown shutter direction aborts.',
 'C17': 'the Match op takes 7-DOF z as the bottom (follows the code); duplicate scenario ids in a batch; aborts on malformed shapes; the score-first matcher in Match is compared by number of pairs. Schedules: all task orders, and one preemption at every allocation.',
 'C18': 'NaN and infinity, images of size zero, numpy scalars as step.',
 'C19': 'points within 1e-7 of a region edge.',
 'C20': 'features with duplicate ids next to each other, unset positions, line widths; a stop sign may be a line or a marker.',
 'C21': 'a complete scene with a repeated agent, whether the scenario id matches, no valid agent at all.',
 'C22': 'null keys; grouping of empty tables; grouping happens only when key sets differ.',
 'C23': '3D points of camera keypoints may be kept or dropped; projected ids not of 22 characters; missing box or metadata fields may raise anything.',
 'C24': 'v1 frames without a top laser or second return; points on row ties or column edges accept either neighbour; equal quantised ranges accept any tie.',
 'C25': 'points on the boundary; clockwise or zero-size boxes in the Minkowski sum; boxes between tilted frames. Headings are not normalised by transform_box.',
 'C26': 'per-object weights with OKS (raise); poses with boxes on some only; errors exactly on thresholds. Box tensors take headings clockwise as documented there, labels do not: known finding `label-heading-clockwise`. Incomplete predictions in unlabelled boxes may be matched in stage 2 (follows the code).',
 'C27': 'observed means valid at any past or current step (code; the proto comment says current only); the cumulative mean counts non-zero components per axis; scenes without exactly one SDC; ties within 0.002 cells. The warp in the metrics is disabled upstream (NotImplementedError); the check stands in for it.',
 'C28': 'NaN, the time to collision of invalid objects, scenes without a valid vehicle, rounding factor 1, degenerate segments, positions collinear beyond open ends. ADE averages over all steps valid in the log (follows the code). A red light compares the previous position with the stop point of the current step.',
 'C29': 'precision exactly at the threshold; evaluating nothing; speeds in some updates between resets only; repeated ids in a frame; two sets of metric ops in one graph. States add up only with fixed cutoffs.',
 'C30': 'images too small for one reflection may be refused; grazing rays; rounding ties.',
 'C31': 'unmapped ids that coincide with global ids; width-1 images as colours; a code of exactly 65535; a sequence that returns after another in one file. Ids stay the global ones only for a single sequence.',
 'C32': 'the tracking tool groups by context and time only and keeps objects without lidar points (follows the code); a score of exactly 0.03; NaN scores; the exit status on unreadable metric inputs.',
 'C33': 'boxes with neither 4 nor 7 numbers, mixed headings, an unreadable latency file, values on a threshold. create_submission clamps sizes at 1e-6 while the latency conversion drops under 0.01 (both follow the code).',
 'C34': 'malformed shapes abort.',
 'C35': 'boxes outside the image, missing colours of dots, an empty wireframe, empty polylines, NaN, empty token lists. A crop may miss the last pixel row and column (follows the code); the margin is relative to the box (code; the comment says image).',
}

CAUGHT = {
 'C28': '`min-ade-per-object` was missed at first; the family *errors* was added.',
 'C29': '`evaluator-reset-keeps-fields` was missed at first; speeds toggling at resets were added to *evaluator*.',
 'C32': 'Writing `tracking-tool-file-order` showed that file orders of tracks were not explored; the family *order* was added.',
 'C33': 'Writing these showed that discrepancies in several frames and calibrations per context were not explored; both were added.',
}
EXTRA = {}

REST = '''## Properties not claimed

None: every property in properties.jsonl has a check. What the family cannot reach
here is stated as a limit of a property: unbounded sizes (bounds are given per
family), real TensorFlow's own behaviour, GPU placement, and the Jupyter tutorials
(no decidable statement beyond the library functions they call). The C++ and
Python code under `third_party`, `docs` and the generated protobuf code are not
subject of a property.

## Known finding

`label-heading-clockwise` (C26): a laser label's heading is counter-clockwise
(as in label.proto), but `BoundingBoxTensors` documents and uses clockwise headings
and `create_laser_box_tensors`/`stack_boxes` pass the label's heading on unchanged, so
distances of keypoints to a rotated labelled box use the mirrored box. Repairing it
means changing the meaning of a public field used by published metrics, which is not
small and safe. The check prints KNOWN-FINDING for it and reports anything else.

## False alarms met and removed

While building, several first versions judged too strictly and were corrected
(never by loosening a right check): values on decision boundaries (ranges, headings,
cutoffs, rounding ties) now accept either side; ties in matchings accept any optimum;
the MOTA comparison allows float ties; observed agents, cumulative flow, ADE over the
history and the tracking tool's grouping follow the documented behaviour of the code
where the documentation says nothing else (see the limits above).
'''
