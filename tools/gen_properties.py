#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
O = "rct_optimizations/src/rct_optimizations/"
H = "rct_optimizations/include/rct_optimizations/"
I = "rct_image_tools/src/rct_image_tools/"
R = "rct_ros_tools/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Hand-eye calibration recovers the true setup from any surviving history",
  "When every surviving observation of a calibration session is an exact view of one fixed physical setup and together they determine it, hand-eye calibration started near the truth reports convergence, a per-residual cost of essentially zero, and the true camera and target mounts, for camera-on-wrist and camera-static setups and for 2D (pixel) and 3D (point) measurements. "
  "Which observations and individual features were lost, duplicated, delayed or delivered in another order makes no difference to that. "
  "A 2D start for which a delivered feature lies behind the camera is refused with an error.",
  ["histories", "fault_sequences", "inputs"],
  "For every rigid setup, camera, target layout, robot trajectory, initial guess within the basin (a few cm / degrees), and every loss / duplication / reordering / occlusion / delay sequence on the session that leaves the setup determined.",
  "The unit tests solve a handful of fixed grids with every observation present, in generation order, from a perfect or one perturbed guess; they never run a session where frames or single features go missing, arrive twice or out of order.",
  [O+"extrinsic_hand_eye.cpp", H+"extrinsic_hand_eye.h", H+"ceres_math_utilities.h", H+"eigen_conversions.h", O+"eigen_conversions.cpp"],
  [("reprojection / point residual chain", O+"extrinsic_hand_eye.cpp"), ("pose conversion", O+"eigen_conversions.cpp")],
  ["returned camera mount, target mount, converged flag, initial and final cost"])

p("C02", "Multi-camera calibration survives independent per-camera losses",
  "For a network of cameras viewing one target (full calibration against robot poses, calibration of the cameras and target poses alone, and calibration of a rigid camera set), exact observations that determine the unknowns give the true camera and target poses with an essentially zero cost, whichever frames and features each camera lost and in whatever order cameras and frames are listed. "
  "A first camera declared fixed is returned exactly as given; a rigid camera set keeps its internal geometry exactly; a camera that observed nothing keeps its given pose, never disturbs the other cameras' results, and never brings the process down.",
  ["histories", "fault_sequences", "inputs"],
  "For every camera network (1..5 cameras), trajectory, guess in the basin, and every independent loss / duplication / reorder / blackout sequence per camera, including cameras that lose every frame.",
  "Tests use two or three cameras that see every pose; no test drops frames per camera, blacks a camera out, or permutes cameras.",
  [O+"extrinsic_multi_static_camera.cpp", O+"extrinsic_multi_static_camera_only.cpp", O+"extrinsic_multi_static_camera_wrist_only.cpp"],
  [("per camera / per frame residual loops", O+"extrinsic_multi_static_camera.cpp"), ("fixed first camera cost", O+"extrinsic_multi_static_camera_only.cpp"), ("single correction transform", O+"extrinsic_multi_static_camera_wrist_only.cpp")],
  ["returned camera poses, target poses, converged flag, costs, process exit"])

p("C03", "Single-shot estimators give the true pose or circle under occlusion",
  "From exact features, locating a target with one calibrated camera (2D), with 3D points, or with several calibrated cameras at once returns the true target pose with an essentially zero cost and reports convergence when started near it, and fitting a circle to exact points returns the true centre and radius; the result does not depend on which features were occluded, repeated or reordered, or which cameras saw nothing, as long as what is left determines the answer. "
  "The single-camera and multi-camera solvers agree when given the same one camera.",
  ["histories", "fault_sequences", "inputs"],
  "For every target layout, camera, pose, guess within the basin, and every occlusion / duplication / reorder / camera-blackout sequence leaving at least the determining features.",
  "Tests use full grids from one or two poses; none removes features, blacks out cameras, or cross-checks the two solvers.",
  [O+"pnp.cpp", O+"multi_camera_pnp.cpp", O+"circle_fit.cpp", H+"ceres_math_utilities.h"],
  [("2D / 3D residuals", O+"pnp.cpp"), ("multi-camera residual", O+"multi_camera_pnp.cpp"), ("circle residual", O+"circle_fit.cpp")],
  ["returned pose / circle, converged flag, costs"])

p("C04", "Intrinsic calibration tolerates unusable frames",
  "Calibrating a camera's focal lengths, principal point and lens distortion from several views recovers the true values and every view's target pose when the views are exact, whichever views and features were lost or reordered. "
  "A view in which the target cannot be located (no features left, or no pose can be solved for it) is left out or reported as an error; it never changes the answer obtained from the remaining views and never brings the process down.",
  ["histories", "fault_sequences", "inputs"],
  "For every camera (with distortion), set of views and guesses in the basin, and every sequence of lost, blank, garbage and partially occluded views.",
  "The one intrinsic test uses a fixed set of perfect views; no test includes a view whose pose cannot be found.",
  [O+"camera_intrinsic.cpp", H+"experimental/camera_intrinsic.h"],
  [("per-view pose guess and skip", O+"camera_intrinsic.cpp"), ("distortion residual", O+"camera_intrinsic.cpp")],
  ["returned intrinsics, distortion, target poses, converged flag, costs, process exit"])

p("C05", "Kinematic calibration: true robot from any worker schedule and history",
  "Kinematic calibration of camera-carrying and target-carrying joint chains, which runs worker threads, gives the same answer under every interleaving of its workers; from exact observations it drives the cost to essentially zero with the end-to-end pose predicted by the calibrated robot equal to the truth at unseen joint positions, whichever observations were lost or reordered. "
  "Every parameter the caller declared fixed comes back exactly as given, and a parameter declared fixed out of range, an observation with more joint values than its chain has joints, or a problem without observations is refused with an error.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "For every chain pair, offset vector, fixed-parameter mask, observation history under loss / duplication / reorder, and every schedule of the solver's worker threads.",
  "These sources are not even built by the offline test suite (they need an older solver header); upstream tests run one schedule, whatever the OS picks.",
  [O+"dh_chain_kinematic_calibration.cpp", H+"dh_chain_kinematic_calibration.h", H+"local_parameterization.h", O+"dh_chain.cpp", H+"dh_chain.h", H+"maximum_likelihood.h"],
  [("dual-chain cost", H+"dh_chain_kinematic_calibration.h"), ("fixed-parameter subset", H+"local_parameterization.h"), ("4 worker threads", O+"dh_chain_kinematic_calibration.cpp")],
  ["returned chain offsets, mount poses, base transform, converged flag, costs, exception type"])

p("C06", "Concurrent callers never disturb each other",
  "Several threads may use the library at once, each on its own problem or sharing read-only robots, targets and finders: under every interleaving each call returns exactly what it returns when run alone, nothing deadlocks, and no two calls touch the same memory without synchronisation. "
  "This covers every optimiser, validation and statistics function, forward kinematics and random robot-pose generation, target geometry and (de)serialisation.",
  ["schedules", "inputs"],
  "For every set of 2..4 callers, every mix of operations, and every interleaving of their memory accesses and lock operations.",
  "The test-suite is single threaded; races only show for particular interleavings.",
  ["rct_optimizations/src/rct_optimizations", "rct_image_tools/src/rct_image_tools", H+"dh_chain.h"],
  [("no shared mutable state in solvers", "rct_optimizations/src/rct_optimizations"), ("per-object random engine use", O+"dh_chain.cpp")],
  ["per-call result digests, happens-before race reports on library memory, deadlock"])

p("C07", "A call's result depends on its arguments only",
  "Every library call returns the same result for the same arguments, whatever calls came before it in the process (including ones that failed part-way through memory exhaustion, bad input or an exception), whatever the wall clock, entropy source or memory layout does, and without modifying its inputs. "
  "A call that fails does so with an exception the caller can catch, leaving later calls unaffected.",
  ["histories", "fault_sequences", "crash_points"],
  "For every history of library calls, with allocation failures injected at any allocation inside the library's own code, clock jumps, entropy changes and heap layouts.",
  "Each unit test starts in a fresh process with a single call sequence, with plentiful memory and a fixed seed.",
  ["rct_optimizations/src/rct_optimizations", "rct_image_tools/src/rct_image_tools", H+"validation/homography_validation.h"],
  [("stateless solvers", "rct_optimizations/src/rct_optimizations"), ("explicit seeds", O+"dh_chain.cpp")],
  ["result digest of a probe call after each history, compared with the digest in a pristine process; input digests"])

p("C08", "Reported convergence and cost are honest",
  "With noisy, duplicated or corrupted measurements each optimiser's answer minimises the sum of squared residuals of the measurements it was given (all of them, each weighted once): the reported initial and final costs per residual equal those of the caller's guess and of the returned answer, the final cost never exceeds the initial one, and a report of convergence means no small change of the answer lowers the sum. "
  "An answer with no usable measurements is never reported as a converged calibration with finite cost.",
  ["histories", "fault_sequences", "inputs"],
  "For every estimator, every noisy data set and every sequence of outlier corruption, duplication, loss and swap faults on its measurements.",
  "Tests check costs against fixed thresholds on clean data; none recomputes the cost independently, and none checks optimality on corrupted data.",
  [O+"extrinsic_hand_eye.cpp", O+"pnp.cpp", O+"extrinsic_multi_static_camera.cpp", O+"extrinsic_multi_static_camera_only.cpp", O+"extrinsic_multi_static_camera_wrist_only.cpp", O+"multi_camera_pnp.cpp", O+"circle_fit.cpp", O+"camera_intrinsic.cpp"],
  [("cost normalisation", O+"extrinsic_hand_eye.cpp"), ("termination mapping", O+"pnp.cpp")],
  ["converged flag, initial / final cost, returned parameters vs an independent residual model"])

p("C09", "Covariance reports name and quantify the right parameters",
  "Every covariance report lists each free parameter's standard deviation and each pair's covariance and correlation under the names of the parameters they belong to, with the values given by the inverse of the problem's information matrix at the answer; this holds for any order, loss or duplication of observations, any number of cameras or views (including some with no data), and any placement of the parameters in memory. "
  "Correlations lie in [-1, 1] and asking for entries above a threshold returns exactly those whose magnitude exceeds it.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "For every estimator that reports covariance, every observation history, parameter count and memory layout.",
  "Tests check sizes, names and rough values for one or two fixed data sets in one memory layout.",
  [O+"covariance_analysis.cpp", H+"covariance_types.h", O+"extrinsic_hand_eye.cpp", O+"extrinsic_multi_static_camera.cpp", O+"camera_intrinsic.cpp", O+"pnp.cpp"],
  [("block-wise covariance and labels", O+"covariance_analysis.cpp"), ("label composition per problem", O+"extrinsic_multi_static_camera.cpp")],
  ["named entries of the covariance report vs an independent numerical information matrix"])

p("C10", "Saved calibration data comes back exactly or not at all",
  "Calibration problems, poses, intrinsics, correspondences and results written to a file and read back describe exactly the same values (to the precision the text format carries), for any values and any number of observations, across save / overwrite / reload histories. "
  "When storage failed in between (file missing, empty, cut at an entry boundary, an entry lost or replaced by something of another type) loading raises an error instead of returning invented or default values, and a file not touched by the fault still loads exactly. Two pieces of calibration data compare equal when, and only when, the values they carry agree.",
  ["inputs", "fault_sequences", "crash_points", "histories"],
  "For every serialisable object and every storage fault (lost file, lost or mistyped entry, write cut off at an entry boundary, full disk) on the way to and from disk.",
  "The serialisation tests write and read one or two fixed objects on a healthy disk.",
  [H+"serialization/eigen.h", H+"serialization/types.h", H+"serialization/problems.h"],
  [("field-by-field encode / decode", H+"serialization/types.h"), ("quaternion pose encoding", H+"serialization/eigen.h")],
  ["decoded object vs original; exception"])

p("C11", "Stored data sets never lie about what was captured",
  "Saving a calibration data set reports success exactly when every image, pose and the index are stored, and loading it then returns the same image / pose pairs in order. "
  "After any storage failure or crash during the save, or later loss of some files, loading either fails or returns only pairs that were captured together, unaltered and in order, skipping the incomplete ones and never pairing an image with another capture's pose.",
  ["fault_sequences", "crash_points", "histories"],
  "For every data set and every placement of directory, open, write or disk-full failures and of a crash during the save, into new folders and over earlier data sets, and every subset of files lost or emptied afterwards.",
  "The data-set code is not built by the offline test suite, and nothing injects a storage fault.",
  [R+"data_set.cpp", R+"parameter_loaders.cpp", "rct_ros_tools/include/rct_ros_tools/data_set.h"],
  [("index written last, relative paths", R+"data_set.cpp"), ("skip incomplete pair", R+"data_set.cpp")],
  ["return value of save, loaded images and poses vs captured ones"])

p("C12", "The correspondence table reflects exactly what each camera saw",
  "Building the camera-by-image table of correspondences marks an entry as found exactly when the target was found in that camera's image, keeps exactly that image's correspondences there, and reports matching per-camera and per-image counts. "
  "Images in which the finder fails (no target, or any error from the finder) and cameras that captured fewer images than others are marked not found, without disturbing other entries.",
  ["fault_sequences", "inputs", "histories"],
  "For every number of cameras and images per camera (equal or not) and every sequence of per-image finder failures.",
  "No test covers this class, and it is not built by the offline test suite.",
  [R+"data_set.cpp", "rct_ros_tools/include/rct_ros_tools/data_set.h"],
  [("found mask", R+"data_set.cpp")],
  ["counts, found flags and correspondence sets vs the scripted finder"])

p("C13", "The data collection node pairs the latest image with the pose at trigger time",
  "Each successful capture request adds exactly one pair made of the most recently received good image, unaltered by later frames or overlays, and the robot pose at the time of the request; a capture without an image or without an available pose reports failure and adds nothing. "
  "Malformed frames, frames without a target, lost, duplicated and late messages and failing saves never crash the node, and a save stores all captured pairs in order and reports failure if it could not.",
  ["schedules", "histories", "fault_sequences"],
  "For every interleaving of image messages, transform updates, capture and save requests, with message loss, duplication, delay, malformed frames, transform outages and storage faults.",
  "The node has no tests at all and is not built offline.",
  [R+"command_line_cal.cpp", R+"data_set.cpp"],
  [("latest frame kept per message", R+"command_line_cal.cpp"), ("both captures must succeed", R+"command_line_cal.cpp")],
  ["service return values, stored data set, published overlay images, process exit"])

p("C14", "Target finders identify features correctly or fail cleanly",
  "For circle-grid, ArUco and ChArUco targets, every feature a finder returns carries the identity of the physical target feature located at the reported pixel, to sub-pixel or few-pixel accuracy, and matching features to target geometry yields exactly those features' 3D positions; occlusion, noise, blur, stray markers from other targets, empty or truncated images lead to fewer features or a catchable error, never to misidentified features or a crash. "
  "Results do not depend on how the image library schedules its parallel work, and finding or drawing features never alters the caller's image in a way that changes a later detection.",
  ["inputs", "fault_sequences", "schedules"],
  "For every target configuration, camera view within the detectable range, image fault sequence and order of parallel image-processing work.",
  "Tests use a few stored photographs with known counts; no test occludes, corrupts or mixes targets or checks feature identity against ground truth.",
  [I+"aruco_finder.cpp", I+"charuco_finder.cpp", I+"modified_circle_grid_finder.cpp", I+"circle_detector.cpp", I+"aruco_grid_target.cpp", I+"charuco_grid_target.cpp", I+"modified_circle_grid_target.cpp"],
  [("feature identity maps", I+"aruco_grid_target.cpp"), ("grid origin disambiguation", I+"modified_circle_grid_finder.cpp"), ("all-or-subset matching", I+"charuco_finder.cpp")],
  ["feature map, correspondences vs rendered ground truth; exception type"])

p("C15", "Noise qualification statistics describe exactly the given sessions",
  "Qualifying measurement noise from repeated observations reports the mean and standard deviation of the poses actually recovered from the sessions that could be solved, position by component and orientation as a proper average, independent of the order the sessions were recorded in and of how a pose's orientation happens to be encoded. "
  "Sessions that could not be solved are left out of the statistics, and when too few remain the caller gets an error rather than made-up numbers.",
  ["histories", "fault_sequences", "inputs"],
  "For every set of repeated sessions (2D and 3D) with random loss, corruption, reordering and unsolvable sessions.",
  "Tests use one noisy batch per type with loose thresholds; they do not recompute the statistics or include unsolvable sessions.",
  [O+"validation/noise_qualification.cpp", H+"validation/noise_qualification.h"],
  [("skip unconverged", O+"validation/noise_qualification.cpp"), ("quaternion mean", O+"validation/noise_qualification.cpp")],
  ["returned mean / standard deviation vs an independent computation"])

p("C16", "Validation tools detect corrupted data and pass clean data",
  "Checking correspondences with a homography gives errors that are essentially zero for exact planar data and exposes every swapped or displaced feature, always using the same sample for the same seed, never a sample outside the data, and refusing degenerate requests. "
  "Checking camera intrinsics and 3D re-projection gives essentially zero error for true calibrations and the geometrically expected error for wrong ones, whatever order, loss or repetition the observations underwent, and an error instead of statistics when there is not enough data.",
  ["fault_sequences", "histories", "inputs"],
  "For every planar data set, every swap / displacement / loss / duplication fault sequence, every sampler seed and size.",
  "Tests use one grid with one hand-made error; samplers and degenerate requests are not explored.",
  [O+"validation/homography_validation.cpp", H+"validation/homography_validation.h", O+"validation/camera_intrinsic_calibration_validation.cpp", O+"validation/projection.cpp"],
  [("sampled homography", O+"validation/homography_validation.cpp"), ("relative pose comparison", O+"validation/camera_intrinsic_calibration_validation.cpp"), ("line-plane projection", O+"validation/projection.cpp")],
  ["returned error arrays and statistics vs an independent model; exceptions"])

p("C17", "Random robot poses are seeded, bounded and reproducible",
  "Random joint positions drawn from a robot model always lie within that joint's limits and cover the range; the sequence depends only on the model's own seed, so two runs with the same seed and call order agree exactly, whatever other models, threads or calls ran before or in between. "
  "Copying a robot model keeps its limits, names and random behaviour settings, and applying calibrated offsets changes only the geometry.",
  ["schedules", "histories", "inputs"],
  "For every robot model, joint limits, seed and every interleaving of draws from several models and threads.",
  "Tests draw from one model in one process with a compile-time seed; they cannot see cross-model or cross-thread leakage of the random state.",
  [O+"dh_chain.cpp", H+"dh_chain.h"],
  [("random joint value", O+"dh_chain.cpp"), ("offset constructor", O+"dh_chain.cpp")],
  ["drawn joint vectors, relative transforms"])

p("C18", "Configuration is loaded exactly or refused",
  "Loading camera intrinsics, poses and target definitions from the parameter service or a file yields exactly the configured values; if any required entry is missing, unreadable, or of the wrong kind, the load reports failure (an error or a false return) and never hands back a partially filled result as a success. "
  "A target definition that loads produces a target whose features sit at the configured geometry.",
  ["configurations", "fault_sequences"],
  "For every configuration and every single or multiple entry lost, mistyped or unreadable, in the parameter service or the file.",
  "Tests load one or two valid configurations per type and a few empty ones; combinations of missing and mistyped entries are not covered, and most of this code is not built offline.",
  [R+"parameter_loaders.cpp", R+"loader_utils.cpp", R+"target_loader_plugins.cpp", I+"aruco_grid_target.cpp", I+"charuco_grid_target.cpp", I+"modified_circle_grid_target.cpp"],
  [("keyed access with conversion errors", R+"parameter_loaders.cpp"), ("parameter tree to document conversion", R+"loader_utils.cpp")],
  ["loaded object or error"])

p("C19", "Forward kinematics composes joints in order",
  "The pose of a serial chain is the product of its joint transforms in order, for any joint values, with the caller's offsets and prefix lengths respected.",
  ["inputs"], "For every chain and joint vector.",
  "Tests check a few joint vectors.",
  [O+"dh_chain.cpp", H+"dh_chain.h"], [("FK product", H+"dh_chain.h")], ["returned pose"])
p("C20", "Pose representations convert without loss",
  "Converting a rigid pose between the representations the library uses and back gives the same pose.",
  ["inputs"], "For every rigid pose.", "Tests convert a handful of poses.",
  [O+"eigen_conversions.cpp", H+"eigen_conversions.h"], [("angle-axis conversion", O+"eigen_conversions.cpp")], ["converted pose"])
p("C21", "Printed reports show the values computed",
  "Human-readable calibration reports show the transforms, errors and statistics that were computed, in the stated units and frames.",
  ["inputs"], "For every transform and statistic.", "No test reads the output.",
  ["rct_common/include/rct_common/print_utils.h", H+"covariance_types.h"], [("formatting", "rct_common/include/rct_common/print_utils.h")], ["text output"])

E = "rct_examples/src/tools/"
p("C22", "Offline calibration programs report what the usable captures determine",
  "Each offline program (hand-eye calibration of a wrist or static camera, networks of static cameras in one or several steps, intrinsic calibration and validation, PnP with one or several cameras, noise qualification), run on recorded captures, evaluates each capture with its own picture, its own pose and its own features, leaves out captures whose files are lost, whose target is not found or whose features fail the homography check, and prints exactly the calibration that the remaining captures determine, in matrix, quaternion and roll-pitch-yaw form alike. "
  "Unusable data or configuration end the program with an error message and a failing exit status, never with a crash, and no converged calibration is reported when nothing usable remains.",
  ["histories", "fault_sequences", "configurations"],
  "For every program, recorded session, fate of each capture (picture or pose lost or damaged, target not found, finder failing, features corrupted or occluded), order and repetition of the captures, damaged index, and missing or mistyped parameter.",
  "The programs have no tests at all and are not built offline.",
  [E+x for x in ("camera_on_wrist_extrinsic.cpp", "static_camera_extrinsic.cpp", "multi_static_camera_extrinsic.cpp", "multi_static_camera_multi_step_extrinsic.cpp", "intrinsic_calibration.cpp", "camera_intrinsic_calibration_validation.cpp", "solve_pnp.cpp", "solve_multi_camera_pnp.cpp", "noise_qualification_2d.cpp", "hand_eye_calibration_analysis.h")] + [R+"data_set.cpp", R+"parameter_loaders.cpp", "rct_common/include/rct_common/print_utils.h"],
  [("skip captures without target", E+"camera_on_wrist_extrinsic.cpp"), ("skip captures that fail to load", R+"data_set.cpp"), ("report formatting", "rct_common/include/rct_common/print_utils.h")],
  ["printed report, log messages, exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
