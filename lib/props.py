"""The properties, as published in properties.jsonl, and how each is decided."""
PROPS = []
NOT_APPLICABLE = []
NOTES = ("No hooks are needed in /repo: every monitor observes the public behaviour of the real code, built from /repo's working "
         "tree with the harnesses in /verif/harness.")


def prop(id, title, statement, over, text, why, files, mechanism, technique, level_note, observe=None, state=None):
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                              "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                              "observe_at": observe or [], "hook_needed": None},
                  "technique": technique, "level_note": level_note})


prop("C01", "Points convert between image, camera and world frames without distortion",
     "For every camera configuration, camera pose and point, conversions between pixel-with-depth, camera and world coordinates "
     "are the pinhole projection and the rigid motion of that pose: every composition agrees, every conversion and its inverse "
     "return the starting point, and reprojection distances are the differences of the projected points. A point is reported "
     "visible exactly when it projects inside the image and, where its depth is known, lies in front of the camera; pixels with "
     "a negative coordinate or a null depth are refused, and only depths in the sensor's reliable range (40 mm to 6 m) are "
     "reported valid.",
     ["inputs", "configurations"], "all camera intrinsics, all poses, all points, including behind the camera and on image edges",
     "The tests convert a few points with one symmetric camera (equal focal lengths) at a handful of poses.",
     ["src/coordinates/point_coordinates.cpp", "src/coordinates/basis_changes.cpp", "src/utils/camera_transformation.cpp",
      "src/utils/angle_utils.cpp"],
     [("pinhole conversion", "src/coordinates/point_coordinates.cpp"),
      ("rigid transforms and axis change", "src/utils/camera_transformation.cpp"),
      ("spherical conversions", "src/coordinates/basis_changes.cpp")],
     "runtime oracle: online comparison of executed conversions with an independent pinhole/rigid reference",
     "Sampled executions over several camera configurations; double rounding tolerance 1e-9 relative.",
     observe=["return values of the conversions"])

prop("C02", "Planes keep their geometry through parametrisations and frame changes",
     "For every plane and camera pose, the plane's normal is unit length and its signed distance defines the same set of points: "
     "a point lies on the plane before a change of frame exactly when the moved point lies on the moved plane, in either direction; "
     "moving a plane to the camera and back returns it; plane distances, angles and the closest point to the origin agree with the "
     "plane equation, and converting to and from the reduced parametrisation keeps the plane.",
     ["inputs"], "all planes (any normal, through or away from the origin), all camera poses",
     "Tests transform a few axis aligned planes by a few poses.",
     ["src/coordinates/plane_coordinates.cpp", "src/coordinates/plane_coordinates.hpp", "src/utils/camera_transformation.cpp"],
     [("plane transforms", "src/utils/camera_transformation.cpp"), ("plane coordinates", "src/coordinates/plane_coordinates.hpp")],
     "runtime oracle: point-on-plane invariance of executed plane transforms against an independent rigid motion",
     "Sampled planes and poses.", observe=["plane parameters after each transform"])
prop("C03", "Uncertainties are propagated truly; invalid ones are never accepted",
     "For every valid input covariance, the covariance produced for a pixel, camera point, world point, plane or pose change is "
     "symmetric, positive semi-definite and equal to J C Jt for the derivative J of the mapping it accompanies, including its sign "
     "structure (correlations), plus only documented additive noise; depth uncertainty never decreases with distance; a matrix that "
     "is not finite, symmetric, or positive semi-definite is never reported as a valid covariance.",
     ["inputs"], "all valid covariances, pixels, depths, poses and planes; all kinds of invalid matrices",
     "Tests only check that a few covariances are valid, not that they are the right ones.",
     ["src/utils/covariances.cpp", "src/utils/covariances.hpp"],
     [("covariance propagation", "src/utils/covariances.cpp"), ("covariance validity", "src/utils/covariances.hpp")],
     "runtime oracle: executed propagations against numerically differentiated mappings",
     "Sampled inputs; numerical derivative tolerance.", observe=["returned covariance matrices"])
prop("C04", "The Kalman filter is the optimal linear update, never overconfident",
     "For every linear system, prior, and sequence of measurements, the filter's state and covariance equal those of the Kalman "
     "equations, the covariance stays symmetric positive semi-definite, the updated uncertainty never exceeds the predicted one, "
     "prediction without measurement never lowers it, and a measurement with an invalid covariance is refused without changing the "
     "filter.",
     ["inputs", "histories"], "all dimensions, dynamics, noise matrices and measurement histories",
     "Tests run a few fixed sequences with isotropic noise.",
     ["src/tracking/kalman_filter.hpp"],
     [("prediction and update", "src/tracking/kalman_filter.hpp")],
     "runtime oracle: step by step comparison of filter histories with an independent information-form filter",
     "Sampled histories of up to 12 updates.", observe=["state and covariance after every call"])
prop("C05", "Inverse depth points describe the same ray and depth as cartesian ones",
     "For every first observation, ray direction, inverse depth and uncertainty, an inverse depth point converts to the cartesian "
     "point on its ray at distance 1/inverse depth, and back; its closest and furthest estimations lie on the ray in order, with "
     "finite distances; its projections to camera and screen are those of the cartesian point; conversions of its covariance are "
     "valid and match the derivative of the conversion; parameters outside the angular domain or with a negative inverse depth are "
     "refused.",
     ["inputs"], "all rays, depths, depth uncertainties and viewpoints",
     "Tests convert a grid of pixels with default uncertainty only.",
     ["src/coordinates/inverse_depth_coordinates.cpp", "src/coordinates/inverse_depth_coordinates.hpp",
      "src/tracking/inverse_depth_with_tracking.cpp"],
     [("inverse depth conversions", "src/coordinates/inverse_depth_coordinates.cpp")],
     "runtime oracle: executed conversions against an independent ray model",
     "Sampled rays, depths and viewpoints.", observe=["converted points and covariances"])
prop("C10", "Line geometry is exact; clamping to the image keeps the visible part",
     "For all lines, segments and points in two and three dimensions, distances, closest points and intersections are those of "
     "Euclidean geometry, parallel lines have no unique closest points, segments that do not meet do not intersect, and clamping a "
     "segment to the image keeps the part of it that is visible, never returns a point outside the image or off the segment, and "
     "refuses a segment that is not visible at all.",
     ["inputs"], "all relative positions of lines, segments, points and image borders",
     "Tests do not exercise this code at all.",
     ["src/utils/line.cpp", "src/utils/line.hpp", "src/utils/distance_utils.hpp"],
     [("clamp_to_screen and intersections", "src/utils/line.cpp"), ("line distances", "src/utils/line.hpp")],
     "runtime oracle: executed line operations against an independent closed form",
     "Sampled lines, segments and clamps.", observe=["returned distances, points and segments"])
prop("C07", "Predicted and measured poses evolve consistently",
     "For every pose history, the motion model's prediction is the last pose advanced by the measured linear and angular velocity: a "
     "camera that moves at constant velocity and constant rotation speed is predicted ever closer to where it goes, a camera at rest "
     "is predicted at rest, the predicted orientation is always a unit quaternion, the prediction is never more certain than the "
     "pose it starts from, resetting forgets the past, and the error between two poses is their distance and rotation "
     "angle.",
     ["inputs", "histories"], "all start poses, velocities, rotation axes and pose histories",
     "Tests do not exercise the motion model.",
     ["src/tracking/motion_model.cpp", "src/utils/pose.cpp", "src/utils/pose.hpp"],
     [("prediction", "src/tracking/motion_model.cpp"), ("poses and pose errors", "src/utils/pose.cpp")],
     "runtime oracle: executed predictions along synthetic trajectories against the true next pose",
     "Sampled trajectories.", observe=["predicted pose after every frame"])
prop("C08", "Polygons keep shape, area and place through fitting, moves and display",
     "For every planar boundary or point cloud, the polygon built from it lies on the plane, is a valid ring, encloses the points it "
     "was built from, and reports the area of its boundary; containment of a point agrees with the boundary; moving it between camera "
     "and world, or projecting it on another plane frame, moves every boundary point rigidly and keeps the area; the polygon is "
     "visible in the camera exactly when some of it projects in the image in front of the camera, and is displayed as its edges that are in front of it.",
     ["inputs"], "all planes, convex and non convex boundaries, point clouds, poses and camera intrinsics",
     "Tests build a few squares and do not move or project non convex or random boundaries.",
     ["src/utils/polygon.cpp", "src/utils/polygon.hpp", "src/coordinates/polygon_coordinates.cpp", "third_party/concave_fitting.cpp"],
     [("polygon construction and projection", "src/utils/polygon.cpp"), ("frame changes and visibility", "src/coordinates/polygon_coordinates.cpp"),
      ("concave hull", "third_party/concave_fitting.cpp")],
     "runtime oracle: executed polygon operations against an independent shoelace, ray casting and rigid motion reference",
     "Sampled boundaries and clouds; FLANN uses rand() so hulls differ between runs: the oracle is on the result's properties.",
     observe=["boundary points, area, containment, visibility"])
prop("C09", "Overlap measures and merges of polygons are those of plane areas",
     "For every pair of polygons of a plane, intersection and union areas and intersection over union are those of the planar regions, "
     "symmetric, between 0 and 1, 1 for a polygon with itself, and independent of the polygons' own axes and of small tilts of their "
     "planes; merging a polygon with an overlapping one covers both, never loses area over any sequence of merges, and "
     "stays a valid ring on the plane.",
     ["inputs", "histories"], "all pairs of polygons (disjoint, touching, nested, equal) and all merge sequences",
     "Tests check a few axis aligned squares.",
     ["src/utils/polygon.cpp", "src/coordinates/polygon_coordinates.cpp"],
     [("intersection, union, merge", "src/utils/polygon.cpp")],
     "runtime oracle: executed overlaps against an independent polygon clipping reference",
     "Sampled polygon pairs.", observe=["areas, intersection over union, merged boundary"])

prop("C11", "Depth images become the point cloud of what the camera measured",
     "For every depth image, every pair of camera intrinsics and every relative camera pose, a rectified depth image holds at each pixel "
     "the depth of the closest measured surface that projects there, nothing where nothing projects, and depends on nothing else; the "
     "organised cloud holds, for each cell and each pixel, the 3D point of that pixel at that depth, zero for pixels without depth, for "
     "every image size including those that are not a multiple of the cell size, with no access outside of the images.",
     ["inputs"], "all depth images, image sizes, cell sizes, intrinsics and camera to camera transformations",
     "Tests never rectify a depth image and never build the cloud.",
     ["src/features/primitives/depth_map_transformation.cpp", "src/features/primitives/depth_map_transformation.hpp"],
     [("rectification and organised cloud", "src/features/primitives/depth_map_transformation.cpp")],
     "runtime oracle: executed rectification and cloud building against an independent projection of every pixel; AddressSanitizer",
     "Sampled depth images and cameras, with and without AddressSanitizer.", observe=["every pixel and cloud point produced"])
prop("C12", "A plane patch is fitted to the points of its cell",
     "For every cell of measured depth, a patch is accepted as planar when its points are on a plane up to the sensor noise and refused "
     "when they are not, when too many are missing or when a depth discontinuity crosses it; the plane it reports minimises the distance to "
     "its points, with a unit normal facing the camera and the mean square error and spread of these points; merging patches gives the plane of all their "
     "points together, whatever the order; its point cloud covariance is a valid covariance.",
     ["inputs", "histories"], "all planes, noise levels, missing pixels, discontinuities and merge orders",
     "Tests do not fit a plane patch.",
     ["src/features/primitives/plane_segment.cpp", "src/features/primitives/plane_segment.hpp"],
     [("patch fit and merge", "src/features/primitives/plane_segment.cpp")],
     "runtime oracle: executed fits against an independent eigen decomposition of the same points",
     "Sampled depth cells.", observe=["accepted or refused, plane parameters, MSE, score, centroid"])
prop("C13", "Planes and cylinders detected in a depth image are surfaces of the scene",
     "For every depth image, each detected plane is a surface that is really there (its parameters and its boundary match the points "
     "of one surface), no surface is reported twice, every large enough planar surface is reported, an image without planar surfaces reports "
     "none, a cylinder is reported with its axis and radius, alone or next to other surfaces, seen from outside or inside, and no cylinder is reported where there is none, and the result of one frame does not depend on the frames before.",
     ["inputs", "histories"], "all scenes of planar and curved surfaces, noise, quantisation and missing depth",
     "Tests do not run primitive detection.",
     ["src/features/primitives/primitive_detection.cpp", "src/features/primitives/histogram.hpp", "src/features/primitives/cylinder_segment.cpp",
      "src/features/primitives/shape_primitives.cpp"],
     [("region growing and merging", "src/features/primitives/primitive_detection.cpp"), ("orientation histogram", "src/features/primitives/histogram.hpp"),
      ("cylinder fit", "src/features/primitives/cylinder_segment.cpp")],
     "runtime oracle: detection on ray cast depth scenes against the true surfaces",
     "Sampled scenes with known geometry.", observe=["planes, boundaries and cylinders found per frame"])
prop("C06", "Features fuse observations by uncertainty; a refused one changes nothing",
     "For every history of observations, a tracked point, inverse depth point or plane moves to the uncertainty weighted combination of "
     "what it was and what was observed, becomes at most as uncertain as before, keeps a valid covariance, a unit normal, its first "
     "observation and its latest descriptor, and reports how much it moved; a plane's boundary stays a valid ring on the plane and "
     "covers all that was seen of it; an observation with an invalid uncertainty or depth is refused and leaves it exactly as it was.",
     ["inputs", "histories"], "all sequences of accepted and refused observations, uncertainties and viewpoints",
     "Tests track a few points with constant uncertainty and never refuse an observation.",
     ["src/tracking/point_with_tracking.cpp", "src/tracking/inverse_depth_with_tracking.cpp", "src/tracking/plane_with_tracking.cpp",
      "src/tracking/kalman_filter.hpp"],
     [("point fusion", "src/tracking/point_with_tracking.cpp"), ("ray fusion", "src/tracking/inverse_depth_with_tracking.cpp"),
      ("plane fusion", "src/tracking/plane_with_tracking.cpp")],
     "runtime oracle: executed tracking histories against an independent information form fusion and the state before a refusal",
     "Sampled observation histories.", observe=["state, covariance, descriptor and boundary after every observation"])
prop("C14", "Map files read back as the features that were written",
     "For every sequence of points, lines and boundaries, the map file is well formed in the format of its extension, contains each "
     "feature that the format supports exactly once and in order, with its coordinates, and nothing else: OBJ elements refer to their "
     "own vertices and faces are the whole boundary, a PCD header announces the number of points that follow.",
     ["inputs", "histories"], "all sequences of written features and coordinate ranges",
     "Tests never write a map.",
     ["src/outputs/map_writer.cpp", "src/outputs/map_writer.hpp"],
     [("OBJ, PCD and XYZ writers", "src/outputs/map_writer.cpp")],
     "runtime oracle: written files parsed back by an independent reader",
     "Sampled feature sequences.", observe=["every line of the files written"])
prop("C15", "Log messages come out whole, once and in order whatever the threads do",
     "For every interleaving of threads that log information, warnings and errors, each message appears exactly once, on one line of its "
     "own, on the stream and with the tag of its level and the place of the call, and the messages of a thread appear in order on each "
     "stream.",
     ["schedules"], "all interleavings of concurrent log calls",
     "Tests never log from two threads.",
     ["src/outputs/logger.cpp", "src/outputs/logger.hpp"],
     [("logger", "src/outputs/logger.cpp")],
     "runtime monitor: exactly once and ordering checker over the captured streams of concurrent log calls",
     "Observed interleavings of 1 to 8 threads.", observe=["log lines with unique ids, alternations between threads"])
prop("C16", "A camera configuration is used exactly as written, or reported as unusable",
     "For every configuration file, either it is accepted and the image sizes, focal lengths, centers and the position and rotation of "
     "the second camera are those written, or it is reported as invalid: a missing, malformed or truncated file, a null or negative "
     "size, a focal length that is not positive, a negative or not finite value are never accepted and never end the program; default "
     "parameters are always usable; what was parsed before has no influence.",
     ["inputs", "histories"], "all configuration files and sequences of parsed files",
     "Tests only use the default parameters.",
     ["src/parameters.cpp", "src/parameters.hpp", "src/utils/angle_utils.cpp", "examples/configuration_example.yaml"],
     [("parse and validity", "src/parameters.cpp")],
     "runtime oracle: parsed parameters against the generated file; crash detection on damaged files",
     "Sampled configuration files.", observe=["accepted or refused, every parameter after parsing"])
prop("C17", "The three point pose solver returns only true poses, and the right one",
     "For every three bearing vectors of three distinct, non aligned points seen from a pose that they determine well, the solver "
     "returns at most four poses; each is a finite proper rotation and translation that puts the points on their bearings, in front of "
     "the camera; the true pose is one of them, whatever the order of the points and the unit of length.",
     ["inputs"], "all well conditioned three point problems, at any scale",
     "The tests solve two fixed instances; the random one depends on the time of day and is not run.",
     ["third_party/p3p.cpp", "third_party/p3p.hpp"],
     [("lambda twist solver", "third_party/p3p.cpp")],
     "runtime oracle: every returned pose checked against the bearings, and against the generating pose",
     "Sampled instances, away from the degenerate configurations (conditioning above 0.02, and 0.04 for the presence of the true pose).",
     observe=["number of solutions, residual of each, distance to the true pose"])
prop("C18", "The optimised pose explains the matches, each rightly kept or rejected",
     "For every set of matched points, rays and planes with a minority of wrong matches, and every first guess near the true pose, the pose "
     "found is the one that minimises the reprojection errors of the matches it keeps, within the accuracy that the measurement noise "
     "allows; wrong matches are rejected, right ones are kept, and every match is reported exactly once, as inlier or as outlier; the "
     "reported variance is a valid covariance of the size that the uncertainty of the map gives, at every orientation; too few matches and "
     "matches with invalid values are refused without ending the program; conversions of a pose to and from the optimised coefficients "
     "keep it, and their jacobian is their derivative.",
     ["inputs", "schedules"], "all poses, first guesses, compositions of matches, noise, wrong matches and draws of the random sample consensus",
     "The tests of the pose optimisation use one cube of points and a few poses; they are not part of the stable tests.",
     ["src/pose_optimization/pose_optimization.cpp", "src/pose_optimization/levenberg_marquardt_functors.cpp", "src/pose_optimization/ransac.hpp",
      "src/map_management/map_features/map_point.cpp", "src/map_management/map_features/map_point2d.cpp",
      "src/map_management/map_features/map_primitive.cpp"],
     [("RANSAC and refinement", "src/pose_optimization/pose_optimization.cpp"),
      ("parametrisation and cost", "src/pose_optimization/levenberg_marquardt_functors.cpp"),
      ("residuals and inlier tests of each feature", "src/map_management/map_features")],
     "runtime oracle: every optimised pose, inlier set and variance checked against the generating pose and an independent least squares model",
     "Sampled problems; guesses within 40 mm and 2.5 degrees; at most 30 % of wrong matches.",
     observe=["optimised poses, inliers, outliers, variances, residuals of each feature"])
prop("C26", "Random draws are fair, without repetition, independent between threads",
     "For every range and every set, random numbers lie in the range they are asked in and cover it uniformly; a random subset has the size "
     "asked for, contains only elements of the set, none twice unless repetition is allowed, and every element has the same chance; a subset "
     "by score reaches its target with no more elements than needed, and an impossible request is refused; threads that draw at the same "
     "time do not draw the same numbers.",
     ["inputs", "schedules"], "all ranges, sets, subset sizes, target scores and numbers of threads",
     "Tests do not exercise random sampling.",
     ["src/utils/random.hpp", "src/pose_optimization/ransac.hpp"],
     [("random engine of each thread", "src/utils/random.hpp"), ("random subsets", "src/pose_optimization/ransac.hpp")],
     "runtime oracle: range, repetition, score and frequency monitors over executed draws, by one and by several threads",
     "Statistical bounds beyond 7 sigma.", observe=["every draw and every subset"])
prop("C19", "Key points match the nearest description, and are tracked as they move",
     "For every set of key points, image size and search radius, a map point is associated with the key point of its search area, not "
     "matched yet, whose descriptor is the closest, when it is close enough and distinct enough, wherever in the image, borders and corners "
     "included; a tracked point is found by its identifier and only by it; every key point keeps its position, its descriptor and the depth "
     "measured at its pixel; points tracked between two images are at the place where the texture moved; what a previous frame stored has no "
     "influence.",
     ["inputs", "histories"], "all key point sets, image sizes, search areas, descriptors and image motions",
     "Tests have no key points at all.",
     ["src/features/keypoints/keypoint_handler.cpp", "src/features/keypoints/keypoint_detection.cpp"],
     [("search space and association", "src/features/keypoints/keypoint_handler.cpp"),
      ("detection and optical flow", "src/features/keypoints/keypoint_detection.cpp")],
     "runtime oracle: every association compared with an exhaustive search; tracked points compared with the known motion of the texture",
     "Sampled key point sets; image motions of at most 8 px per frame.",
     observe=["associations asked, tracked identifiers, depths, tracked positions"])
prop("C20", "Map features: confirmed before used, kept while seen, written once lost",
     "For every history of detections, outliers, frames that look elsewhere and frames without pose: a detection of no known feature becomes "
     "one candidate (a described key point a point if its depth was measured, a ray otherwise); a candidate enters the map when it is confirmed often enough (points: 3 net matches, planes: 4), with the identifier it "
     "had, and is dropped when its matches fall to zero (points) or after 2 missed frames (planes); a map feature is matched whenever it is "
     "detected where it should be, in whatever order detections come, and is searched further away when too few are found; it is kept while it is missed no "
     "more than 10 frames in a row (points; fewer than 10 for planes) and is then removed and written to the map file exactly once, where it "
     "is; features still alive at the end are written once. A match declared wrong counts as missed and its detection as new. A plane clearly in front of, behind or at an angle with a known one is not taken for it. No two features "
     "share an identifier, no detection is used by two features. A ray becomes a map point only with its position known. An invalid pose "
     "uncertainty is refused without any effect. The whole map does with each kind of feature what the map of that kind alone does.",
     ["histories", "inputs"], "all histories of detection, loss, outliers and failed poses of points, rays and planes",
     "Tests never build a map.",
     ["src/map_management/feature_map.hpp", "src/map_management/map_features/map_point.cpp",
      "src/map_management/map_features/map_point2d.cpp", "src/map_management/map_features/map_primitive.cpp", "src/utils/polygon.cpp"],
     [("life cycle of map features", "src/map_management/feature_map.hpp"),
      ("matching and update of each kind of feature", "src/map_management/map_features")],
     "runtime monitor: a state machine of every feature of a simulated world runs along the real map; sizes, matches, identifiers, used "
     "detections, tracked features and written features compared after each frame",
     "Sampled histories of 15 to 60 frames of well separated features, exact observations; rays seen from positions some millimetres apart "
     "(the detection of moving features is a heuristic that is not part of the property).",
     observe=["frames, matches, promotions, losses, dropped candidates, outliers, upgrades, written features"])
prop("C21", "The system follows the camera from its start pose, survives blind frames",
     "For every textured scene, camera rig and small motion between frames, the pose returned for the first image is the start pose, and "
     "every next pose follows the true motion of the camera relative to it, in whatever direction the first image looks and within half a "
     "metre of the origin of the world; a resting camera rests. Frames without "
     "content leave the pose where it is, tracking is reported as lost after more than three of them in a row, never for fewer however often, "
     "and is found again when the scene is "
     "back. Every returned pose is a rigid pose with a valid covariance. Given images are never modified, and the map written at the end lies "
     "on the surfaces of the scene.",
     ["inputs", "histories", "schedules"], "all scenes, rigs, start poses, trajectories and sequences of blind frames",
     "Tests never run the whole system: they have no images.",
     ["src/rgbd_slam.cpp", "src/map_management", "src/features", "src/pose_optimization", "src/tracking"],
     [("frame by frame tracking", "src/rgbd_slam.cpp"), ("map that frames are compared with", "src/map_management/local_map.hpp")],
     "runtime oracle: every pose of the running system compared with the trajectory of an independent ray caster; lost and found states, "
     "input images and map file monitored",
     "Sampled rooms of six textured walls; at most 9 mm and 0.4 degrees per frame; a random consensus may lose one trajectory in eight.",
     observe=["frames tracked, blind frames, poses, covariances, debug images, map vertices"])
prop("C22", "Deterministic mode gives identical results for identical images",
     "Built with MAKE_DETERMINISTIC, for every sequence of images, every run of the system gives bit for bit the same poses, covariances, "
     "debug images and map file, whatever the layout of its memory, the number of processors and their load.",
     ["inputs", "schedules"], "all image sequences, memory layouts, thread schedules and loads",
     "Tests do not run in this mode, and one run cannot show it.",
     ["src/map_management/feature_map.hpp", "src/utils/random.hpp", "src/pose_optimization/pose_optimization.cpp",
      "src/features/keypoints/keypoint_detection.cpp", "src/features/primitives/depth_map_transformation.cpp",
      "third_party/concave_fitting.cpp"],
     [("order of matches", "src/map_management/feature_map.hpp"), ("seed of the random engines", "src/utils/random.hpp"),
      ("sequential loops", "src/pose_optimization/pose_optimization.cpp")],
     "runtime comparison: four processes with different heap layouts, processor counts and loads run the same images, results compared bit "
     "by bit", "Sampled videos of 7 to 11 frames.", observe=["results of every frame of every run"])
prop("C23", "Whatever the images show, the system stays inside its memory and keeps running",
     "For every colour and depth image of the configured size with finite, not negative depth (noise, repeating patterns, saturated or sparse "
     "sensors, content at the borders only, colour and depth that do not agree, jumps between frames), tracking, rectification, debug images, "
     "statistics and destruction use no memory out of bounds, after its end or before its beginning of life, run into no undefined arithmetic, "
     "fail no internal assertion, end, and give finite poses with a valid covariance.",
     ["inputs", "histories"], "all image contents, image geometries and sequences",
     "Tests never give an image to the system.",
     ["src/rgbd_slam.cpp", "src/features/keypoints", "src/features/primitives", "src/map_management", "src/utils/polygon.cpp",
      "third_party/concave_fitting.cpp"],
     [("image to features", "src/features"), ("boundaries of planes", "src/utils/polygon.cpp"), ("map", "src/map_management/feature_map.hpp")],
     "address and undefined behaviour sanitizers over the whole running system, with pose monitors, on hostile image sequences",
     "Sampled images; memory of OpenCV only as far as the allocator shows it.", observe=["frames of each style, poses, covariances"])
prop("C24", "Threads of the system never touch shared data without synchronisation",
     "For every sequence of images and every schedule of the threads that detect features, detect points cell by cell, search a consensus, "
     "sample the covariance of the pose and rectify depth, and for messages, random numbers and parameters used by several threads at once, "
     "no two threads access the same data without synchronisation, one of them writing.",
     ["schedules", "inputs"], "all thread schedules and image sequences",
     "A race rarely changes the result of a test.",
     ["src/rgbd_slam.cpp", "src/pose_optimization/pose_optimization.cpp", "src/features/keypoints/keypoint_detection.cpp",
      "src/features/primitives/depth_map_transformation.cpp", "src/utils/random.hpp", "src/outputs/logger.cpp"],
     [("detection threads", "src/rgbd_slam.cpp"), ("parallel consensus and covariance sampling", "src/pose_optimization/pose_optimization.cpp"),
      ("parallel grid detection", "src/features/keypoints/keypoint_detection.cpp"),
      ("parallel rectification and cloud", "src/features/primitives/depth_map_transformation.cpp")],
     "happens-before race detector (ThreadSanitizer) over the whole running system, parallel loops run by an instrumented equivalent of TBB",
     "Sampled videos; races inside OpenCV are not seen; several systems in one process are not claimed.",
     observe=["parallel loops, their iterations and threads, frames, service calls"])
prop("C27", "Lines found are the straight edges; they are drawn inside the image",
     "For every image and scale, the lines detected are straight edges of the image, every long and contrasted straight edge is found over "
     "most of its length, an image without edge has no lines, detection changes neither the image nor the depth and does not depend on the "
     "images before; displaying lines draws each of them, in the colour of its depth information, and never reads or writes out of the images, "
     "even for a line that ends out of the image. Filling holes fills exactly the background that is not connected to the border of the image, "
     "and geodesic dilation and erosion are those of their definition.",
     ["inputs"], "all images, image sizes, scales and depth images",
     "No test covers line detection or the morphological operations.",
     ["src/features/lines/line_detection.cpp", "third_party/line_segment_detector.cpp", "third_party/geodesic_operations.cpp"],
     [("line segment detector", "third_party/line_segment_detector.cpp"), ("display", "src/features/lines/line_detection.cpp"),
      ("reconstruction", "third_party/geodesic_operations.cpp")],
     "runtime oracle: painted shapes with known edges, flood fill and definition of the reconstruction as references; address and undefined "
     "behaviour sanitizers with checked image accesses", "Sampled images up to 260 x 200 pixels.",
     observe=["detected lines, displayed pixels, filled pixels"])
