"""What each property's check builds and runs."""

GROUPS = {
    "core": ["src/parameters.cpp", "src/coordinates", "src/utils", "src/tracking", "src/outputs", "third_party/concave_fitting.cpp"],
    "primitives": ["src/features/primitives"],
    "lines": ["src/features/lines", "third_party/line_segment_detector.cpp", "third_party/geodesic_operations.cpp"],
    "p3p": ["third_party/p3p.cpp"],
    "pose": ["src/features/keypoints", "src/map_management/map_features", "src/pose_optimization"],
    "full": ["src/parameters.cpp", "src/coordinates", "src/utils", "src/tracking", "src/outputs", "src/features/primitives",
             "src/features/lines", "src/features/keypoints", "src/map_management/map_features", "src/pose_optimization",
             "src/rgbd_slam.cpp", "third_party"],
}

VARIANTS = {
    "plain": {"flags": ["-O1", "-g1", "-ftrivial-auto-var-init=pattern"]},
    "asan": {"flags": ["-O1", "-g1", "-D_DEBUG", "-fno-omit-frame-pointer", "-fsanitize=address",
                       "-fsanitize=bounds,shift,signed-integer-overflow,integer-divide-by-zero,return,unreachable,enum,"
                       "bool,vla-bound,float-cast-overflow", "-fno-sanitize-recover=all"],
             "env": {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:"
                                     "allocator_may_return_null=0:handle_abort=1",
                     "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"},
             "slow": 4},
    "tsan": {"flags": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"], "shims": ["shim_tsan"],
             "env": {"TSAN_OPTIONS": "halt_on_error=1:second_deadlock_stack=1:history_size=5:ignore_noninstrumented_modules=1:"
                                     "report_signal_unsafe=0:exitcode=66:report_thread_leaks=0"},
             "slow": 6},
}

SPECS = {}


def spec(pid, **kw):
    SPECS[pid] = kw


spec("C01", harness="c01_points.cpp", groups=["core"], configs=[0, 1, 2, 3], quick_scale=12, shards=2,
     rule="random camera poses, intrinsics configurations and points (in front, behind, at the borders, degenerate); a case is "
          "non trivial when the point is off the optical axis and the pose is not the identity; distinct by rounded input",
     assumptions=["double arithmetic; tolerance 1e-9 relative"])
spec("C02", harness="c02_planes.cpp", groups=["core"], configs=[0, 1], quick_scale=20, shards=4,
     rule="random planes (any normal length, axis aligned normals, through the origin), poses and points; non trivial when the pose "
          "moves the plane; distinct by rounded plane and pose")
spec("C03", harness="c03_covariances.cpp", groups=["core"], configs=[0, 1, 2, 3], quick_scale=6, shards=2,
     rule="random valid covariances, pixels, poses and planes propagated and compared with independently computed jacobians; invalid "
          "covariances of five kinds offered; distinct by rounded input")
spec("C04", harness="c04_kalman.cpp", groups=["core"], configs=[0], quick_scale=8, shards=8,
     rule="random filter histories (1 to 12 updates) over five dimension pairs with random and changing dynamics, noise, refused measurements and "
          "filters started again; "
          "distinct by dimensions, length and noise scale")
spec("C05", harness="c05_inverse_depth.cpp", groups=["core"], configs=[0, 1, 2], quick_scale=12, shards=2,
     rule="random rays (pixels, angles on and outside their domain), depths, depth uncertainties and second viewpoints; distinct by "
          "rounded angles and depth")
spec("C10", harness="c10_lines.cpp", groups=["core"], configs=[0, 2], quick_scale=20, shards=4,
     rule="random lines and segments in the plane and in space: crossing, parallel, skew, touching the image; distinct by relative "
          "position")
spec("C08", harness="c08_polygons.cpp", groups=["core"], configs=[0, 1, 3], quick_scale=5, shards=2,
     rule="random convex and star shaped boundaries and point clouds on random planes, moved between frames, projected and shown, "
          "in front of the camera, behind it or on both sides; "
          "distinct by boundary size, area and orientation")
spec("C09", harness="c09_overlap.cpp", groups=["core"], configs=[0], quick_scale=8, shards=8,
     rule="random pairs of convex and star shaped polygons of one plane (disjoint, touching, nested, equal; own axes, opposite normals) "
          "or of slightly tilted planes, and chains of merges; distinct by overlap ratio and shape class")
spec("C07", harness="c07_motion.cpp", groups=["core"], configs=[0], quick_scale=12, shards=8,
     rule="random poses; trajectories of 45 to 70 frames with constant velocity, then rest; arbitrary three pose histories; distinct by "
          "velocity, rotation speed and start orientation")
spec("C12", harness="c12_plane_patch.cpp", groups=["core", "primitives"], configs=[0, 1, 3], quick_scale=6, shards=2,
     rule="random 20x20 pixel blocks of random planes (noisy, quantised, facing the camera, with holes) and of non planar content; "
          "merges of 2 to 6 patches; distinct by kind, distance and orientation")
spec("C13", harness="c13_primitives.cpp", groups=["core", "primitives"], configs=[0, 1, 3, 4],
     rule="ray cast rooms of 1 to 4 planes with known labels (noise, quantisation, holes), flat walls, images without any plane, "
          "cylinders alone and next to walls and balls, landscape and portrait images; detectors that already saw other images "
          "(patchworks of wrong depth); cells of one or two parallel cylinders fitted directly; distinct by scene composition, noise and what was reported")
spec("C11", harness="c11_depth.cpp", groups=["core", "primitives"], configs=[0, 1, 3, 4], variants=["plain", "asan"],
     rule="random depth images (flat, sloped, random, occluding, sparse and very near) of two camera geometries, image and cell sizes; "
          "every output pixel judged; distinct by content, size and number of pixels reached")
spec("C06", harness="c06_tracking.cpp", groups=["core", "primitives"], configs=[0, 1], quick_scale=6, shards=4,
     rule="random tracks of 1 to 25 observations of points, rays and planes with random uncertainty, mixed with refused observations "
          "(invalid uncertainty, invalid depth); distinct by length, scale and position")
spec("C14", harness="c14_maps.cpp", groups=["core"], configs=[0], quick_scale=8, shards=8,
     rule="random sequences of points, lines and polygon boundaries written in the three formats and parsed by an independent reader; "
          "distinct by counts and content")
spec("C15", harness="c15_logs.cpp", groups=["core"], configs=[0], quick_scale=8, shards=4,
     rule="1 to 8 threads logging 20 to 250 messages of random level and length at the same time; the captured output is parsed; "
          "distinct by thread count and observed alternation between threads")
spec("C16", harness="c16_configuration.cpp", groups=["core"], configs=[0], quick_scale=6, shards=8,
     rule="random valid configurations, configurations with one unusable value, damaged and missing files, in any order in one process; "
          "distinct by content")
spec("C17", harness="c17_p3p.cpp", groups=["core", "p3p"], configs=[0], quick_scale=12, shards=8,
     rule="random three point problems with known pose (fronto parallel, regular, omnidirectional, three scales of length), away from "
          "the degenerate ones; distinct by number of solutions, conditioning and bearings")
spec("C18", harness="c18_pose.cpp", groups=["core", "primitives", "lines", "pose"], configs=[0, 1, 3], quick_scale=2, shards=2,
     rule="random poses with 20 to 90 visible points and up to 4 planes, 0 to 30 % of wrong matches, pixel noise; planes alone; wrong planes; rays; unusable sets; single features near their inlier limits; "
          "all coefficients the optimisation can reach; distinct by composition, noise and outcome",
     assumptions=["first guess within 40 mm and 2.5 degrees per axis of the true pose"])
spec("C26", harness="c26_random.cpp", groups=["core"], configs=[0], quick_scale=4, shards=8,
     rule="draws, subsets by size and by score of sets of 1 to 40 elements, with and without repetition, in lists and vectors, by 1 to 8 "
          "threads; distinct by set size, subset size and target",
     assumptions=["statistical bounds beyond 7 sigma"])
spec("C19", harness="c19_keypoints.cpp", groups=["core", "primitives", "lines", "pose"], configs=[0, 1, 3, 4],
     rule="random key point sets (clusters, borders, corners, tracked ids, already matched points) of 1 to 3 frames of one handler, in images "
          "of any size, asked by position and descriptor; textured images moving by up to 8 px per frame; distinct by position, candidates "
          "and outcome")
spec("C20", harness="c20_lifecycle.cpp", groups=["core", "primitives", "lines", "pose"], configs=[0, 1, 3], quick_scale=2, shards=2,
     rule="random histories of 15 to 60 frames of points, rays and planes that appear, disappear, are outliers, lose their depth or are "
          "tracked by id, with frames looking elsewhere and frames without pose; "
          "parts of planes, planes beside the known one; key points of any depth; descriptions that change; rays seen from 1.7 to 2.5 m within 4 mm; the whole map next to its three maps "
          "driven one by one; distinct by promotions, losses, dropped candidates")
spec("C21", harness="c21_slam.cpp", groups=["full"], configs=[0, 1, 3], hang_cpu=400.0,
     rule="ray cast textured rooms filmed by a moving, resting, shortly interrupted or blinded camera (one and two sensor rigs), 12 to 20 frames from random "
          "start poses; distinct by speed, rotation, error and length",
     assumptions=["at most 9 mm and 0.4 degrees between frames; start within 700 mm of the world's origin; noiseless depth",
                  "a random consensus may fail: one trajectory in eight may be lost"])
spec("C22", harness="c22_deterministic.cpp", groups=["full"], configs=[0, 3], defines=["-DMAKE_DETERMINISTIC"], hang_cpu=400.0,
     rule="every video is given to four processes built with MAKE_DETERMINISTIC, with other heap layouts, on one processor, with busy "
          "processors; poses, covariances, debug images and map files are compared bit by bit; distinct by video")
spec("C24", harness="c24_races.cpp", groups=["full"], configs=[0, 1], variants=["tsan"], hang_cpu=900.0,
     rule="the whole system tracking synthetic rooms (with holes, blind frames, without texture) and the services shared by its threads, "
          "under a happens-before race detector that sees every thread of the system; distinct by video and thread count",
     assumptions=["tbb::parallel_for is replaced by an instrumented equivalent; races inside OpenCV are not seen"])
spec("C23", harness="c23_hostile.cpp", groups=["full"], configs=[0, 1, 2, 3, 4], variants=["asan"], hang_cpu=400.0,
     rule="the whole system on images of seven kinds of colour and twelve kinds of depth (noise, repeating, saturated, sparse, borders only, "
          "steep, cut), on scenes moving too fast and on mixtures, in five image geometries; distinct by kinds and length",
     assumptions=["depth is finite and not negative, images have the configured size; memory errors inside OpenCV only as far as the allocator shows them"])
spec("C27", harness="c27_line_detection.cpp", groups=["core", "lines"], configs=[0], variants=["plain", "asan"],
     rule="painted rectangles of random contrast, size and orientation at four scales; images without edge; noise, stripes, rings, boards and "
          "overlapping shapes up to the borders, displayed with full, sparse, partial and no depth, "
          "and single lines whose ends and quarters have depth or not; random binary and grey images for the "
          "reconstructions; distinct by image size, content and number of lines",
     assumptions=["accesses through cv::Mat::at are checked by OpenCV's own debug assertions"])
