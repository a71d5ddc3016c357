From 2d9f243380299c5a44a62d2df639d16ae4363f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:49 +0000
Subject: [PATCH 01/49] fix: keep the sign of the pixel offset when propagating
 a pixel covariance to camera space

---
 src/utils/covariances.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/covariances.cpp b/src/utils/covariances.cpp
index 0f179b6..a46d760 100644
--- a/src/utils/covariances.cpp
+++ b/src/utils/covariances.cpp
@@ -83,9 +83,9 @@ CameraCoordinateCovariance get_camera_point_covariance(const ScreenCoordinate& s
     const static vector2 cameraF = Parameters::get_camera_1_focal();
     const static vector2 cameraC = Parameters::get_camera_1_center();
 
-    // Jacobian of the screen to camera function. Use absolutes to prevent negative variances
-    const matrix33 jacobian {{screenPoint.z() / cameraF.x(), 0.0, abs(screenPoint.x() - cameraC.x()) / cameraF.x()},
-                             {0.0, screenPoint.z() / cameraF.y(), abs(screenPoint.y() - cameraC.y()) / cameraF.y()},
+    // Jacobian of the screen to camera function
+    const matrix33 jacobian {{screenPoint.z() / cameraF.x(), 0.0, (screenPoint.x() - cameraC.x()) / cameraF.x()},
+                             {0.0, screenPoint.z() / cameraF.y(), (screenPoint.y() - cameraC.y()) / cameraF.y()},
                              {0.0, 0.0, 1.0}};
 
     CameraCoordinateCovariance cameraPointCovariance;
-- 
2.43.0


From afcfb74e850bab5caa4b7ca458cbe30d231790a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:26 +0000
Subject: [PATCH 02/49] fix: bound the inverse depth from below when computing
 its closest and furthest estimations

---
 src/coordinates/inverse_depth_coordinates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinates/inverse_depth_coordinates.cpp b/src/coordinates/inverse_depth_coordinates.cpp
index d957b3c..46f771f 100644
--- a/src/coordinates/inverse_depth_coordinates.cpp
+++ b/src/coordinates/inverse_depth_coordinates.cpp
@@ -143,14 +143,14 @@ WorldCoordinate InverseDepthWorldPoint::get_furthest_estimation(const double inv
 {
     // 3 standard deviations (>99% of certainty in this interval)
     const double depthVariation = inverseDepthStandardDev * 3;
-    return WorldCoordinate(_firstObservation + _bearingVector / std::min(_inverseDepth_mm - depthVariation, 1e-9));
+    return WorldCoordinate(_firstObservation + _bearingVector / std::max(_inverseDepth_mm - depthVariation, 1e-9));
 }
 
 WorldCoordinate InverseDepthWorldPoint::get_closest_estimation(const double inverseDepthStandardDev) const
 {
     // 3 standard deviations (>99% of certainty in this interval)
     const double depthVariation = inverseDepthStandardDev * 3;
-    return WorldCoordinate(_firstObservation + _bearingVector / std::min(_inverseDepth_mm + depthVariation, 1e-9));
+    return WorldCoordinate(_firstObservation + _bearingVector / std::max(_inverseDepth_mm + depthVariation, 1e-9));
 }
 
 bool InverseDepthWorldPoint::to_screen_coordinates(const WorldToCameraMatrix& w2c,
-- 
2.43.0


From cd9b030f84107b604c1aa62703ec242798cf1a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:38 +0000
Subject: [PATCH 03/49] fix: clamped segments keep their visible end, segments
 that do not meet do not intersect

---
 src/utils/line.cpp | 67 +++++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/src/utils/line.cpp b/src/utils/line.cpp
index e1801c1..0c59bbe 100644
--- a/src/utils/line.cpp
+++ b/src/utils/line.cpp
@@ -1,5 +1,6 @@
 #include "line.hpp"
 #include "coordinates/point_coordinates.hpp"
+#include "distance_utils.hpp"
 #include "logger.hpp"
 #include "polygon.hpp"
 
@@ -41,16 +42,26 @@ namespace rgbd_slam::utils {
                 }
             case 1:
                 {
-                    // find the point in the screen boundary
-                    const ScreenCoordinate2D startPoint(output[0].x(), output[0].y());
-                    const ScreenCoordinate2D endPoint(output[0].x(), output[0].y());
-                    if (startPoint.is_in_screen_boundaries())
+                    // one end of the line is in the screen: keep the part from this end to the boundary
+                    const vector2 boundaryPoint(output[0].x(), output[0].y());
+                    const bool isStartVisible = ScreenCoordinate2D(line.get_start_point()).is_in_screen_boundaries();
+                    const bool isEndVisible = ScreenCoordinate2D(line.get_end_point()).is_in_screen_boundaries();
+                    if (isStartVisible and isEndVisible)
                     {
-                        out.set_points(startPoint, vector2(output[0].x(), output[0].y()));
+                        out.set_points(line.get_start_point(), line.get_end_point());
+                    }
+                    else if (isStartVisible)
+                    {
+                        out.set_points(line.get_start_point(), boundaryPoint);
+                    }
+                    else if (isEndVisible)
+                    {
+                        out.set_points(boundaryPoint, line.get_end_point());
                     }
                     else
                     {
-                        out.set_points(vector2(output[0].x(), output[0].y()), endPoint);
+                        // the line only touches the boundary
+                        out.set_points(boundaryPoint, boundaryPoint);
                     }
                     break;
                 }
@@ -102,7 +113,7 @@ bool intersects(const Segment<2>& firstLine, const Segment<2>& secondLine, Eigen
                  point_t(secondLine.get_end_point().x(), secondLine.get_end_point().y())});
 
     std::vector<point_t> output;
-    if (boost::geometry::intersection(seg1, seg2, output))
+    if (boost::geometry::intersection(seg1, seg2, output) and not output.empty())
     {
         point.x() = output[0].x();
         point.y() = output[0].y();
@@ -113,27 +124,33 @@ bool intersects(const Segment<2>& firstLine, const Segment<2>& secondLine, Eigen
 
 bool intersects(const Segment<3>& firstLine, const Segment<3>& secondLine, Eigen::Vector<double, 3>& point) noexcept
 {
-    typedef boost::geometry::model::d3::point_xyz<double> point_t;
-    typedef boost::geometry::model::linestring<point_t> line_t;
-
-    line_t seg1(
-            {point_t(firstLine.get_start_point().x(), firstLine.get_start_point().y(), firstLine.get_start_point().z()),
-             point_t(firstLine.get_end_point().x(), firstLine.get_end_point().y(), firstLine.get_end_point().z())});
-    line_t seg2(
-            {point_t(secondLine.get_start_point().x(),
-                     secondLine.get_start_point().y(),
-                     secondLine.get_start_point().z()),
-             point_t(secondLine.get_end_point().x(), secondLine.get_end_point().y(), secondLine.get_end_point().z())});
+    // boost geometry only intersects lines in 2D: use the closest points of the two lines
+    vector3 closestFirst;
+    vector3 closestSecond;
+    if (not compute_closest_points<3>(firstLine.get_start_point(),
+                                      firstLine.compute_normal(),
+                                      secondLine.get_start_point(),
+                                      secondLine.compute_normal(),
+                                      closestFirst,
+                                      closestSecond))
+    {
+        return false;
+    }
 
-    std::vector<point_t> output;
-    if (boost::geometry::intersection(seg1, seg2, output))
+    // the lines should meet, inside both segments
+    const auto is_on_segment = [](const Segment<3>& segment, const vector3& pointOnLine, const double epsilon) {
+        const double position = (pointOnLine - segment.get_start_point()).dot(segment.compute_normal());
+        return position >= -epsilon and
+               position <= (segment.get_end_point() - segment.get_start_point()).norm() + epsilon;
+    };
+    const double epsilon = 1e-9 * std::max({1.0, closestFirst.norm(), closestSecond.norm()});
+    if ((closestFirst - closestSecond).norm() > epsilon or not is_on_segment(firstLine, closestFirst, epsilon) or
+        not is_on_segment(secondLine, closestSecond, epsilon))
     {
-        point.x() = output[0].x();
-        point.y() = output[0].y();
-        point.z() = output[0].z();
-        return true;
+        return false;
     }
-    return false;
+    point = closestFirst;
+    return true;
 }
 
 // instanciation to check compile failures
-- 
2.43.0


From cbe13542ec6e8f585ad8c6a2158c14a7eabcad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:44 +0000
Subject: [PATCH 04/49] fix: a point that no hull edge encloses is outside of
 the concave hull

---
 third_party/concave_fitting.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/third_party/concave_fitting.cpp b/third_party/concave_fitting.cpp
index 2256d2b..f94fbca 100644
--- a/third_party/concave_fitting.cpp
+++ b/third_party/concave_fitting.cpp
@@ -420,9 +420,7 @@ auto PointInPolygon(const Point& p, const PointVector& list) -> bool
         v1++;
     }
 
-    if (inout == 0)
-        return true;         // no iteration, point is good
-    else if (inout % 2 == 0) // par: point is outside of polygon
+    if (inout % 2 == 0) // pair: point is outside of polygon
         return false;
 
     // point is in the polygon
-- 
2.43.0


From 242d2cee224ef906d2371800872464f9f782a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:32 +0000
Subject: [PATCH 05/49] fix: a polygon behind the camera is not visible

---
 src/coordinates/polygon_coordinates.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/coordinates/polygon_coordinates.cpp b/src/coordinates/polygon_coordinates.cpp
index 1b6871f..1cb1bd7 100644
--- a/src/coordinates/polygon_coordinates.cpp
+++ b/src/coordinates/polygon_coordinates.cpp
@@ -119,9 +119,14 @@ utils::Polygon::polygon CameraPolygon::to_screen_space() const
 
 bool CameraPolygon::is_visible_in_screen_space() const
 {
+    // a polygon with no point in front of the camera cannot be visible, even if it projects to the screen limits
+    if (std::ranges::none_of(get_unprojected_boundary(), [](const vector3& point) {
+            return point.z() > 0;
+        }))
+        return false;
+
     // intersecton of this polygon in screen space, and the screen limits; if it exists, the polygon is visible
     multi_polygon res;
-    // TODO: can this be a problem  when the polygon is behind the camera ?
     boost::geometry::intersection(to_screen_space(), utils::get_static_screen_boundary_polygon(), res);
     return not res.empty(); // intersection exists, polygon is visible
 }
-- 
2.43.0


From bb0a19c20df2b08f2690cc980f788cde7300a522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:32 +0000
Subject: [PATCH 06/49] fix: a transformed polygon keeps its position relative
 to its center

---
 src/utils/polygon.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/utils/polygon.cpp b/src/utils/polygon.cpp
index 499bb68..0d17392 100644
--- a/src/utils/polygon.cpp
+++ b/src/utils/polygon.cpp
@@ -418,11 +418,8 @@ Polygon Polygon::transform(const vector3& nextXAxis, const vector3& nextYAxis, c
     if (_center.isApprox(nextCenter) and _xAxis.isApprox(nextXAxis) and _yAxis.isApprox(nextYAxis))
         return *this;
 
-    // compute transformation matrix between the two spaces
-    const matrix44& transfoMatrix =
-            get_transformation_matrix(_xAxis, _yAxis, _center, nextXAxis, nextYAxis, nextCenter);
-    // project the boundary to the new space
-    const std::vector<point_2d>& newBoundary = transform_boundary(transfoMatrix, nextXAxis, nextYAxis, nextCenter);
+    // the shape is kept: the boundary has the same coordinates in the axes of the new space
+    const std::vector<point_2d> newBoundary(_polygon.outer().cbegin(), _polygon.outer().cend());
 
     // compute new polygon
     return Polygon(newBoundary, nextXAxis, nextYAxis, nextCenter);
-- 
2.43.0


From faf65cfef252f6570bdb7f7e2296a5bf7749a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:03 +0000
Subject: [PATCH 07/49] fix: the norm of a normalized vector is accepted as 1
 despite rounding

---
 src/utils/distance_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/distance_utils.hpp b/src/utils/distance_utils.hpp
index 30de17e..1010fa8 100644
--- a/src/utils/distance_utils.hpp
+++ b/src/utils/distance_utils.hpp
@@ -16,6 +16,7 @@ namespace rgbd_slam::utils {
 
 /**
  * \brief Check an equality between two doubles, with an epsilon: TODO move this to a more sensible location
+ * The default epsilon accepts the rounding errors of a few operations: the norm of a normalized vector is equal to 1
  * \param[in] a
  * \param[in] b
  * \param[in] epsilon
@@ -23,7 +24,7 @@ namespace rgbd_slam::utils {
  */
 [[nodiscard]] bool double_equal(const double a,
                                 const double b,
-                                const double epsilon = std::numeric_limits<double>::epsilon()) noexcept;
+                                const double epsilon = 16 * std::numeric_limits<double>::epsilon()) noexcept;
 
 /**
  * \brief compute the distance between two lines.
-- 
2.43.0


From 989f18332de4f169748a964ce9407c3d1269ba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:36 +0000
Subject: [PATCH 08/49] fix: use the convex hull when the concave hull of a
 point cloud is self intersecting

The dissolve step used before never ended on some clouds with aligned points,
and kept one arbitrary part of the shape on others.
---
 src/utils/polygon.cpp | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/src/utils/polygon.cpp b/src/utils/polygon.cpp
index 0d17392..eb5d4dc 100644
--- a/src/utils/polygon.cpp
+++ b/src/utils/polygon.cpp
@@ -14,7 +14,6 @@
 #include <stdexcept>
 #include "logger.hpp"
 #include "concave_fitting.hpp"
-#include "correct_boost_polygon.hpp"
 #include <format>
 
 #include "coordinates/point_coordinates.hpp"
@@ -193,32 +192,15 @@ Polygon::Polygon(const std::vector<vector3>& points, const vector3& normal, cons
     _polygon = utils::Polygon::compute_concave_hull(boundaryPoints);
     if (!is_valid())
     {
-        // try to correct it using special third party method (bad solution to a bad problem)
-        multi_polygon result;
-        geometry::correct(_polygon, result);
-        if (result.empty())
-        {
-            outputs::log_warning("Invalid concave polygon fit detected, trying to use convex hull algorithm");
-            _polygon = utils::Polygon::compute_convex_hull(boundaryPoints);
-
-            std::string failureReason;
-            if (!is_valid(failureReason))
-            {
-                outputs::log_error(std::format(
-                        "Invalid convex and concave polygon fit detected, fitting failed. reason {}", failureReason));
-            }
-        }
-        else
+        // the concave fit failed or is self intersecting: the convex hull always encloses the points
+        outputs::log_warning("Invalid concave polygon fit detected, trying to use convex hull algorithm");
+        _polygon = utils::Polygon::compute_convex_hull(boundaryPoints);
+
+        std::string failureReason;
+        if (!is_valid(failureReason))
         {
-            // TODO: should select the greatest area ?
-            _polygon = result[0];
-
-            std::string failureReason;
-            if (!is_valid(failureReason))
-            {
-                outputs::log_error(std::format(
-                        "Invalid concave polygon fit after correction step, fitting failed. reason {}", failureReason));
-            }
+            outputs::log_error(std::format(
+                    "Invalid convex and concave polygon fit detected, fitting failed. reason {}", failureReason));
         }
     }
 
@@ -314,6 +296,7 @@ Polygon::polygon Polygon::compute_concave_hull(const std::vector<vector2>& point
     });
 
     boost::geometry::assign_points(poly, boundary);
+    boost::geometry::correct(poly);
     return poly;
 }
 
-- 
2.43.0


From 94d7e23d8996a29a09ab4fdab92a87a7d4b66fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:06 +0000
Subject: [PATCH 09/49] fix: predict the orientation with the angular velocity
 in the frame it was measured in

---
 src/tracking/motion_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracking/motion_model.cpp b/src/tracking/motion_model.cpp
index 02df3f6..6ab0965 100644
--- a/src/tracking/motion_model.cpp
+++ b/src/tracking/motion_model.cpp
@@ -65,7 +65,7 @@ utils::Pose Motion_Model::predict_next_pose(const utils::Pose& currentPose, cons
 
     // Integrate to compute predictions
     const vector3 integralPos = _lastPosition + _linearVelocity;
-    const quaternion& integralQ = (currentRotation * newAngularVelocity).normalized();
+    const quaternion& integralQ = (newAngularVelocity * currentRotation).normalized();
 
     return utils::Pose(integralPos, integralQ, currentPose.get_pose_variance() + poseError);
 }
-- 
2.43.0


From 972f95c84a96ac7c9210ceb3d3490044bebb18d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:52 +0000
Subject: [PATCH 10/49] fix: fit a plane to points that lie exactly on it

A cell with a constant depth has a null point variance along its normal, it was
rejected as degenerate. Only points of a same line are.
---
 src/features/primitives/plane_segment.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/features/primitives/plane_segment.cpp b/src/features/primitives/plane_segment.cpp
index 1aa95d3..dfaf3e9 100644
--- a/src/features/primitives/plane_segment.cpp
+++ b/src/features/primitives/plane_segment.cpp
@@ -240,19 +240,18 @@ void Plane_Segment::fit_plane() noexcept
     _centroid << vector3(_Sx, _Sy, _Sz) * oneOverCount;
 
     const matrix33 pointCloudCov = get_point_cloud_Huygen_covariance();
-    // special case: degenerate covariance
-    // if (not utils::is_covariance_valid(pointCloudCov))
-    if (utils::double_equal(pointCloudCov.determinant(), 0))
-    {
-        return;
-    }
-
     // no need to fill the upper part, the adjoint solver does not need it
     Eigen::SelfAdjointEigenSolver<matrix33> eigenSolver(pointCloudCov);
     // eigen values are the point variance along the eigen vectors (sorted by ascending order)
     const vector3& eigenValues = eigenSolver.eigenvalues().cwiseAbs();
     // best eigen vector is the most reliable direction for this plane normal
     const vector3& eigenVector = eigenSolver.eigenvectors().col(0);
+    // special case: degenerate covariance, the points are on the same line.
+    // (the smallest eigen value is null for a perfect plane)
+    if (utils::double_equal(eigenValues(1), 0))
+    {
+        return;
+    }
 
     /** Alternative plane parameter computation
     const matrix33& pcc = get_point_cloud_covariance();
-- 
2.43.0


From 17c8fe8ce23e36670c5f92963c34e47af93a5c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:05 +0000
Subject: [PATCH 11/49] fix: a point removed from the histogram is in no bin

It was moved to bin 1 without being counted in it: assigned cells became seed
candidates again, and emptied the count of the planes of that bin.
---
 src/features/primitives/histogram.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/features/primitives/histogram.hpp b/src/features/primitives/histogram.hpp
index 225a3e9..3d7f523 100644
--- a/src/features/primitives/histogram.hpp
+++ b/src/features/primitives/histogram.hpp
@@ -107,9 +107,13 @@ template<size_t Size> class Histogram
             outputs::log_error(std::format("Histogram: remove_point called on invalid ID {}", pointId));
             exit(-1);
         }
+        // already removed, or never assigned to a bin
+        if (_bins[pointId] < 0)
+            return;
+
         if (_histogram[_bins[pointId]] != 0)
             _histogram[_bins[pointId]] -= 1;
-        _bins[pointId] = 1;
+        _bins[pointId] = -1;
     }
 
     /**
-- 
2.43.0


From 2d0bc343db28ae4eb4ba287c72842ac0ef633788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:05 +0000
Subject: [PATCH 12/49] fix: keep the fitted segments when a cylinder segment
 is copied

The copy lost its segment count: every detected cylinder had a radius of 0/0.
---
 src/features/primitives/cylinder_segment.cpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/features/primitives/cylinder_segment.cpp b/src/features/primitives/cylinder_segment.cpp
index fcc202e..fe7a916 100644
--- a/src/features/primitives/cylinder_segment.cpp
+++ b/src/features/primitives/cylinder_segment.cpp
@@ -20,17 +20,7 @@ Cylinder_Segment::Cylinder_Segment(const Cylinder_Segment& seg, const uint subRe
 /*
  *  Copy constructor
  */
-Cylinder_Segment::Cylinder_Segment(const Cylinder_Segment& seg) :
-    _axis(seg._axis),
-    _centers(seg._centers),
-    _radius(seg._radius),
-    _cellActivatedCount(0),
-    _segmentCount(0)
-{
-    //_pointsAxis1 = seg.pointsAxis1;
-    //_pointsAxis2 = seg.pointsAxis2;
-    //_normalsAxis1Axis2 = seg._normalsAxis1Axis2;
-}
+Cylinder_Segment::Cylinder_Segment(const Cylinder_Segment& seg) = default;
 
 Cylinder_Segment::Cylinder_Segment(const std::vector<Plane_Segment>& planeGrid,
                                    const vectorb& isActivatedMask,
-- 
2.43.0


From efe89df71d207b6e791341f98b2e3216cc2bbaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:31 +0000
Subject: [PATCH 13/49] fix: accept boundary points of a perfect plane within
 the sensor resolution

A plane fitted without any error (constant depth) kept no boundary point, and was rejected.
---
 src/features/primitives/primitive_detection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/features/primitives/primitive_detection.cpp b/src/features/primitives/primitive_detection.cpp
index 9433111..4f82296 100644
--- a/src/features/primitives/primitive_detection.cpp
+++ b/src/features/primitives/primitive_detection.cpp
@@ -1,6 +1,7 @@
 #include "primitive_detection.hpp"
 #include "../../outputs/logger.hpp"
 #include "../../parameters.hpp"
+#include "covariances.hpp"
 #include "cylinder_segment.hpp"
 #include "plane_segment.hpp"
 #include "shape_primitives.hpp"
@@ -654,7 +655,9 @@ std::vector<vector3> Primitive_Detection::compute_plane_segment_boundary(const P
     std::vector<vector3> boundaryPoints;
     std::mutex mut;
 
-    const double maxBoundaryDistance = 3 * sqrt(planeSegment.get_MSE());
+    // a perfect plane has a null MSE: points cannot be expected closer to it than the sensor resolution
+    const double maxBoundaryDistance = std::max(3 * sqrt(planeSegment.get_MSE()),
+                                                utils::get_depth_quantization(planeSegment.get_centroid().z()));
     static const uint pixelPerCellSide = static_cast<uint>(sqrtf(static_cast<float>(pointsPerCellCount)));
 
     auto add_point_if_in_plane =
-- 
2.43.0


From 1725b06bc04bf8b2c9ee085a0aae9d21fa07a85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:23 +0000
Subject: [PATCH 14/49] fix: look for depth discontinuities on the whole middle
 row and column of a cell

The last row was never compared, nor the first pixel when it is closer than the second.
---
 src/features/primitives/plane_segment.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/features/primitives/plane_segment.cpp b/src/features/primitives/plane_segment.cpp
index dfaf3e9..01ee8f1 100644
--- a/src/features/primitives/plane_segment.cpp
+++ b/src/features/primitives/plane_segment.cpp
@@ -62,10 +62,11 @@ bool is_continuous(const float pixelDepth, float& lastPixelDepth) noexcept
 bool Plane_Segment::is_cell_vertical_continuous(const matrixf& depthMatrix) const noexcept
 {
     const uint startValue = _cellWidth / 2;
-    const uint endValue = _ptsPerCellCount - startValue;
+    const uint endValue = _ptsPerCellCount;
 
-    float lastPixelDepth = std::max(depthMatrix(startValue),
-                                    depthMatrix(startValue + _cellWidth)); /* handles missing pixels on the borders*/
+    /* handles missing pixels on the borders*/
+    float lastPixelDepth =
+            depthMatrix(startValue) > 0 ? depthMatrix(startValue) : depthMatrix(startValue + _cellWidth);
     if (lastPixelDepth <= 0)
         return false;
 
@@ -84,8 +85,8 @@ bool Plane_Segment::is_cell_horizontal_continuous(const matrixf& depthMatrix) co
     const uint startValue = static_cast<uint>(_cellWidth * (_cellHeight / 2.0));
     const uint endValue = startValue + _cellWidth;
 
-    float lastPixelDepth =
-            std::max(depthMatrix(startValue), depthMatrix(startValue + 1)); /* handles missing pixels on the borders*/
+    /* handles missing pixels on the borders*/
+    float lastPixelDepth = depthMatrix(startValue) > 0 ? depthMatrix(startValue) : depthMatrix(startValue + 1);
     if (lastPixelDepth <= 0)
         return false;
 
-- 
2.43.0


From 13db14841713d68ae30098874150e7b9d0806533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:05 +0000
Subject: [PATCH 15/49] fix: rectify the depth image with the intrinsics of the
 depth camera

The intrinsics of the color camera were used for both cameras, the ones of the camera 2 were ignored.
---
 src/features/primitives/depth_map_transformation.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index fb3e035..250775d 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -147,6 +147,8 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
 void Depth_Map_Transformation::init_matrices() noexcept
 {
     const uint horizontalCellsCount = _width / _cellSize;
+    const vector2 camera2Center = Parameters::get_camera_2_center();
+    const vector2 camera2Focal = Parameters::get_camera_2_focal();
 
     // Pre-computations for backprojection
     for (uint row = 0; row < _height; ++row)
@@ -156,11 +158,12 @@ void Depth_Map_Transformation::init_matrices() noexcept
 
         for (uint colum = 0; colum < _width; ++colum)
         {
-            const CameraCoordinate2D& cameraProjection = ScreenCoordinate2D(colum, row).to_camera_coordinates();
-
+            // the depth image to rectify is the one of the camera 2
             // Not efficient but at this stage doesn t matter
-            _Xpre.at<float>(static_cast<int>(row), static_cast<int>(colum)) = static_cast<float>(cameraProjection.x());
-            _Ypre.at<float>(static_cast<int>(row), static_cast<int>(colum)) = static_cast<float>(cameraProjection.y());
+            _Xpre.at<float>(static_cast<int>(row), static_cast<int>(colum)) =
+                    static_cast<float>((colum - camera2Center.x()) / camera2Focal.x());
+            _Ypre.at<float>(static_cast<int>(row), static_cast<int>(colum)) =
+                    static_cast<float>((row - camera2Center.y()) / camera2Focal.y());
 
             // Pre-computations for maping an image point cloud to a cache-friendly array where cell's local point
             // clouds are contiguous
-- 
2.43.0


From f53d0dfa8222d43d2e86562f9bd9891e0ead3166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:07 +0000
Subject: [PATCH 16/49] fix: rectified depth pixels keep the closest projected
 surface

Pixels were truncated instead of rounded to the closest one (an aligned depth image was displaced), the first row and
column were dropped, a hidden surface could replace a visible one depending on the thread scheduling, and a point
projected in the plane of the camera stopped the program.
---
 .../primitives/depth_map_transformation.cpp   | 33 ++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index 250775d..1af8773 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -1,6 +1,8 @@
 #include "depth_map_transformation.hpp"
 #include "../../parameters.hpp"
 #include "coordinates/point_coordinates.hpp"
+#include <atomic>
+#include <cmath>
 #include <opencv2/core/eigen.hpp>
 #include <tbb/parallel_for.h>
 
@@ -55,28 +57,35 @@ bool Depth_Map_Transformation::rectify_depth(const cv::Mat_<float>& depthImage,
                     const vector3 projected =
                             (Parameters::get_camera_2_to_camera_1_transformation() * original.homogeneous()).head<3>();
 
+                    // behind the camera1: cannot be seen in the rgb image
+                    if (projected.z() <= 0)
+                    {
+                        continue;
+                    }
+
                     // distord to align with camera1 image
                     ScreenCoordinate2D screenCoordinates;
                     if (CameraCoordinate(projected).to_screen_coordinates(screenCoordinates))
                     {
-                        const uint projCoordColumn = static_cast<uint>(floor(screenCoordinates.x()));
-                        const uint projCoordRow = static_cast<uint>(floor(screenCoordinates.y()));
+                        const double projCoordColumn = std::round(screenCoordinates.x());
+                        const double projCoordRow = std::round(screenCoordinates.y());
 
                         // keep projected coordinates that are in rgb image boundaries
-                        if (projCoordColumn > 0 and projCoordRow > 0 and projCoordColumn < _width and
+                        if (projCoordColumn >= 0 and projCoordRow >= 0 and projCoordColumn < _width and
                             projCoordRow < _height)
                         {
-                            // set transformed depth image
-                            rectifiedDepth.at<float>(static_cast<int>(projCoordRow),
-                                                     static_cast<int>(projCoordColumn)) =
-                                    static_cast<float>(projected.z());
+                            // set transformed depth image. Several pixels (of different rows) can fall on the same one:
+                            // keep the closest, the others are hidden behind it
+                            const float newDepth = static_cast<float>(projected.z());
+                            std::atomic_ref<float> rectified(rectifiedDepth.at<float>(
+                                    static_cast<int>(projCoordRow), static_cast<int>(projCoordColumn)));
+                            float currentDepth = rectified.load();
+                            while ((currentDepth <= 0 or newDepth < currentDepth) and
+                                   not rectified.compare_exchange_weak(currentDepth, newDepth))
+                            {
+                            }
                         }
                     }
-                    else
-                    {
-                        // impossible: we checked that z > 0 before
-                        exit(-1);
-                    }
                 }
             }
 #ifndef MAKE_DETERMINISTIC
-- 
2.43.0


From 01a19d43e456f1dc2327a178cc5f853d3b825d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:07 +0000
Subject: [PATCH 17/49] fix: ignore depth pixels outside of complete cells

With an image size that is not a multiple of the cell size, the points of the last columns were written over those of
other cells, and the ones of the last rows out of the cloud array.
---
 .../primitives/depth_map_transformation.cpp     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index 1af8773..1a7599c 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -116,7 +116,9 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
             {
                 // set convertion matrix
                 const int id = _cellMap.at<int>(static_cast<int>(row), static_cast<int>(column));
-                assert(id >= 0 and id < organizedCloudArray.rows());
+                if (id < 0)
+                    continue; // not in a complete cell
+                assert(id < organizedCloudArray.rows());
 
                 const CameraCoordinate& cameraCoordinates = ScreenCoordinate(column, row, z).to_camera_coordinates();
 
@@ -134,7 +136,9 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
         {
             // set convertion matrix
             const int id = _cellMap(position[0], position[1]);
-            assert(id >= 0 and id < organizedCloudArray.rows());
+            if (id < 0)
+                return; // not in a complete cell
+            assert(id < organizedCloudArray.rows());
 
             const CameraCoordinate& cameraCoordinates =
                     ScreenCoordinate(position[1], position[0], z).to_camera_coordinates();
@@ -156,6 +160,7 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
 void Depth_Map_Transformation::init_matrices() noexcept
 {
     const uint horizontalCellsCount = _width / _cellSize;
+    const uint verticalCellsCount = _height / _cellSize;
     const vector2 camera2Center = Parameters::get_camera_2_center();
     const vector2 camera2Focal = Parameters::get_camera_2_focal();
 
@@ -178,8 +183,12 @@ void Depth_Map_Transformation::init_matrices() noexcept
             // clouds are contiguous
             const uint cellC = static_cast<uint>(floor(colum / _cellSize));
             const uint localC = static_cast<uint>(floor(colum % _cellSize));
-            _cellMap.at<int>(static_cast<int>(row), static_cast<int>(colum)) = static_cast<int>(
-                    floor((cellR * horizontalCellsCount + cellC) * SQR(_cellSize) + localR * _cellSize + localC));
+            // (the last pixels of an image which size is not a multiple of the cell size are not in a cell)
+            _cellMap.at<int>(static_cast<int>(row), static_cast<int>(colum)) =
+                    (cellR < verticalCellsCount and cellC < horizontalCellsCount) ?
+                            static_cast<int>(floor((cellR * horizontalCellsCount + cellC) * SQR(_cellSize) +
+                                                   localR * _cellSize + localC)) :
+                            -1;
         }
     }
 }
-- 
2.43.0


From cb783562ae96c9b3eb62788011c2ce1483a1c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:08 +0000
Subject: [PATCH 18/49] fix: a refused observation leaves an inverse depth
 point as it was

---
 src/tracking/inverse_depth_with_tracking.cpp | 26 ++++++++++++--------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/tracking/inverse_depth_with_tracking.cpp b/src/tracking/inverse_depth_with_tracking.cpp
index 73981c5..695cd96 100644
--- a/src/tracking/inverse_depth_with_tracking.cpp
+++ b/src/tracking/inverse_depth_with_tracking.cpp
@@ -52,7 +52,8 @@ PointInverseDepth::PointInverseDepth(const ScreenCoordinate2D& observation,
 PointInverseDepth::PointInverseDepth(const PointInverseDepth& other) :
     _coordinates(other._coordinates),
     _covariance(other._covariance),
-    _descriptor(other._descriptor)
+    _descriptor(other._descriptor),
+    _isMoving(other._isMoving)
 {
     if (not utils::is_covariance_valid(_covariance))
         throw std::invalid_argument("PointInverseDepth constructor: the given covariance is invalid");
@@ -139,21 +140,26 @@ bool PointInverseDepth::update_with_cartesian(const WorldCoordinate& point,
         if (not utils::is_covariance_valid(newCovariance))
             throw std::invalid_argument("Inverse depth point covariance is invalid at the kalman output");
 
-        // moved above the uncertainty of this point
-        _isMoving = ((_coordinates.to_world_coordinates() - point).array() > covariance.diagonal().cwiseSqrt().array())
-                            .any();
-
         // put back in inverse depth coordinates
         Eigen::Matrix<double, 6, 3> fromCartesianJacobian;
-        _coordinates = InverseDepthWorldPoint::from_cartesian(
+        const InverseDepthWorldPoint& newCoordinates = InverseDepthWorldPoint::from_cartesian(
                 WorldCoordinate(newState), _coordinates.get_first_observation(), fromCartesianJacobian);
-        _covariance = compute_inverse_depth_covariance(WorldCoordinateCovariance(newCovariance),
-                                                       _covariance.get_first_pose_covariance(),
-                                                       fromCartesianJacobian);
+        const Covariance& newInverseDepthCovariance =
+                compute_inverse_depth_covariance(WorldCoordinateCovariance(newCovariance),
+                                                 _covariance.get_first_pose_covariance(),
+                                                 fromCartesianJacobian);
 
-        if (not utils::is_covariance_valid(_covariance))
+        if (not utils::is_covariance_valid(newInverseDepthCovariance))
             throw std::invalid_argument("Inverse depth point covariance is invalid after merge");
 
+        // moved above the uncertainty of this point
+        _isMoving = ((_coordinates.to_world_coordinates() - point).array() > covariance.diagonal().cwiseSqrt().array())
+                            .any();
+
+        // nothing can fail anymore: update the state
+        _coordinates = newCoordinates;
+        _covariance = newInverseDepthCovariance;
+
         if (not descriptor.empty())
             _descriptor = descriptor;
 
-- 
2.43.0


From f38dbee1f4d9dde12806f7d882958f1d6bd2aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:39 +0000
Subject: [PATCH 19/49] fix: a point of an OBJ map refers to its own vertex

---
 src/outputs/map_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/outputs/map_writer.cpp b/src/outputs/map_writer.cpp
index 23d98ae..cae4465 100644
--- a/src/outputs/map_writer.cpp
+++ b/src/outputs/map_writer.cpp
@@ -103,8 +103,8 @@ void OBJ_Map_Writer::add_point(const vector3& point) noexcept
 
     // points are not really visible
     _file << "v " << point.x() << " " << point.y() << " " << point.z() << "\n";
-    _vertexIndex++;
     _file << "p " << _vertexIndex << "\n";
+    _vertexIndex++;
 }
 
 void OBJ_Map_Writer::add_line(const std::vector<vector3>& coordinates) noexcept
-- 
2.43.0


From c09c2ba16160c6682617cd029f06d51a16775177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:39 +0000
Subject: [PATCH 20/49] fix: write the number of points of a PCD map

---
 src/outputs/map_writer.cpp | 25 ++++++++++++++-----------
 src/outputs/map_writer.hpp |  5 +++++
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/outputs/map_writer.cpp b/src/outputs/map_writer.cpp
index cae4465..4b34848 100644
--- a/src/outputs/map_writer.cpp
+++ b/src/outputs/map_writer.cpp
@@ -55,10 +55,22 @@ PCD_Map_Writer::PCD_Map_Writer(const std::string& filename) : IMap_Writer(filena
     _file << "FIELDS x y z\n";
     _file << "SIZE 4 4 4\n";
     _file << "TYPE F F F\n";
-    _file << "POINTS 0\n"; // Index 5
+    _file << "POINTS ";
+    _pointCountPosition = _file.tellp();
+    // reserve the place of the point count, set when the file is complete
+    _file << std::string(20, ' ') << "\n";
     _file << "DATA ascii\n";
 }
 
+PCD_Map_Writer::~PCD_Map_Writer()
+{
+    if (_file.is_open())
+    {
+        _file.seekp(_pointCountPosition);
+        _file << _pointCount;
+    }
+}
+
 void PCD_Map_Writer::add_point(const vector3& pointCoordinates) noexcept
 {
     if (not _file.is_open())
@@ -67,16 +79,7 @@ void PCD_Map_Writer::add_point(const vector3& pointCoordinates) noexcept
         exit(-1);
     }
 
-    /*
-    TODO: update point count
-    const std::string searchString = "POINTS";
-    uint indexOfLine = 0;
-    while(std::getline(_file, line)) { // I changed this, see below
-        ++indexOfLine;
-        if (line.find(search, 0) != string::npos) {
-            cout << "found: " << search << "line: " << curLine << endl;
-        }
-    }*/
+    ++_pointCount;
     _file << pointCoordinates.x() << " " << pointCoordinates.y() << " " << pointCoordinates.z() << "\n";
 }
 
diff --git a/src/outputs/map_writer.hpp b/src/outputs/map_writer.hpp
index 8a2416e..a973eea 100644
--- a/src/outputs/map_writer.hpp
+++ b/src/outputs/map_writer.hpp
@@ -49,12 +49,17 @@ class PCD_Map_Writer : public IMap_Writer
 {
   public:
     PCD_Map_Writer(const std::string& filename);
+    ~PCD_Map_Writer() override;
 
     void add_point(const vector3& pointCoordinates) noexcept override;
 
     void add_line(const std::vector<vector3>& coordinates) noexcept override;
 
     void add_polygon(const std::vector<vector3>& coordinates, const vector3& normal) noexcept override;
+
+  protected:
+    size_t _pointCount = 0;
+    std::streampos _pointCountPosition;
 };
 
 /**
-- 
2.43.0


From d57f5e7ea7a66f569a294eea286ed66a755ed4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:39 +0000
Subject: [PATCH 21/49] fix: warnings and errors do not interleave on the error
 stream

---
 src/outputs/logger.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/outputs/logger.cpp b/src/outputs/logger.cpp
index 0e963d9..d3e8f6f 100644
--- a/src/outputs/logger.cpp
+++ b/src/outputs/logger.cpp
@@ -18,6 +18,9 @@ enum class InfoLevel
 // prevent too much logging
 constexpr InfoLevel INFO_LEVEL = InfoLevel::ALL;
 
+// warnings and errors share the same stream
+static std::mutex errorStreamMutex;
+
 void log(const std::string_view& message, const std::source_location& location) noexcept
 {
     if (INFO_LEVEL <= InfoLevel::LOW)
@@ -37,8 +40,7 @@ void log_warning(const std::string_view& message, const std::source_location& lo
 {
     if (INFO_LEVEL <= InfoLevel::MED)
     {
-        static std::mutex mut;
-        std::scoped_lock<std::mutex> lock(mut);
+        std::scoped_lock<std::mutex> lock(errorStreamMutex);
 
         // display in yellow
         std::cerr << "\x1B[33m[WARN] " << std::filesystem::path(location.file_name()).filename().string() << "("
@@ -52,8 +54,7 @@ void log_error(const std::string_view& message, const std::source_location& loca
 {
     if (INFO_LEVEL <= InfoLevel::HIGH)
     {
-        static std::mutex mut;
-        std::scoped_lock<std::mutex> lock(mut);
+        std::scoped_lock<std::mutex> lock(errorStreamMutex);
 
         // display in red
         std::cerr << "\x1B[31m[ERR] " << std::filesystem::path(location.file_name()).filename().string() << "("
-- 
2.43.0


From e48b5a56b340d45eabb7317785e162bbdc1261e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:39 +0000
Subject: [PATCH 22/49] fix: the default parameters are valid

---
 src/parameters.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index e8c1c7d..0458609 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -14,7 +14,6 @@ bool Parameters::parse_file(const std::string& fileName) noexcept
     {
         outputs::log_error("Cannot load parameter files, starting with default configuration");
         load_defaut();
-        check_parameters_validity();
         return false;
     }
 
@@ -71,6 +70,8 @@ void Parameters::load_defaut() noexcept
 
     // Camera 2 position & rotation
     _camera2toCamera1transformation = utils::get_transformation_matrix(quaternion::Identity(), vector3::Zero());
+
+    check_parameters_validity();
 }
 
 void Parameters::check_parameters_validity() noexcept
-- 
2.43.0


From 99b409992e069420fef22b128af9c47867e7dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:39 +0000
Subject: [PATCH 23/49] fix: the rotation offset of camera 2 turns around the
 axis it is given for

---
 src/parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index 0458609..63b8980 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -43,7 +43,7 @@ bool Parameters::parse_file(const std::string& fileName) noexcept
     const float camera2RotationY = configFile["camera_2_rotation_offset_y"];
     const float camera2RotationZ = configFile["camera_2_rotation_offset_z"];
     const quaternion& cam2tocam1Rotation =
-            utils::get_quaternion_from_euler_angles(EulerAngles(camera2RotationX, camera2RotationY, camera2RotationZ));
+            utils::get_quaternion_from_euler_angles(EulerAngles(camera2RotationZ, camera2RotationY, camera2RotationX));
 
     _camera2toCamera1transformation = utils::get_transformation_matrix(cam2tocam1Rotation, cam2tocam1Translation);
 
-- 
2.43.0


From b44f0f2d1f1c5c3ddc31bd474de7e27e78ed61e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:23 +0000
Subject: [PATCH 24/49] fix: a malformed parameter file does not terminate the
 program

---
 src/parameters.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index 63b8980..66c9028 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -9,7 +9,16 @@ namespace rgbd_slam {
 
 bool Parameters::parse_file(const std::string& fileName) noexcept
 {
-    cv::FileStorage configFile(fileName, cv::FileStorage::READ);
+    cv::FileStorage configFile;
+    try
+    {
+        configFile.open(fileName, cv::FileStorage::READ);
+    }
+    catch (const cv::Exception& ex)
+    {
+        outputs::log_error("Cannot parse parameter file: " + std::string(ex.what()));
+        configFile.release();
+    }
     if (not configFile.isOpened())
     {
         outputs::log_error("Cannot load parameter files, starting with default configuration");
-- 
2.43.0


From 3c25ebc704e9397c60c0cb167e0a1a8b4e38beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:20 +0000
Subject: [PATCH 25/49] fix: camera sizes, focals and centers that cannot be
 used are invalid parameters

---
 src/parameters.cpp | 47 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index 66c9028..50906fa 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -3,6 +3,8 @@
 #include "camera_transformation.hpp"
 #include "outputs/logger.hpp"
 #include "types.hpp"
+#include <algorithm>
+#include <cmath>
 #include <opencv2/core/core.hpp>
 
 namespace rgbd_slam {
@@ -26,17 +28,22 @@ bool Parameters::parse_file(const std::string& fileName) noexcept
         return false;
     }
 
+    // a negative size is invalid, as a null one
+    auto read_size = [&configFile](const std::string& name) {
+        return static_cast<uint>(std::max(0, int(configFile[name])));
+    };
+
     // Load camera 1 parameters
-    _camera1ImageSize.x() = int(configFile["camera_1_size_x"]);
-    _camera1ImageSize.y() = int(configFile["camera_1_size_y"]);
+    _camera1ImageSize.x() = read_size("camera_1_size_x");
+    _camera1ImageSize.y() = read_size("camera_1_size_y");
     _camera1Focal.x() = configFile["camera_1_focal_x"];
     _camera1Focal.y() = configFile["camera_1_focal_y"];
     _camera1Center.x() = configFile["camera_1_center_x"];
     _camera1Center.y() = configFile["camera_1_center_y"];
 
     // Load camera 2 parameters
-    _camera2ImageSize.x() = int(configFile["camera_2_size_x"]);
-    _camera2ImageSize.y() = int(configFile["camera_2_size_y"]);
+    _camera2ImageSize.x() = read_size("camera_2_size_x");
+    _camera2ImageSize.y() = read_size("camera_2_size_y");
     _camera2Focal.x() = configFile["camera_2_focal_x"];
     _camera2Focal.y() = configFile["camera_2_focal_y"];
     _camera2Center.x() = configFile["camera_2_center_x"];
@@ -85,6 +92,10 @@ void Parameters::load_defaut() noexcept
 
 void Parameters::check_parameters_validity() noexcept
 {
+    auto is_valid_distance = [](const double distance) {
+        return std::isfinite(distance) and distance >= 0;
+    };
+
     _isValid = true;
     if (_camera1ImageSize.x() <= 0)
     {
@@ -96,16 +107,26 @@ void Parameters::check_parameters_validity() noexcept
         outputs::log_error("Camera 1 size Y must be > 0");
         _isValid = false;
     }
-    if (_camera1Center.x() < 0)
+    if (not is_valid_distance(_camera1Center.x()))
     {
         outputs::log_error("Camera 1 center X distance must be >= 0");
         _isValid = false;
     }
-    if (_camera1Center.y() < 0)
+    if (not is_valid_distance(_camera1Center.y()))
     {
         outputs::log_error("Camera 1 center Y distance must be >= 0");
         _isValid = false;
     }
+    if (not is_valid_distance(_camera1Focal.x()) or _camera1Focal.x() <= 0)
+    {
+        outputs::log_error("Camera 1 focal X distance must be > 0");
+        _isValid = false;
+    }
+    if (not is_valid_distance(_camera1Focal.y()) or _camera1Focal.y() <= 0)
+    {
+        outputs::log_error("Camera 1 focal Y distance must be > 0");
+        _isValid = false;
+    }
 
     if (_camera2ImageSize.x() <= 0)
     {
@@ -117,16 +138,26 @@ void Parameters::check_parameters_validity() noexcept
         outputs::log_error("Camera 2 size Y must be > 0");
         _isValid = false;
     }
-    if (_camera2Center.x() < 0)
+    if (not is_valid_distance(_camera2Center.x()))
     {
         outputs::log_error("Camera 2 center X distance must be >= 0");
         _isValid = false;
     }
-    if (_camera2Center.y() < 0)
+    if (not is_valid_distance(_camera2Center.y()))
     {
         outputs::log_error("Camera 2 center Y distance must be >= 0");
         _isValid = false;
     }
+    if (not is_valid_distance(_camera2Focal.x()) or _camera2Focal.x() <= 0)
+    {
+        outputs::log_error("Camera 2 focal X distance must be > 0");
+        _isValid = false;
+    }
+    if (not is_valid_distance(_camera2Focal.y()) or _camera2Focal.y() <= 0)
+    {
+        outputs::log_error("Camera 2 focal Y distance must be > 0");
+        _isValid = false;
+    }
 
     // static asserts
     static_assert(parameters::coreNumber >= 1, "Number of available computer cores should be >= 1");
-- 
2.43.0


From dbed709e348a890a655c5881f09f74bf2212591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:41 +0000
Subject: [PATCH 26/49] fix: a P3P refinement that diverges gives no solution

---
 third_party/p3p.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/third_party/p3p.cpp b/third_party/p3p.cpp
index 1dcda2b..5e841f7 100644
--- a/third_party/p3p.cpp
+++ b/third_party/p3p.cpp
@@ -61,7 +61,8 @@ namespace lambdatwist {
     }
 
     // Performs a few newton steps on the equations
-    inline void refine_lambda(double &lambda1, double &lambda2, double &lambda3,
+    // Returns false if they diverge: close to a double root, there may be no real solution to refine
+    inline bool refine_lambda(double &lambda1, double &lambda2, double &lambda3,
             const double a12, const double a13, const double a23,
             const double b12, const double b13, const double b23) 
     {
@@ -70,7 +71,7 @@ namespace lambdatwist {
             const double r2 = (lambda1*lambda1 - 2.0*lambda1*lambda3*b13 + lambda3*lambda3 - a13);
             const double r3 = (lambda2*lambda2 - 2.0*lambda2*lambda3*b23 + lambda3*lambda3 - a23);
             if(std::abs(r1) + std::abs(r2) + std::abs(r3) < 1e-10)
-                return;
+                return true;
             const double x11 = lambda1-lambda2*b12; double x12 = lambda2-lambda1*b12;
             const double x21 = lambda1-lambda3*b13; double x23 = lambda3-lambda1*b13;
             const double x32 = lambda2-lambda3*b23; double x33 = lambda3-lambda2*b23;
@@ -81,6 +82,11 @@ namespace lambdatwist {
             lambda2 += (-x21*x33*r1+x11*x33*r2-x11*x23*r3)*detJ;
             lambda3 += ( x21*x32*r1-x11*x32*r2-x12*x21*r3)*detJ;
         }
+
+        const double r1 = (lambda1*lambda1 - 2.0*lambda1*lambda2*b12 + lambda2*lambda2 - a12);
+        const double r2 = (lambda1*lambda1 - 2.0*lambda1*lambda3*b13 + lambda3*lambda3 - a13);
+        const double r3 = (lambda2*lambda2 - 2.0*lambda2*lambda3*b23 + lambda3*lambda3 - a23);
+        return std::abs(r1) + std::abs(r2) + std::abs(r3) < 1e-6 * (a12 + a13 + a23);
     }
 
 
@@ -221,7 +227,8 @@ namespace lambdatwist {
                         if(lambda2 < 0)
                             continue;
 
-                        refine_lambda(lambda1, lambda2, lambda3, a12, a13, a23, b12, b13, b23);
+                        if(not refine_lambda(lambda1, lambda2, lambda3, a12, a13, a23, b12, b13, b23))
+                            continue;
                         v1 = lambda1*x[0] - lambda2*x[1];
                         v2 = lambda1*x[0] - lambda3*x[2];                    
                         YY << v1, v2, v1.cross(v2);
@@ -259,7 +266,8 @@ namespace lambdatwist {
 
                         if(lambda1 < 0)
                             continue;
-                        refine_lambda(lambda1, lambda2, lambda3, a12, a13, a23, b12, b13, b23);
+                        if(not refine_lambda(lambda1, lambda2, lambda3, a12, a13, a23, b12, b13, b23))
+                            continue;
                         v1 = lambda1*x[0] - lambda2*x[1];
                         v2 = lambda1*x[0] - lambda3*x[2];                    
                         YY << v1, v2, v1.cross(v2);
-- 
2.43.0


From 280d10826f66b1c18cc041e752b236b318e74d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:53 +0000
Subject: [PATCH 27/49] fix: P3P keeps two close solutions whatever the scale
 of the problem

---
 third_party/p3p.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/third_party/p3p.cpp b/third_party/p3p.cpp
index 5e841f7..b4a0bee 100644
--- a/third_party/p3p.cpp
+++ b/third_party/p3p.cpp
@@ -237,8 +237,9 @@ namespace lambdatwist {
                         output.push_back(pose);
                     }
 
-                    if(b2m4ac < TOL_DOUBLE_ROOT) {
+                    if(b2m4ac <= 0) {
                         // double root we can skip the second tau
+                        // (a small positive value can be two distinct roots, depending on the scale of a, b and c)
                         break;
                     }
                 }
@@ -275,7 +276,7 @@ namespace lambdatwist {
                         pose.t = lambda1*x[0] - pose.R*X[0];
                         output.push_back(pose);
                     }
-                    if(b2m4ac < TOL_DOUBLE_ROOT) {
+                    if(b2m4ac <= 0) {
                         break;
                     }                    
                 }
-- 
2.43.0


From 48f15fdbcb037be52b24f1c3f1805c0dee89f130 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:29:36 +0000
Subject: [PATCH 28/49] fix: rotations close to a half turn around z keep their
 value in optimization space

---
 src/pose_optimization/levenberg_marquardt_functors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pose_optimization/levenberg_marquardt_functors.cpp b/src/pose_optimization/levenberg_marquardt_functors.cpp
index 7c4b732..486223d 100644
--- a/src/pose_optimization/levenberg_marquardt_functors.cpp
+++ b/src/pose_optimization/levenberg_marquardt_functors.cpp
@@ -19,9 +19,9 @@ vector3 get_optimization_coefficients_from_quaternion(const quaternion& quat)
     /// by: G. Terzakis, P. Culverhouse, G. Bugmann, S. Sharma and R. Sutton
     ///
 
-    // The max is an addition on my part to resolve the occasional case where we have a pure rotation that gives quat.z
-    // at -1
-    const double divider = 1.0 / std::max(1.0 + quat.z(), 0.001);
+    // A quaternion and its opposite are the same rotation: pick the one with a positive z, to never divide by a value
+    // close to zero
+    const double divider = (quat.z() < 0.0 ? -1.0 : 1.0) / (1.0 + std::abs(quat.z()));
 
     return vector3(quat.w() * divider, quat.x() * divider, quat.y() * divider);
 }
-- 
2.43.0


From 0ba4e442d4070236332215be534781cc748d9318 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:29:36 +0000
Subject: [PATCH 29/49] fix: sign of the diagonal of the jacobian of the
 optimization coefficients

---
 src/pose_optimization/levenberg_marquardt_functors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pose_optimization/levenberg_marquardt_functors.cpp b/src/pose_optimization/levenberg_marquardt_functors.cpp
index 486223d..4db8434 100644
--- a/src/pose_optimization/levenberg_marquardt_functors.cpp
+++ b/src/pose_optimization/levenberg_marquardt_functors.cpp
@@ -51,17 +51,17 @@ Eigen::Matrix<double, 4, 3> get_quaternion_from_optimization_coefficients_jacobi
 
     const double multiplierDiag = -4.0 / SQR(theta5);
 
-    jacobian(0, 0) = 2.0 / theta5 - SQR(optCoeff.x()) * multiplierDiag;
+    jacobian(0, 0) = 2.0 / theta5 + SQR(optCoeff.x()) * multiplierDiag;
     jacobian(0, 1) = theta4;
     jacobian(0, 2) = theta3;
 
     jacobian(1, 0) = theta4;
-    jacobian(1, 1) = 2.0 / theta5 - SQR(optCoeff.y()) * multiplierDiag;
+    jacobian(1, 1) = 2.0 / theta5 + SQR(optCoeff.y()) * multiplierDiag;
     jacobian(1, 2) = theta2;
 
     jacobian(2, 0) = theta3;
     jacobian(2, 1) = theta2;
-    jacobian(2, 2) = 2.0 / theta5 - SQR(optCoeff.z()) * multiplierDiag;
+    jacobian(2, 2) = 2.0 / theta5 + SQR(optCoeff.z()) * multiplierDiag;
 
     const double multiA = 2.0 * theta1 / SQR(theta5);
     const double multiB = -2.0 / theta5;
-- 
2.43.0


From b2934f685395480b8faef210324d5ea2b639f361 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:29:36 +0000
Subject: [PATCH 30/49] fix: a 2D point on the negative side of its match is
 not always an inlier

---
 src/map_management/map_features/map_point2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/map_features/map_point2d.cpp b/src/map_management/map_features/map_point2d.cpp
index cd6e467..7c8c911 100644
--- a/src/map_management/map_features/map_point2d.cpp
+++ b/src/map_management/map_features/map_point2d.cpp
@@ -32,7 +32,7 @@ double Point2dOptimizationFeature::get_score() const noexcept
 
 bool Point2dOptimizationFeature::is_inlier(const WorldToCameraMatrix& worldToCamera) const noexcept
 {
-    return (get_distance(worldToCamera).array() <=
+    return (get_distance(worldToCamera).array().abs() <=
             parameters::optimization::ransac::maximumRetroprojectionErrorForPoint2DInliers_px)
             .all();
 }
-- 
2.43.0


From 382120ff743c3948d3723265d120f5626a4c6298 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:29:36 +0000
Subject: [PATCH 31/49] fix: the distance to a 2D point uses the variance of
 its inverse depth, not its standard deviation

---
 src/map_management/map_features/map_point2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/map_features/map_point2d.cpp b/src/map_management/map_features/map_point2d.cpp
index 7c8c911..5362510 100644
--- a/src/map_management/map_features/map_point2d.cpp
+++ b/src/map_management/map_features/map_point2d.cpp
@@ -40,7 +40,7 @@ bool Point2dOptimizationFeature::is_inlier(const WorldToCameraMatrix& worldToCam
 vectorxd Point2dOptimizationFeature::get_distance(const WorldToCameraMatrix& worldToCamera) const noexcept
 {
     const vector2& distance = _mapPoint.compute_signed_screen_distance(
-            _matchedPoint, _mapPointStandardDev(InverseDepthWorldPoint::inverseDepthIndex), worldToCamera);
+            _matchedPoint, SQR(_mapPointStandardDev(InverseDepthWorldPoint::inverseDepthIndex)), worldToCamera);
     return distance;
 }
 
-- 
2.43.0


From 15ea03568017f8ad1a820cf8ae8039d5f7f10bd7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:29:36 +0000
Subject: [PATCH 32/49] fix: the pose variance does not depend on the
 discontinuities of the Euler angles

---
 src/pose_optimization/pose_optimization.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pose_optimization/pose_optimization.cpp b/src/pose_optimization/pose_optimization.cpp
index 431aa41..3401238 100644
--- a/src/pose_optimization/pose_optimization.cpp
+++ b/src/pose_optimization/pose_optimization.cpp
@@ -389,7 +389,11 @@ bool Pose_Optimization::compute_pose_variance(const utils::PoseBase& optimizedPo
                           utils::PoseBase newPose;
                           if (compute_random_variation_of_pose(optimizedPose, matchedFeatures, newPose))
                           {
-                              const vector6& pose6dof = newPose.get_vector();
+                              // rotation relative to the optimized pose: angles of the pose itself are not continuous
+                              const Eigen::AngleAxisd rotation(optimizedPose.get_orientation_quaternion().inverse() *
+                                                               newPose.get_orientation_quaternion());
+                              vector6 pose6dof;
+                              pose6dof << newPose.get_position(), rotation.angle() * rotation.axis();
 #ifndef MAKE_DETERMINISTIC
                               std::scoped_lock<std::mutex> lock(mut);
 #endif
-- 
2.43.0


From d37259873b56048cd3517691eaf1f1714776443f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:36:34 +0000
Subject: [PATCH 33/49] fix: threads do not all draw the same random numbers

---
 src/utils/random.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils/random.hpp b/src/utils/random.hpp
index c4f6306..597d0e4 100644
--- a/src/utils/random.hpp
+++ b/src/utils/random.hpp
@@ -2,6 +2,7 @@
 #define RGBDSLAM_UTILS_RANDOM_HPP
 
 #include <Eigen/src/Core/Matrix.h>
+#include <atomic>
 #include <cassert>
 #include <ctime>
 #include <random>
@@ -16,7 +17,13 @@ class Random
   public:
     [[nodiscard]] static std::mt19937& get_random_engine()
     {
+#ifndef MAKE_DETERMINISTIC
+        // every thread needs its own sequence
+        static std::atomic<uint> engineCount = 0;
+        static thread_local std::mt19937 randomEngine(_seed + engineCount++);
+#else
         static thread_local std::mt19937 randomEngine(_seed);
+#endif
         return randomEngine;
     }
 
-- 
2.43.0


From d8e2983bf5de0951d03f58fcea07db5056f25b92 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:36:34 +0000
Subject: [PATCH 34/49] fix: RANSAC iterations compare their result to the best
 one under the lock

---
 src/pose_optimization/pose_optimization.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pose_optimization/pose_optimization.cpp b/src/pose_optimization/pose_optimization.cpp
index 3401238..64eccb0 100644
--- a/src/pose_optimization/pose_optimization.cpp
+++ b/src/pose_optimization/pose_optimization.cpp
@@ -201,13 +201,15 @@ bool Pose_Optimization::compute_pose_with_ransac(const utils::PoseBase& currentP
 #endif
                 }
 
+                // the best result is shared by all iterations
+                std::scoped_lock<std::mutex> lock(mut);
+
                 // Better score, or same score but more inliers
                 const bool canOverload = (featureInlierScore > maxScore) or
                                          (utils::double_equal(featureInlierScore, maxScore, 0.1) and
                                           finalFeatureSets._inliers.size() < potentialInliersOutliers._inliers.size());
                 if (canOverload)
                 {
-                    std::scoped_lock<std::mutex> lock(mut);
                     maxScore = featureInlierScore;
                     bestPose = candidatePose;
                     // save features inliers and outliers
-- 
2.43.0


From d889953ac9c5ccefc3be19574fb74d9a44b6118e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:39:40 +0000
Subject: [PATCH 35/49] fix: search space cells of images higher than wide stay
 in their container

---
 src/features/keypoints/keypoint_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index 9bfd98c..78fab9d 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -125,7 +125,7 @@ uint Keypoint_Handler::get_search_space_index(const uint_pair& searchSpaceIndex)
 {
     return get_search_space_index(searchSpaceIndex.second, searchSpaceIndex.first);
 }
-uint Keypoint_Handler::get_search_space_index(const uint x, const uint y) const noexcept { return y * _cellCountY + x; }
+uint Keypoint_Handler::get_search_space_index(const uint x, const uint y) const noexcept { return y * _cellCountX + x; }
 
 Keypoint_Handler::uint_pair Keypoint_Handler::get_search_space_coordinates(
         const ScreenCoordinate2D& pointToPlace) const noexcept
-- 
2.43.0


From 5d1a3c26dbd141551c50d463d7f42fc1d76bfa67 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:39:40 +0000
Subject: [PATCH 36/49] fix: points close to the left and upper borders of the
 image can be matched

---
 src/features/keypoints/keypoint_handler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index 78fab9d..e8e0a63 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -142,8 +142,8 @@ cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2
 {
     const auto [searchSpaceCoordinatesY, searchSpaceCoordinatesX] = get_search_space_coordinates(pointToSearch);
     // compute a search zone for the potential matches of this point
-    const uint startY = std::max(0U, searchSpaceCoordinatesY - searchSpaceCellRadius);
-    const uint startX = std::max(0U, searchSpaceCoordinatesX - searchSpaceCellRadius);
+    const uint startY = searchSpaceCoordinatesY - std::min(searchSpaceCoordinatesY, searchSpaceCellRadius);
+    const uint startX = searchSpaceCoordinatesX - std::min(searchSpaceCoordinatesX, searchSpaceCellRadius);
 
     const uint endY = std::min(_cellCountY, searchSpaceCoordinatesY + searchSpaceCellRadius + 1);
     const uint endX = std::min(_cellCountX, searchSpaceCoordinatesX + searchSpaceCellRadius + 1);
-- 
2.43.0


From fba890baeee15ec40e532099ca2c3a2ef024312c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:40:03 +0000
Subject: [PATCH 37/49] fix: key points are searched in the requested radius

---
 src/features/keypoints/keypoint_handler.cpp | 12 ++++++++----
 src/features/keypoints/keypoint_handler.hpp |  8 ++++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index e8e0a63..ffb45dd 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -138,7 +138,8 @@ Keypoint_Handler::uint_pair Keypoint_Handler::get_search_space_coordinates(
 
 cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2D& pointToSearch,
                                                          const vectorb& isKeyPointMatchedContainer,
-                                                         const uint searchSpaceCellRadius) const noexcept
+                                                         const uint searchSpaceCellRadius,
+                                                         const double searchSpaceRadius) const noexcept
 {
     const auto [searchSpaceCoordinatesY, searchSpaceCoordinatesX] = get_search_space_coordinates(pointToSearch);
     // compute a search zone for the potential matches of this point
@@ -159,7 +160,8 @@ cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2
 
             // get all keypoints in this area
             const index_container& keypointIndexContainer = _searchSpaceIndexContainer[searchSpaceIndex];
-            fill_keypoint_mask(pointToSearch, keypointIndexContainer, isKeyPointMatchedContainer, keyPointMask);
+            fill_keypoint_mask(
+                    pointToSearch, keypointIndexContainer, isKeyPointMatchedContainer, searchSpaceRadius, keyPointMask);
         }
     }
 
@@ -169,10 +171,11 @@ cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2
 void Keypoint_Handler::fill_keypoint_mask(const ScreenCoordinate2D& pointToSearch,
                                           const index_container& keypointIndexContainer,
                                           const vectorb& isKeyPointMatchedContainer,
+                                          const double searchSpaceRadius,
                                           cv::Mat_<uchar>& keyPointMask) const noexcept
 {
     // Squared search diameter, to compare distance without sqrt
-    constexpr float squaredSearchDiameter = static_cast<float>(SQR(parameters::matching::matchSearchRadius_px));
+    const double squaredSearchDiameter = SQR(searchSpaceRadius);
     for (const uint keypointIndex: keypointIndexContainer)
     {
         // ignore this point if it is already matched (prevent multiple matches of one point)
@@ -255,7 +258,8 @@ Keypoint_Handler::matchIndexSet Keypoint_Handler::get_match_indexes(const Screen
     assert(mapPointDescriptor.cols == _descriptors.cols);
 
     const cv::Mat_<uchar>& keyPointMask =
-            compute_key_point_mask(projectedMapPoint, isKeyPointMatchedContainer, searchSpaceCellRadius);
+            compute_key_point_mask(
+                    projectedMapPoint, isKeyPointMatchedContainer, searchSpaceCellRadius, searchSpaceRadius);
 
     std::vector<std::vector<cv::DMatch>> knnMatches;
     _featuresMatcher->knnMatch(mapPointDescriptor, _descriptors, knnMatches, 2, keyPointMask);
diff --git a/src/features/keypoints/keypoint_handler.hpp b/src/features/keypoints/keypoint_handler.hpp
index 6c313f1..853772f 100644
--- a/src/features/keypoints/keypoint_handler.hpp
+++ b/src/features/keypoints/keypoint_handler.hpp
@@ -184,13 +184,15 @@ class Keypoint_Handler
      *
      * \param[in] pointToSearch The 2D screen coordinates of the point to match
      * \param[in] isKeyPointMatchedContainer A vector of size _keypoints, use to flag is a keypoint is already matched
-     * \param[in] searchSpaceCellRadius Radius of the match search
+     * \param[in] searchSpaceCellRadius Radius of the match search, in cells
+     * \param[in] searchSpaceRadius Radius of the match search, in pixels
      *
      * \return A Mat the same size as our keypoint array, with 0 where the index is not a candidate, and 1 where it is
      */
     [[nodiscard]] cv::Mat_<uchar> compute_key_point_mask(const ScreenCoordinate2D& pointToSearch,
                                                          const vectorb& isKeyPointMatchedContainer,
-                                                         const uint searchSpaceCellRadius) const noexcept;
+                                                         const uint searchSpaceCellRadius,
+                                                         const double searchSpaceRadius) const noexcept;
 
     using index_container = std::vector<uint>;
     /**
@@ -198,11 +200,13 @@ class Keypoint_Handler
      * \param[in] pointToSearch The cooridnates of the point we want to match
      * \param[in] keypointIndexContainer A container with all the keypoints to draw an area around
      * \param[in] isKeyPointMatchedContainer If a keypoint is already matched, it's index will be true
+     * \param[in] searchSpaceRadius Radius of the match search, in pixels
      * \param[in, out] keyPointMask The match mask for each keypoints
      */
     void fill_keypoint_mask(const ScreenCoordinate2D& pointToSearch,
                             const index_container& keypointIndexContainer,
                             const vectorb& isKeyPointMatchedContainer,
+                            const double searchSpaceRadius,
                             cv::Mat_<uchar>& keyPointMask) const noexcept;
 
     using uint_pair = std::pair<uint, uint>;
-- 
2.43.0


From 4734dfe443ac316ea46ffa950bc742b91e46ee94 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:49:23 +0000
Subject: [PATCH 38/49] fix: the first detected plane can be matched

---
 src/map_management/map_features/map_primitive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/map_features/map_primitive.cpp b/src/map_management/map_features/map_primitive.cpp
index 2021478..5a91c0f 100644
--- a/src/map_management/map_features/map_primitive.cpp
+++ b/src/map_management/map_features/map_primitive.cpp
@@ -143,7 +143,7 @@ matchIndexSet MapPlane::find_matches(const DetectedPlaneObject& detectedFeatures
         }
     }
 
-    if (selectedIndex <= 0)
+    if (selectedIndex < 0)
         return matchIndexes;
 
     if (shouldAddToMatches)
-- 
2.43.0


From 91cad4039eca725d8562dbc9f75dc0b51a8ad6e3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:49:23 +0000
Subject: [PATCH 39/49] fix: matched 2D points are given to the pose
 optimization

---
 src/map_management/map_features/map_point2d.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/map_management/map_features/map_point2d.cpp b/src/map_management/map_features/map_point2d.cpp
index 5362510..039bcfc 100644
--- a/src/map_management/map_features/map_point2d.cpp
+++ b/src/map_management/map_features/map_point2d.cpp
@@ -112,18 +112,10 @@ matchIndexSet MapPoint2D::find_matches(const DetectedKeypointsObject& detectedFe
         }
     }
 
-    if (matchIndex == features::keypoints::INVALID_MATCH_INDEX)
-    {
-        // unmatched point
-        return matchIndexRes;
-    }
-
-    assert(matchIndex >= 0);
-    assert(static_cast<Eigen::Index>(matchIndex) < isDetectedFeatureMatched.size());
-    if (isDetectedFeatureMatched[matchIndex])
+    else
     {
-        // point was already matched
-        outputs::log_error("The requested point unique index is already matched");
+        assert(matchIndex >= 0);
+        matchIndexRes.emplace(matchIndex);
     }
 
     if (shouldAddToMatches)
-- 
2.43.0


From 5bd3cefa89a7dc65dc4dd6e772a3495549a1e587 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:51:31 +0000
Subject: [PATCH 40/49] fix: a map point observed without its depth is not
 detected as moving

---
 src/map_management/map_features/map_point.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/map_management/map_features/map_point.cpp b/src/map_management/map_features/map_point.cpp
index 2972c3e..e3608ea 100644
--- a/src/map_management/map_features/map_point.cpp
+++ b/src/map_management/map_features/map_point.cpp
@@ -220,6 +220,13 @@ bool MapPoint::update_with_match(const DetectedPointType& matchedFeature,
         // Point is 2D, compute projection
         tracking::PointInverseDepth observation(
                 ScreenCoordinate2D(matchedScreenPoint.head<2>()), cameraToWorld, poseCovariance);
+        // this observation gives no information on the depth: use the estimated one, to not be detected as a movement
+        const InverseDepthWorldPoint ray = observation._coordinates;
+        const double distance_mm = (_coordinates - ray.get_first_observation()).norm();
+        if (distance_mm > 0.0)
+            observation._coordinates = InverseDepthWorldPoint(
+                    ray.get_first_observation(), 1.0 / distance_mm, ray.get_theta(), ray.get_phi());
+
         Eigen::Matrix<double, 3, 6> inverseToWorldJacobian;
         const auto projectedObservation = observation._coordinates.to_world_coordinates(inverseToWorldJacobian);
         const auto observationCovariance = tracking::PointInverseDepth::compute_cartesian_covariance(
-- 
2.43.0


From f37d4ccf5d4dba661a034c830952af3874abd803 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:54:42 +0000
Subject: [PATCH 41/49] fix: a failed union of polygons does not replace the
 boundary of a plane

---
 src/utils/polygon.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/polygon.cpp b/src/utils/polygon.cpp
index eb5d4dc..4cbcb9f 100644
--- a/src/utils/polygon.cpp
+++ b/src/utils/polygon.cpp
@@ -313,6 +313,12 @@ void Polygon::merge_union(const Polygon& other)
         outputs::log_warning("Merge of two polygons produces no overlaps, returning without merge operation");
         return;
     }
+    // an union cannot be smaller than its parts: the operation failed (this can happen with almost equal boundaries)
+    if (boost::geometry::area(res) < 0.99 * boost::geometry::area(_polygon))
+    {
+        outputs::log_warning("Merge of two polygons reduces the area, returning without merge operation");
+        return;
+    }
     _polygon = res;
     // simplify the final mesh
     simplify();
-- 
2.43.0


From 93ae4163d9eaa770e338406982023d336f96374e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:53:20 +0000
Subject: [PATCH 42/49] fix: matches of several feature maps are kept in a
 reproducible order

---
 src/map_management/feature_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map_management/feature_map.hpp b/src/map_management/feature_map.hpp
index a11bb15..b8e51af 100644
--- a/src/map_management/feature_map.hpp
+++ b/src/map_management/feature_map.hpp
@@ -321,8 +321,8 @@ class Feature_Map
             get_matches(detected, worldToCamera, true, minimumFeaturesForOptimization, testMatches);
         }
 
-        // merge the two
-        matches.merge(testMatches);
+        // append, in a fixed order: a merge would order the matches by their addresses in memory
+        matches.splice(matches.end(), testMatches);
     }
 
     /**
-- 
2.43.0


From 6ae723efef685af41b2d9e394263436f1f18b6e9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:54:57 +0000
Subject: [PATCH 43/49] fix: boundaries of planes are reproducible when the
 results should be deterministic

---
 third_party/concave_fitting.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/third_party/concave_fitting.cpp b/third_party/concave_fitting.cpp
index f94fbca..fec549c 100644
--- a/third_party/concave_fitting.cpp
+++ b/third_party/concave_fitting.cpp
@@ -107,7 +107,12 @@ auto ConcaveHull(PointVector& pointList, size_t k, PointVector& hull) -> bool
     // construct a randomized kd-tree index using 4 kd-trees
     // 2 columns, but stride = 24 bytes in width (x, y, ignoring id)
     flann::Matrix<double> matrix(&(pointList.front().x), pointList.size(), 2, stride);
+#ifndef MAKE_DETERMINISTIC
     flann::Index<flann::L2<double>> flannIndex(matrix, flann::KDTreeIndexParams(4));
+#else
+    // the kd-trees are built from a non deterministic random source: use an exhaustive search
+    flann::Index<flann::L2<double>> flannIndex(matrix, flann::LinearIndexParams());
+#endif
     flannIndex.buildIndex();
 
     // Initialise hull with the min-y point
-- 
2.43.0


From 8b158a730a2deb4cc6efecb5ea19c6aa5d1ab07d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:57:37 +0000
Subject: [PATCH 44/49] fix: durations of the parallel iterations are summed
 without data race

---
 src/pose_optimization/pose_optimization.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pose_optimization/pose_optimization.hpp b/src/pose_optimization/pose_optimization.hpp
index 217873c..b71ec88 100644
--- a/src/pose_optimization/pose_optimization.hpp
+++ b/src/pose_optimization/pose_optimization.hpp
@@ -3,6 +3,7 @@
 
 #include "matches_containers.hpp"
 #include "utils/pose.hpp"
+#include <atomic>
 
 namespace rgbd_slam::pose_optimization {
 
@@ -97,9 +98,9 @@ class Pose_Optimization
     inline static double _meanPoseRANSACDuration = 0.0;
     inline static double _meanComputePoseVarianceDuration = 0.0;
 
-    inline static double _meanGetRandomSubsetDuration = 0.0;
-    inline static double _meanRANSACPoseOptimizationDuration = 0.0;
-    inline static double _meanRANSACGetInliersDuration = 0.0;
+    inline static std::atomic<double> _meanGetRandomSubsetDuration = 0.0;
+    inline static std::atomic<double> _meanRANSACPoseOptimizationDuration = 0.0;
+    inline static std::atomic<double> _meanRANSACGetInliersDuration = 0.0;
 };
 
 } // namespace rgbd_slam::pose_optimization
-- 
2.43.0


From 0cbdb0951692b27121598bccaf46156998ca1129 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:14:08 +0000
Subject: [PATCH 45/49] fix: lines that end out of the image are displayed
 without reading out of the depth mask

---
 src/features/lines/line_detection.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/features/lines/line_detection.cpp b/src/features/lines/line_detection.cpp
index a9bdff2..55a8de3 100644
--- a/src/features/lines/line_detection.cpp
+++ b/src/features/lines/line_detection.cpp
@@ -44,19 +44,24 @@ void Line_Detection::get_image_with_lines(const line_container& linesToDisplay,
     const cv::Mat_<uchar> mask = depthImage > 0;
     cv::morphologyEx(mask, mask, cv::MORPH_CLOSE, _kernel);
 
+    // the extremities of a line can be slightly out of the image
+    const auto has_depth = [&mask](const cv::Point& point) {
+        return cv::Rect(0, 0, mask.cols, mask.rows).contains(point) and mask(point) != 0;
+    };
+
     for (const cv::Vec4f& pts: linesToDisplay)
     {
         const cv::Point pt1(static_cast<int>(pts[0]), static_cast<int>(pts[1]));
         const cv::Point pt2(static_cast<int>(pts[2]), static_cast<int>(pts[3]));
 
-        if (mask.at<uchar>(pt1) == 0 or mask.at<uchar>(pt2) == 0)
+        if (not has_depth(pt1) or not has_depth(pt2))
         {
             // no depth at extreme points, check first and second quarter
             const cv::Point firstQuart = 0.25 * pt1 + 0.75 * pt2;
             const cv::Point secQuart = 0.75 * pt1 + 0.25 * pt2;
 
             // at least a point with depth data
-            if (mask.at<uchar>(firstQuart) != 0 or mask.at<uchar>(secQuart) != 0)
+            if (has_depth(firstQuart) or has_depth(secQuart))
                 cv::line(outImage, pt1, pt2, cv::Scalar(0, 0, 255), 1);
             else // no depth data
                 cv::line(outImage, pt1, pt2, cv::Scalar(255, 0, 255), 1);
-- 
2.43.0


From 85dc9c79d29279b983db759164e91885d18dc1fc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:14:34 +0000
Subject: [PATCH 46/49] fix: holes that are open on the left or right of the
 image are not filled

---
 third_party/geodesic_operations.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/third_party/geodesic_operations.cpp b/third_party/geodesic_operations.cpp
index ff81b40..aaf336d 100644
--- a/third_party/geodesic_operations.cpp
+++ b/third_party/geodesic_operations.cpp
@@ -5,7 +5,7 @@ using namespace cv;
 // Fill the holes
 int cv::fillHole(const cv::Mat& src, cv::Mat& dst)
 {
-    cv::Mat m = cv::Mat(src.rows, src.cols, CV_8UC1);       // get F
+    cv::Mat m = cv::Mat::zeros(src.rows, src.cols, CV_8UC1);       // get F
  
          // first row 
     uchar *pxvec = m.ptr<uchar>(0);
@@ -23,8 +23,9 @@ int cv::fillHole(const cv::Mat& src, cv::Mat& dst)
     for (int i = 1; i < m.rows - 1; i++)
     {
         uchar* pxvec3 = m.ptr<uchar>(i);
-        pxvec3[0] = 255 - pxvecSrc2[0];
-        pxvec3[m.cols-1] = 255 - pxvecSrc2[m.cols - 1];
+        const uchar* pxvecSrc3 = src.ptr<uchar>(i);
+        pxvec3[0] = 255 - pxvecSrc3[0];
+        pxvec3[m.cols-1] = 255 - pxvecSrc3[m.cols - 1];
     }
  
     cv::Mat mask;
-- 
2.43.0


From a803fecb6d6f1a5ce9570f4a5ac0c04b068e1c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:38 +0000
Subject: [PATCH 47/49] fix: unions and intersections of polygons with common
 edges do not fail

---
 src/utils/polygon.cpp | 92 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 78 insertions(+), 14 deletions(-)

diff --git a/src/utils/polygon.cpp b/src/utils/polygon.cpp
index 4cbcb9f..ccc0bea 100644
--- a/src/utils/polygon.cpp
+++ b/src/utils/polygon.cpp
@@ -446,10 +446,83 @@ double Polygon::area() const noexcept
     return boost::geometry::area(_polygon);
 }
 
+/**
+ * \brief Rotate a polygon, and put its points on a grid that is far finer than any measure (1e-6 millimeters)
+ */
+static Polygon::polygon rotate_on_grid(const Polygon::polygon& pol, const double angle)
+{
+    constexpr double gridPerMillimeter = 1e6;
+    const double cosAngle = cos(angle);
+    const double sinAngle = sin(angle);
+
+    Polygon::polygon res = pol;
+    boost::geometry::for_each_point(res, [cosAngle, sinAngle](Polygon::point_2d& point) {
+        const double x = cosAngle * point.x() - sinAngle * point.y();
+        const double y = sinAngle * point.x() + cosAngle * point.y();
+        point.x(std::round(x * gridPerMillimeter) / gridPerMillimeter);
+        point.y(std::round(y * gridPerMillimeter) / gridPerMillimeter);
+    });
+    return res;
+}
+
+/**
+ * \brief Apply a set operation to two polygons.
+ * Boost can fail when the polygons have edges in common, up to the precision of a double: set the points on a grid, so
+ * they are either the same or clearly distinct, and restart in another frame when the result is impossible
+ */
+template<typename Operation>
+static Polygon::multi_polygon apply_set_operation(const Polygon::polygon& first,
+                                                  const Polygon::polygon& second,
+                                                  const double minimumArea,
+                                                  const double maximumArea,
+                                                  const Operation& operation)
+{
+    constexpr uint maximumTryCount = 4;
+    const double areaTolerance = 1e-6 * (boost::geometry::area(first) + boost::geometry::area(second));
+
+    Polygon::multi_polygon res;
+    for (uint i = 0; i < maximumTryCount; ++i)
+    {
+        const double frameAngle = 0.37 * i;
+        res.clear();
+        operation(rotate_on_grid(first, frameAngle), rotate_on_grid(second, frameAngle), res);
+        for (Polygon::polygon& pol: res)
+            pol = rotate_on_grid(pol, -frameAngle);
+
+        const double resArea = boost::geometry::area(res);
+        if (resArea >= minimumArea - areaTolerance and resArea <= maximumArea + areaTolerance)
+            break;
+    }
+    return res;
+}
+
+static Polygon::multi_polygon compute_union(const Polygon::polygon& first, const Polygon::polygon& second)
+{
+    const double firstArea = boost::geometry::area(first);
+    const double secondArea = boost::geometry::area(second);
+    return apply_set_operation(first,
+                               second,
+                               std::max(firstArea, secondArea),
+                               firstArea + secondArea,
+                               [](const auto& a, const auto& b, auto& res) {
+                                   boost::geometry::union_(a, b, res);
+                               });
+}
+
+static Polygon::multi_polygon compute_intersection(const Polygon::polygon& first, const Polygon::polygon& second)
+{
+    return apply_set_operation(first,
+                               second,
+                               0.0,
+                               std::min(boost::geometry::area(first), boost::geometry::area(second)),
+                               [](const auto& a, const auto& b, auto& res) {
+                                   boost::geometry::intersection(a, b, res);
+                               });
+}
+
 Polygon::polygon Polygon::union_one(const Polygon& other) const
 {
-    multi_polygon res;
-    boost::geometry::union_(_polygon, other.project(_xAxis, _yAxis, _center)._polygon, res);
+    multi_polygon res = compute_union(_polygon, other.project(_xAxis, _yAxis, _center)._polygon);
     if (res.empty())
         return polygon(); // empty polygon
 
@@ -480,8 +553,7 @@ Polygon::polygon Polygon::union_one(const Polygon& other) const
 
 Polygon::polygon Polygon::inter_one(const Polygon& other) const
 {
-    multi_polygon res;
-    boost::geometry::intersection(_polygon, other.project(_xAxis, _yAxis, _center)._polygon, res);
+    multi_polygon res = compute_intersection(_polygon, other.project(_xAxis, _yAxis, _center)._polygon);
     if (res.empty())
         return polygon(); // empty polygon, no intersection
 
@@ -527,14 +599,7 @@ double Polygon::inter_over_union(const Polygon& other) const
 
 double Polygon::inter_area(const Polygon& other) const
 {
-    multi_polygon res;
-    const bool processSuccess =
-            boost::geometry::intersection(_polygon, other.project(_xAxis, _yAxis, _center)._polygon, res);
-    if (!processSuccess)
-    {
-        outputs::log_error("Polygon intersection returned error");
-        return 0;
-    }
+    const multi_polygon& res = compute_intersection(_polygon, other.project(_xAxis, _yAxis, _center)._polygon);
 
     // compute the sum of area of the inter
     double areaSum = 0;
@@ -548,8 +613,7 @@ double Polygon::inter_area(const Polygon& other) const
 
 double Polygon::union_area(const Polygon& other) const
 {
-    multi_polygon res;
-    boost::geometry::union_(_polygon, other.project(_xAxis, _yAxis, _center)._polygon, res);
+    const multi_polygon& res = compute_union(_polygon, other.project(_xAxis, _yAxis, _center)._polygon);
 
     // compute the sum of area of the union
     double areaSum = 0;
-- 
2.43.0


From d897342cc48a50d4087e89fd5e67df35f75f7b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:25 +0000
Subject: [PATCH 48/49] fix: a malformed parameter file that raises a standard
 exception does not terminate the program

---
 src/parameters.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index 50906fa..877c6c0 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -16,7 +16,8 @@ bool Parameters::parse_file(const std::string& fileName) noexcept
     {
         configFile.open(fileName, cv::FileStorage::READ);
     }
-    catch (const cv::Exception& ex)
+    // OpenCV also lets standard exceptions out, on malformed files
+    catch (const std::exception& ex)
     {
         outputs::log_error("Cannot parse parameter file: " + std::string(ex.what()));
         configFile.release();
-- 
2.43.0


From f1105840db4d6440947de9d256038c014282a5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:53 +0000
Subject: [PATCH 49/49] fix: a plane that extends behind the camera is visible
 where it is in front of it

The points behind the camera were projected on the screen as if they were in front of it: planes with a part
in the image could be declared not visible, and planes out of the image visible. Keep only the part of the
boundary that is in front of the camera.
---
 src/coordinates/polygon_coordinates.cpp | 30 ++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/coordinates/polygon_coordinates.cpp b/src/coordinates/polygon_coordinates.cpp
index 1cb1bd7..8c96c23 100644
--- a/src/coordinates/polygon_coordinates.cpp
+++ b/src/coordinates/polygon_coordinates.cpp
@@ -119,15 +119,35 @@ utils::Polygon::polygon CameraPolygon::to_screen_space() const
 
 bool CameraPolygon::is_visible_in_screen_space() const
 {
-    // a polygon with no point in front of the camera cannot be visible, even if it projects to the screen limits
-    if (std::ranges::none_of(get_unprojected_boundary(), [](const vector3& point) {
-            return point.z() > 0;
-        }))
+    // keep only the part of the polygon in front of the camera: the points behind it have no position on the screen
+    constexpr double minimumDepth = 1.0; // (millimeters)
+    const std::vector<vector3>& boundary = get_unprojected_boundary();
+    std::vector<point_2d> screenBoundary;
+    const auto add_to_screen_boundary = [&screenBoundary](const CameraCoordinate& point) {
+        ScreenCoordinate screenPoint;
+        if (point.to_screen_coordinates(screenPoint))
+            screenBoundary.emplace_back(screenPoint.x(), screenPoint.y());
+    };
+    for (size_t i = 0; i < boundary.size(); ++i)
+    {
+        const vector3& current = boundary[i];
+        const vector3& next = boundary[(i + 1) % boundary.size()];
+        if (current.z() >= minimumDepth)
+            add_to_screen_boundary(CameraCoordinate(current));
+        if ((current.z() >= minimumDepth) != (next.z() >= minimumDepth))
+            add_to_screen_boundary(CameraCoordinate(current + (next - current) * (minimumDepth - current.z()) /
+                                                                      (next.z() - current.z())));
+    }
+    if (screenBoundary.size() < 3)
         return false;
 
+    polygon screenPolygon;
+    boost::geometry::assign_points(screenPolygon, screenBoundary);
+    boost::geometry::correct(screenPolygon);
+
     // intersecton of this polygon in screen space, and the screen limits; if it exists, the polygon is visible
     multi_polygon res;
-    boost::geometry::intersection(to_screen_space(), utils::get_static_screen_boundary_polygon(), res);
+    boost::geometry::intersection(screenPolygon, utils::get_static_screen_boundary_polygon(), res);
     return not res.empty(); // intersection exists, polygon is visible
 }
 
-- 
2.43.0

