// C02: plane equations move between frames exactly as their points do.
#include "config.hpp"
#include "geo.hpp"
#include "coordinates/plane_coordinates.hpp"
#include "coordinates/point_coordinates.hpp"
#include "utils/camera_transformation.hpp"
using namespace rgbd_slam;
using mon::check;
using mon::near;
using ref::V3;

static V3 unit(mon::Ctx& c)
{
    if (c.coin(0.2)) { V3 v = V3::Zero(); v((int)c.irange(0, 2)) = c.coin() ? 1 : -1; return v; }
    V3 v(c.gauss(), c.gauss(), c.gauss());
    return v / v.norm();
}

MON_TEST(plane_moves_with_its_points, 4000, 80000)
{
    const ref::Pose P = ref::rand_pose(c);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(P.q, P.t);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(P.q, P.t);
    const PlaneCameraToWorldMatrix pc2w = utils::compute_plane_camera_to_world_matrix(c2w);
    const PlaneWorldToCameraMatrix pw2c = utils::compute_plane_world_to_camera_matrix(w2c);
    const V3 n = unit(c);
    const double d = c.coin(0.05) ? 0.0 : c.uni(-6000, 6000);
    // the given normal may have any length
    const double len = c.coin(0.5) ? 1.0 : c.logu(0.01, 100);
    const PlaneCameraCoordinates plane(vector3(n * len), d);
    const PlaneCameraCoordinates plane4(vector4(n.x() * len, n.y() * len, n.z() * len, d));
    check(near(plane.get_normal().norm(), 1, 0, 1e-12) && ref::mnear(plane.get_normal(), n, 0, 1e-9) && near(plane.get_d(), d, 1e-12, 1e-12), "plane_normalised", "n=%s d=%.6g", ref::s3(n).c_str(), d);
    check(ref::mnear(plane4.get_parametrization(), plane.get_parametrization(), 1e-12, 1e-12), "plane_constructors_agree", "n=%s d=%.6g", ref::s3(n).c_str(), d);
    const PlaneWorldCoordinates w = plane.to_world_coordinates(pc2w);
    check(near(w.get_normal().norm(), 1, 0, 1e-12), "world_normal_unit", "%.12g", w.get_normal().norm());
    for (int i = 0; i < 4; ++i)
    {
        const V3 p(c.uni(-6000, 6000), c.uni(-6000, 6000), c.uni(-6000, 6000));
        const double rc = n.dot(p) + d;
        check(near(plane.get_point_distance(p), rc, 1e-9, 1e-6), "camera_point_distance", "%.9g vs %.9g", plane.get_point_distance(p), rc);
        const V3 pw = ref::cam_to_world(P, p);
        check(near(w.get_point_distance(pw), rc, 1e-9, 1e-5), "point_keeps_plane_distance", "pose t=%s: %.9g became %.9g", ref::s3(P.t).c_str(), rc, w.get_point_distance(pw));
    }
    // the same plane written directly in world coordinates comes back the same way
    const PlaneCameraCoordinates back = w.to_camera_coordinates(pw2c);
    check(ref::mnear(back.get_normal(), n, 0, 1e-9) && near(back.get_d(), d, 1e-9, 1e-5), "plane_roundtrip", "n=%s d=%.6g -> n=%s d=%.6g", ref::s3(n).c_str(), d, ref::s3(back.get_normal()).c_str(), back.get_d());
    // centre: the point of the plane nearest to the origin
    const V3 ce = plane.get_center();
    check(near(plane.get_point_distance(ce), 0, 0, 1e-6) && near(ce.norm(), std::abs(d), 1e-9, 1e-6), "plane_center", "%s", ref::s3(ce).c_str());
    // angle
    const V3 n2 = unit(c);
    const PlaneCameraCoordinates other(vector3(n2), c.uni(-6000, 6000));
    check(near(plane.get_cos_angle(other), n.dot(n2), 0, 1e-9), "plane_angle", "%.9g", plane.get_cos_angle(other));
    // copies
    PlaneCameraCoordinates cp(plane);
    check(cp.get_parametrization() == cp.get_parametrization() && ref::mnear(cp.get_parametrization(), plane.get_parametrization(), 1e-12, 1e-12), "plane_copy", "%s", "");
    cp = other;
    check(ref::mnear(cp.get_parametrization(), other.get_parametrization(), 1e-12, 1e-12), "plane_assign", "%s", "");
    mon::nontrivial("plane", mon::fmt("%d %d %d %d %d", (int)(n.x() * 5), (int)(n.y() * 5), (int)(d / 500), (int)(P.t.y() / 1000), (int)(P.q.z() * 5)));
    mon::sample("plane", "camera n=" + ref::s3(n) + mon::fmt(" d=%.4g -> world n=", d) + ref::s3(w.get_normal()) + mon::fmt(" d=%.4g", w.get_d()));
}

MON_TEST(plane_errors, 3000, 60000)
{
    const ref::Pose P = ref::rand_pose(c);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(P.q, P.t);
    const PlaneWorldToCameraMatrix pw2c = utils::compute_plane_world_to_camera_matrix(w2c);
    const V3 nw = unit(c);
    const double dw = c.uni(-6000, 6000);
    const PlaneWorldCoordinates world(vector3(nw), dw);
    // reference: rotate the normal, and shift with any point of the plane
    const V3 nc = ref::rot(P.q).transpose() * ref::world_axes_to_cam(nw);
    const double dc = -nc.dot(ref::world_to_cam(P, V3(nw * -dw)));
    const V3 no = c.coin(0.5) ? V3((nc + 0.1 * unit(c)).normalized()) : unit(c);
    const double dob = c.coin(0.5) ? dc + c.uni(-100, 100) : c.uni(-6000, 6000);
    const PlaneCameraCoordinates obs(vector3(no), dob);
    const vector4 e = world.get_signed_distance(obs, pw2c);
    const V3 en = no - nc;
    check(near(e(3), dob - dc, 1e-8, 1e-4) && ref::mnear(V3(e.head<3>()), en, 0, 1e-8), "plane_error", "got (%.6g %.6g %.6g %.6g)", e(0), e(1), e(2), e(3));
    const vector3 r = world.get_reduced_signed_distance(obs, pw2c);
    check(ref::mnear(r, V3(no * dob - nc * dc), 1e-8, 1e-4), "reduced_plane_error", "got %s expected %s", ref::s3(r).c_str(), ref::s3(V3(no * dob - nc * dc)).c_str());
    // the exact same plane has no error, whatever the pose
    const PlaneCameraCoordinates same(vector3(nc), dc);
    check(world.get_signed_distance(same, pw2c).cwiseAbs().maxCoeff() < 1e-4 && world.get_reduced_signed_distance(same, pw2c).cwiseAbs().maxCoeff() < 1e-3, "same_plane_no_error", "%s", "");
    mon::nontrivial("plane_error", mon::fmt("%d %d %d", (int)(en.norm() * 20), (int)((dob - dc) / 200), (int)(P.q.z() * 5)));
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, mon::load_config); }
