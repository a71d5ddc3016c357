// C01: conversions of points between image, camera and world frames.
#include "config.hpp"
#include "geo.hpp"
#include "coordinates/basis_changes.hpp"
#include "coordinates/point_coordinates.hpp"
#include "utils/angle_utils.hpp"
#include "utils/camera_transformation.hpp"
#include "utils/distance_utils.hpp"
using namespace rgbd_slam;
using mon::check;
using mon::near;
using ref::V3;

static mon::Cam C() { return mon::cfg().c1; }
static V3 ref_project(const V3& c) { return V3(C().fx * c.x() / c.z() + C().cx, C().fy * c.y() / c.z() + C().cy, c.z()); }
static V3 ref_backproject(const V3& s) { return V3((s.x() - C().cx) / C().fx * s.z(), (s.y() - C().cy) / C().fy * s.z(), s.z()); }
static bool ok3(const V3& a, const V3& b, double scale) { return (a - b).cwiseAbs().maxCoeff() <= 1e-9 * scale + 1e-9 && a.allFinite(); }

MON_TEST(screen_camera, 3000, 60000)
{
    const V3 s(c.uni(0, C().w), c.uni(0, C().h), c.coin(0.8) ? c.uni(40, 6000) : c.logu(0.01, 1e6));
    const ScreenCoordinate sc(s.x(), s.y(), s.z());
    const CameraCoordinate cc = sc.to_camera_coordinates();
    const V3 rc = ref_backproject(s);
    check(ok3(cc, rc, 10 * std::abs(s.z())), "screen_to_camera", "pixel %s -> %s expected %s", ref::s3(s).c_str(), ref::s3(cc).c_str(), ref::s3(rc).c_str());
    const CameraCoordinate2D c2 = sc.get_2D().to_camera_coordinates();
    check(near(c2.x(), rc.x() / s.z(), 1e-9, 1e-9) && near(c2.y(), rc.y() / s.z(), 1e-9, 1e-9), "screen_to_camera_2d", "pixel %s", ref::s3(s).c_str());
    ScreenCoordinate back;
    check(cc.to_screen_coordinates(back) && ok3(back, s, 1000 + s.z()), "camera_to_screen_roundtrip", "pixel %s -> %s", ref::s3(s).c_str(), ref::s3(back).c_str());
    ScreenCoordinate2D back2, back3;
    check(cc.to_screen_coordinates(back2) && near(back2.x(), s.x(), 1e-9, 1e-6) && near(back2.y(), s.y(), 1e-9, 1e-6), "camera_to_screen_2d_overload", "pixel %s", ref::s3(s).c_str());
    check(c2.to_screen_coordinates(back3) && near(back3.x(), s.x(), 1e-9, 1e-6) && near(back3.y(), s.y(), 1e-9, 1e-6), "camera2d_to_screen_roundtrip", "pixel %s", ref::s3(s).c_str());
    mon::nontrivial("screen_camera", mon::fmt("%d %d %d", (int)s.x(), (int)s.y(), (int)(s.z() / 50)));
    mon::sample("screen_camera", ref::s3(s) + " <-> " + ref::s3(cc));
}

MON_TEST(camera_projection_anywhere, 2000, 40000)
{
    // also behind the camera and far outside the image
    const V3 p(c.uni(-8000, 8000), c.uni(-8000, 8000), (c.coin(0.7) ? 1 : -1) * c.logu(1, 8000));
    ScreenCoordinate s;
    const bool ok = CameraCoordinate(p.x(), p.y(), p.z()).to_screen_coordinates(s);
    check(ok, "finite_point_projects", "%s", ref::s3(p).c_str());
    const V3 r = ref_project(p);
    check(ok3(s, r, r.cwiseAbs().maxCoeff()), "camera_to_screen", "%s -> %s expected %s", ref::s3(p).c_str(), ref::s3(s).c_str(), ref::s3(r).c_str());
    // visibility
    const double w = C().w, h = C().h, eps = 1e-6;
    const bool inside = r.x() >= eps && r.y() >= eps && r.x() <= w - eps && r.y() <= h - eps && r.z() > 0;
    const bool outside = r.x() < -eps || r.y() < -eps || r.x() > w + eps || r.y() > h + eps;
    if (inside) check(s.is_in_screen_boundaries() && s.get_2D().is_in_screen_boundaries(), "visible_point_reported", "%s", ref::s3(s).c_str());
    if (outside) check(!s.is_in_screen_boundaries() && !s.get_2D().is_in_screen_boundaries(), "invisible_point_rejected", "%s", ref::s3(s).c_str());
    if (r.z() < 0) check(!s.is_in_screen_boundaries(), "behind_camera_rejected", "%s", ref::s3(s).c_str());
    mon::nontrivial("projection", mon::fmt("%d%d%d %d %d", inside, outside, p.z() > 0, (int)(p.x() / 200), (int)(p.y() / 200)));
}

MON_TEST(visibility_edges, 1500, 20000)
{
    const double w = C().w, h = C().h;
    // each coordinate is drawn from just inside / just outside / corner values
    auto draw = [&](double m, int& cls) {
        cls = (int)c.irange(0, 6);
        switch (cls)
        {
            case 0: return 0.0;
            case 1: return m - c.logu(1e-6, 1.0);
            case 2: return c.logu(1e-9, 1.0);
            case 3: return -c.logu(1e-9, 100.0);
            case 4: return m + c.logu(1e-6, 1000.0);
            case 5: return c.uni(1, m - 1);
            default: return (double)c.irange(0, (int)m - 1);
        }
    };
    int cx, cy;
    const double x = draw(w, cx), y = draw(h, cy);
    const double z = c.coin(0.8) ? c.logu(1e-3, 1e4) : (c.coin() ? 0.0 : -c.logu(1e-3, 1e4));
    const bool in2 = cx != 3 && cx != 4 && cy != 3 && cy != 4;
    check(ScreenCoordinate2D(x, y).is_in_screen_boundaries() == in2, "edge_visibility_2d", "(%.9g,%.9g)", x, y);
    check(ScreenCoordinate(x, y, z).is_in_screen_boundaries() == (in2 && z > 0), "edge_visibility_3d", "(%.9g,%.9g,%.9g)", x, y, z);
    mon::nontrivial("edges", mon::fmt("%d %d %d", cx, cy, (z > 0) - (z < 0)));
    // refusals of impossible pixels
    bool threw = false;
    try { (void)ScreenCoordinate(x, y, z).to_camera_coordinates(); } catch (const std::exception&) { threw = true; }
    check(threw == (x < 0 || y < 0 || z == 0.0), "impossible_pixel_refused", "(%.9g,%.9g,%.9g) threw=%d", x, y, z, threw);
    // reliable measurement range
    const double d = c.coin() ? c.uni(-100, 100) : c.uni(0, 12000);
    if (d > 40.5 && d < 5999.5) check(is_depth_valid(d), "depth_in_range_accepted", "%.6g", d);
    if (d < 39.5 || d > 6000.5) check(!is_depth_valid(d), "depth_out_of_range_rejected", "%.6g", d);
    check(!is_depth_valid(std::nan("")) && !is_depth_valid(0) && !is_depth_valid(-500) && !is_depth_valid(INFINITY), "no_measure_rejected", "nan/0/neg/inf");
}

MON_TEST(world_camera, 3000, 60000)
{
    const ref::Pose P = ref::rand_pose(c);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(P.q, P.t);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(P.q, P.t);
    const V3 p(c.uni(-6000, 6000), c.uni(-6000, 6000), c.uni(-6000, 6000));
    const double sc = 20000;
    const V3 rw = ref::cam_to_world(P, p);
    const WorldCoordinate w = CameraCoordinate(p.x(), p.y(), p.z()).to_world_coordinates(c2w);
    check(ok3(w, rw, sc), "camera_to_world", "pose t=%s p=%s -> %s expected %s", ref::s3(P.t).c_str(), ref::s3(p).c_str(), ref::s3(w).c_str(), ref::s3(rw).c_str());
    const V3 rc = ref::world_to_cam(P, p);
    const CameraCoordinate cc = WorldCoordinate(p.x(), p.y(), p.z()).to_camera_coordinates(w2c);
    check(ok3(cc, rc, sc), "world_to_camera", "pose t=%s p=%s -> %s expected %s", ref::s3(P.t).c_str(), ref::s3(p).c_str(), ref::s3(cc).c_str(), ref::s3(rc).c_str());
    check(ok3(w.to_camera_coordinates(w2c), p, sc), "world_roundtrip", "p=%s", ref::s3(p).c_str());
    // alternative constructions of the same transformations
    const CameraToWorldMatrix c2wB = utils::compute_camera_to_world_transform(w2c);
    const WorldToCameraMatrix w2cB = utils::compute_world_to_camera_transform(c2w);
    check(ref::mnear(c2wB, c2w, 1e-9, 1e-9) && ref::mnear(w2cB, w2c, 1e-9, 1e-9), "transform_inverse_forms_agree", "t=%s", ref::s3(P.t).c_str());
    check(ref::mnear(Eigen::Matrix4d(c2w * w2c), Eigen::Matrix4d::Identity(), 0, 1e-7), "transforms_are_inverse", "t=%s", ref::s3(P.t).c_str());
    // rigid: distances are kept
    const V3 p2(c.uni(-6000, 6000), c.uni(-6000, 6000), c.uni(-6000, 6000));
    const WorldCoordinate w2 = CameraCoordinate(p2.x(), p2.y(), p2.z()).to_world_coordinates(c2w);
    check(near((w - w2).norm(), (p - p2).norm(), 1e-9, 1e-7), "rigid_distance", "d=%.9g vs %.9g", (w - w2).norm(), (p - p2).norm());
    // plain transformation matrix
    const matrix44 T = utils::get_transformation_matrix(P.q, P.t);
    const matrix44 T2 = utils::get_transformation_matrix(matrix33(ref::rot(P.q)), P.t);
    ref::M4 rT = ref::M4::Identity();
    rT.block<3, 3>(0, 0) = ref::rot(P.q);
    rT.block<3, 1>(0, 3) = P.t;
    check(ref::mnear(T, rT, 1e-12, 1e-12) && ref::mnear(T2, rT, 1e-12, 1e-12), "rigid_matrix", "t=%s", ref::s3(P.t).c_str());
    check(c2w.rotation().isApprox(c2w.block<3, 3>(0, 0)) && c2w.translation().isApprox(vector3(c2w(0, 3), c2w(1, 3), c2w(2, 3))), "matrix_parts", "%s", "");
    mon::nontrivial("world_camera", mon::fmt("%d %d %d %d", (int)(p.x() / 500), (int)(P.t.x() / 500), (int)(P.q.x() * 10), (int)(P.q.y() * 10)));
    mon::sample("world_camera", ref::s3(p) + " -> " + ref::s3(w));
}

MON_TEST(screen_world, 3000, 60000)
{
    const ref::Pose P = ref::rand_pose(c);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(P.q, P.t);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(P.q, P.t);
    const V3 s(c.uni(0, C().w), c.uni(0, C().h), c.uni(40, 6000));
    const ScreenCoordinate sc(s.x(), s.y(), s.z());
    const V3 rw = ref::cam_to_world(P, ref_backproject(s));
    const WorldCoordinate w = sc.to_world_coordinates(c2w);
    check(ok3(w, rw, 20000), "screen_to_world", "%s -> %s expected %s", ref::s3(s).c_str(), ref::s3(w).c_str(), ref::s3(rw).c_str());
    ScreenCoordinate b;
    ScreenCoordinate2D b2;
    check(w.to_screen_coordinates(w2c, b) && near(b.x(), s.x(), 1e-7, 1e-5) && near(b.y(), s.y(), 1e-7, 1e-5) && near(b.z(), s.z(), 1e-8, 1e-6),
          "world_to_screen_roundtrip", "%s -> %s", ref::s3(s).c_str(), ref::s3(b).c_str());
    check(w.to_screen_coordinates(w2c, b2) && near(b2.x(), b.x(), 1e-12, 1e-9) && near(b2.y(), b.y(), 1e-12, 1e-9), "world_to_screen_2d_overload", "%s", ref::s3(s).c_str());
    // reprojection distances
    const double span = c.coin(0.3) ? 4000 : 50;
    const V3 off(c.uni(-span, span), c.uni(-span, span), c.uni(-200, 200) * (c.coin(0.2) ? 20 : 1));
    const V3 s2(s.x() + off.x(), s.y() + off.y(), std::max(40.0, s.z() + off.z()));
    const ScreenCoordinate2D o2(s2.x(), s2.y());
    const vector2 d = w.get_signed_distance_2D_px(o2, w2c);
    check(near(d.x(), off.x(), 1e-6, 1e-5) && near(d.y(), off.y(), 1e-6, 1e-5), "signed_pixel_distance", "got (%.9g,%.9g) expected (%.9g,%.9g)", d.x(), d.y(), off.x(), off.y());
    check(near(w.get_distance_px(o2, w2c), std::abs(off.x()) + std::abs(off.y()), 1e-6, 1e-5), "pixel_distance", "%.9g", w.get_distance_px(o2, w2c));
    if (s2.x() >= 0 && s2.y() >= 0)
    {
        const ScreenCoordinate o3(s2.x(), s2.y(), s2.z());
        const V3 rd = rw - ref::cam_to_world(P, ref_backproject(s2));
        check(ok3(w.get_signed_distance_mm(o3, c2w), rd, 20000), "signed_mm_distance", "%s", ref::s3(rd).c_str());
        check(near(w.get_distance_mm(o3, c2w), rd.lpNorm<1>(), 1e-8, 1e-4), "mm_distance", "%s", ref::s3(rd).c_str());
        const WorldCoordinate ow(w.x() - rd.x(), w.y() - rd.y(), w.z() - rd.z());
        check(ok3(w.get_signed_distance_mm(ow), rd, 20000) && near(w.get_distance_mm(ow), rd.lpNorm<1>(), 1e-9, 1e-6), "world_distance", "%s", ref::s3(rd).c_str());
    }
    mon::nontrivial("screen_world", mon::fmt("%d %d %d %d", (int)(s.x() / 10), (int)(s.y() / 10), (int)(P.t.x() / 500), (int)(P.q.x() * 10)));
}

MON_TEST(angles_and_spherical, 2000, 40000)
{
    const double y = c.uni(-M_PI, M_PI), p = c.uni(-1.5, 1.5), r = c.uni(-M_PI, M_PI);
    const quaternion q = utils::get_quaternion_from_euler_angles(EulerAngles(y, p, r));
    auto Rx = [](double a) { ref::M3 m; m << 1, 0, 0, 0, cos(a), -sin(a), 0, sin(a), cos(a); return m; };
    auto Ry = [](double a) { ref::M3 m; m << cos(a), 0, sin(a), 0, 1, 0, -sin(a), 0, cos(a); return m; };
    auto Rz = [](double a) { ref::M3 m; m << cos(a), -sin(a), 0, sin(a), cos(a), 0, 0, 0, 1; return m; };
    const ref::M3 R = Rx(r) * Ry(p) * Rz(y);
    check(ref::mnear(ref::rot(q), R, 0, 1e-12) && near(q.norm(), 1, 0, 1e-12), "euler_to_rotation", "ypr %.6g %.6g %.6g", y, p, r);
    check(ref::mnear(utils::get_rotation_matrix_from_euler_angles(EulerAngles(y, p, r)), R, 0, 1e-12), "euler_to_matrix", "ypr %.6g %.6g %.6g", y, p, r);
    const EulerAngles e = utils::get_euler_angles_from_quaternion(q);
    check(ref::mnear(Rx(e.roll) * Ry(e.pitch) * Rz(e.yaw), R, 0, 1e-7), "euler_roundtrip", "ypr %.9g %.9g %.9g -> %.9g %.9g %.9g", y, p, r, e.yaw, e.pitch, e.roll);
    // angular difference lies in ]-pi, pi] and is the difference modulo a turn
    const double a = c.uni(-20, 20), b = c.uni(-20, 20);
    const double d = utils::angle_distance(a, b);
    check(std::abs(d) <= M_PI + 1e-12 && near(std::sin(d), std::sin(a - b), 0, 1e-9) && near(std::cos(d), std::cos(a - b), 0, 1e-9), "angle_difference", "%.9g %.9g -> %.9g", a, b, d);
    // spherical <-> cartesian
    const V3 v(c.uni(-5000, 5000), c.uni(-5000, 5000), c.uni(-5000, 5000));
    matrix33 J1, J2;
    const Spherical s = Spherical::from(Cartesian(v), J1);
    const Spherical s0 = Spherical::from(Cartesian(v));
    check(near(s.p, v.norm(), 1e-12, 1e-9) && s.theta >= 0 && s.theta <= M_PI && near(s.p * std::cos(s.theta), v.z(), 1e-9, 1e-6) &&
              near(s.p * std::sin(s.theta) * std::cos(s.phi), v.x(), 1e-9, 1e-6) && near(s.p * std::sin(s.theta) * std::sin(s.phi), v.y(), 1e-9, 1e-6),
          "cartesian_to_spherical", "%s -> %.6g %.6g %.6g", ref::s3(v).c_str(), s.p, s.theta, s.phi);
    check(near(s0.p, s.p, 1e-12) && near(s0.theta, s.theta, 1e-12, 1e-12) && near(s0.phi, s.phi, 1e-12, 1e-12), "spherical_overloads", "%s", ref::s3(v).c_str());
    const Cartesian k = Cartesian::from(s, J2);
    const Cartesian k0 = Cartesian::from(s);
    check(ok3(k.vec(), v, 5000) && ok3(k0.vec(), v, 5000), "spherical_roundtrip", "%s", ref::s3(v).c_str());
    // the direction does not depend on the distance
    const double k2 = c.logu(1e-6, 10);
    const Spherical s2 = Spherical::from(Cartesian(V3(v * k2)));
    check(near(s2.p, s.p * k2, 1e-9) && near(s2.theta, s.theta, 0, 1e-7) && std::abs(std::remainder(s2.phi - s.phi, 2 * M_PI)) < 1e-7, "direction_at_any_distance", "%s times %.6g", ref::s3(v).c_str(), k2);
    check((Cartesian::from(s2).vec() - v * k2).norm() < 1e-9 * v.norm() * k2, "spherical_roundtrip", "%s times %.6g", ref::s3(v).c_str(), k2);
    // jacobians are those of the conversions (central differences), and each other's inverse
    if (v.head<2>().norm() > 50)
    {
        matrix33 N1, N2;
        const double h[3] = {1e-3 * s.p, 1e-5, 1e-5};
        for (int j = 0; j < 3; ++j)
        {
            V3 a1 = v, a2 = v;
            a1(j) += 0.01; a2(j) -= 0.01;
            V3 df = Spherical::from(Cartesian(a1)).vec() - Spherical::from(Cartesian(a2)).vec();
            df(2) = std::remainder(df(2), 2 * M_PI);
            N1.col(j) = df / 0.02;
            V3 b1(s.p, s.theta, s.phi), b2 = b1;
            b1(j) += h[j]; b2(j) -= h[j];
            N2.col(j) = (Cartesian::from(Spherical(b1(0), b1(1), b1(2))).vec() - Cartesian::from(Spherical(b2(0), b2(1), b2(2))).vec()) / (2 * h[j]);
        }
        bool g = true;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                g = g && near(J1(i, j), N1(i, j), 1e-3, 1e-5 * N1.row(i).cwiseAbs().maxCoeff()) && near(J2(i, j), N2(i, j), 1e-3, 1e-5 * N2.col(j).cwiseAbs().maxCoeff());
        check(g, "spherical_jacobians", "%s", ref::s3(v).c_str());
    }
    mon::nontrivial("angles", mon::fmt("%d %d %d", (int)(y * 8), (int)(p * 8), (int)(r * 8)));
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, mon::load_config); }
