// C05: points with unknown depth (ray + inverse depth) denote the right set of world points.
#include "config.hpp"
#include "geo.hpp"
#include "coordinates/inverse_depth_coordinates.hpp"
#include "tracking/inverse_depth_with_tracking.hpp"
#include "utils/camera_transformation.hpp"
using namespace rgbd_slam;
using mon::check;
using mon::near;
using ref::V3;
static mon::Cam C() { return mon::cfg().c1; }
static bool close(const V3& a, const V3& b, double tol) { return a.allFinite() && (a - b).norm() <= tol; }
static V3 dir(double t, double p) { return V3(std::sin(t) * std::cos(p), std::sin(t) * std::sin(p), std::cos(t)); }
static V3 proj(const ref::Pose& P, const V3& w) { const V3 k = ref::world_to_cam(P, w); return V3(C().fx * k.x() / k.z() + C().cx, C().fy * k.y() / k.z() + C().cy, k.z()); }

MON_TEST(construction, 2500, 50000)
{
    const ref::Pose P = ref::rand_pose(c);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(P.q, P.t);
    const V3 cam = ref::cam_to_world(P, V3::Zero());
    const double u = c.uni(0, C().w), v = c.uni(0, C().h);
    const InverseDepthWorldPoint p(ScreenCoordinate2D(u, v), c2w);
    check(close(p.get_first_observation(), cam, 1e-5), "ray_starts_at_camera", "%s vs %s", ref::s3(p.get_first_observation()).c_str(), ref::s3(cam).c_str());
    const V3 along = (ref::cam_to_world(P, V3((u - C().cx) / C().fx, (v - C().cy) / C().fy, 1)) - cam).normalized();
    check(close(p.get_bearing_vector(), along, 1e-7), "ray_goes_through_pixel", "pixel %.4g,%.4g: %s vs %s", u, v, ref::s3(p.get_bearing_vector()).c_str(), ref::s3(along).c_str());
    check(near(p.get_inverse_depth(), 0.0005, 1e-9), "unknown_depth_prior", "%.6g", p.get_inverse_depth());
    check(close(dir(p.get_theta(), p.get_phi()), along, 1e-7), "ray_angles", "theta %.6g phi %.6g", p.get_theta(), p.get_phi());
    check(close(p.to_world_coordinates(), cam + along * 2000.0, 1e-3), "prior_position", "%s", ref::s3(p.to_world_coordinates()).c_str());
    // with a measured depth
    const double z = c.uni(41, 6000);
    const V3 k((u - C().cx) / C().fx * z, (v - C().cy) / C().fy * z, z);
    const InverseDepthWorldPoint m(CameraCoordinate(k.x(), k.y(), k.z()), c2w);
    check(near(m.get_inverse_depth(), 1.0 / k.norm(), 1e-8) && close(m.get_first_observation(), cam, 1e-5), "measured_inverse_depth", "%.9g vs %.9g", m.get_inverse_depth(), 1.0 / k.norm());
    check(close(m.to_world_coordinates(), ref::cam_to_world(P, k), 1e-4), "measured_position", "%s", ref::s3(k).c_str());
    mon::nontrivial("construction", mon::fmt("%d %d %d %d", (int)(u / 10), (int)(v / 10), (int)(P.q.x() * 5), (int)(P.t.x() / 1000)));
    mon::sample("construction", mon::fmt("pixel (%.1f,%.1f) inverse depth %.4g", u, v, p.get_inverse_depth()));
}

MON_TEST(refusals, 1500, 20000)
{
    const WorldCoordinate o(c.uni(-5000, 5000), c.uni(-5000, 5000), c.uni(-5000, 5000));
    auto pick = [&](double lo, double hi, bool& in) {
        const int k = (int)c.irange(0, 4);
        in = k < 3;
        switch (k)
        {
            case 0: return lo;
            case 1: return hi;
            case 2: return c.uni(lo, hi);
            case 3: return lo - c.logu(1e-9, 10);
            default: return hi + c.logu(1e-6, 10);
        }
    };
    bool i1, i2, i3;
    double inv = pick(1e-6, 1.0, i1);
    if (!i1) { i1 = inv >= 0; if (inv > 1) i1 = true; }
    if (c.coin(0.3)) { inv = -c.logu(1e-9, 1); i1 = false; }
    const double th = pick(0, M_PI, i2), ph = pick(-M_PI, M_PI, i3);
    bool threw = false;
    try { InverseDepthWorldPoint p(o, inv, th, ph); check(p.get_inverse_depth() == inv && p.get_theta() == th && p.get_phi() == ph, "parameters_kept", "%.6g", inv); }
    catch (const std::exception&) { threw = true; }
    check(threw == !(i1 && i2 && i3), "impossible_ray_refused", "inverse depth %.9g theta %.9g phi %.9g threw=%d", inv, th, ph, threw);
    mon::nontrivial("refusals", mon::fmt("%d%d%d %d %d", i1, i2, i3, (int)(th * 4), (int)(ph * 4)));
}

MON_TEST(cartesian, 2500, 50000)
{
    const V3 o(c.uni(-5000, 5000), c.uni(-5000, 5000), c.uni(-5000, 5000));
    V3 d(c.gauss(), c.gauss(), c.gauss());
    d = d.normalized() * c.logu(50, 20000);
    const V3 w = o + d;
    Eigen::Matrix<double, 6, 3> J1;
    const WorldCoordinate ow(o), ww(w);
    const InverseDepthWorldPoint p = InverseDepthWorldPoint::from_cartesian(ww, ow, J1);
    const InverseDepthWorldPoint p0 = InverseDepthWorldPoint::from_cartesian(ww, ow);
    check(near(p.get_inverse_depth(), 1.0 / d.norm(), 1e-9) && close(dir(p.get_theta(), p.get_phi()), d.normalized(), 1e-9) && close(p.get_first_observation(), o, 1e-9), "from_cartesian", "%s", ref::s3(d).c_str());
    check(near(p0.get_inverse_depth(), p.get_inverse_depth(), 1e-12) && near(p0.get_theta(), p.get_theta(), 1e-12, 1e-12) && near(p0.get_phi(), p.get_phi(), 1e-12, 1e-12), "from_cartesian_overloads", "%s", ref::s3(d).c_str());
    Eigen::Matrix<double, 3, 6> J2;
    const WorldCoordinate back = p.to_world_coordinates(J2);
    check(close(back, w, 1e-9 * 30000) && close(p.to_world_coordinates(), w, 1e-9 * 30000), "cartesian_roundtrip", "%s -> %s", ref::s3(w).c_str(), ref::s3(back).c_str());
    // jacobians by central differences on independent formulas
    if (d.head<2>().norm() > 0.05 * d.norm())
    {
        auto fwd = [&](const Eigen::Matrix<double, 6, 1>& s) { return V3(s.head<3>() + dir(s(4), s(5)) / s(3)); };
        Eigen::Matrix<double, 6, 1> s;
        s << o, p.get_inverse_depth(), p.get_theta(), p.get_phi();
        bool ok = true;
        for (int j = 0; j < 6; ++j)
        {
            Eigen::Matrix<double, 6, 1> a = s, b = s;
            const double h = j < 3 ? 1.0 : (j == 3 ? 1e-4 * s(3) : 1e-5);
            a(j) += h; b(j) -= h;
            const V3 num = (fwd(a) - fwd(b)) / (2 * h);
            ok = ok && (J2.col(j) - num).norm() <= 1e-4 * num.norm() + 1e-6;
        }
        check(ok, "to_cartesian_jacobian", "direction %s", ref::s3(d).c_str());
        auto inv = [&](const V3& x) { const V3 q = x - o; return V3(1.0 / q.norm(), std::acos(q.z() / q.norm()), std::atan2(q.y(), q.x())); };
        ok = J1.block<3, 3>(0, 0).isZero();
        for (int j = 0; j < 3; ++j)
        {
            V3 a = w, b = w;
            const double h = 1e-4 * d.norm();
            a(j) += h; b(j) -= h;
            V3 df = inv(a) - inv(b);
            df(2) = std::remainder(df(2), 2 * M_PI);
            df /= 2 * h;
            for (int i = 0; i < 3; ++i) ok = ok && std::abs(J1(3 + i, j) - df(i)) <= 1e-4 * std::abs(df(i)) + 1e-5 * (i == 0 ? 1 / d.squaredNorm() : 1 / d.norm());
        }
        check(ok, "from_cartesian_jacobian", "direction %s", ref::s3(d).c_str());
        // covariance of the cartesian point
        const double sc[6] = {3, 3, 3, 0.05 * s(3), 0.005, 0.005};
        Eigen::MatrixXd cov = ref::rand_cov(c, 6, 0.3, 3);
        for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) cov(i, j) *= sc[i] * sc[j];
        const matrix66 cv6 = cov;
        try
        {
            const WorldCoordinateCovariance wc = tracking::PointInverseDepth::compute_cartesian_covariance(p, cv6);
            const WorldCoordinateCovariance wc2 = tracking::PointInverseDepth::compute_cartesian_covariance(cv6, J2);
            const Eigen::Matrix3d r = J2 * cov * J2.transpose();
            check(ref::mnear(wc, r, 1e-6, 1e-9) && ref::mnear(wc2, r, 1e-6, 1e-9) && ref::psd(wc), "cartesian_covariance", "direction %s", ref::s3(d).c_str());
            const matrix33 fp = ref::rand_cov(c, 3, 0.5, 20);
            WorldCoordinateCovariance pc;
            pc << matrix33(ref::rand_cov(c, 3, 1, 100));
            const auto ic = tracking::PointInverseDepth::compute_inverse_depth_covariance(pc, fp, J1);
            Eigen::MatrixXd ri = J1 * Eigen::Matrix3d(pc) * J1.transpose();
            ri.block<3, 3>(0, 0) = fp;
            check(ref::mnear(ic, ri, 1e-6, 1e-15) && ref::psd(ic), "inverse_depth_covariance", "direction %s", ref::s3(d).c_str());
        }
        catch (const std::exception& e) { check(false, "covariance_conversion_refused", "direction %s: %s", ref::s3(d).c_str(), e.what()); }
        bool t1 = false, t2 = false;
        matrix66 bad = cv6;
        bad(3, 3) = -1;
        try { (void)tracking::PointInverseDepth::compute_cartesian_covariance(p, bad); } catch (const std::exception&) { t1 = true; }
        try { WorldCoordinateCovariance b; b << matrix33(-matrix33::Identity()); (void)tracking::PointInverseDepth::compute_inverse_depth_covariance(b, matrix33(matrix33::Identity()), J1); } catch (const std::exception&) { t2 = true; }
        check(t1 && t2, "invalid_covariance_conversion_refused", "%d %d", t1, t2);
    }
    mon::nontrivial("cartesian", mon::fmt("%d %d %d", (int)(p.get_theta() * 20), (int)(p.get_phi() * 20), (int)std::log2(d.norm())));
}

MON_TEST(depth_interval, 2500, 50000)
{
    const V3 o(c.uni(-3000, 3000), c.uni(-3000, 3000), c.uni(-3000, 3000));
    const double th = c.uni(0, M_PI), ph = c.uni(-M_PI, M_PI);
    const double inv = 1.0 / c.logu(100, 20000);
    const double sd = c.coin(0.2) ? 0.0 : inv * c.logu(1e-4, 3);
    const InverseDepthWorldPoint p(WorldCoordinate(o), inv, th, ph);
    const V3 b = dir(th, ph);
    const V3 cl = p.get_closest_estimation(sd), fu = p.get_furthest_estimation(sd);
    const double zc = (cl - o).dot(b), zf = (fu - o).dot(b);
    check((cl - o - b * zc).norm() < 1e-6 * (1 + std::abs(zc)) && (fu - o - b * zf).norm() < 1e-6 * (1 + std::abs(zf)), "estimates_on_the_ray", "inv %.6g sd %.6g", inv, sd);
    check(zc > 0 && zc <= 1.0 / inv * (1 + 1e-9) && zf >= 1.0 / inv * (1 - 1e-9) && zc <= zf * (1 + 1e-9), "estimates_bracket_the_point", "inv %.6g sd %.6g: closest %.6g point %.6g furthest %.6g", inv, sd, zc, 1 / inv, zf);
    check(near(zc, 1.0 / (inv + 3 * sd), 1e-6), "closest_estimate", "inv %.6g sd %.6g: %.9g", inv, sd, zc);
    if (inv - 3 * sd > 1e-6) check(near(zf, 1.0 / (inv - 3 * sd), 1e-5), "furthest_estimate", "inv %.6g sd %.6g: %.9g", inv, sd, zf);
    else if (inv - 3 * sd <= 0) check(zf > 1e5, "furthest_estimate_unbounded", "inv %.6g sd %.6g: %.9g", inv, sd, zf);
    mon::nontrivial("interval", mon::fmt("%d %d %d", (int)(th * 10), (int)(std::log(inv) * 4), sd == 0 ? -99 : (int)(std::log(sd / inv) * 3)));
}

MON_TEST(screen_segment, 2500, 50000)
{
    // observe a ray from a camera, then look at it from another one which sees both ends of the interval
    const ref::Pose P = ref::rand_pose(c, 1000);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(P.q, P.t);
    const double u = c.uni(50, C().w - 50), v = c.uni(50, C().h - 50);
    const InverseDepthWorldPoint p0(ScreenCoordinate2D(u, v), c2w);
    const double inv = 1.0 / c.uni(400, 5000), sd = inv * c.uni(0.005, 0.25);
    const InverseDepthWorldPoint p(p0.get_first_observation(), inv, p0.get_theta(), p0.get_phi());
    ref::Pose P2 = P;
    V3 ax(c.gauss(), c.gauss(), c.gauss());
    ax.normalize();
    const double a = c.uni(0, 0.3) / 2;
    P2.q = P.q * ref::Q(std::cos(a), ax.x() * std::sin(a), ax.y() * std::sin(a), ax.z() * std::sin(a));
    P2.t += V3(c.uni(-200, 200), c.uni(-200, 200), c.uni(-200, 200));
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(P2.q, P2.t);
    const V3 b = dir(p.get_theta(), p.get_phi()), o = p.get_first_observation();
    const V3 wf = o + b / (inv - 3 * sd), wn = o + b / (inv + 3 * sd), wm = o + b / inv;
    const V3 sf = proj(P2, wf), sn = proj(P2, wn), sm = proj(P2, wm);
    if (sf.z() < 20 || sn.z() < 20 || sm.z() < 20) return;
    utils::Segment<2> s2;
    utils::Segment<3> s3;
    const bool ok = p.to_screen_coordinates(w2c, sd * sd, s2), ok3 = p.to_screen_coordinates(w2c, sd * sd, s3);
    check(ok && ok3, "segment_projects", "pixel %.4g %.4g", u, v);
    auto pt = [](const Eigen::Vector2d& x, const V3& y) { return std::abs(x.x() - y.x()) < 1e-3 * (1 + 1e-3 * y.norm()) && std::abs(x.y() - y.y()) < 1e-3 * (1 + 1e-3 * y.norm()); };
    const bool m = (pt(s2.get_start_point(), sf) && pt(s2.get_end_point(), sn)) || (pt(s2.get_start_point(), sn) && pt(s2.get_end_point(), sf));
    check(m, "segment_spans_the_interval", "got (%.5g,%.5g)-(%.5g,%.5g) expected %s %s", s2.get_start_point().x(), s2.get_start_point().y(), s2.get_end_point().x(), s2.get_end_point().y(), ref::s3(sf).c_str(), ref::s3(sn).c_str());
    check((Eigen::Vector2d(s3.get_start_point().head<2>()) - s2.get_start_point()).norm() < 1e-6 && (Eigen::Vector2d(s3.get_end_point().head<2>()) - s2.get_end_point()).norm() < 1e-6 &&
              ((near(s3.get_start_point().z(), sf.z(), 1e-5, 1e-3) && near(s3.get_end_point().z(), sn.z(), 1e-5, 1e-3)) || (near(s3.get_start_point().z(), sn.z(), 1e-5, 1e-3) && near(s3.get_end_point().z(), sf.z(), 1e-5, 1e-3))),
          "segment_with_depth", "z %.6g %.6g", s3.get_start_point().z(), s3.get_end_point().z());
    const double len = (sf - sn).head<2>().norm();
    if (len > 5 && len < 1e4)
    {
        // a correct observation lies on the epipolar segment; a shifted one is at the shift's orthogonal part
        const Eigen::Vector2d e = (sf - sn).head<2>() / len, n(-e.y(), e.x());
        const double off = c.uni(-30, 30), slide = c.uni(-10, 10);
        const Eigen::Vector2d obs = Eigen::Vector2d(sm.head<2>()) + n * off + e * slide;
        const vector2 d = p.compute_signed_screen_distance(ScreenCoordinate2D(obs.x(), obs.y()), sd * sd, w2c);
        check((d - n * off).norm() < 1e-3 * (1 + 1e-3 * len), "screen_distance_to_ray", "got (%.6g,%.6g) expected (%.6g,%.6g)", d.x(), d.y(), n.x() * off, n.y() * off);
        mon::nontrivial("segment", mon::fmt("%d %d %d", (int)(u / 20), (int)(v / 20), (int)(len / 5)));
    }
    // distance between two rays that meet
    const V3 look = sm;
    if (look.x() > 0 && look.y() > 0 && look.x() < C().w && look.y() < C().h)
    {
        const double d0 = p.compute_signed_distance(ScreenCoordinate2D(look.x(), look.y()), w2c).norm();
        const double base = (ref::cam_to_world(P2, V3::Zero()) - o).norm();
        if (base > 20) check(d0 < 1e-3, "rays_to_same_point_meet", "distance %.6g baseline %.6g", d0, base);
    }
    // line to line distance is symmetric in norm and equals the reference
    const ref::Pose P3 = ref::rand_pose(c, 1000);
    const InverseDepthWorldPoint q(ScreenCoordinate2D(c.uni(0, C().w), c.uni(0, C().h)), utils::compute_camera_to_world_transform(P3.q, P3.t));
    const V3 b2 = q.get_bearing_vector(), o2 = q.get_first_observation();
    const V3 cr = b.cross(b2);
    if (cr.norm() > 0.05)
    {
        const double r = std::abs((o - o2).dot(cr)) / cr.norm();
        check(near(p.compute_signed_distance(q).norm(), r, 1e-6, 1e-3) && near(q.compute_signed_distance(p).norm(), r, 1e-6, 1e-3), "ray_distance", "%.6g vs %.6g", p.compute_signed_distance(q).norm(), r);
    }
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, mon::load_config); }
