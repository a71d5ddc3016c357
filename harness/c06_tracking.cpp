// C06: tracked features fuse their observations by their uncertainty; a refused observation changes nothing.
#include "config.hpp"
#include "geo.hpp"
#include "poly.hpp"
#include "coordinates/plane_coordinates.hpp"
#include "features/primitives/shape_primitives.hpp"
#include "tracking/inverse_depth_with_tracking.hpp"
#include "tracking/plane_with_tracking.hpp"
#include "tracking/point_with_tracking.hpp"
#include "utils/camera_transformation.hpp"
#include "utils/covariances.hpp"
#include <memory>
using namespace rgbd_slam;
using mon::check;
using mon::near;
using ref::V3;
using M3 = Eigen::Matrix3d;
static mon::Cam C() { return mon::cfg().c1; }
static cv::Mat descr(mon::Ctx& c)
{
    cv::Mat d(1, 32, CV_8U);
    for (int i = 0; i < 32; ++i) d.at<uchar>(0, i) = (uchar)c.irange(0, 255);
    return d;
}
static bool same(const cv::Mat& a, const cv::Mat& b) { return a.size() == b.size() && (a.empty() || std::memcmp(a.data, b.data, a.total() * a.elemSize()) == 0); }
// information form: independent of the gain form used by the filter
template<class V, class M> static void fuse(V& x, M& P, const V& z, const M& R, double q)
{
    const M A = (P + q * M::Identity()).inverse(), B = R.inverse();
    const M N = (A + B).inverse();
    x = N * (A * x + B * z);
    P = 0.5 * (N + N.transpose());
}
template<class M> static M invalid(mon::Ctx& c, M m)
{
    const int i = (int)c.irange(0, m.rows() - 1);
    switch (c.irange(0, 3))
    {
        case 0: m(i, i) = std::nan(""); break;
        case 1: m(i, i) = INFINITY; break;
        case 2: m(i, i) = -2 * m.norm(); break;
        default: m(0, 1) = m(1, 0) + 2 * m.norm(); break;
    }
    return m;
}

MON_TEST(points, 1500, 30000)
{
    const V3 truth(c.uni(-5000, 5000), c.uni(-5000, 5000), c.uni(-5000, 5000));
    V3 x = truth + V3(c.gauss(), c.gauss(), c.gauss()) * 20;
    const double scale = c.logu(1, 400);
    M3 P = ref::rand_cov(c, 3, scale, 20 * scale);
    const cv::Mat d = descr(c);
    // refusals
    {
        int threw = 0;
        WorldCoordinateCovariance good; good << P;
        WorldCoordinateCovariance bad; bad << invalid(c, P);
        try { tracking::Point p(WorldCoordinate(x), good, cv::Mat()); } catch (const std::exception&) { ++threw; }
        try { tracking::Point p(WorldCoordinate(x), bad, d); } catch (const std::exception&) { ++threw; }
        V3 nn = x; nn((int)c.irange(0, 2)) = std::nan("");
        try { tracking::Point p(WorldCoordinate(nn), good, d); } catch (const std::exception&) { ++threw; }
        check(threw == 3, "invalid_point_refused", "%d of 3 refused", threw);
    }
    WorldCoordinateCovariance wc; wc << P;
    tracking::Point p{WorldCoordinate(x), wc, d};
    const int steps = (int)c.irange(1, 25);
    for (int k = 0; k < steps; ++k)
    {
        const M3 R = ref::rand_cov(c, 3, 1, 400);
        const V3 z = truth + R.llt().matrixL() * V3(c.gauss(), c.gauss(), c.gauss());
        if (c.coin(0.15))
        {
            const V3 before = p._coordinates; const M3 bc = p._covariance;
            const double r = p.track(WorldCoordinate(z), invalid(c, R));
            check(r < 0 && V3(p._coordinates) == before && M3(p._covariance) == bc, "refused_point_observation_changes_nothing", "returned %.4g", r);
        }
        const V3 before = p._coordinates;
        const M3 pb = P;
        const double r = p.track(WorldCoordinate(z), R);
        fuse(x, P, z, R, 0.001);
        check((V3(p._coordinates) - x).norm() < 1e-4 * (1 + (x - before).norm()), "point_fused_by_uncertainty", "step %d: %s vs %s", k, ref::s3(p._coordinates).c_str(), ref::s3(x).c_str());
        check(ref::mnear(M3(p._covariance), P, 5e-3, 1e-4), "point_covariance_fused", "step %d: trace %.6g vs %.6g", k, p._covariance.trace(), P.trace());
        check(near(r, (V3(p._coordinates) - before).norm(), 1e-9, 1e-9), "point_displacement_returned", "%.9g vs %.9g", r, (V3(p._coordinates) - before).norm());
        check(ref::psd(M3(p._covariance)), "point_covariance_valid", "step %d", k);
        check(ref::psd(pb + 0.002 * M3::Identity() - M3(p._covariance), 1e-6) && ref::psd(R - M3(p._covariance) + 1e-6 * M3::Identity(), 1e-6), "point_never_less_certain", "step %d", k);
        check(same(p._descriptor, d), "point_descriptor_kept", "step %d", k);
        x = p._coordinates; P = M3(p._covariance);
    }
    mon::nontrivial("points", mon::fmt("%d %d %d", steps, (int)std::log2(scale), (int)(truth.x() / 200)));
    mon::sample("points", mon::fmt("%d observations, final deviation %.3g mm", steps, (V3(p._coordinates) - truth).norm()));
}

// camera looking at a point from a distance
static ref::Pose look(mon::Ctx& c, const V3& w, double lo, double hi)
{
    ref::Pose P;
    for (int k = 0; k < 50; ++k)
    {
        P.q = ref::rand_quat(c);
        const double u = c.uni(0.15, 0.85) * C().w, v = c.uni(0.15, 0.85) * C().h, z = c.uni(lo, hi);
        const V3 pc((u - C().cx) / C().fx * z, (v - C().cy) / C().fy * z, z);
        P.t = ref::world_axes_to_cam(w) - ref::rot(P.q) * pc;
    }
    return P;
}
// a depth the sensor cannot have measured: none, behind the camera, or outside of its 40 to 6000 mm range
static double outOfRange(mon::Ctx& c)
{
    switch ((int)c.irange(0, 3))
    {
        case 0: return 0.0;
        case 1: return -c.logu(1, 5000);
        case 2: return c.logu(0.01, 39.0);
        default: return 6000.0 + c.logu(1.0, 50000.0);
    }
}
static V3 pix(const ref::Pose& P, const V3& w) { const V3 k = ref::world_to_cam(P, w); return V3(C().fx * k.x() / k.z() + C().cx, C().fy * k.y() / k.z() + C().cy, k.z()); }
static std::array<double, 42> state(const tracking::PointInverseDepth& p)
{
    std::array<double, 42> s{};
    const V3 o = p._coordinates.get_first_observation();
    s[0] = o.x(); s[1] = o.y(); s[2] = o.z(); s[3] = p._coordinates.get_inverse_depth(); s[4] = p._coordinates.get_theta(); s[5] = p._coordinates.get_phi();
    for (int i = 0; i < 36; ++i) s[6 + i] = p._covariance(i / 6, i % 6);
    return s;
}

MON_TEST(inverse_depth, 800, 16000)
{
    const V3 truth(c.uni(-3000, 3000), c.uni(-3000, 3000), c.uni(-3000, 3000));
    const ref::Pose P0 = look(c, truth, 1200, 4000);
    const M3 S0 = ref::rand_cov(c, 3, 0.5, c.coin(0.3) ? 200 : 20);
    const cv::Mat d0 = descr(c);
    const V3 s0 = pix(P0, truth);
    tracking::PointInverseDepth p(ScreenCoordinate2D(s0.x(), s0.y()), utils::compute_camera_to_world_transform(P0.q, P0.t), S0, d0);
    const V3 first = p._coordinates.get_first_observation();
    check((first - ref::cam_to_world(P0, V3::Zero())).norm() < 1e-5, "first_observation_is_camera", "%s", ref::s3(first).c_str());
    check(M3(p.get_covariance_of_observed_pose()).isApprox(S0), "first_pose_covariance", "%.4g", S0.trace());
    cv::Mat d = d0;
    const int steps = (int)c.irange(1, 12);
    int failed = 0;
    double prior = (V3(p._coordinates.to_world_coordinates()) - truth).norm();
    bool depthSeen = false;
    for (int k = 0; k < steps; ++k)
    {
        const ref::Pose Pk = look(c, truth, 800, 4000);
        const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(Pk.q, Pk.t);
        const V3 s = pix(Pk, truth);
        const M3 S = ref::rand_cov(c, 3, 0.5, 20);
        const bool empty = c.coin(0.3);
        const cv::Mat nd = empty ? cv::Mat() : descr(c);
        if (c.coin(0.3))
        { // refused observations
            const auto before = state(p);
            const cv::Mat bd = p._descriptor.clone();
            const int kind = (int)c.irange(0, 3);
            bool r = true;
            switch (kind)
            {
                case 0: r = p.track(ScreenCoordinate2D(s.x(), s.y()), c2w, invalid(c, S), nd); break;
                case 1: r = p.track(ScreenCoordinate(s.x(), s.y(), outOfRange(c)), c2w, S, nd); break;
                case 2: r = p.track(ScreenCoordinate(s.x(), s.y(), std::nan("")), c2w, S, nd); break;
                default: r = p.track(ScreenCoordinate(s.x(), s.y(), s.z()), c2w, M3(M3::Identity() * std::nan("")), nd); break;
            }
            check(!r, "invalid_ray_observation_refused", "kind %d", kind);
            check(state(p) == before && same(p._descriptor, bd), "refused_ray_observation_changes_nothing", "kind %d", kind);
        }
        const auto before = state(p);
        const bool withDepth = c.coin(0.5);
        V3 x = p._coordinates.to_world_coordinates(), z;
        M3 A = tracking::PointInverseDepth::compute_cartesian_covariance(p._coordinates, p._covariance), R;
        bool ok;
        if (withDepth)
        {
            const double zz = s.z() + std::clamp(c.gauss(), -2.0, 2.0) * 0.3 * utils::get_depth_quantization(s.z());
            const ScreenCoordinate o(s.x(), s.y(), zz);
            const V3 pc((s.x() - C().cx) / C().fx * zz, (s.y() - C().cy) / C().fy * zz, zz);
            z = ref::cam_to_world(Pk, pc);
            R = utils::get_world_point_covariance(o, c2w, S);
            ok = p.track(o, c2w, S, nd);
        }
        else
        {
            const tracking::PointInverseDepth o(ScreenCoordinate2D(s.x(), s.y()), c2w, S);
            const V3 cam = ref::cam_to_world(Pk, V3::Zero());
            z = cam + (truth - cam).normalized() * 2000.0;
            R = tracking::PointInverseDepth::compute_cartesian_covariance(o._coordinates, o._covariance);
            ok = p.track(ScreenCoordinate2D(s.x(), s.y()), c2w, S, nd);
        }
        if (!ok)
        {
            ++failed;
            check(state(p) == before, "refused_ray_observation_changes_nothing", "step %d (depth %d) failed and changed the point", k, withDepth);
            continue;
        }
        depthSeen |= withDepth;
        if (!empty) d = nd;
        check(same(p._descriptor, d), "ray_descriptor_latest", "step %d empty %d", k, empty);
        check((V3(p._coordinates.get_first_observation()) - first).norm() < 1e-9 && M3(p.get_covariance_of_observed_pose()).isApprox(S0, 1e-9), "first_observation_kept", "step %d", k);
        const V3 x0 = x;
        fuse(x, A, z, R, 0.0001);
        const V3 got = p._coordinates.to_world_coordinates();
        // skip ill conditioned fusions: the two forms lose digits there
        Eigen::SelfAdjointEigenSolver<M3> es(A);
        if (es.eigenvalues()(2) < 1e8 * es.eigenvalues()(0))
            check((got - x).norm() < 1e-3 * (1 + (x - x0).norm()), "ray_fused_by_uncertainty", "step %d depth %d: %s vs %s", k, withDepth, ref::s3(got).c_str(), ref::s3(x).c_str());
        check(ref::psd(p._covariance) && utils::is_covariance_valid(static_cast<const matrix66&>(p._covariance)), "ray_covariance_valid", "step %d", k);
        check(p._coordinates.get_inverse_depth() > 0, "ray_inverse_depth_positive", "%.6g", p._coordinates.get_inverse_depth());
    }
    check(failed < steps || steps < 2, "ray_observations_accepted", "%d of %d consistent observations refused", failed, steps);
    const double post = (V3(p._coordinates.to_world_coordinates()) - truth).norm();
    if (depthSeen && failed == 0) check(post < std::max(250.0, prior), "ray_depth_learned", "prior error %.4g mm, after %d observations %.4g mm", prior, steps, post);
    const tracking::PointInverseDepth copy(p);
    check(state(copy) == state(p) && same(copy._descriptor, p._descriptor) && copy.is_moving() == p.is_moving(), "ray_copy_equal", "moving %d vs %d", copy.is_moving(), p.is_moving());
    mon::observe("ray.failed", failed);
    mon::nontrivial("inverse_depth", mon::fmt("%d %d %d", steps, failed, (int)(truth.x() / 50)));
    mon::sample("inverse_depth", mon::fmt("%d observations, error %.4g -> %.4g mm", steps, prior, post));
}

MON_TEST(hostile_rays, 800, 16000)
{ // observations that contradict the estimate, rays straight up or down, points next to the first camera
    const int kind = (int)c.irange(0, 2);
    ref::Pose P0 = ref::rand_pose(c);
    double u = c.uni(0, C().w), v = c.uni(0, C().h);
    if (kind == 0)
    { // optical axis along the vertical
        const double a = c.coin() ? M_PI / 4 : -M_PI / 4;
        P0.q = ref::Q(std::cos(a), std::sin(a), 0, 0);
        u = C().cx; v = C().cy;
        if (c.coin(0.3)) { u += c.logu(1e-9, 1e-2); }
    }
    const CameraToWorldMatrix c2w0 = utils::compute_camera_to_world_transform(P0.q, P0.t);
    tracking::PointInverseDepth p(ScreenCoordinate2D(u, v), c2w0, ref::rand_cov(c, 3, 1e-3, 100), descr(c));
    const int steps = (int)c.irange(1, 8);
    int failed = 0;
    for (int k = 0; k < steps; ++k)
    {
        ref::Pose Pk = c.coin(0.5) ? P0 : ref::rand_pose(c);
        double uu = u, vv = v, z = c.coin(0.3) ? c.logu(41, 100) : c.logu(100, 9000);
        if (kind != 0 && c.coin(0.5)) { uu = c.uni(0, C().w); vv = c.uni(0, C().h); }
        if (kind == 2)
        { // in front of another camera, at the first one
            const V3 pc((uu - C().cx) / C().fx * z, (vv - C().cy) / C().fy * z, z);
            Pk.t = P0.t - ref::rot(Pk.q) * pc;
        }
        const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(Pk.q, Pk.t);
        const M3 S = ref::rand_cov(c, 3, 1e-4, 1e4);
        const auto before = state(p);
        const cv::Mat bd = p._descriptor.clone();
        const cv::Mat nd = descr(c);
        const bool ok = c.coin(0.7) ? p.track(ScreenCoordinate(uu, vv, z), c2w, S, nd) : p.track(ScreenCoordinate2D(uu, vv), c2w, S, nd);
        if (!ok)
        {
            ++failed;
            check(state(p) == before && same(p._descriptor, bd), "refused_ray_observation_changes_nothing", "kind %d step %d", kind, k);
        }
        else
        {
            const auto s = state(p);
            bool fin = true;
            for (double w: s) fin &= std::isfinite(w);
            check(fin && utils::is_covariance_valid(static_cast<const matrix66&>(p._covariance)), "ray_state_valid", "kind %d step %d", kind, k);
            check(same(p._descriptor, nd), "ray_descriptor_latest", "kind %d step %d", kind, k);
        }
    }
    mon::observe("hostile.failed", failed);
    mon::observe("hostile.tracked", steps - failed);
    mon::nontrivial("hostile", mon::fmt("%d %d %d %d", kind, steps, failed, (int)u));
}

MON_TEST(planes, 250, 5000)
{
    using features::primitives::Plane_Segment;
    static const bool init = [] { Plane_Segment::set_static_members(20, 400); return true; }();
    (void)init;
    // any planar patch: only its boundary is used by the tracking
    matrixf cloud = matrixf::Zero(400, 3);
    for (int i = 0; i < 400; ++i) { cloud(i, 0) = (float)(i % 20); cloud(i, 1) = (float)(i / 20); cloud(i, 2) = 1000.f + 0.01f * (i % 7); }
    Plane_Segment seg;
    seg.init_plane_segment(cloud, 0);
    // true plane in the world
    V3 n = V3(c.gauss(), c.gauss(), c.gauss()).normalized();
    const double d = c.uni(300, 5000);
    const V3 ctr = -n * d;
    const V3 ax = n.unitOrthogonal(), ay = n.cross(ax);
    const V3 off = ax * c.uni(-1500, 1500) + ay * c.uni(-1500, 1500);
    const double side = c.uni(200, 1500);
    tracking::Plane pl;
    const double sn = c.logu(1e-4, 1e-2), sd = c.uni(1, 20);
    auto rcov = [&] {
        Eigen::MatrixXd m = ref::rand_cov(c, 4, 0.3, 3);
        const double s[4] = {sn, sn, sn, sd};
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) m(i, j) *= s[i] * s[j];
        return matrix44(m);
    };
    auto noisy = [&](const matrix44& R) {
        const vector4 e = R.llt().matrixL() * vector4(c.gauss(), c.gauss(), c.gauss(), c.gauss());
        return PlaneWorldCoordinates(vector4(n.x() + e(0), n.y() + e(1), n.z() + e(2), d + e(3)));
    };
    const matrix44 R0 = rcov();
    pl._parametrization = noisy(R0);
    pl._covariance = R0;
    auto ring = [&](double cx, double cy, double r, int kind) {
        std::vector<V3> out;
        const int k = kind ? 4 : (int)c.irange(5, 12);
        for (int i = 0; i < k; ++i)
        {
            const double a = 2 * M_PI * i / k;
            out.push_back(ctr + off + ax * (cx + r * std::cos(a)) + ay * (cy + r * std::sin(a)));
        }
        return out;
    };
    auto seen = ring(0, 0, side, 1);
    {
        std::vector<vector3> pts(seen.begin(), seen.end());
        pl._boundaryPolygon = WorldPolygon(utils::Polygon(pts, pl._parametrization.get_normal(), pl._parametrization.get_center()));
    }
    vector4 x = pl._parametrization.get_parametrization();
    matrix44 P = pl._covariance;
    const int steps = (int)c.irange(1, 8);
    std::vector<refpoly::V2> covered; // centers known to be seen
    covered.emplace_back(0, 0);
    double px = 0, py = 0;
    for (int k = 0; k < steps; ++k)
    {
        const matrix44 R = rcov();
        const PlaneWorldCoordinates z = noisy(R);
        // the camera sees a disc that overlaps the boundary known so far
        const double a = c.uni(0, 2 * M_PI), r = side * c.uni(0.4, 0.9);
        const double nx = px + std::cos(a) * side * 0.6, ny = py + std::sin(a) * side * 0.6;
        const auto world = ring(nx, ny, r, 0);
        const ref::Pose cam = ref::rand_pose(c);
        const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(cam.q, cam.t);
        std::vector<vector3> local;
        for (const V3& w: world) local.push_back(ref::world_to_cam(cam, w));
        const V3 nc = ref::rot(cam.q).transpose() * ref::world_axes_to_cam(n);
        V3 mean = V3::Zero();
        for (auto& q: local) mean += q;
        mean /= (double)local.size();
        const features::primitives::Plane det(seg, CameraPolygon(utils::Polygon(local, nc.normalized(), mean)));
        if (c.coin(0.2))
        {
            const vector4 bx = pl.get_parametrization().get_parametrization();
            const matrix44 bP = pl.get_covariance();
            const double ba = pl.get_boundary_polygon().get_area();
            try { (void)pl.track(c2w, det, z, invalid(c, R)); } catch (const std::exception&) {}
            check(pl.get_parametrization().get_parametrization() == bx && pl.get_covariance() == bP && pl.get_boundary_polygon().get_area() == ba, "refused_plane_observation_changes_nothing", "step %d", k);
        }
        const double areaBefore = pl.get_boundary_polygon().get_area();
        const double score = pl.track(c2w, det, z, R);
        vector4 rx = x;
        fuse(rx, P, vector4(z.get_parametrization()), R, 1e-6);
        const double nn = rx.head<3>().norm();
        const vector4 got = pl.get_parametrization().get_parametrization();
        check((got.head<3>() - rx.head<3>() / nn).norm() < 1e-6 + 1e-3 * (rx - x).head<3>().norm(), "plane_normal_fused", "step %d: %s vs %s", k, ref::s3(got.head<3>()).c_str(), ref::s3(rx.head<3>() / nn).c_str());
        check(near(got(3), rx(3), 2e-3 * sn * sn + 1e-7, 1e-3 * std::abs(rx(3) - x(3)) + 1e-4 + d * std::abs(1 / nn - 1) * 1.01), "plane_distance_fused", "step %d: %.9g vs %.9g", k, got(3), rx(3));
        check(near(got.head<3>().norm(), 1.0, 0, 1e-9), "plane_normal_unit", "%.12g", got.head<3>().norm());
        check(ref::mnear(pl.get_covariance(), P, 1e-2, 1e-7) && ref::psd(pl.get_covariance()), "plane_covariance_fused", "step %d trace %.6g vs %.6g", k, pl.get_covariance().trace(), P.trace());
        check(near(score, (got - x).norm(), 1e-6, 1e-9), "plane_displacement_returned", "%.9g vs %.9g", score, (got - x).norm());
        x = got; P = pl.get_covariance();
        // boundary: on the new plane, encloses old and new
        const WorldPolygon b = pl.get_boundary_polygon();
        std::string why;
        check(b.is_valid(why), "plane_boundary_valid", "step %d: %s", k, why.c_str());
        double worst = 0;
        for (const auto& q: b.get_unprojected_boundary()) worst = std::max(worst, std::abs(got.head<3>().dot(q) + got(3)) / (1 + q.norm()));
        check(worst < 1e-6, "plane_boundary_on_plane", "step %d: %.4g", k, worst);
        covered.emplace_back(nx, ny);
        px = nx; py = ny;
        int out = 0;
        for (const auto& q: covered)
        {
            const V3 w = ctr + off + ax * q.x() + ay * q.y() - b.get_center();
            out += !b.contains(vector2(b.get_x_axis().dot(w), b.get_y_axis().dot(w)));
        }
        check(out == 0, "plane_boundary_covers_seen_surface", "step %d: %d of %zu seen places outside", k, out, covered.size());
        check(b.get_area() > 0.97 * areaBefore, "plane_boundary_keeps_surface", "step %d: %.6g -> %.6g", k, areaBefore, b.get_area());
    }
    mon::nontrivial("planes", mon::fmt("%d %d %d %d", steps, (int)(side / 20), (int)(d / 50), (int)(sn * 1e4)));
    mon::sample("planes", mon::fmt("%d observations, normal error %.3g, distance error %.3g, area %.4g", steps, (x.head<3>() - n).norm(), x(3) - d, pl.get_boundary_polygon().get_area()));
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, [] { mon::load_config(); }); }
