// C12: a plane fitted to a patch of depth points is the least squares plane of those points.
#include "config.hpp"
#include "geo.hpp"
#include "features/primitives/plane_segment.hpp"
#include "utils/covariances.hpp"
#include <memory>
using namespace rgbd_slam;
using features::primitives::Plane_Segment;
using mon::check;
using mon::near;
using ref::V3;

static constexpr int CELL = 20;
static constexpr int PTS = CELL * CELL;
// sensor depth resolution at this distance, from the documented model (a + b z + c z^2, at least 0.5 mm)
static double quant(double z)
{
    return std::max(parameters::depthSigmaMargin + parameters::depthSigmaMultiplier * z / 1e3 + parameters::depthSigmaError * z * z / 1e6, 0.5);
}

struct Patch
{
    matrixf cloud; // PTS x 3
    int valid = 0;
};
// rays of a 20x20 block of pixels
static void rays(const mon::Cam& m, int u0, int v0, std::vector<V3>& out)
{
    out.clear();
    for (int v = 0; v < CELL; ++v)
        for (int u = 0; u < CELL; ++u) out.push_back(V3((u0 + u - m.cx) / m.fx, (v0 + v - m.cy) / m.fy, 1.0));
}
struct RefPlane { V3 n; double d; V3 c; double mse; double mid; int count; };
static RefPlane pca(const std::vector<const matrixf*>& clouds)
{
    RefPlane r;
    std::vector<V3> pts;
    for (const auto* m: clouds)
        for (int i = 0; i < m->rows(); ++i)
            if ((*m)(i, 2) > 0) pts.push_back(V3((*m)(i, 0), (*m)(i, 1), (*m)(i, 2)));
    r.c = V3::Zero();
    for (auto& p: pts) r.c += p;
    r.count = (int)pts.size();
    if (r.count) r.c /= r.count;
    Eigen::Matrix3d s = Eigen::Matrix3d::Zero();
    for (auto& p: pts) s += (p - r.c) * (p - r.c).transpose();
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(s);
    r.n = es.eigenvectors().col(0);
    r.mse = std::abs(es.eigenvalues()(0)) / std::max(1, r.count);
    r.mid = std::abs(es.eigenvalues()(1)) / std::max(1, r.count);
    r.d = -r.n.dot(r.c);
    if (r.d < 0) { r.n = -r.n; r.d = -r.d; }
    return r;
}
static Patch make(const mon::Cam& m, int u0, int v0, const V3& n, double d, const std::function<double(int, double)>& depthNoise)
{
    std::vector<V3> rs;
    rays(m, u0, v0, rs);
    Patch p;
    p.cloud = matrixf::Zero(PTS, 3);
    for (int i = 0; i < PTS; ++i)
    {
        const double z0 = -d / n.dot(rs[i]);
        const double z = depthNoise(i, z0);
        if (!(z > 0)) continue;
        p.cloud(i, 0) = (float)(rs[i].x() * z);
        p.cloud(i, 1) = (float)(rs[i].y() * z);
        p.cloud(i, 2) = (float)z;
        ++p.valid;
    }
    return p;
}
// a plane seen under a fair incidence in this block
static bool rand_plane(mon::Ctx& c, const mon::Cam& m, int u0, int v0, double z, V3& n, double& d, double maxAngle = 60)
{
    const V3 ray((u0 + 10 - m.cx) / m.fx, (v0 + 10 - m.cy) / m.fy, 1.0);
    const V3 back = -ray.normalized();
    V3 ax(c.gauss(), c.gauss(), c.gauss());
    ax = ax.cross(back).normalized();
    const double a = c.uni(0, maxAngle) * M_PI / 180;
    n = back * std::cos(a) + ax * std::sin(a);
    d = -n.dot(ray * z);
    return d > 0;
}
// the plane equation error, seen at the patch: distance of the patch's own points to the plane
static void compare(const Plane_Segment& s, const RefPlane& r, const std::vector<const matrixf*>& clouds, const char* what)
{
    const std::string k = what;
    const double z = r.c.norm();
    check(near(s.get_normal().norm(), 1, 0, 1e-9), k + "_normal_unit", "%.12g", s.get_normal().norm());
    check((int)s.get_point_count() == r.count, k + "_point_count", "%u vs %d", s.get_point_count(), r.count);
    check((s.get_centroid() - r.c).norm() <= 1e-5 * z + 1e-3, k + "_centroid", "%s vs %s", ref::s3(s.get_centroid()).c_str(), ref::s3(r.c).c_str());
    // products are accumulated from single precision values: relative error of the second moments
    const double eps = 3e-7 * z * z;
    // angle between fitted normals is bounded by the moment error over the spread of the patch
    const double tol = std::min(1.0, 4 * eps / std::max(1e-9, r.mid) + 1e-6);
    if (r.mse < 0.02 * r.mid)
    {
        const double sinus = s.get_normal().cross(r.n).norm();
        check(sinus <= tol * 2, k + "_normal", "angle %.3g allowed %.3g (z=%.4g)", sinus, tol * 2, z);
        check(s.get_normal().dot(r.c) < 0, k + "_faces_camera", "n=%s centroid=%s", ref::s3(s.get_normal()).c_str(), ref::s3(r.c).c_str());
        check(std::abs(s.get_normal().dot(s.get_centroid()) + s.get_plane_d()) <= 1e-6 * z, k + "_through_centroid", "%.6g", s.get_normal().dot(s.get_centroid()) + s.get_plane_d());
        check(near(s.get_MSE(), r.mse, 1e-6, 3 * eps), k + "_mse", "%.6g vs %.6g", s.get_MSE(), r.mse);
        double e = 0;
        int cnt = 0;
        for (const auto* m: clouds)
            for (int i = 0; i < m->rows(); i += 7)
                if ((*m)(i, 2) > 0) { const V3 p((*m)(i, 0), (*m)(i, 1), (*m)(i, 2)); const double a = s.get_point_distance(p); check(near(a, s.get_normal().dot(p) + s.get_plane_d(), 1e-9, 1e-6), k + "_point_distance", "%.6g", a); e += a * a; ++cnt; }
        (void)cnt;
    }
    check(s.get_plane_d() >= 0, k + "_d_positive", "%.6g", s.get_plane_d());
}

MON_TEST(fit, 2500, 40000)
{
    const mon::Cam m = mon::cfg().c1;
    const int u0 = CELL * (int)c.irange(0, m.w / CELL - 1), v0 = CELL * (int)c.irange(0, m.h / CELL - 1);
    const double z = c.coin(0.3) ? std::floor(c.uni(300, 5500)) : c.uni(300, 5500);
    V3 n;
    double d;
    const int kind = (int)c.irange(0, 3); // 0: plane+noise 1: facing the camera, constant depth 2: quantised 3: missing points
    if (!rand_plane(c, m, u0, v0, z, n, d, z > 3000 ? 45 : 60)) return;
    if (kind == 1) { n = V3(0, 0, -1); d = c.coin(0.3) ? std::pow(2.0, c.irange(9, 12)) : std::floor(z); }
    const double sigma = kind == 0 ? quant(z) * c.uni(0, 0.5) : 0;
    const double missing = kind == 3 ? c.uni(0, 0.22) : 0;
    Patch p = make(m, u0, v0, n, d, [&](int i, double z0) {
        const int row = i / CELL, col = i % CELL;
        const bool cross = row == CELL / 2 || col == CELL / 2;
        if (missing > 0 && (!cross || c.coin(0.5)) && c.coin(missing)) return 0.0;
        double zz = z0 + std::clamp(c.gauss(), -2.5, 2.5) * sigma;
        if (kind == 2) zz = std::round(zz);
        return zz;
    });
    const uint cellCount = (uint)c.irange(1, 4), cellId = (uint)c.irange(0, cellCount - 1);
    matrixf all = matrixf::Zero(PTS * cellCount, 3);
    if (c.coin()) // neighbouring cells hold something else
        for (int i = 0; i < all.rows(); ++i) { all(i, 0) = (float)c.uni(-500, 500); all(i, 1) = (float)c.uni(-500, 500); all(i, 2) = (float)c.uni(300, 5000); }
    all.block(cellId * PTS, 0, PTS, 3) = p.cloud;
    Plane_Segment s;
    if (c.coin(0.3)) { matrixf junk = make(m, u0, v0, V3(0, 0, -1), 700, [](int, double q) { return q; }).cloud; s.init_plane_segment(junk, 0); }
    s.init_plane_segment(all, cellId);
    const RefPlane r = pca({&p.cloud});
    const double q = quant(r.c.z());
    // depth steps between neighbouring pixels above the sensor resolution are legitimately seen as a discontinuity
    double step = 0;
    for (int i = 1; i < CELL; ++i)
    {
        auto zof = [&](int a, int b) { return p.cloud(a * CELL + b, 2); };
        step = std::max({step, std::abs((double)zof(i, 10) - zof(i - 1, 10)), std::abs((double)zof(10, i) - zof(10, i - 1))});
    }
    const bool border = p.cloud(10, 2) > 0 && p.cloud(10 * CELL, 2) > 0;
    if (missing == 0 && step < 3.0 * q && r.mse < 0.8 * q * q)
    {
        check(s.is_planar(), "planar_patch_found", "d=%.9g n=%s mse=%.4g q=%.4g kind=%d", d, ref::s3(n).c_str(), r.mse, q, kind);
    }
    else if (missing > 0 && border && r.mse < 0.8 * q * q)
    {
        // a gap doubles or triples the depth step: only judged for small slopes
        double slope = 0;
        std::vector<V3> rs; rays(m, u0, v0, rs);
        for (int i = 1; i < CELL; ++i)
            slope = std::max({slope, std::abs(-d / n.dot(rs[i * CELL + 10]) + d / n.dot(rs[(i - 1) * CELL + 10])), std::abs(-d / n.dot(rs[10 * CELL + i]) + d / n.dot(rs[10 * CELL + i - 1]))});
        if (slope * 6 < q && p.valid > 0.72 * PTS) check(s.is_planar(), "planar_patch_with_holes_found", "z=%.6g n=%s valid=%d", z, ref::s3(n).c_str(), p.valid);
    }
    if (s.is_planar())
    {
        compare(s, r, {&p.cloud}, "patch");
        // the copy is the same patch, and cleared patches are empty
        Plane_Segment cp(s);
        check(cp.is_planar() && ref::mnear(cp.get_parametrization(), s.get_parametrization(), 1e-12, 1e-12) && cp.get_MSE() == s.get_MSE() && cp.get_point_count() == s.get_point_count() && cp.get_score() == s.get_score() && cp.get_centroid() == s.get_centroid(), "copy_is_equal", "%s", "");
        cp.fit_plane();
        check(ref::mnear(cp.get_parametrization(), s.get_parametrization(), 1e-12, 1e-12) && cp.get_MSE() == s.get_MSE(), "refit_is_stable", "%s", "");
        cp.clear_plane_parameters();
        check(!cp.is_planar() && cp.get_point_count() == 0 && s.is_planar() && (int)s.get_point_count() == r.count, "clear_only_clears_itself", "%s", "");
        check(near(s.get_cos_angle(s), 1, 0, 1e-9) && s.can_be_merged(s, 0.5), "merges_with_itself", "%s", "");
        mon::nontrivial("fit", mon::fmt("%d %d %d %d %d", kind, (int)(z / 200), (int)(r.n.x() * 6), (int)(r.n.y() * 6), p.valid / 20));
        mon::sample("fit", mon::fmt("z=%.1f n=", z) + ref::s3(s.get_normal()) + mon::fmt(" d=%.1f mse=%.4g points=%u", s.get_plane_d(), s.get_MSE(), s.get_point_count()));
    }
}

MON_TEST(refused, 2000, 30000)
{
    const mon::Cam m = mon::cfg().c1;
    const int u0 = CELL * (int)c.irange(0, m.w / CELL - 1), v0 = CELL * (int)c.irange(0, m.h / CELL - 1);
    const double z = c.uni(400, 5000);
    V3 n;
    double d;
    if (!rand_plane(c, m, u0, v0, z, n, d, 40)) return;
    const int kind = (int)c.irange(0, 4);
    const double q = quant(z);
    Patch p;
    std::string what;
    if (kind == 0)
    { // depth jump across the middle of the patch
        const double jump = q * c.uni(12, 60) * (c.coin() ? 1 : -1);
        const bool vertical = c.coin();
        const int at = (int)c.irange(1, 19);
        p = make(m, u0, v0, n, d, [&](int i, double z0) { return ((vertical ? i % CELL : i / CELL) >= at) ? z0 + jump : z0; });
        what = mon::fmt("jump of %.3g resolutions at %s %d", jump / q, vertical ? "column" : "row", at);
    }
    else if (kind == 1)
    { // mostly empty
        const double keep = c.uni(0.0, 0.4);
        p = make(m, u0, v0, n, d, [&](int, double z0) { return c.coin(keep) ? z0 : 0.0; });
        if (p.valid >= PTS / 2) return;
        what = mon::fmt("%d valid points", p.valid);
    }
    else if (kind == 2)
    { // noise far above the sensor resolution
        const double s = q * c.uni(3, 10);
        p = make(m, u0, v0, V3(0, 0, -1), z, [&](int, double z0) { return std::max(10.0, z0 + c.gauss() * s); });
        what = mon::fmt("noise %.3g resolutions", s / q);
    }
    else if (kind == 3)
    { // curved surface: smooth bump higher than the resolution
        const double h = q * c.uni(8, 14);
        p = make(m, u0, v0, V3(0, 0, -1), z, [&](int i, double z0) { const double x = (i % CELL - 9.5) / 9.5, y = (i / CELL - 9.5) / 9.5; return z0 + h * (x * x + y * y); });
        what = mon::fmt("bump of %.3g resolutions", h / q);
    }
    else
    {
        p = make(m, u0, v0, n, d, [&](int, double) { return 0.0; });
        what = "no depth";
    }
    const RefPlane r = pca({&p.cloud});
    const double qr = quant(r.c.z());
    if (kind != 0 && kind != 1 && kind != 4 && r.mse < 1.3 * qr * qr) return;
    if (kind == 0 && r.mse < 1.3 * qr * qr) {} // refused for the discontinuity itself
    Plane_Segment s;
    if (c.coin(0.4)) { matrixf junk = make(m, u0, v0, V3(0, 0, -1), 700, [](int, double zz) { return zz; }).cloud; s.init_plane_segment(junk, 0); }
    s.init_plane_segment(p.cloud, 0);
    static const char* names[] = {"jump_refused", "sparse_patch_refused", "noisy_patch_refused", "curved_patch_refused", "empty_patch_refused"};
    check(!s.is_planar(), names[kind], "z=%.4g: %s accepted as a plane (mse %.4g, resolution^2 %.4g)", z, what.c_str(), r.mse, qr * qr);
    mon::nontrivial("refused", mon::fmt("%d %d %s", kind, (int)(z / 200), what.substr(0, 12).c_str()));
}

MON_TEST(merge, 1500, 25000)
{
    const mon::Cam m = mon::cfg().c1;
    // patches of one plane (or two) around a place of the image
    const int cells = (int)c.irange(2, 6);
    const double z = c.uni(400, 4500);
    V3 n;
    double d;
    const int cu = CELL * (int)c.irange(2, m.w / CELL - 4), cv = CELL * (int)c.irange(2, m.h / CELL - 4);
    if (!rand_plane(c, m, cu, cv, z, n, d, 35)) return;
    std::vector<matrixf> clouds;
    std::vector<std::unique_ptr<Plane_Segment>> segs;
    for (int i = 0; i < cells; ++i)
    {
        const int u0 = cu + CELL * (int)c.irange(-2, 3), v0 = cv + CELL * (int)c.irange(-2, 3);
        V3 ni = n;
        double di = d;
        if (c.coin(0.3)) { di = d + c.uni(-30, 30); }
        Patch p = make(m, u0, v0, ni, di, [&](int, double z0) { return z0 + std::clamp(c.gauss(), -2.5, 2.5) * 0.3 * quant(z); });
        auto s = std::make_unique<Plane_Segment>();
        s->init_plane_segment(p.cloud, 0);
        if (!s->is_planar()) continue;
        clouds.push_back(p.cloud);
        segs.push_back(std::move(s));
    }
    if (segs.size() < 2) return;
    std::vector<const matrixf*> all;
    for (auto& cl: clouds) all.push_back(&cl);
    const RefPlane r = pca(all);
    Plane_Segment a(*segs[0]);
    for (size_t i = 1; i < segs.size(); ++i) a.expand_segment(*segs[i]);
    a.fit_plane();
    check(a.is_planar(), "merged_patch_is_planar", "%zu patches", segs.size());
    compare(a, r, all, "merged");
    // other order
    Plane_Segment b;
    for (size_t i = segs.size(); i-- > 0;) b.expand_segment(*segs[i]);
    b.fit_plane();
    check(b.get_point_count() == a.get_point_count() && near(b.get_plane_d(), a.get_plane_d(), 1e-4, 1e-2) && b.get_normal().dot(a.get_normal()) > 1 - 1e-5 && near(a.get_MSE(), b.get_MSE(), 1e-4, 1e-6 * z * z), "merge_order_does_not_matter", "d %.9g vs %.9g mse %.6g vs %.6g", a.get_plane_d(), b.get_plane_d(), a.get_MSE(), b.get_MSE());
    // the merged patches were not altered
    for (size_t i = 0; i < segs.size(); ++i) { const RefPlane ri = pca({&clouds[i]}); check((int)segs[i]->get_point_count() == ri.count && (segs[i]->get_centroid() - ri.c).norm() < 1e-5 * z + 1e-3, "merge_leaves_sources", "%s", ""); }
    // its uncertainty: inverse of the second moment of its points
    Eigen::Matrix3d H = Eigen::Matrix3d::Zero();
    for (auto& cl: clouds) for (int i = 0; i < cl.rows(); ++i) if (cl(i, 2) > 0) { const V3 p(cl(i, 0), cl(i, 1), cl(i, 2)); H += p * p.transpose(); }
    const matrix33 cov = a.get_point_cloud_covariance();
    check(utils::is_covariance_valid(cov), "patch_covariance_valid", "%s", "");
    const Eigen::Matrix3d id = cov * H;
    check(ref::mnear(id, Eigen::Matrix3d::Identity().eval(), 0, 0.05), "patch_covariance_is_inverse_second_moment", "max diag %.6g", id.diagonal().maxCoeff());
    mon::nontrivial("merge", mon::fmt("%zu %d %d %d", segs.size(), (int)(z / 200), (int)(n.x() * 6), (int)(n.y() * 6)));
}

MON_TEST(merge_criteria, 2000, 30000)
{
    const mon::Cam m = mon::cfg().c1;
    const int u0 = CELL * (int)c.irange(2, m.w / CELL - 3), v0 = CELL * (int)c.irange(2, m.h / CELL - 3);
    const double z = c.uni(400, 2500);
    V3 n;
    double d;
    if (!rand_plane(c, m, u0, v0, z, n, d, 25)) return;
    Patch p1 = make(m, u0, v0, n, d, [](int, double z0) { return z0; });
    // second patch in a neighbouring block, turned by an angle around a random axis and moved along its normal
    const double ang = c.coin(0.2) ? 0.0 : c.uni(0, 45);
    V3 ax(c.gauss(), c.gauss(), c.gauss());
    ax.normalize();
    const V3 n2 = Eigen::AngleAxisd(ang * M_PI / 180, ax) * n;
    const int u1 = u0 + CELL * (int)c.irange(-1, 1), v1 = v0 + CELL * (int)c.irange(-1, 1);
    const V3 ray((u1 + 9.5 - m.cx) / m.fx, (v1 + 9.5 - m.cy) / m.fy, 1.0);
    const V3 onPlane = ray * (-d / n.dot(ray));
    const double shift = c.coin(0.3) ? 0.0 : c.uni(-150, 150);
    const V3 p = onPlane + n * shift;
    if (p.z() < 200) return;
    const double d2 = -n2.dot(p);
    if (d2 <= 0 || n2.dot(ray.normalized()) > -0.5) return;
    Patch p2 = make(m, u1, v1, n2, d2, [](int, double z0) { return z0; });
    Plane_Segment a, b;
    a.init_plane_segment(p1.cloud, 0);
    b.init_plane_segment(p2.cloud, 0);
    if (!a.is_planar() || !b.is_planar()) return;
    const RefPlane r1 = pca({&p1.cloud}), r2 = pca({&p2.cloud});
    const double angle = std::acos(std::clamp(r1.n.dot(r2.n), -1.0, 1.0)) * 180 / M_PI;
    const double dist = std::abs(r1.n.dot(r2.c) + r1.d);
    check(near(a.get_cos_angle(b), r1.n.dot(r2.n), 0, 0.03) && near(a.get_cos_angle(b), b.get_cos_angle(a), 0, 1e-12), "patch_angle", "%.6g vs %.6g", a.get_cos_angle(b), r1.n.dot(r2.n));
    const double maxDist = c.uni(5, 100);
    const double limit = parameters::detection::maximumPlaneAngleForMerge_d;
    const bool res = a.can_be_merged(b, maxDist);
    if (angle < limit - 2 && dist < maxDist - 2) check(res, "close_patches_merge", "angle %.3g deg, distance %.4g of %.4g", angle, dist, maxDist);
    if (angle > limit + 2 || dist > maxDist + 2) check(!res, "different_patches_do_not_merge", "angle %.3g deg, distance %.4g of %.4g", angle, dist, maxDist);
    mon::nontrivial("criteria", mon::fmt("%d %d %d %d", (int)angle, (int)(dist / 10), (int)(maxDist / 10), (int)res));
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, [] { mon::load_config(); Plane_Segment::set_static_members(CELL, PTS); }); }
