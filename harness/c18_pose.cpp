// C18: the pose optimisation recovers the pose that explains the matches, and says which matches it explains.
#include "config.hpp"
#include "geo.hpp"
#include "map_management/map_features/map_point.hpp"
#include "map_management/map_features/map_point2d.hpp"
#include "map_management/map_features/map_primitive.hpp"
#include "pose_optimization/levenberg_marquardt_functors.hpp"
#include "pose_optimization/pose_optimization.hpp"
#include "utils/camera_transformation.hpp"
#include "utils/covariances.hpp"
#include <map>
using namespace rgbd_slam;
using mon::check;
using mon::near;
using ref::V3;
using Q = Eigen::Quaterniond;
static mon::Cam C() { return mon::cfg().c1; }
static Eigen::Vector2d project(const ref::Pose& P, const V3& w, double* z = nullptr)
{
    const V3 p = ref::world_to_cam(P, w);
    if (z) *z = p.z();
    return Eigen::Vector2d(C().fx * p.x() / p.z() + C().cx, C().fy * p.y() / p.z() + C().cy);
}
static Q small_rot(const V3& v)
{
    const double a = v.norm();
    if (a < 1e-15) return Q(1, v.x() / 2, v.y() / 2, v.z() / 2).normalized();
    const V3 n = v / a;
    return Q(std::cos(a / 2), n.x() * std::sin(a / 2), n.y() * std::sin(a / 2), n.z() * std::sin(a / 2));
}
static Q qmul(const Q& a, const Q& b)
{
    return Q(a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z(), a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(),
             a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x(), a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w());
}
static double rot_angle(const Q& a, const Q& b)
{
    const Q d = qmul(Q(a.w(), -a.x(), -a.y(), -a.z()), b);
    return 2 * std::atan2(std::sqrt(d.x() * d.x() + d.y() * d.y() + d.z() * d.z()), std::fabs(d.w()));
}
static ref::Pose move(const ref::Pose& P, const Eigen::Matrix<double, 6, 1>& d)
{
    return ref::Pose {qmul(P.q, small_rot(d.tail<3>())), P.t + d.head<3>()};
}
static utils::PoseBase to_repo(const ref::Pose& P) { return utils::PoseBase(P.t, P.q); }
static ref::Pose from_repo(const utils::PoseBase& p) { return ref::Pose {p.get_orientation_quaternion(), p.get_position()}; }

// a plane in camera space (n.p + d = 0) of the same points as a plane in world space
static void plane_to_cam(const ref::Pose& P, const V3& n, double d, V3& nc, double& dc)
{
    const V3 o = ref::cam_to_world(P, V3::Zero());
    const V3 ax[3] = {ref::cam_to_world(P, V3::UnitX()) - o, ref::cam_to_world(P, V3::UnitY()) - o, ref::cam_to_world(P, V3::UnitZ()) - o};
    nc = V3(n.dot(ax[0]), n.dot(ax[1]), n.dot(ax[2]));
    dc = d + n.dot(o);
}

struct Match
{
    matches_containers::feat_ptr ptr;
    int kind;       // 0 point, 1 plane, 2 inverse depth point
    bool inlier;
    V3 w;           // point, or plane normal
    double d;       // plane
    Eigen::Vector2d px;
    V3 nc; double dc;
    V3 o; double rel; // inverse depth point: first observation, relative depth uncertainty
};
struct Problem
{
    ref::Pose truth;
    std::vector<Match> m;
    matches_containers::match_container list;
    int inliers = 0, outliers = 0;
    double noise = 0;
};
static void add_point(mon::Ctx& c, Problem& p, const V3& w, const Eigen::Vector2d& px, bool in, const V3& sd)
{
    Match m; m.kind = 0; m.inlier = in; m.w = w; m.px = px;
    m.ptr = std::make_shared<map_management::PointOptimizationFeature>(ScreenCoordinate2D(px.x(), px.y()), WorldCoordinate(w), sd, 1000 + p.m.size(), 5000 + p.m.size());
    (void)c;
    p.m.push_back(m);
}
static V3 visible_point(mon::Ctx& c, const ref::Pose& P, double zmin, double zmax, Eigen::Vector2d& px, double margin = 2)
{
    const double u = c.uni(margin, C().w - margin), v = c.uni(margin, C().h - margin), z = c.uni(zmin, zmax);
    px = Eigen::Vector2d(u, v);
    return ref::cam_to_world(P, V3((u - C().cx) / C().fx * z, (v - C().cy) / C().fy * z, z));
}
static Problem make(mon::Ctx& c, bool planes, bool rays, double outlierRatio, double noise)
{
    Problem p;
    p.truth = ref::rand_pose(c, 3000);
    p.noise = noise;
    const int n = (int)c.irange(20, 90);
    const double zmin = c.uni(500, 1200), zmax = zmin * c.uni(2.0, 4.0);
    const V3 sd = V3(c.logu(0.2, 10), c.logu(0.2, 10), c.logu(0.2, 10));
    for (int i = 0; i < n; ++i)
    {
        Eigen::Vector2d px;
        const V3 w = visible_point(c, p.truth, zmin, zmax, px);
        const bool in = not c.coin(outlierRatio) or p.outliers + 1 > 0.32 * n;
        if (in)
        {
            px += Eigen::Vector2d(c.gauss(), c.gauss()) * noise;
            ++p.inliers;
        }
        else
        {
            // elsewhere in the image
            Eigen::Vector2d o;
            do { o = Eigen::Vector2d(c.uni(0, C().w), c.uni(0, C().h)); } while ((o - px).norm() < 60);
            px = o;
            ++p.outliers;
        }
        add_point(c, p, w, px, in, sd);
    }
    if (planes)
    {
        const int k = (int)c.irange(1, 4);
        for (int i = 0; i < k; ++i)
        {
            // a plane seen in front of the camera, facing it
            V3 nc = V3(c.gauss(), c.gauss(), -1.5 * std::fabs(c.gauss()) - 0.5).normalized();
            const double dist = c.uni(400, 3000);
            double dc = dist; // n.p + d = 0 with the camera on the positive side
            Match m; m.kind = 1; m.inlier = true; m.nc = nc; m.dc = dc;
            const V3 o = ref::cam_to_world(p.truth, V3::Zero());
            const V3 nw = ref::cam_to_world(p.truth, nc) - o;
            const double dw = -nw.dot(ref::cam_to_world(p.truth, -dc * nc));
            m.w = nw; m.d = dw;
            if (outlierRatio > 0 and i == 0 and n >= 25 and c.coin(0.4))
            {
                // another plane than the one of the map
                m.inlier = false;
                if (c.coin()) nc = (nc + c.uni(0.7, 1.5) * nc.cross(V3(c.gauss(), c.gauss(), c.gauss()).normalized())).normalized();
                if (std::acos(std::clamp(nc.dot(m.nc), -1., 1.)) < 0.35) dc += c.uni(400, 1500);
                m.nc = nc; m.dc = dc;
            }
            Eigen::Vector4d psd(0.002, 0.002, 0.002, 2);
            m.ptr = std::make_shared<map_management::PlaneOptimizationFeature>(PlaneCameraCoordinates(nc, dc), PlaneWorldCoordinates(nw, dw), psd,
                                                                               3000 + i, 7000 + i);
            ++(m.inlier ? p.inliers : p.outliers);
            p.m.push_back(m);
        }
    }
    if (rays)
    {
        const int k = (int)c.irange(1, 15);
        for (int i = 0; i < k; ++i)
        {
            Match m; m.kind = 2; m.inlier = true;
            m.w = visible_point(c, p.truth, zmin, zmax, m.px, 40);
            m.o = ref::cam_to_world(p.truth, V3(c.uni(150, 500) * (c.coin() ? 1 : -1), c.uni(-200, 200), c.uni(-100, 100)));
            m.px += Eigen::Vector2d(c.gauss(), c.gauss()) * noise;
            m.rel = c.uni(0.01, 0.04);
            if (outlierRatio > 0 and c.coin(0.5 * outlierRatio))
            {
                // far from the line on which the map point is
                const Eigen::Vector2d a = project(p.truth, m.o + (m.w - m.o) / (1 + 3 * m.rel)), b = project(p.truth, m.o + (m.w - m.o) / (1 - 3 * m.rel));
                const Eigen::Vector2d dir = (b - a).normalized();
                for (int t = 0; t < 100 and m.inlier; ++t)
                {
                    const Eigen::Vector2d o(c.uni(5, C().w - 5), c.uni(5, C().h - 5)), v = o - a;
                    if (a.allFinite() and b.allFinite() and (v - v.dot(dir) * dir).cwiseAbs().minCoeff() > 60) { m.px = o; m.inlier = false; }
                }
            }
            vector6 s; s << 1, 1, 1, m.rel / (m.w - m.o).norm(), 1e-3, 1e-3;
            m.ptr = std::make_shared<map_management::Point2dOptimizationFeature>(
                    ScreenCoordinate2D(m.px.x(), m.px.y()), InverseDepthWorldPoint::from_cartesian(WorldCoordinate(m.w), WorldCoordinate(m.o)), s, 4000 + i, 8000 + i);
            ++(m.inlier ? p.inliers : p.outliers);
            p.m.push_back(m);
        }
    }
    std::vector<size_t> order(p.m.size());
    for (size_t i = 0; i < order.size(); ++i) order[i] = i;
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.irange(0, (long)i - 1)]);
    for (size_t i: order) p.list.push_back(p.m[i].ptr);
    return p;
}
// residuals, as weighted by the optimisation, of a set of matches
static Eigen::VectorXd residuals(const std::vector<const Match*>& ms, const ref::Pose& P)
{
    std::vector<double> r;
    for (const Match* m: ms)
    {
        if (m->kind == 0)
        {
            const Eigen::Vector2d e = m->px - project(P, m->w);
            r.push_back(e.x() / 2); r.push_back(e.y() / 2);
        }
        else if (m->kind == 1)
        {
            V3 nc; double dc;
            plane_to_cam(P, m->w, m->d, nc, dc);
            const V3 e = m->dc * m->nc - dc * nc;
            for (int i = 0; i < 3; ++i) r.push_back(e(i) / 3);
        }
        else
        {
            const Eigen::Vector2d a = project(P, m->o + (m->w - m->o) / (1 + 3 * m->rel)), b = project(P, m->o + (m->w - m->o) / (1 - 3 * m->rel));
            const Eigen::Vector2d dir = (b - a).normalized(), v = m->px - a, e = v - v.dot(dir) * dir;
            r.push_back(0.15 * e.x()); r.push_back(0.15 * e.y());
        }
    }
    return Eigen::Map<Eigen::VectorXd>(r.data(), (long)r.size());
}
template<class F> static Eigen::MatrixXd jacobian(F f, const ref::Pose& P)
{
    Eigen::MatrixXd J;
    for (int k = 0; k < 6; ++k)
    {
        const double h = k < 3 ? 1e-2 : 1e-5;
        Eigen::Matrix<double, 6, 1> d; d.setZero();
        d(k) = h; const Eigen::VectorXd a = f(move(P, d));
        d(k) = -h; const Eigen::VectorXd b = f(move(P, d));
        if (J.size() == 0) J.resize(a.size(), 6);
        J.col(k) = (a - b) / (2 * h);
    }
    return J;
}
static ref::Pose disturbed(mon::Ctx& c, const ref::Pose& P, double t, double deg)
{
    Eigen::Matrix<double, 6, 1> d;
    for (int i = 0; i < 3; ++i) { d(i) = c.uni(-t, t); d(3 + i) = c.uni(-1, 1) * deg * M_PI / 180; }
    return move(P, d);
}

MON_TEST(recover, 350, 6000)
{
    const bool planes = c.coin(0.4);
    const double outl = c.coin(0.3) ? 0.0 : c.uni(0.05, 0.3);
    const double noise = c.coin(0.3) ? 0.0 : c.uni(0.05, 0.3);
    const Problem p = make(c, planes, c.coin(0.4), outl, noise);
    const ref::Pose start = disturbed(c, p.truth, 40, 2.5);
    utils::Pose out;
    matches_containers::match_sets sets;
    // what a previous frame left there must not matter
    if (c.coin() and not p.list.empty()) { sets._inliers.push_back(p.list.front()); sets._outliers.push_back(p.list.back()); }
    const bool ok = pose_optimization::Pose_Optimization::compute_optimized_pose(to_repo(start), p.list, out, sets);
    mon::observe("optimisations");
    if (not check(ok, "pose_found", "%d inliers %d outliers noise %g: no pose", p.inliers, p.outliers, p.noise)) return;
    // every match is judged exactly once
    std::map<const void*, int> seen;
    for (const auto& f: sets._inliers) seen[f.get()] += 1;
    for (const auto& f: sets._outliers) seen[f.get()] += 100;
    size_t bad = sets._inliers.size() + sets._outliers.size() != p.list.size();
    for (const auto& f: p.list) bad += not(seen[f.get()] == 1 or seen[f.get()] == 100);
    check(bad == 0, "partition", "%zu inliers and %zu outliers for %zu matches", sets._inliers.size(), sets._outliers.size(), p.list.size());
    std::vector<const Match*> used;
    int wrongIn = 0, keptIn = 0;
    for (const Match& m: p.m)
        if (seen[m.ptr.get()] == 1)
        {
            used.push_back(&m);
            if (m.inlier) ++keptIn; else ++wrongIn;
        }
    const ref::Pose P = from_repo(out);
    check(std::fabs(P.q.norm() - 1) < 1e-6 and P.t.allFinite(), "valid_pose", "norm %.12g", P.q.norm());
    check(wrongIn == 0, "mismatch_kept", "%d wrong matches of %d among the %zu inliers", wrongIn, p.outliers, sets._inliers.size());
    check(keptIn >= 0.75 * p.inliers, "right_matches_lost", "%d of %d right matches kept", keptIn, p.inliers);
    // the optimum over the matches it kept
    const double cost = residuals(used, P).squaredNorm(), costTruth = residuals(used, p.truth).squaredNorm();
    check(cost <= 1.02 * costTruth + 1e-4 * used.size(), "optimal", "cost %.9g, the true pose has %.9g (%zu matches)", cost, costTruth, used.size());
    // the pose itself, within the uncertainty that the noise allows
    const Eigen::MatrixXd J = jacobian([&](const ref::Pose& X) { return residuals(used, X); }, p.truth);
    const Eigen::MatrixXd N = (J.transpose() * J).inverse();
    // residual noise is at most noise / 2 on points, none on planes
    const Eigen::MatrixXd cov = N * J.transpose() * J * N * (p.noise * p.noise / 4);
    const double tErr = (P.t - p.truth.t).norm(), rErr = rot_angle(P.q, p.truth.q);
    const double tMax = 8 * std::sqrt(cov.topLeftCorner(3, 3).trace()) + 0.3, rMax = 8 * std::sqrt(cov.bottomRightCorner(3, 3).trace()) + 3e-4;
    if (wrongIn == 0)
    {
        check(tErr <= tMax, "position", "%.6g mm from the true position, at most %.6g expected (noise %g px, %zu matches)", tErr, tMax, p.noise, used.size());
        check(rErr <= rMax, "rotation", "%.6g rad from the true rotation, at most %.6g expected", rErr, rMax);
    }
    mon::observe("matches_judged", p.list.size());
    mon::nontrivial("recover", mon::fmt("%d %d %.2f %d", p.inliers, p.outliers, p.noise, planes));
    mon::sample("recover", mon::fmt("t err %.4g/%.4g r err %.4g/%.4g kept %d/%d", tErr, tMax, rErr, rMax, keptIn, p.inliers));
}

// with three planes of independent directions the pose is determined by planes only
MON_TEST(planes_only, 200, 3000)
{
    Problem p;
    p.truth = ref::rand_pose(c, 2000);
    const int k = (int)c.irange(3, 6);
    std::vector<V3> normals;
    for (int i = 0; i < k; ++i)
    {
        V3 nc;
        bool far;
        int tries = 0;
        do
        {
            nc = V3(c.gauss(), c.gauss(), c.gauss()).normalized();
            far = true;
            for (const V3& o: normals) far = far and std::fabs(o.dot(nc)) < 0.6;
        } while (not far and ++tries < 2000 and normals.size() < 3);
        normals.push_back(nc);
        const double dc = c.uni(500, 3000);
        Match m; m.kind = 1; m.inlier = true; m.nc = nc; m.dc = dc;
        const V3 nw = ref::cam_to_world(p.truth, nc) - ref::cam_to_world(p.truth, V3::Zero());
        m.w = nw; m.d = -nw.dot(ref::cam_to_world(p.truth, -dc * nc));
        m.ptr = std::make_shared<map_management::PlaneOptimizationFeature>(PlaneCameraCoordinates(nc, dc), PlaneWorldCoordinates(nw, m.d),
                                                                           Eigen::Vector4d(1e-4, 1e-4, 1e-4, 0.1), 1 + i, 1 + i);
        p.m.push_back(m);
        p.list.push_back(m.ptr);
    }
    const ref::Pose start = disturbed(c, p.truth, 40, 2);
    utils::Pose out;
    matches_containers::match_sets sets;
    const bool ok = pose_optimization::Pose_Optimization::compute_optimized_pose(to_repo(start), p.list, out, sets);
    mon::observe("plane_optimisations");
    if (not check(ok, "pose_from_planes", "%d planes: no pose", k)) return;
    check(sets._inliers.size() + sets._outliers.size() == (size_t)k, "partition", "%zu + %zu of %d", sets._inliers.size(), sets._outliers.size(), k);
    const ref::Pose P = from_repo(out);
    if (sets._outliers.empty())
    {
        check((P.t - p.truth.t).norm() < 0.5, "position_from_planes", "%.6g mm off", (P.t - p.truth.t).norm());
        check(rot_angle(P.q, p.truth.q) < 5e-4, "rotation_from_planes", "%.6g rad off", rot_angle(P.q, p.truth.q));
        mon::observe("all_planes_kept");
    }
    mon::nontrivial("planes_only", mon::fmt("%d %.1f", k, p.truth.t.x()));
}

// the reported variance is the one that the uncertainty of the map gives
MON_TEST(variance, 250, 4000)
{
    Problem p = make(c, false, false, 0.0, 0.0);
    if (c.coin(0.3))
    {
        // poses where Euler angles wrap or degenerate
        static const Q special[] = {Q(1, 0, 0, 0), Q(std::sqrt(0.5), 0, std::sqrt(0.5), 0), Q(0, 1, 0, 0), Q(0, 0, 0, 1), Q(0, 0, 0, -1), Q(0, 0, 1, 0)};
        const Q q = special[c.irange(0, 5)];
        Problem n;
        n.truth = ref::Pose {q, p.truth.t};
        const V3 sd(c.logu(0.5, 8), c.logu(0.5, 8), c.logu(0.5, 8));
        const int k = (int)c.irange(25, 80);
        for (int i = 0; i < k; ++i)
        {
            Eigen::Vector2d px;
            const V3 w = visible_point(c, n.truth, 700, 2500, px);
            add_point(c, n, w, px, true, sd);
            n.list.push_back(n.m.back().ptr);
        }
        p = n;
        mon::observe("special_orientations");
    }
    // standard deviations of each feature of their own
    matches_containers::match_container list;
    std::vector<const Match*> used;
    std::vector<V3> sds;
    for (const Match& m: p.m)
    {
        V3 sd(c.logu(0.3, 6), c.logu(0.3, 6), c.logu(0.3, 6));
        if (c.coin(0.1)) sd.setZero();
        list.push_back(std::make_shared<map_management::PointOptimizationFeature>(ScreenCoordinate2D(m.px.x(), m.px.y()), WorldCoordinate(m.w), sd, 1, 1));
        sds.push_back(sd);
        used.push_back(&m);
    }
    Eigen::Matrix<double, 6, 6> cov;
    const unsigned it = c.coin(0.2) ? 300 : 100;
    const bool ok = pose_optimization::Pose_Optimization::compute_pose_variance(to_repo(p.truth), list, cov, it);
    mon::observe("variances");
    if (not check(ok, "variance_found", "no variance for %zu matches", list.size())) return;
    check(ref::psd(cov, 1e-9) and cov.isApprox(cov.transpose(), 1e-9), "variance_valid", "not a covariance");
    const Eigen::MatrixXd J = jacobian([&](const ref::Pose& X) { return residuals(used, X); }, p.truth);
    const Eigen::MatrixXd G = (J.transpose() * J).inverse() * J.transpose();
    // d residual / d map point
    Eigen::Matrix<double, 6, 6> expected = Eigen::Matrix<double, 6, 6>::Zero();
    for (size_t i = 0; i < used.size(); ++i)
    {
        Eigen::Matrix<double, 2, 3> K;
        for (int k = 0; k < 3; ++k)
        {
            V3 h = V3::Zero(); h(k) = 1e-2;
            K.col(k) = (project(p.truth, used[i]->w - h) - project(p.truth, used[i]->w + h)) / (2 * 1e-2) / 2;
        }
        const Eigen::MatrixXd A = G.middleCols(2 * (long)i, 2) * K * sds[i].asDiagonal();
        expected += A * A.transpose();
    }
    expected.diagonal().array() += 0.001;
    // chi square bounds at 7 sigma for the number of draws
    const double s = std::sqrt(2.0 / (it - 1));
    const double lo = std::max(0.25, 1 - 5 * s), hi = 1 + 9 * s;
    for (int k = 0; k < 3; ++k)
        check(cov(k, k) >= lo * expected(k, k) and cov(k, k) <= hi * expected(k, k), "position_variance", "axis %d: %.6g, %.6g expected (%zu matches)", k,
              cov(k, k), expected(k, k), list.size());
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < i; ++j)
            check(std::fabs(cov(i, j) - expected(i, j)) < 7 * std::sqrt((expected(i, i) * expected(j, j) + expected(i, j) * expected(i, j)) / (it - 1)),
                  "position_correlation", "(%d,%d): %.6g, %.6g expected", i, j, cov(i, j), expected(i, j));
    // the rotation part, whatever the axes it is expressed in
    const double rt = cov.bottomRightCorner(3, 3).trace(), et = expected.bottomRightCorner(3, 3).trace();
    check(rt >= lo * et and rt <= hi * et, "rotation_variance", "trace %.6g, %.6g expected (quaternion %.3f %.3f %.3f %.3f)", rt, et, p.truth.q.w(),
          p.truth.q.x(), p.truth.q.y(), p.truth.q.z());
    mon::nontrivial("variance", mon::fmt("%zu %u %.2g", list.size(), it, expected(0, 0)));
    mon::sample("variance", mon::fmt("ratio %.3f %.3f %.3f rot %.3f", cov(0, 0) / expected(0, 0), cov(1, 1) / expected(1, 1), cov(2, 2) / expected(2, 2), rt / et));
}

// too few or unusable matches are refused, and never end the program
MON_TEST(refusals, 300, 4000)
{
    Problem p = make(c, false, false, 0.0, 0.0);
    matches_containers::match_container list;
    const int kind = (int)c.irange(0, 3);
    bool mustRefuse = true;
    if (kind == 0)
    {
        const int n = (int)c.irange(0, 4);
        int i = 0;
        for (const Match& m: p.m)
            if (i++ < n) list.push_back(m.ptr);
    }
    else if (kind == 1)
    {
        for (const Match& m: p.m) list.push_back(m.ptr);
        const double x = c.coin() ? std::nan("") : 10.0;
        const double sd = std::isnan(x) ? 1.0 : (c.coin() ? -1.0 : std::nan(""));
        matches_containers::feat_ptr f;
        if (c.coin())
            f = std::make_shared<map_management::PointOptimizationFeature>(ScreenCoordinate2D(x, 20), WorldCoordinate(100, 100, 100), V3(1, sd, 1), 1, 1);
        else
            f = std::make_shared<map_management::PlaneOptimizationFeature>(PlaneCameraCoordinates(V3(0, 0, 1), x), PlaneWorldCoordinates(V3(1, 0, 0), 12),
                                                                           Eigen::Vector4d(1, 1, sd, 1), 1, 1);
        auto it = list.begin();
        std::advance(it, c.irange(0, (long)list.size()));
        list.insert(it, f);
    }
    else if (kind == 2)
    {
        // one or two planes do not determine a pose
        for (int i = 0; i < (int)c.irange(1, 2); ++i)
            list.push_back(std::make_shared<map_management::PlaneOptimizationFeature>(PlaneCameraCoordinates(V3(0, 0, 1), 100), PlaneWorldCoordinates(V3(1, 0, 0), 12),
                                                                                      Eigen::Vector4d(.1, .1, .1, 1), 1, 1));
    }
    else
    {
        // matches that no pose explains: whatever the answer, it is consistent
        mustRefuse = false;
        for (Match& m: p.m)
        {
            const Eigen::Vector2d px(c.uni(0, C().w), c.uni(0, C().h));
            list.push_back(std::make_shared<map_management::PointOptimizationFeature>(ScreenCoordinate2D(px.x(), px.y()), WorldCoordinate(m.w), V3(1, 1, 1), 1, 1));
            m.px = px; m.ptr = list.back();
        }
    }
    utils::Pose out;
    matches_containers::match_sets sets;
    const bool ok = pose_optimization::Pose_Optimization::compute_optimized_pose(to_repo(p.truth), list, out, sets);
    mon::observe(mon::fmt("kind_%d_%s", kind, ok ? "pose" : "refused"));
    if (mustRefuse) check(not ok, "unusable_matches_refused", "kind %d with %zu matches gives a pose", kind, list.size());
    if (ok)
    {
        check(sets._inliers.size() + sets._outliers.size() == list.size(), "partition", "%zu + %zu of %zu", sets._inliers.size(), sets._outliers.size(), list.size());
        check(sets._inliers.size() >= 5, "enough_support", "%zu inliers", sets._inliers.size());
        check(out.get_position().allFinite() and std::fabs(out.get_orientation_quaternion().norm() - 1) < 1e-6, "valid_pose", "not finite");
        check(utils::is_covariance_valid(out.get_pose_variance()), "variance_valid", "not a covariance");
    }
    mon::nontrivial("refusals", mon::fmt("%d %zu %d", kind, list.size(), ok));
}

// the inlier criteria of each kind of feature, at any pose
MON_TEST(classification, 3000, 60000)
{
    const ref::Pose T = ref::rand_pose(c, 3000), P = disturbed(c, T, c.logu(0.01, 100), c.logu(0.001, 5));
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(P.q, P.t);
    const int kind = (int)c.irange(0, 2);
    if (kind == 0)
    {
        Eigen::Vector2d px;
        const V3 w = visible_point(c, T, 300, 4000, px);
        map_management::PointOptimizationFeature f(ScreenCoordinate2D(px.x(), px.y()), WorldCoordinate(w), V3(1, 1, 1), 3, 4);
        double z;
        const Eigen::Vector2d q = project(P, w, &z);
        const double d = std::fabs(px.x() - q.x()) + std::fabs(px.y() - q.y());
        if (z > 1 and std::fabs(d - 3) > 1e-6)
        {
            check(f.is_inlier(w2c) == (d <= 3), "point_inlier", "reprojection distance %.9g: %d", d, f.is_inlier(w2c));
            const auto r = f.get_distance(w2c);
            check(r.size() == (long)f.get_feature_part_count() and near(r(0), px.x() - q.x(), 1e-6, 1e-5) and near(r(1), px.y() - q.y(), 1e-6, 1e-5), "point_residual",
                  "%.9g %.9g vs %.9g %.9g", r(0), r(1), px.x() - q.x(), px.y() - q.y());
        }
        check(near(f.get_score(), 0.2, 1e-9) and f._idInMap == 3 and f._detectedFeatureId == 4, "point_score", "%g", f.get_score());
        mon::nontrivial("points", mon::fmt("%.1f", std::log(d)));
    }
    else if (kind == 1)
    {
        const V3 nc = V3(c.gauss(), c.gauss(), c.gauss()).normalized();
        const double dc = c.uni(100, 3000);
        V3 nw = ref::cam_to_world(T, nc) - ref::cam_to_world(T, V3::Zero());
        const double dw = -nw.dot(ref::cam_to_world(T, -dc * nc));
        map_management::PlaneOptimizationFeature f(PlaneCameraCoordinates(nc, dc), PlaneWorldCoordinates(nw, dw), Eigen::Vector4d(.1, .1, .1, 1), 3, 4);
        V3 n2; double d2;
        plane_to_cam(P, nw, dw, n2, d2);
        const V3 en = (n2 - nc).cwiseAbs();
        const double ed = std::fabs(d2 - dc);
        const bool clear = std::fabs(en.maxCoeff() - 0.2) > 1e-6 and std::fabs(ed - 50) > 1e-4;
        if (clear) check(f.is_inlier(w2c) == (en.maxCoeff() <= 0.2 and ed <= 50), "plane_inlier", "normal %.6g distance %.6g: %d", en.maxCoeff(), ed, f.is_inlier(w2c));
        const auto r = f.get_distance(w2c);
        const V3 e = dc * nc - d2 * n2;
        check(r.size() == 3 and ref::mnear(Eigen::VectorXd(r), Eigen::VectorXd(e), 1e-6, 1e-4), "plane_residual", "%s", ref::s3(e).c_str());
        check(near(f.get_score(), 1.0 / 3, 1e-9), "plane_score", "%g", f.get_score());
        mon::nontrivial("planes", mon::fmt("%.1f %.1f", std::log(ed), en.norm()));
    }
    else
    {
        // an inverse depth point: all that lies within 3 px (on each axis) of the line of its projected ray, on either side
        Eigen::Vector2d px;
        ref::Pose O = disturbed(c, T, 400, 5);
        if (c.coin(0.3)) O.t = T.t - ref::rot(T.q) * V3(c.uni(-50, 50), c.uni(-50, 50), c.uni(100, 1500)); // the camera moved forward
        const V3 w = visible_point(c, T, 800, 3000, px, 40);
        const V3 o = ref::cam_to_world(O, V3::Zero());
        const InverseDepthWorldPoint ip = InverseDepthWorldPoint::from_cartesian(WorldCoordinate(w), WorldCoordinate(o));
        const double range = (w - o).norm(), rel = c.uni(0.005, 0.03);
        vector6 sd; sd << 1, 1, 1, rel / range, 1e-3, 1e-3;
        const WorldToCameraMatrix t2c = utils::compute_world_to_camera_transform(T.q, T.t);
        const Eigen::Vector2d a = project(T, o + (w - o) / (1 + 3 * rel)), b = project(T, o + (w - o) / (1 - 3 * rel));
        if ((b - a).norm() < 1) return;
        const Eigen::Vector2d dir = (b - a).normalized(), nor(-dir.y(), dir.x());
        const double side = c.uni(-9, 9);
        const Eigen::Vector2d off = side * nor, at = px + off + c.uni(-3, 3) * dir;
        map_management::Point2dOptimizationFeature f(ScreenCoordinate2D(at.x(), at.y()), ip, sd, 3, 4);
        const double m = off.cwiseAbs().maxCoeff();
        if (m > 3.01) check(not f.is_inlier(t2c), "ray_outlier", "offset (%.4g %.4g) px accepted", off.x(), off.y());
        if (m < 2.99) check(f.is_inlier(t2c), "ray_inlier", "offset (%.4g %.4g) px refused", off.x(), off.y());
        const auto r = f.get_distance(t2c);
        check(std::fabs(r.norm() - off.norm()) < 0.01, "ray_residual", "%.6g for an offset of %.6g", r.norm(), off.norm());
        check(near(f.get_score(), 0.2, 1e-9), "ray_score", "%g", f.get_score());
        mon::nontrivial("rays", mon::fmt("%.0f %.0f", off.x(), off.y()));
    }
    mon::observe("classified");
}

// random variations have the distribution they are given
MON_TEST(variations, 200, 3000)
{
    const ref::Pose T = ref::rand_pose(c, 3000);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(T.q, T.t);
    Eigen::Vector2d px;
    const V3 w = visible_point(c, T, 800, 3000, px, 30);
    const V3 sd(c.logu(0.01, 2), c.logu(0.01, 2), c.logu(0.01, 2));
    map_management::PointOptimizationFeature f(ScreenCoordinate2D(px.x(), px.y()), WorldCoordinate(w), sd, 33, 44);
    const int n = 400;
    Eigen::Vector2d mean = Eigen::Vector2d::Zero();
    Eigen::Matrix2d s2 = Eigen::Matrix2d::Zero();
    for (int i = 0; i < n; ++i)
    {
        const auto v = f.compute_random_variation();
        const auto r = v->get_distance(w2c);
        mean += Eigen::Vector2d(r(0), r(1)) / n;
        s2 += Eigen::Vector2d(r(0), r(1)) * Eigen::Vector2d(r(0), r(1)).transpose() / n;
        if (i == 0)
            check(v->_idInMap == 33 and v->_detectedFeatureId == 44 and v->get_feature_type() == FeatureType::Point and v->is_valid(), "variation_identity", "ids or type changed");
    }
    Eigen::Matrix<double, 2, 3> K;
    for (int k = 0; k < 3; ++k)
    {
        V3 h = V3::Zero(); h(k) = 1e-2;
        K.col(k) = (project(T, w - h) - project(T, w + h)) / (2 * 1e-2);
    }
    const Eigen::Matrix2d e = K * sd.cwiseAbs2().asDiagonal() * K.transpose();
    for (int k = 0; k < 2; ++k)
    {
        check(std::fabs(mean(k)) < 6.5 * std::sqrt(e(k, k) / n) + 0.01 * std::sqrt(e(k, k)) + 1e-5, "variation_mean", "%.6g with sd %.6g", mean(k), std::sqrt(e(k, k)));
        check(s2(k, k) > 0.55 * e(k, k) - 1e-8 and s2(k, k) < 1.55 * e(k, k) + 1e-8, "variation_spread", "axis %d: %.6g, %.6g expected", k, s2(k, k), e(k, k));
    }
    mon::observe("variations", n);
    mon::nontrivial("variations", mon::fmt("%.2g", e(0, 0)));
}
// ... of planes: the distance and the direction of the plane vary as their uncertainties say
MON_TEST(plane_variations, 150, 2500)
{
    ref::Pose T = ref::rand_pose(c, 3000);
    T.t.setZero(); // the distance of the plane to the camera is its d
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(T.q, T.t);
    const V3 nc = V3(c.gauss(), c.gauss(), c.gauss()).normalized();
    const double dc = c.uni(300, 4000);
    const V3 nw = ref::cam_to_world(T, nc) - ref::cam_to_world(T, V3::Zero());
    const double sn = c.logu(1e-4, 5e-3), sdist = c.logu(0.01, 10);
    map_management::PlaneOptimizationFeature f(PlaneCameraCoordinates(nc, dc), PlaneWorldCoordinates(nw, dc), Eigen::Vector4d(sn, sn, sn, sdist), 33, 44);
    const int n = 400;
    double md = 0, sd = 0, st = 0;
    for (int i = 0; i < n; ++i)
    {
        const auto v = f.compute_random_variation();
        const auto r = v->get_distance(w2c);
        const V3 at = dc * nc - V3(r(0), r(1), r(2)); // distance times direction of the varied plane
        const double e = at.norm() - dc;
        md += e / n; sd += e * e / n;
        st += (at.normalized() - nc).squaredNorm() / n;
        if (i == 0)
            check(v->_idInMap == 33 and v->_detectedFeatureId == 44 and v->get_feature_type() == FeatureType::Plane and v->is_valid(), "variation_identity", "ids or type changed");
    }
    check(std::fabs(md) < 6.5 * sdist / std::sqrt(n) + 1e-6, "plane_variation_mean", "%.6g mm with sd %.6g", md, sdist);
    check(sd > 0.55 * sdist * sdist and sd < 1.55 * sdist * sdist, "plane_variation_spread", "%.6g mm2, %.6g expected", sd, sdist * sdist);
    // two independent directions tangent to the normal
    check(st > 0.6 * 2 * sn * sn and st < 1.5 * 2 * sn * sn, "plane_direction_spread", "%.6g, %.6g expected", st, 2 * sn * sn);
    mon::observe("variations", n);
    mon::nontrivial("plane_variations", mon::fmt("%.2g %.2g", sn, sdist));
}
// ... of rays: their direction varies as its uncertainty says
MON_TEST(ray_variations, 100, 1500)
{
    const ref::Pose T = ref::rand_pose(c, 2000);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(T.q, T.t);
    Eigen::Vector2d px;
    const ref::Pose O = disturbed(c, T, 300, 3);
    const V3 w = visible_point(c, T, 800, 3000, px, 60);
    const V3 o = ref::cam_to_world(O, V3::Zero());
    const InverseDepthWorldPoint ip = InverseDepthWorldPoint::from_cartesian(WorldCoordinate(w), WorldCoordinate(o));
    const double rel = c.uni(0.005, 0.03), sth = c.logu(2e-5, 5e-4), sph = c.logu(2e-5, 5e-4);
    // far from the ends of the angles
    if (std::fabs(ip.get_phi()) > 3 or ip.get_theta() < 0.3 or ip.get_theta() > M_PI - 0.3) return;
    if ((project(T, o + (w - o) / (1 + 3 * rel)) - project(T, o + (w - o) / (1 - 3 * rel))).norm() < 2) return;
    vector6 sd; sd << 1, 1, 1, rel / (w - o).norm(), sth, sph;
    map_management::Point2dOptimizationFeature f(ScreenCoordinate2D(px.x(), px.y()), ip, sd, 33, 44);
    const int n = 400;
    Eigen::Matrix2d got = Eigen::Matrix2d::Zero(), expected = Eigen::Matrix2d::Zero();
    Eigen::Vector2d mean = Eigen::Vector2d::Zero();
    for (int i = 0; i < n; ++i)
    {
        const auto v = f.compute_random_variation();
        const auto r = v->get_distance(w2c);
        const Eigen::Vector2d e(r(0), r(1));
        got += e * e.transpose() / n; mean += e / n;
        if (i == 0)
            check(v->_idInMap == 33 and v->_detectedFeatureId == 44 and v->get_feature_type() == FeatureType::Point2d and v->is_valid(), "variation_identity", "ids or type changed");
    }
    for (int k = 0; k < 2; ++k)
    {
        // effect of one standard deviation of each angle
        const double h = 1e-6;
        auto at = [&](double s) {
            const map_management::Point2dOptimizationFeature g(ScreenCoordinate2D(px.x(), px.y()),
                    InverseDepthWorldPoint(WorldCoordinate(o), ip.get_inverse_depth(), ip.get_theta() + (k == 0 ? s * h : 0), ip.get_phi() + (k == 1 ? s * h : 0)), sd, 33, 44);
            const auto r = g.get_distance(w2c);
            return Eigen::Vector2d(r(0), r(1));
        };
        const Eigen::Vector2d J = (at(1) - at(-1)) / (2 * h) * (k == 0 ? sth : sph);
        expected += J * J.transpose();
    }
    const double t = expected.trace();
    check(mean.norm() < 6.5 * std::sqrt(t / n) + 1e-4, "ray_variation_mean", "%.6g px with sd %.6g", mean.norm(), std::sqrt(t));
    check(got.trace() > 0.55 * t - 1e-8 and got.trace() < 1.55 * t + 1e-8, "ray_variation_spread", "%.6g px2, %.6g expected", got.trace(), t);
    mon::observe("variations", n);
    mon::nontrivial("ray_variations", mon::fmt("%.2g %.2g", sth, sph));
}


MON_TEST(coefficients, 20000, 400000)
{
    ref::Pose P = ref::rand_pose(c, 5000);
    if (c.coin(0.3))
    {
        // near a half turn around the optical axis, with either sign of the quaternion
        const V3 s(c.gauss(), c.gauss(), c.gauss());
        P.q = qmul(Q(0, 0, 0, c.coin() ? 1 : -1), small_rot(s * c.logu(1e-9, 0.5)));
    }
    Eigen::Matrix<double, 6, 1> k = pose_optimization::get_optimization_coefficient_from_pose(to_repo(P));
    Eigen::Matrix<double, 7, 6> J;
    if (c.coin(0.5))
    {
        // coefficients that the optimisation can reach on its way, but that no pose is given at first
        k.tail<3>() *= c.logu(0.2, 5);
        const Q q = pose_optimization::get_pose_from_optimization_coefficients(k).get_orientation_quaternion();
        check(std::fabs(q.norm() - 1) < 1e-9, "coefficients_any_rotation", "norm %.9g", q.norm());
        P.q = q;
        mon::observe("events.free_coefficients");
    }
    const utils::PoseBase a = pose_optimization::get_pose_from_optimization_coefficients(k), b = pose_optimization::get_pose_from_optimization_coefficients(k, J);
    check(k.allFinite(), "coefficients_finite", "not finite");
    check(rot_angle(a.get_orientation_quaternion(), P.q) < 1e-6 and (a.get_position() - P.t).norm() < 1e-9, "coefficients_roundtrip",
          "%.6g rad off for quaternion (%.9g %.9g %.9g %.9g)", rot_angle(a.get_orientation_quaternion(), P.q), P.q.w(), P.q.x(), P.q.y(), P.q.z());
    check(rot_angle(a.get_orientation_quaternion(), b.get_orientation_quaternion()) < 1e-12, "coefficients_same", "two poses for the same coefficients");
    // the jacobian is the derivative of the pose, ordered position, w, x, y, z
    for (int i = 0; i < 6; ++i)
    {
        const double h = i < 3 ? 1e-3 : 1e-6 * std::max(1.0, std::fabs(k(i)));
        Eigen::Matrix<double, 6, 1> kp = k, km = k;
        kp(i) += h; km(i) -= h;
        const auto p = pose_optimization::get_pose_from_optimization_coefficients(kp), m = pose_optimization::get_pose_from_optimization_coefficients(km);
        Eigen::Matrix<double, 7, 1> d;
        const Q qp = p.get_orientation_quaternion(), qm = m.get_orientation_quaternion();
        d << (p.get_position() - m.get_position()), qp.w() - qm.w(), qp.x() - qm.x(), qp.y() - qm.y(), qp.z() - qm.z();
        d /= 2 * h;
        check((d - J.col(i)).norm() < 1e-5 * (1 + d.norm()), "coefficients_jacobian", "column %d: (%.6g %.6g %.6g %.6g) vs (%.6g %.6g %.6g %.6g)", i, J(3, i), J(4, i),
              J(5, i), J(6, i), d(3), d(4), d(5), d(6));
    }
    mon::observe("coefficients");
    mon::nontrivial("coefficients", mon::fmt("%.1f %.1f %.1f", P.q.w(), P.q.x(), P.q.z()));
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, mon::load_config); }
