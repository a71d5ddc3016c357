// C03: uncertainties stay valid covariances and are propagated to first order through every frame change.
#include "config.hpp"
#include "geo.hpp"
#include "utils/camera_transformation.hpp"
#include "utils/covariances.hpp"
using namespace rgbd_slam;
using mon::check;
using mon::near;
using ref::V3;
static mon::Cam C() { return mon::cfg().c1; }

template<class A, class B> static bool cov_eq(const A& a, const B& b, double rel = 1e-6) { return ref::mnear(a, b, rel, 1e-12); }
// element wise, scaled by the standard deviations
static bool cov_close(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b, double tol)
{
    if (!a.allFinite()) return false;
    for (int i = 0; i < a.rows(); ++i)
        for (int j = 0; j < a.cols(); ++j)
        {
            const double s = std::sqrt(std::abs(b(i, i) * b(j, j))) + 1e-14;
            if (!(std::abs(a(i, j) - b(i, j)) <= tol * s)) return false;
        }
    return true;
}
static std::string m2s(const Eigen::MatrixXd& m) { std::stringstream s; s << m.format(Eigen::IOFormat(6, Eigen::DontAlignCols, ",", ";")); return s.str(); }

template<int N> static void validity(mon::Ctx& c)
{
    using M = Eigen::Matrix<double, N, N>;
    M m = ref::rand_cov(c, N, 1e-3, 1e3);
    check(utils::is_covariance_valid(m), "valid_covariance_accepted", "dim %d", N);
    check(utils::is_covariance_valid(M(M::Identity() * c.logu(1e-8, 1e8))), "scaled_identity_accepted", "dim %d", N);
    const int i = (int)c.irange(0, N - 1), j = (int)c.irange(0, N - 1);
    M b = m;
    const int kind = (int)c.irange(0, 4);
    bool bad = true;
    switch (kind)
    {
        case 0: b(i, j) = b(j, i) = std::nan(""); break;
        case 1: b(i, j) = b(j, i) = (c.coin() ? 1 : -1) * INFINITY; break;
        case 2:
            if (i == j) { bad = false; break; }
            b(i, j) += m.norm() * c.uni(0.01, 2);
            break;
        case 3: b(i, i) = -m.norm() * c.uni(0.01, 2); break;
        case 4:
        { // one clearly negative eigen value
            Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> s{Eigen::MatrixXd(m)};
            Eigen::VectorXd ev = s.eigenvalues();
            ev(i) = -ev.maxCoeff() * c.uni(0.05, 1);
            Eigen::MatrixXd q = s.eigenvectors() * ev.asDiagonal() * s.eigenvectors().transpose();
            b = 0.5 * (q + q.transpose());
            break;
        }
    }
    std::string why;
    if (bad)
    {
        check(!utils::is_covariance_valid(b), "invalid_covariance_rejected", "dim %d kind %d: %s", N, kind, m2s(b).c_str());
        check(!utils::is_covariance_valid(b, why) && !why.empty(), "rejection_has_a_reason", "dim %d kind %d", N, kind);
    }
    mon::nontrivial("validity", mon::fmt("%d %d %d %d", N, kind, i, j));
}
MON_TEST(covariance_validity, 2000, 30000)
{
    validity<2>(c); validity<3>(c); validity<4>(c); validity<6>(c);
    Eigen::Matrix<double, 1, 1> one;
    one(0, 0) = c.uni(-1, 1);
    check(utils::is_covariance_valid(one) == (one(0, 0) >= 0), "variance_1d", "%.6g", one(0, 0));
}

MON_TEST(propagation, 2000, 30000)
{
    const matrix33 S = ref::rand_cov(c, 3, 1e-2, 1e2);
    Eigen::Matrix<double, 4, 3> J;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) J(i, j) = c.coin(0.1) ? 0 : c.gauss() * 3;
    const double eps = c.coin() ? 0.0 : c.uni(0, 1);
    Eigen::Matrix4d R = Eigen::Matrix4d::Zero();
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
            for (int k = 0; k < 3; ++k)
                for (int l = 0; l < 3; ++l) R(i, j) += J(i, k) * S(k, l) * J(j, l);
    for (int i = 0; i < 4; ++i) R(i, i) += eps;
    const Eigen::Matrix4d G = utils::propagate_covariance(S, J, eps);
    check(cov_eq(G, R, 1e-9), "first_order_propagation", "got %s expected %s", m2s(G).c_str(), m2s(R).c_str());
    mon::nontrivial("propagation", mon::fmt("%d", (int)(R.trace() * 10)));
}

MON_TEST(point_covariances, 2500, 50000)
{
    const V3 s(c.uni(0, C().w), c.uni(0, C().h), c.uni(41, 6000));
    const ScreenCoordinate sp(s.x(), s.y(), s.z());
    // sensor noise model
    const ScreenCoordinateCovariance sc = sp.get_covariance();
    check(utils::is_covariance_valid(sc) && ref::psd(sc) && sc.diagonal().minCoeff() > 0, "pixel_covariance_valid", "%s", m2s(sc).c_str());
    check(ref::mnear(sc.block<2, 2>(0, 0), sp.get_2D().get_covariance(), 1e-12, 0), "pixel_covariance_2d", "%s", m2s(sc).c_str());
    const double q = utils::get_depth_quantization(s.z());
    check(q >= 0.5 && near(q, std::max(-0.53 + 0.74e-3 * s.z() + 2.73e-6 * s.z() * s.z(), 0.5), 1e-9), "depth_quantization", "z=%.6g q=%.6g", s.z(), q);
    check(near(sc(2, 2), q, 1e-9), "depth_variance", "z=%.6g %.6g", s.z(), sc(2, 2));
    const ScreenCoordinateCovariance bad = ScreenCoordinate(s.x(), s.y(), c.coin() ? c.uni(6001, 20000) : c.uni(0, 39)).get_covariance();
    check(ref::psd(bad) && bad(2, 2) > sc(2, 2), "unreliable_depth_is_less_certain", "%.6g", bad(2, 2));

    // image -> camera
    const Eigen::MatrixXd rs = ref::rand_cov(c, 3, 1e-2, 1e2);
    ScreenCoordinateCovariance given;
    given << matrix33(rs);
    Eigen::Matrix3d J; // of back projection
    J << s.z() / C().fx, 0, (s.x() - C().cx) / C().fx, 0, s.z() / C().fy, (s.y() - C().cy) / C().fy, 0, 0, 1;
    const CameraCoordinateCovariance cc = utils::get_camera_point_covariance(sp, given);
    check(cov_close(cc, J * rs * J.transpose(), 1e-6), "image_to_camera_covariance", "pixel %s got %s expected %s", ref::s3(s).c_str(), m2s(cc).c_str(), m2s(J * rs * J.transpose()).c_str());
    const CameraCoordinateCovariance cc0 = utils::get_camera_point_covariance(sp);
    check(cov_close(cc0, J * Eigen::Matrix3d(sc) * J.transpose(), 1e-6), "image_to_camera_default_covariance", "pixel %s", ref::s3(s).c_str());

    // camera -> image
    const V3 p((s.x() - C().cx) / C().fx * s.z(), (s.y() - C().cy) / C().fy * s.z(), s.z());
    const Eigen::MatrixXd rc = ref::rand_cov(c, 3, 1e-1, 1e3);
    CameraCoordinateCovariance cam;
    cam << matrix33(rc);
    Eigen::Matrix3d K;
    K << C().fx / p.z(), 0, -C().fx * p.x() / (p.z() * p.z()), 0, C().fy / p.z(), -C().fy * p.y() / (p.z() * p.z()), 0, 0, 1;
    const ScreenCoordinateCovariance back = utils::get_screen_point_covariance(CameraCoordinate(p.x(), p.y(), p.z()), cam);
    check(cov_close(back, K * rc * K.transpose(), 1e-6), "camera_to_image_covariance", "point %s got %s", ref::s3(p).c_str(), m2s(back).c_str());
    // both directions cancel out
    check(cov_close(utils::get_camera_point_covariance(sp, utils::get_screen_point_covariance(CameraCoordinate(p.x(), p.y(), p.z()), cam)), rc, 1e-5), "covariance_roundtrip", "pixel %s", ref::s3(s).c_str());

    // camera <-> world
    const ref::Pose P = ref::rand_pose(c);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(P.q, P.t);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(P.q, P.t);
    Eigen::Matrix3d R;
    for (int k = 0; k < 3; ++k) R.col(k) = ref::cam_axes_to_world(ref::rot(P.q).col(k));
    const Eigen::MatrixXd pc = ref::rand_cov(c, 3, 1e-2, 1e2);
    const WorldCoordinateCovariance wc = utils::get_world_point_covariance(cam, c2w, matrix33(pc));
    check(cov_close(wc, R * rc * R.transpose() + pc, 1e-6), "camera_to_world_covariance", "t=%s got %s", ref::s3(P.t).c_str(), m2s(wc).c_str());
    const WorldCoordinateCovariance wc2 = utils::get_world_point_covariance(sp, c2w, matrix33(pc));
    check(cov_close(wc2, R * (J * Eigen::Matrix3d(sc) * J.transpose()) * R.transpose() + pc, 1e-6), "image_to_world_covariance", "pixel %s", ref::s3(s).c_str());
    WorldCoordinateCovariance win;
    win << matrix33(rc);
    const CameraCoordinateCovariance cb = utils::get_camera_point_covariance(win, w2c, matrix33(pc));
    check(cov_close(cb, R.transpose() * rc * R + pc, 1e-6), "world_to_camera_covariance", "got %s", m2s(cb).c_str());
    check(utils::is_covariance_valid(cc) && utils::is_covariance_valid(back) && utils::is_covariance_valid(wc) && utils::is_covariance_valid(wc2) && utils::is_covariance_valid(cb),
          "propagated_covariance_valid", "pixel %s", ref::s3(s).c_str());
    mon::nontrivial("points", mon::fmt("%d %d %d", (int)(s.x() / 10), (int)(s.y() / 10), (int)(s.z() / 200)));
    mon::sample("points", "pixel " + ref::s3(s) + " world covariance " + m2s(wc2));
}

template<class F> static bool refuses(F f)
{
    try { f(); } catch (const std::exception&) { return true; }
    return false;
}

MON_TEST(plane_covariances, 2500, 50000)
{
    V3 n(c.gauss(), c.gauss(), c.gauss());
    n.normalize();
    const double d = (c.coin() ? 1 : -1) * c.uni(50, 6000);
    const PlaneCameraCoordinates plane(vector3(n), d);
    const matrix33 cloud = ref::rand_cov(c, 3, 1e-1, 1e3);
    matrix44 pc;
    const bool r1 = refuses([&] { pc = utils::compute_plane_covariance(plane, cloud); });
    if (!check(!r1, "plane_covariance_computed", "valid plane n=%s d=%.6g was refused", ref::s3(n).c_str(), d)) return;
    // normal block: derivative of the direction of v = n.d ; documented parametrisation (v, 1)/|v|
    const V3 v = n * d;
    Eigen::Matrix<double, 4, 3> J;
    for (int j = 0; j < 3; ++j)
    {
        const double h = 1e-4 * std::abs(d);
        V3 a = v, b = v;
        a(j) += h; b(j) -= h;
        J.block<3, 1>(0, j) = (a / a.norm() - b / b.norm()) / (2 * h);
        J(3, j) = (1.0 / a.norm() - 1.0 / b.norm()) / (2 * h);
    }
    Eigen::Matrix4d R = J * cloud * J.transpose() + 0.01 * Eigen::Matrix4d::Identity();
    check(cov_close(pc, R, 1e-4), "plane_covariance", "got %s expected %s", m2s(pc).c_str(), m2s(R).c_str());
    check(utils::is_covariance_valid(pc) && ref::psd(pc), "plane_covariance_valid", "%s", m2s(pc).c_str());
    // back to a point: v = n.d
    const matrix44 pin = ref::rand_cov(c, 4, 1e-6, 1e-2);
    Eigen::Matrix<double, 3, 4> K;
    K << d, 0, 0, n.x(), 0, d, 0, n.y(), 0, 0, d, n.z();
    matrix33 red;
    if (!check(!refuses([&] { red = utils::compute_reduced_plane_point_cloud_covariance(plane, pin); }), "reduced_plane_covariance_computed", "n=%s d=%.6g", ref::s3(n).c_str(), d)) return;
    const Eigen::Matrix3d Rr = K * pin * K.transpose() + 0.01 * Eigen::Matrix3d::Identity();
    check(cov_close(red, Rr, 1e-6) && utils::is_covariance_valid(red), "reduced_plane_covariance", "got %s", m2s(red).c_str());
    // to world: rotate the point form and add the pose uncertainty
    const ref::Pose P = ref::rand_pose(c);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(P.q, P.t);
    const PlaneCameraToWorldMatrix pc2w = utils::compute_plane_camera_to_world_matrix(c2w);
    Eigen::Matrix3d Rot;
    for (int k = 0; k < 3; ++k) Rot.col(k) = ref::cam_axes_to_world(ref::rot(P.q).col(k));
    const matrix33 pose = ref::rand_cov(c, 3, 1e-1, 1e2);
    const V3 nw = Rot * n;
    const double dw = -nw.dot(ref::cam_to_world(P, V3(n * -d)));
    if (std::abs(dw) > 10)
    {
        matrix44 w;
        if (check(!refuses([&] { w = utils::get_world_plane_covariance(plane, c2w, pc2w, pin, pose); }), "world_plane_covariance_computed", "n=%s d=%.6g world d=%.6g", ref::s3(n).c_str(), d, dw))
        {
            const Eigen::Matrix3d wcloud = Rot * Rr * Rot.transpose() + pose;
            const V3 vw = nw * dw;
            Eigen::Matrix<double, 4, 3> Jw;
            for (int j = 0; j < 3; ++j)
            {
                const double h = 1e-4 * std::abs(dw);
                V3 a = vw, b = vw;
                a(j) += h; b(j) -= h;
                Jw.block<3, 1>(0, j) = (a / a.norm() - b / b.norm()) / (2 * h);
                Jw(3, j) = (1.0 / a.norm() - 1.0 / b.norm()) / (2 * h);
            }
            const Eigen::Matrix4d Rw = Jw * wcloud * Jw.transpose() + 0.01 * Eigen::Matrix4d::Identity();
            check(cov_close(w, Rw, 1e-4) && utils::is_covariance_valid(w), "world_plane_covariance", "got %s expected %s", m2s(w).c_str(), m2s(Rw).c_str());
        }
    }
    // invalid input is refused, never turned into a covariance
    matrix33 badc = cloud;
    matrix44 badp = pin;
    switch (c.irange(0, 2))
    {
        case 0: badc(1, 1) = std::nan(""); badp(2, 2) = std::nan(""); break;
        case 1: badc(0, 0) = -cloud.norm(); badp(3, 3) = -pin.norm(); break;
        default: badc(0, 2) += cloud.norm(); badp(0, 2) += pin.norm(); break;
    }
    check(refuses([&] { (void)utils::compute_plane_covariance(plane, badc); }), "invalid_cloud_covariance_refused", "%s", m2s(badc).c_str());
    check(refuses([&] { (void)utils::compute_reduced_plane_point_cloud_covariance(plane, badp); }), "invalid_plane_covariance_refused", "%s", m2s(badp).c_str());
    check(refuses([&] { (void)utils::get_world_plane_covariance(plane, c2w, pc2w, badp, pose); }), "invalid_world_plane_covariance_refused", "%s", m2s(badp).c_str());
    const PlaneCameraCoordinates through(vector3(n), 0.0);
    check(refuses([&] { (void)utils::compute_plane_covariance(through, cloud); }) && refuses([&] { (void)utils::compute_reduced_plane_point_cloud_covariance(through, pin); }), "plane_through_origin_refused", "n=%s", ref::s3(n).c_str());
    mon::nontrivial("planes", mon::fmt("%d %d %d", (int)(n.x() * 10), (int)(n.y() * 10), (int)(d / 300)));
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, mon::load_config); }
