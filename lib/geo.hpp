// Reference geometry, written independently of the code under test (plain arrays / own formulas, no calls into /repo).
#pragma once
#include "mon.hpp"
#include <Eigen/Dense>
#include <array>
namespace ref {
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;
using M4 = Eigen::Matrix4d;
using Q = Eigen::Quaterniond;
// rotation matrix of a unit quaternion, expanded by hand
inline M3 rot(const Q& q)
{
    const double n = q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z();
    const double w = q.w(), x = q.x(), y = q.y(), z = q.z(), s = 2.0 / n;
    M3 r;
    r(0, 0) = 1 - s * (y * y + z * z); r(0, 1) = s * (x * y - w * z);     r(0, 2) = s * (x * z + w * y);
    r(1, 0) = s * (x * y + w * z);     r(1, 1) = 1 - s * (x * x + z * z); r(1, 2) = s * (y * z - w * x);
    r(2, 0) = s * (x * z - w * y);     r(2, 1) = s * (y * z + w * x);     r(2, 2) = 1 - s * (x * x + y * y);
    return r;
}
// camera axes (x right, y down, z forward) to world axes (x forward, y left, z up)
inline V3 cam_axes_to_world(const V3& p) { return V3(p.z(), -p.x(), -p.y()); }
inline V3 world_axes_to_cam(const V3& p) { return V3(-p.y(), -p.z(), p.x()); }
struct Pose { Q q; V3 t; };
inline V3 cam_to_world(const Pose& P, const V3& c) { return cam_axes_to_world(rot(P.q) * c + P.t); }
inline V3 world_to_cam(const Pose& P, const V3& w) { return rot(P.q).transpose() * (world_axes_to_cam(w) - P.t); }
inline Q rand_quat(mon::Ctx& c)
{
    if (c.coin(0.08)) return Q::Identity();
    if (c.coin(0.3))
    { // small rotation
        V3 ax(c.gauss(), c.gauss(), c.gauss());
        ax.normalize();
        const double a = c.logu(1e-5, 0.5) / 2;
        return Q(std::cos(a), ax.x() * std::sin(a), ax.y() * std::sin(a), ax.z() * std::sin(a));
    }
    Q q(c.gauss(), c.gauss(), c.gauss(), c.gauss());
    q.normalize();
    return q;
}
inline Pose rand_pose(mon::Ctx& c, double range = 5000)
{
    Pose p;
    p.q = rand_quat(c);
    p.t = c.coin(0.05) ? V3(0, 0, 0) : V3(c.uni(-range, range), c.uni(-range, range), c.uni(-range, range));
    return p;
}
template<class A, class B> inline bool mnear(const A& a, const B& b, double rel, double abst)
{
    double s = 0;
    for (int i = 0; i < a.rows(); ++i)
        for (int j = 0; j < a.cols(); ++j) s = std::max({s, std::abs(a(i, j)), std::abs(b(i, j))});
    for (int i = 0; i < a.rows(); ++i)
        for (int j = 0; j < a.cols(); ++j)
            if (!(std::abs(a(i, j) - b(i, j)) <= abst + rel * s)) return false;
    return true;
}
inline bool psd(const Eigen::MatrixXd& m, double tol = 1e-9)
{
    if (!m.allFinite()) return false;
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> s(0.5 * (m + m.transpose()), Eigen::EigenvaluesOnly);
    const double big = std::max(1e-300, s.eigenvalues().cwiseAbs().maxCoeff());
    return s.eigenvalues().minCoeff() >= -tol * big;
}
inline Eigen::MatrixXd rand_cov(mon::Ctx& c, int n, double lo, double hi)
{
    Eigen::MatrixXd a(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = c.gauss();
    Eigen::HouseholderQR<Eigen::MatrixXd> qr(a);
    Eigen::MatrixXd q = qr.householderQ();
    Eigen::VectorXd d(n);
    for (int i = 0; i < n; ++i) d(i) = c.logu(lo, hi);
    Eigen::MatrixXd m = q * d.asDiagonal() * q.transpose();
    return 0.5 * (m + m.transpose());
}
inline std::string s3(const V3& v) { return mon::fmt("(%.6g,%.6g,%.6g)", v.x(), v.y(), v.z()); }
} // namespace ref
