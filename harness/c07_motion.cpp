// C07: poses and the motion model.
#include "config.hpp"
#include "geo.hpp"
#include "tracking/motion_model.hpp"
#include "utils/pose.hpp"
#include "utils/angle_utils.hpp"
using namespace rgbd_slam;
using mon::check;
using mon::near;
using ref::M3;
using ref::V3;
using ref::Q;
static double angle_deg(const M3& a, const M3& b)
{
    const M3 d = a.transpose() * b;
    const V3 s(d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1));
    return std::atan2(s.norm() / 2, (d.trace() - 1) / 2) * 180 / M_PI;
}
static matrix66 rcov(mon::Ctx& c) { return matrix66(ref::rand_cov(c, 6, 1e-4, 100)); }

MON_TEST(pose, 2000, 30000)
{
    const ref::Pose A = ref::rand_pose(c), B = ref::rand_pose(c);
    const double s = c.coin() ? 1.0 : c.uni(0.2, 5);
    const Q aq(A.q.w() * s, A.q.x() * s, A.q.y() * s, A.q.z() * s);
    const matrix66 var = rcov(c);
    const utils::Pose a(A.t, aq, var), b(B.t, B.q);
    check(near(a.get_orientation_quaternion().norm(), 1, 0, 1e-12), "orientation_is_unit", "scale %.4g", s);
    check(ref::mnear(a.get_orientation_matrix(), ref::rot(A.q), 1e-12, 1e-12), "orientation_kept", "scale %.4g", s);
    check((a.get_position() - A.t).norm() == 0 && a.get_pose_variance() == var && a.get_position_variance() == matrix33(var.block<3, 3>(0, 0)), "pose_holds_what_it_was_given", "%s", ref::s3(A.t).c_str());
    check(b.get_pose_variance().norm() == 0, "default_variance_is_null", "%.4g", b.get_pose_variance().norm());
    const double d = a.get_position_error(b), r = a.get_rotation_error(b);
    check(near(d, (A.t - B.t).norm(), 1e-12, 1e-9) && near(d, b.get_position_error(a), 1e-12), "position_error", "%.9g", d);
    check(near(r, angle_deg(ref::rot(A.q), ref::rot(B.q)), 1e-6, 1e-4) && near(r, b.get_rotation_error(a), 1e-9, 1e-6), "rotation_error_degrees", "%.9g vs %.9g", r, angle_deg(ref::rot(A.q), ref::rot(B.q)));
    const Q neg(-A.q.w(), -A.q.x(), -A.q.y(), -A.q.z());
    check(a.get_rotation_error(utils::Pose(A.t, neg)) < 1e-4, "opposite_quaternions_are_the_same_orientation", "%.6g", a.get_rotation_error(utils::Pose(A.t, neg)));
    const vector6 v = a.get_vector();
    const M3 e = (Eigen::AngleAxisd(v(3), V3::UnitX()) * Eigen::AngleAxisd(v(4), V3::UnitY()) * Eigen::AngleAxisd(v(5), V3::UnitZ())).toRotationMatrix();
    check((v.head<3>() - A.t).norm() == 0 && ref::mnear(e, ref::rot(A.q), 1e-7, 1e-7), "pose_vector", "%.4g %.4g %.4g", v(3), v(4), v(5));
    const EulerAngles ea = utils::get_euler_angles_from_quaternion(a.get_orientation_quaternion());
    check(ref::mnear(ref::rot(utils::get_quaternion_from_euler_angles(ea)), ref::rot(A.q), 1e-7, 1e-7), "euler_round_trip", "%.4g %.4g %.4g", ea.yaw, ea.pitch, ea.roll);
    utils::Pose u(a);
    u.update(B.t, B.q);
    check((u.get_position() - (A.t + B.t)).norm() < 1e-9 && ref::mnear(u.get_orientation_matrix(), M3(ref::rot(A.q) * ref::rot(B.q)), 1e-9, 1e-9), "pose_update_composes", "%s", ref::s3(B.t).c_str());
    check((a.get_position() - A.t).norm() == 0, "copies_are_independent", "%s", ref::s3(A.t).c_str());
    u.set_parameters(B.t, B.q);
    u.set_position_variance(var);
    check(u.get_position_error(b) == 0 && u.get_rotation_error(b) < 1e-4 && u.get_pose_variance() == var, "pose_set", "%s", ref::s3(B.t).c_str());
    mon::nontrivial("pose", mon::fmt("%d %d %d", (int)(A.t.x() / 200), (int)(A.q.x() * 20), (int)(r / 5)));
}

MON_TEST(constant_motion, 600, 10000)
{
    const ref::Pose A = ref::rand_pose(c);
    const V3 v = c.coin(0.1) ? V3::Zero() : V3(c.uni(-50, 50), c.uni(-50, 50), c.uni(-50, 50));
    V3 ax(c.gauss(), c.gauss(), c.gauss());
    ax.normalize();
    const double w = c.coin(0.1) ? 0.0 : c.logu(1e-4, 0.3);
    const Q dq(Eigen::AngleAxisd(w, ax));
    tracking::Motion_Model mm;
    if (c.coin()) mm.reset(A.t, A.q);
    V3 t = A.t;
    Q q = A.q;
    const int steps = (int)c.irange(45, 70);
    for (int i = 0; i < steps; ++i)
    {
        const bool flip = c.coin(0.1); // an estimator may return either sign of the quaternion
        const matrix66 var = rcov(c);
        const bool inc = c.coin();
        const utils::Pose cur(t, flip ? Q(-q.w(), -q.x(), -q.y(), -q.z()) : q, var);
        const utils::Pose nx = mm.predict_next_pose(cur, inc);
        check(near(nx.get_orientation_quaternion().norm(), 1, 0, 1e-9), "predicted_orientation_is_unit", "step %d", i);
        const Eigen::MatrixXd dv = nx.get_pose_variance() - var;
        check(ref::psd(dv) || dv.norm() < 1e-9, "prediction_never_more_certain", "step %d", i);
        if (i > 1)
        {
            if (inc) check(dv.diagonal().minCoeff() > 0, "prediction_adds_uncertainty_when_asked", "step %d", i);
            else check(dv.norm() < 1e-9, "prediction_keeps_variance_otherwise", "step %d %.4g", i, dv.norm());
        }
        t += v;
        q = (dq * q).normalized();
        // the smoothed velocity converges to the true one: the prediction converges to the pose actually reached
        const double left = std::pow(0.62, i); // slower than any reasonable smoothing would be after 40 steps
        const double pe = (nx.get_position() - t).norm(), re = angle_deg(ref::rot(nx.get_orientation_quaternion()), ref::rot(q));
        if (i >= 40)
        {
            check(pe < 1e-4 + v.norm() * left * 10, "constant_motion_position_predicted", "step %d error %.6g of velocity %.4g", i, pe, v.norm());
            check(re < 1e-4 + w * 180 / M_PI * left * 10, "constant_motion_orientation_predicted", "step %d error %.6g deg of %.4g deg per frame", i, re, w * 180 / M_PI);
        }
        // never worse than twice the motion itself, even before convergence
        check(pe <= 1.001 * v.norm() + 1e-6 && re <= 1.001 * w * 180 / M_PI + 1e-4, "prediction_not_worse_than_standing_still", "step %d %.4g %.4g", i, pe, re);
    }
    check((mm.get_position_velocity() - v).norm() < 1e-4 + 1e-3 * v.norm(), "linear_velocity_estimated", "%s vs %s", ref::s3(mm.get_position_velocity()).c_str(), ref::s3(v).c_str());
    check(std::abs(2 * std::acos(std::min(1.0, std::abs(mm.get_angular_velocity().w()))) - w) < 1e-3 * w + 1e-5, "angular_velocity_estimated", "%.6g", w);
    // standing still: the prediction comes to rest, monotonically
    double last = 1e9;
    for (int i = 0; i < 40; ++i)
    {
        const utils::Pose nx = mm.predict_next_pose(utils::Pose(t, q));
        const double m = (nx.get_position() - t).norm();
        check(m <= last * 1.0000001 + 1e-9, "velocity_decays", "step %d %.6g after %.6g", i, m, last);
        last = m;
    }
    const utils::Pose rest = mm.predict_next_pose(utils::Pose(t, q));
    check((rest.get_position() - t).norm() < 1e-3 && angle_deg(ref::rot(rest.get_orientation_quaternion()), ref::rot(q)) < 1e-3, "rest_is_predicted", "%.6g", (rest.get_position() - t).norm());
    mon::nontrivial("motion", mon::fmt("%d %d %d %d", (int)(v.x() / 5), (int)(w * 100), (int)(A.q.x() * 8), (int)(ax.z() * 8)));
    mon::sample("motion", mon::fmt("velocity %s rotation %.4g rad per frame over %d frames", ref::s3(v).c_str(), w, steps));
}
MON_TEST(smoothing, 1500, 20000)
{
    // one arbitrary step: the new velocity lies between the previous velocity and the measured displacement
    tracking::Motion_Model mm;
    const ref::Pose A = ref::rand_pose(c), B = ref::rand_pose(c), C = ref::rand_pose(c);
    const utils::Pose f = mm.predict_next_pose(utils::Pose(A.t, A.q));
    check((f.get_position() - A.t).norm() < 1e-9 && angle_deg(ref::rot(f.get_orientation_quaternion()), ref::rot(A.q)) < 1e-4, "first_prediction_is_the_pose", "%s", ref::s3(A.t).c_str());
    (void)mm.predict_next_pose(utils::Pose(B.t, B.q));
    const V3 v0 = mm.get_position_velocity();
    const utils::Pose p = mm.predict_next_pose(utils::Pose(C.t, C.q));
    const V3 v1 = mm.get_position_velocity(), meas = C.t - B.t;
    const double den = (meas - v0).squaredNorm();
    if (den > 1)
    {
        const double l = (v1 - v0).dot(meas - v0) / den;
        check(l > 0.05 && l <= 1 + 1e-9 && (v1 - (v0 + (meas - v0) * l)).norm() < 1e-6 * (1 + v1.norm()), "velocity_between_previous_and_measured", "%.6g", l);
    }
    check((p.get_position() - (C.t + v1)).norm() < 1e-6, "position_is_current_plus_velocity", "%s", ref::s3(p.get_position()).c_str());
    mm.reset(A.t, A.q);
    check(mm.get_position_velocity().norm() == 0 && std::abs(std::abs(mm.get_angular_velocity().w()) - 1) < 1e-12, "reset_clears_velocity", "%.4g", mm.get_position_velocity().norm());
    const utils::Pose s = mm.predict_next_pose(utils::Pose(A.t, A.q));
    check((s.get_position() - A.t).norm() < 1e-6 && angle_deg(ref::rot(s.get_orientation_quaternion()), ref::rot(A.q)) < 1e-4, "reset_to_pose", "%s", ref::s3(A.t).c_str());
    mm.reset();
    const utils::Pose r = mm.predict_next_pose(utils::Pose(B.t, B.q));
    check((r.get_position() - B.t).norm() < 1e-6, "reset_forgets_position", "%s", ref::s3(B.t).c_str());
    mon::nontrivial("smoothing", mon::fmt("%d %d", (int)(B.t.x() / 100), (int)(C.t.y() / 100)));
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, mon::load_config); }
