// C21: the whole system follows a camera through synthetic rooms.
#include "video.hpp"
#include "rgbd_slam.hpp"
#include "utils/covariances.hpp"
#include <optional>
#include <algorithm>
using namespace rgbd_slam;
using namespace video;
using mon::check;

struct Rig
{
    mon::Cam c1, c2;
    M3 R2;
    V3 t2;
    bool two;
};
static Rig rig()
{
    const mon::Cfg k = mon::cfg();
    const matrix44 T = Parameters::get_camera_2_to_camera_1_transformation();
    Rig r {k.c1, k.c2, T.block<3, 3>(0, 0), T.block<3, 1>(0, 3), false};
    r.two = (r.R2 - M3::Identity()).norm() > 1e-9 || r.t2.norm() > 1e-9 || k.c1.fx != k.c2.fx || k.c1.cx != k.c2.cx;
    return r;
}
// the images as the two sensors give them
static Image shoot(const Rig& r, const Room& room, const View& v)
{
    Image im = render(room, r.c1, v);
    if (r.two)
    {
        View w;
        w.R = v.R * r.R2;
        w.t = v.R * r.t2 + v.t;
        im.depth = render(room, r.c2, w, 1).depth;
    }
    return im;
}
static bool same(const cv::Mat& a, const cv::Mat& b)
{
    if (a.size() != b.size() || a.type() != b.type()) return false;
    for (int y = 0; y < a.rows; ++y)
        if (memcmp(a.ptr(y), b.ptr(y), (size_t)a.cols * a.elemSize()) != 0) return false;
    return true;
}
static double angle_deg(const M3& a, const M3& b) { return Eigen::AngleAxisd(M3(a.transpose() * b)).angle() * 180 / M_PI; }
struct Walk
{
    V3 vel, axis;
    double w;
};
static Walk walk(mon::Ctx& c, bool still)
{
    Walk k;
    k.vel = V3(c.gauss(), c.gauss(), c.gauss()).normalized() * (still ? 0.0 : c.uni(0, 9));
    k.axis = V3(c.gauss(), c.gauss(), c.gauss()).normalized();
    k.w = still ? 0.0 : c.uni(0, 0.4) * M_PI / 180;
    return k;
}
static void advance(View& v, Walk& k)
{
    v.R = v.R * Eigen::AngleAxisd(k.w, k.axis).toRotationMatrix();
    v.t += k.vel;
    if (v.t.norm() > 120 && v.t.dot(k.vel) > 0) k.vel = -k.vel;
}
struct Session
{
    ref::Pose S;
    std::unique_ptr<RGBD_SLAM> slam;
    Rig r;
    // a frame that finds no pose returns the last one as it was: consecutive frames without pose
    int fails = 0;
    std::optional<utils::Pose> last;
    M3 R(const utils::Pose& p) const
    {
        const auto& q = p.get_orientation_quaternion();
        return ref::rot(Q(q.w(), q.x(), q.y(), q.z()));
    }
    double pos_error(const utils::Pose& p, const View& v) const { return (p.get_position() - (ref::rot(S.q) * v.t + S.t)).norm(); }
    double rot_error(const utils::Pose& p, const View& v) const { return angle_deg(R(p), ref::rot(S.q) * v.R); }
    utils::Pose track(Image im)
    {
        if (r.two) slam->rectify_depth(im.depth);
        const cv::Mat rgb = im.rgb.clone();
        const cv::Mat_<float> depth = im.depth.clone();
        const utils::Pose p = slam->track(im.rgb, im.depth);
        check(same(rgb, im.rgb) && same(depth, im.depth), "input_images_unchanged", "%s", "");
        const auto& q = p.get_orientation_quaternion();
        check(p.get_position().allFinite() && std::isfinite(q.norm()) && std::abs(q.norm() - 1) < 1e-6, "pose_is_rigid", "|q| %.9g", q.norm());
        if (last.has_value()) fails = last->get_position() == p.get_position() && last->get_orientation_quaternion().coeffs() == p.get_orientation_quaternion().coeffs() ? fails + 1 : 0;
        last.emplace(p);
        const matrix66 cov = p.get_pose_variance();
        check(ref::psd(cov, 1e-6), "pose_covariance_valid", "%s", "");
        return p;
    }
};
static Session session(mon::Ctx& c)
{
    Session s;
    s.r = rig();
    s.S = ref::rand_pose(c, 400);
    s.slam = std::make_unique<RGBD_SLAM>(utils::Pose(s.S.t, quaternion(s.S.q.w(), s.S.q.x(), s.S.q.y(), s.S.q.z())), (uint)s.r.c1.w, (uint)s.r.c1.h);
    return s;
}
static std::vector<double> g_max, g_still;
static int g_lost = 0, g_all = 0;
static std::string g_lostWhat;
static double median(std::vector<double> v)
{
    if (v.empty()) return 0;
    std::nth_element(v.begin(), v.begin() + (long)v.size() / 2, v.end());
    return v[v.size() / 2];
}
// the map file written when the system ends
static void map_file(const Session& s, const Room& room, const std::string& what)
{
    std::ifstream f("out.obj");
    if (!check(f.good(), "map_file_written", "%s", what.c_str())) return;
    std::string line;
    std::vector<double> off;
    bool finite = true;
    while (std::getline(f, line))
    {
        double x, y, z;
        if (line.rfind("v ", 0) != 0) continue;
        if (sscanf(line.c_str(), "v %lf %lf %lf", &x, &y, &z) != 3 || !std::isfinite(x + y + z)) { finite = false; continue; }
        const V3 p = ref::rot(s.S.q).transpose() * (ref::world_axes_to_cam(V3(x, y, z)) - s.S.t);
        off.push_back(off_surface(room, p));
    }
    check(finite, "map_file_coordinates_finite", "%s", what.c_str());
    check(off.size() >= 5, "map_not_empty", "%s: %zu vertices", what.c_str(), off.size());
    if (off.size() >= 5)
    {
        mon::observe("events.map_vertices", off.size());
        check(median(off) < 60, "map_lies_on_the_surfaces", "%s: median distance %.1f mm of %zu vertices", what.c_str(), median(off), off.size());
        if (getenv("V")) printf("MAP %s n %zu median off %.1f\n", what.c_str(), off.size(), median(off));
    }
}
MON_TEST(trajectory, 12, 64)
{
    Session s = session(c);
    const Room room = random_room(c);
    const bool still = c.index % 4 == 3;
    Walk k = walk(c, still);
    View v;
    double worst = 0, worstRot = 0, length = 0, last = 0;
    const int n = (int)c.irange(12, 20);
    const std::string what = mon::fmt("start (%.0f %.0f %.0f), %.1f mm and %.2f deg per frame", s.S.t.x(), s.S.t.y(), s.S.t.z(), k.vel.norm(), k.w * 180 / M_PI);
    for (int i = 0; i < n; ++i)
    {
        const Image im = shoot(s.r, room, v);
        const utils::Pose p = s.track(im);
        last = s.pos_error(p, v);
        const double a = s.rot_error(p, v);
        if (i == 0) check(last < 1e-6 && a < 1e-4, "first_pose_is_the_start_pose", "%s: %.6g mm %.6g deg", what.c_str(), last, a);
        worst = std::max(worst, last);
        worstRot = std::max(worstRot, a);
        length += k.vel.norm();
        mon::observe("events.frames_tracked");
        if (i % 5 == 4)
        {
            const cv::Mat before = im.rgb.clone();
            const cv::Mat dbg = s.slam->get_debug_image(p, im.rgb, c.uni(0, 0.1), c.coin());
            check(same(before, im.rgb), "debug_image_is_a_copy", "%s", "");
            check(dbg.size() == im.rgb.size() && dbg.type() == im.rgb.type(), "debug_image_size", "%d x %d", dbg.cols, dbg.rows);
        }
        advance(v, k);
    }
    if (getenv("V")) printf("TRAJ %lu %s max %.1f mm %.2f deg final %.1f\n", c.index, what.c_str(), worst, worstRot, last);
    // a single trajectory may be lost (random consensus); judged over all of them below
    mon::observe("oracle.trajectory_error_measured");
    if (worst > 200 || worstRot > 8) { ++g_lost; g_lostWhat = what + mon::fmt(": up to %.1f mm and %.2f deg from the true pose", worst, worstRot); }
    ++g_all;
    (still ? g_still : g_max).push_back(worst);
    s.slam->show_statistics(0.03);
    s.slam.reset();
    map_file(s, room, what);
    mon::nontrivial("trajectory", mon::fmt("%.0f %.2f %.0f %d", k.vel.norm(), k.w * 180 / M_PI, worst, n));
    mon::sample("trajectory", what + mon::fmt(": %d frames, at most %.1f mm %.2f deg of error", n, worst, worstRot));
}
MON_TEST(trajectory_overall, 1, 1)
{
    if (g_all >= 4) check(g_lost <= std::max(1, g_all / 8), "trajectories_followed", "%d of %d lost, %s", g_lost, g_all, g_lostWhat.c_str());
    if (g_max.size() >= 4)
    {
        if (getenv("V")) printf("OVERALL moving %.1f of %zu still %.1f of %zu\n", median(g_max), g_max.size(), median(g_still), g_still.size());
        check(median(g_max) < 40, "typical_trajectory_error", "median %.1f mm over %zu trajectories", median(g_max), g_max.size());
    }
    if (g_still.size() >= 2) check(*std::min_element(g_still.begin(), g_still.end()) < 5, "a_resting_camera_rests", "%.1f mm", median(g_still));
}
// frames without any content: the pose stays, and the camera is found again
MON_TEST(blind_frames, 4, 30)
{
    Session s = session(c);
    const Room room = random_room(c);
    Walk k = walk(c, c.coin(0.5));
    k.vel *= 0.5;
    View v;
    utils::Pose p;
    for (int i = 0; i < 7; ++i)
    {
        p = s.track(shoot(s.r, room, v));
        if (i < 6) advance(v, k);
    }
    const double before = s.pos_error(p, v);
    const int n = (int)c.irange(1, 7);
    const std::string what = mon::fmt("%d blind frames, %.1f mm before", n, before);
    Image blind;
    blind.rgb = cv::Mat(s.r.c1.h, s.r.c1.w, CV_8UC3, cv::Scalar::all((double)c.irange(0, 255)));
    blind.depth = cv::Mat_<float>(s.r.c1.h, s.r.c1.w, 0.f);
    const cv::Mat black(s.r.c1.h, s.r.c1.w, CV_8UC3, cv::Scalar::all(0));
    auto overlay = [&]() {
        const cv::Mat d = s.slam->get_debug_image(p, black, 0, false);
        long red = 0;
        for (int y = 0; y < d.rows; ++y)
            for (int x = 0; x < d.cols; ++x) red += d.at<cv::Vec3b>(y, x)[2] > 30;
        return red > (long)d.rows * d.cols * 9 / 10;
    };
    check(!overlay(), "tracking_is_shown_as_valid", "%s", what.c_str());
    for (int i = 1; i <= n; ++i)
    {
        const utils::Pose q = s.track(blind);
        check((q.get_position() - p.get_position()).norm() < 1e-9 && angle_deg(s.R(q), s.R(p)) < 1e-6, "blind_frame_keeps_the_pose",
              "%s, frame %d: moved by %.6g mm", what.c_str(), i, (q.get_position() - p.get_position()).norm());
        mon::observe("events.blind_frames");
        const bool shown = overlay();
        if (i >= 4) check(shown, "lost_tracking_is_shown", "%s: frame %d, not shown", what.c_str(), i);
        check(shown == (s.fails > 3), "lost_after_more_than_three_frames", "%s: frame %d, %d frames without pose, shown %d", what.c_str(), i, s.fails, shown);
    }
    double after = 0;
    bool back = false;
    for (int i = 0; i < 8; ++i)
    {
        const utils::Pose q = s.track(shoot(s.r, room, v));
        after = s.pos_error(q, v);
        const bool shown = overlay();
        back |= !shown;
        check(shown == (s.fails > 3), "lost_until_a_pose_is_found", "%s: %d frames later, %d frames without pose, shown %d", what.c_str(), i, s.fails, shown);
    }
    // interruptions that are too short to be lost, however many of them
    int interruptions = 0, total = 0;
    for (int k = 0; k < 3; ++k)
    {
        const int m = (int)c.irange(1, 3);
        for (int i = 0; i < m + 3; ++i)
        {
            (void)s.track(i < m ? blind : shoot(s.r, room, v));
            total += i < m;
            const bool shown = overlay();
            check(shown == (s.fails > 3), "short_interruptions_do_not_lose", "%s: %d blind frames in %d interruptions, the last of %d frames, shown %d with %d frames without pose", what.c_str(), total, k + 1, m, shown, s.fails);
        }
        interruptions += s.fails == 0;
    }
    mon::observe("interruptions_recovered", (uint64_t)interruptions);
    if (getenv("V")) printf("BLIND %s after %.1f back %d\n", what.c_str(), after, back);
    check(back, "tracking_recovers", "%s: still lost 8 frames later", what.c_str());
    check(after < 200, "pose_after_recovery", "%s: %.1f mm after", what.c_str(), after);
    mon::nontrivial("blind", mon::fmt("%d %.0f %.0f", n, before, after));
    mon::sample("blind_frames", what + mon::fmt(", %.1f mm after", after));
}
int main(int argc, char** argv)
{
    return mon::run_main(argc, argv, [] {
        mon::load_config();
        if (chdir(mon::opt().workdir.c_str()) != 0) _exit(3);
    });
}
