// C19: key point association and tracking.
#include "config.hpp"
#include "features/keypoints/keypoint_detection.hpp"
#include "features/keypoints/keypoint_handler.hpp"
#include <bit>
#include <map>
#include <opencv2/imgproc.hpp>
#include <opencv2/xfeatures2d.hpp>
#include <array>
#include <set>
#include <tuple>
using namespace rgbd_slam;
using namespace rgbd_slam::features::keypoints;
using mon::check;

static cv::Mat descriptor(mon::Ctx& c)
{
    cv::Mat d(1, 32, CV_8U);
    for (int i = 0; i < 32; ++i) d.at<uchar>(0, i) = (uchar)c.irange(0, 255);
    return d;
}
static cv::Mat flip_bits(mon::Ctx& c, const cv::Mat& in, int n)
{
    cv::Mat d = in.clone();
    for (int i = 0; i < n; ++i)
    {
        const int b = (int)c.irange(0, 255);
        d.at<uchar>(0, b / 8) ^= (uchar)(1 << (b % 8));
    }
    return d;
}
static int hamming(const cv::Mat& a, const cv::Mat& b, int row)
{
    int n = 0;
    for (int i = 0; i < 32; ++i) n += std::popcount((unsigned)(a.at<uchar>(0, i) ^ b.at<uchar>(row, i)));
    return n;
}
static double depth_at(const cv::Mat_<float>& d, const cv::Point2f& p)
{
    if (p.x < 1 or p.y < 1 or p.x >= d.cols - 1 or p.y >= d.rows - 1) return 0;
    return d((int)std::lround(p.y), (int)std::lround(p.x));
}

struct Frame
{
    std::vector<cv::Point2f> pts;
    cv::Mat desc;
    KeypointsWithIdStruct tracked;
    cv::Mat_<float> depth;
    std::map<size_t, size_t> ids;
};
static Frame frame(mon::Ctx& c, int w, int h)
{
    Frame f;
    f.depth = cv::Mat_<float>(h, w);
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x) f.depth(y, x) = (float)(((x * 31 + y * 17) % 97) == 0 ? 0 : 500 + 3 * x + 7 * y);
    const int n = c.coin(0.05) ? 0 : (int)c.irange(1, 150);
    const cv::Point2f cluster((float)c.uni(0, w), (float)c.uni(0, h));
    for (int i = 0; i < n; ++i)
    {
        cv::Point2f p((float)c.uni(0, w - 0.01), (float)c.uni(0, h - 0.01));
        if (c.coin(0.4)) // several points in the same neighbourhood, borders and corners included
            p = cv::Point2f(std::clamp(cluster.x + (float)c.uni(-40, 40), 0.f, w - 0.01f), std::clamp(cluster.y + (float)c.uni(-40, 40), 0.f, h - 0.01f));
        if (c.coin(0.1)) p.x = (float)c.uni(0, 3);
        if (c.coin(0.1)) p.y = (float)c.uni(0, 3);
        if (c.coin(0.1)) p.x = (float)(w - c.uni(0.01, 3));
        if (c.coin(0.1)) p.y = (float)(h - c.uni(0.01, 3));
        f.pts.push_back(p);
        f.desc.push_back(descriptor(c));
    }
    const int t = (int)c.irange(0, 40);
    std::set<size_t> used;
    for (int i = 0; i < t; ++i)
    {
        const size_t id = (size_t)c.irange(1, 300);
        if (not used.insert(id).second) continue;
        f.ids[id] = f.pts.size() + f.tracked.size();
        f.tracked.add(id, c.uni(0, w - 0.01), c.uni(0, h - 0.01));
    }
    return f;
}
static void judge(mon::Ctx& c, const Keypoint_Handler& k, const Frame& f, int w, int h)
{
    const size_t n = f.pts.size() + f.tracked.size();
    if (not check(k.size() == n and k.get_keypoint_count() == n, "all_points_kept", "%zu of %zu", k.size(), n)) return;
    vectorb matched(n);
    for (size_t i = 0; i < n; ++i) matched[(long)i] = c.coin(0.2);
    for (size_t i = 0; i < n; ++i)
    {
        const bool det = i < f.pts.size();
        const cv::Point2f p = det ? f.pts[i] : f.tracked.at(i - f.pts.size())._point;
        const auto kp = k.get_keypoint((unsigned)i);
        check(std::fabs(kp.x() - p.x) < 1e-4 and std::fabs(kp.y() - p.y) < 1e-4, "point_position", "point %zu", i);
        check(std::fabs(kp.z() - depth_at(f.depth, p)) < 1e-3, "point_depth", "point %zu at (%g, %g): %g, %g measured", i, p.x, p.y, kp.z(), depth_at(f.depth, p));
        const auto at = k.at(i);
        check(at._descriptor.empty() == not det and (not det or hamming(at._descriptor, f.desc, (int)i) == 0), "point_descriptor", "point %zu", i);
    }
    // tracked points are found by their id, and only them
    for (size_t id = 0; id < 320; ++id)
    {
        const int idx = k.get_tracking_match_index(id);
        const auto it = f.ids.find(id);
        check(idx == (it == f.ids.end() ? INVALID_MATCH_INDEX : (int)it->second), "tracked_id", "id %zu gives %d", id, idx);
        const int idx2 = k.get_tracking_match_index(id, matched);
        check(idx2 == (it == f.ids.end() or matched[(long)it->second] ? INVALID_MATCH_INDEX : (int)it->second), "tracked_id_once", "id %zu gives %d", id, idx2);
    }
    mon::observe("ids_asked", 320);
    // association by position and descriptor
    for (int r = 0; r < 30; ++r)
    {
        const double radius = c.coin(0.3) ? 30 : c.coin() ? 60 : c.uni(1, 75);
        Eigen::Vector2d q(c.uni(-5, w + 5), c.uni(-5, h + 5));
        cv::Mat d = descriptor(c);
        if (not f.pts.empty() and c.coin(0.85))
        {
            const size_t i = (size_t)c.irange(0, (long)f.pts.size() - 1);
            q = Eigen::Vector2d(f.pts[i].x + c.gauss() * radius / 3, f.pts[i].y + c.gauss() * radius / 3);
            if (c.coin(0.9)) d = flip_bits(c, f.desc.row((int)i), (int)c.irange(0, 90));
        }
        std::vector<std::pair<int, int>> cand;
        bool clear = true;
        for (size_t i = 0; i < f.pts.size(); ++i)
        {
            const double dist = std::hypot(f.pts[i].x - q.x(), f.pts[i].y - q.y());
            if (std::fabs(dist - radius) < 1e-3) clear = false;
            if (dist <= radius and not matched[(long)i]) cand.push_back({hamming(d, f.desc, (int)i), (int)i});
        }
        if (not clear) continue;
        std::sort(cand.begin(), cand.end());
        std::set<size_t> expected;
        if (cand.size() == 1) expected.insert((size_t)cand[0].second);
        else if (cand.size() > 1)
        {
            if (std::fabs(cand[0].first - 0.7 * cand[1].first) < 1e-3) continue;
            if (cand[0].first < 0.7 * cand[1].first) expected.insert((size_t)cand[0].second);
        }
        const auto m = k.get_match_indexes(ScreenCoordinate2D(q.x(), q.y()), d, matched, radius);
        const std::set<size_t> got(m.begin(), m.end());
        check(got == expected, "association", "(%g, %g) radius %g in %dx%d: %zu candidates, expected %d, got %d", q.x(), q.y(), radius, w, h, cand.size(),
              expected.empty() ? -1 : (int)*expected.begin(), got.empty() ? -1 : (int)*got.begin());
        mon::observe(expected.empty() ? "no_match" : "matches");
        mon::nontrivial("association", mon::fmt("%zu %d %.0f %.0f", std::min<size_t>(cand.size(), 6), (int)expected.size(), q.x() / 40, q.y() / 40));
    }
}
// several frames through the same handler
MON_TEST(association, 150, 4000)
{
    const int w = c.coin() ? 640 : (int)c.irange(35, 900), h = c.coin() ? 480 : (int)c.irange(35, 900);
    Keypoint_Handler k((unsigned)w, (unsigned)h, 0.7);
    const int frames = (int)c.irange(1, 3);
    for (int i = 0; i < frames; ++i)
    {
        Frame f = frame(c, w, h);
        auto pts = f.pts;
        k.set(pts, f.desc, f.tracked, f.depth);
        judge(c, k, f, w, h);
        const Keypoint_Handler copy = k;
        // a copy outlives a change of the original
        if (i + 1 < frames and c.coin(0.3))
        {
            Frame g = frame(c, w, h);
            auto p2 = g.pts;
            k.set(p2, g.desc, g.tracked, g.depth);
            judge(c, copy, f, w, h);
            judge(c, k, g, w, h);
        }
    }
    mon::observe("frames", frames);
}

// a textured canvas, seen through a moving window
static cv::Mat canvas(mon::Ctx& c, int w, int h)
{
    cv::Mat m(h, w, CV_8U);
    cv::RNG rng((uint64_t)c.irange(1, 1L << 30));
    rng.fill(m, cv::RNG::UNIFORM, 0, 255);
    cv::GaussianBlur(m, m, cv::Size(0, 0), 2.0);
    cv::normalize(m, m, 0, 255, cv::NORM_MINMAX);
    for (int i = 0; i < 150; ++i)
    {
        const cv::Point p((int)c.irange(0, w - 1), (int)c.irange(0, h - 1));
        cv::rectangle(m, p, p + cv::Point((int)c.irange(6, 40), (int)c.irange(6, 40)), cv::Scalar((double)c.irange(0, 255)), -1);
    }
    return m;
}
MON_TEST(detection_and_tracking, 6, 120)
{
    const auto cam = mon::cfg().c1;
    const int w = cam.w, h = cam.h;
    const cv::Mat big = canvas(c, w + 200, h + 200);
    Key_Point_Extraction ex;
    cv::Point off(100, 100);
    KeypointsWithIdStruct last;
    std::map<size_t, cv::Point2f> known; // id -> position on the canvas
    size_t nextId = 1;
    const int frames = 5;
    cv::Point prev = off;
    for (int i = 0; i < frames; ++i)
    {
        prev = off;
        if (i > 0) off += cv::Point((int)c.irange(-8, 8), (int)c.irange(-8, 8));
        off.x = std::clamp(off.x, 0, 199);
        off.y = std::clamp(off.y, 0, 199);
        const cv::Mat img = big(cv::Rect(off.x, off.y, w, h)).clone();
        cv::Mat_<float> depth(h, w);
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x) depth(y, x) = (float)(600 + x + y);
        const bool force = c.coin(0.3);
        const Keypoint_Handler k = ex.compute_keypoints(img, depth, last, force);
        size_t tracked = 0, right = 0, detected = 0;
        std::vector<cv::Point2f> trackedPts;
        std::set<int> idx;
        for (const auto& [id, pos]: known)
        {
            const int m = k.get_tracking_match_index(id);
            if (m == INVALID_MATCH_INDEX) continue;
            check(m >= 0 and (size_t)m < k.size() and idx.insert(m).second, "tracked_index", "id %zu gives %d of %zu", id, m, k.size());
            const auto p = k.get_keypoint((unsigned)m);
            ++tracked;
            trackedPts.push_back(cv::Point2f((float)p.x(), (float)p.y()));
            if (std::hypot(p.x() + off.x - pos.x, p.y() + off.y - pos.y) < 2) ++right;
        }
        for (size_t n = 0; n < k.size(); ++n)
        {
            const auto p = k.get_keypoint((unsigned)n);
            check(p.x() >= 0 and p.y() >= 0 and p.x() < w and p.y() < h, "in_image", "(%g, %g) in %dx%d", p.x(), p.y(), w, h);
            check(std::fabs(p.z() - depth_at(depth, cv::Point2f((float)p.x(), (float)p.y()))) < 1e-3, "detected_depth", "(%g, %g): %g", p.x(), p.y(), p.z());
            const bool isTracked = idx.count((int)n) > 0;
            check(k.is_descriptor_computed((unsigned)n) == not isTracked, "descriptor_of_detected", "point %zu of %zu", n, k.size());
            if (not isTracked)
            {
                ++detected;
                for (const auto& t: trackedPts)
                    check(std::hypot(p.x() - t.x, p.y() - t.y) > 15 - 5, "no_detection_on_tracked", "%g px from a tracked point", std::hypot(p.x() - t.x, p.y() - t.y));
            }
        }
        if (i == 0)
        {
            check(tracked == 0, "first_frame", "%zu tracked", tracked);
            check(detected >= 40, "points_in_texture", "%zu points in a textured image", detected);
        }
        check(detected <= 120, "bounded", "%zu points", detected);
        if (i > 0 and known.size() >= 20)
        {
            // points that are still well inside the image
            size_t should = 0;
            for (const auto& [id, pos]: known)
            {
                const double x = pos.x - off.x, y = pos.y - off.y;
                should += x > 40 and y > 40 and x < w - 40 and y < h - 40;
            }
            check(tracked >= 0.7 * should, "tracked_most", "%zu of %zu points tracked", tracked, should);
            check(right >= 0.9 * tracked - 1, "tracked_where_they_are", "%zu of %zu tracked points at their place", right, tracked);
        }
        mon::observe("tracked_points", tracked);
        mon::observe("detected_points", detected);
        mon::nontrivial("tracking", mon::fmt("%d %zu %zu", i, tracked, detected));
        // next: some of those points, with ids of their own
        KeypointsWithIdStruct next;
        std::map<size_t, cv::Point2f> nk;
        for (size_t n = 0; n < k.size(); ++n)
        {
            if (c.coin(0.2)) continue;
            const auto p = k.get_keypoint((unsigned)n);
            const size_t id = nextId++;
            next.add(id, p.x(), p.y());
            nk[id] = cv::Point2f((float)(p.x() + off.x), (float)(p.y() + off.y));
        }
        last = next;
        known = nk;
    }
    // an image without texture gives no point
    Key_Point_Extraction ex2;
    const cv::Mat flat(h, w, CV_8U, cv::Scalar((double)c.irange(0, 255)));
    const Keypoint_Handler k = ex2.compute_keypoints(flat, cv::Mat_<float>(h, w, 1000.f), KeypointsWithIdStruct(), true);
    check(k.size() == 0, "no_point_without_texture", "%zu points", k.size());
}

// Several frames of one sequence, with points that cannot be followed mixed with points that can, frames in which
// nothing is followed, and images that change: what is reported must be about the right point and the right image.
MON_TEST(tracking_histories, 24, 300)
{
    const auto cam = mon::cfg().c1;
    const int w = cam.w, h = cam.h, margin = 160;
    const cv::Mat big = canvas(c, w + 2 * margin, h + 2 * margin);
    Key_Point_Extraction ex;
    const auto brief = cv::xfeatures2d::BriefDescriptorExtractor::create();
    cv::Point off(margin, margin);
    KeypointsWithIdStruct last;
    std::map<size_t, cv::Point2f> good; // id -> position on the canvas, of points that stay in view
    std::set<size_t> bad;               // ids of points that cannot be in the next image
    size_t nextId = 1;
    bool follow = false;
    cv::Mat before;
    int histories = 0;
    for (int i = 0; i < 7; ++i)
    {
        const cv::Point prev = off;
        // without points to follow the camera can have gone anywhere
        const int reach = follow ? 8 : 120;
        off.x = std::clamp(off.x + (int)c.irange(-reach, reach), 0, 2 * margin - 1);
        off.y = std::clamp(off.y + (int)c.irange(-reach, reach), 0, 2 * margin - 1);
        const cv::Mat img = big(cv::Rect(off.x, off.y, w, h)).clone();
        const cv::Mat_<float> depth(h, w, 1500.f);
        const bool force = c.coin(0.3);
        const Keypoint_Handler k = ex.compute_keypoints(img, depth, last, force);
        size_t should = 0, tracked = 0, right = 0;
        for (const auto& [id, pos]: good)
        {
            const double x = pos.x - off.x, y = pos.y - off.y;
            const int m = k.get_tracking_match_index(id);
            if (x > 40 and y > 40 and x < w - 40 and y < h - 40)
            {
                ++should;
                if (m != INVALID_MATCH_INDEX)
                {
                    ++tracked;
                    const auto p = k.get_keypoint((unsigned)m);
                    right += std::hypot(p.x() - x, p.y() - y) < 1.5;
                }
            }
        }
        for (const size_t id: bad)
        {
            const int m = k.get_tracking_match_index(id);
            check(m == INVALID_MATCH_INDEX, "tracked_out_of_view", "a point that was never in view is reported at %d", m);
        }
        if (should >= 10)
        {
            check(tracked >= 0.8 * should, "tracked_most", "%zu of %zu points tracked, %zu lost points among them, image moved by (%d, %d)", tracked, should, bad.size(), off.x - prev.x, off.y - prev.y);
            check(right >= 0.95 * tracked - 1, "tracked_where_they_are", "%zu of %zu tracked points at their place, %zu lost points among them", right, tracked, bad.size());
            mon::observe("followed_right", right);
            mon::observe("lost_among", bad.size());
            ++histories;
        }
        // the descriptor of a detection is the one of the image around it
        std::vector<cv::Point2f> detected;
        size_t offD = 0;
        for (size_t n = 0; n < k.size(); ++n)
        {
            if (not k.is_descriptor_computed((unsigned)n)) continue;
            const auto p = k.get_keypoint((unsigned)n);
            const cv::Point2f pt((float)p.x(), (float)p.y());
            detected.push_back(pt);
            std::vector<cv::KeyPoint> one = {cv::KeyPoint(pt, 1.f)};
            cv::Mat d;
            brief->compute(img, one, d);
            if (one.empty() or d.rows != 1 or hamming(d, k.get_descriptor((unsigned)n), 0) > 10) ++offD;
        }
        check(offD == 0, "descriptor_of_the_point", "%zu of %zu descriptors are not those of the image around their point", offD, detected.size());
        mon::observe("described", detected.size());
        // what is detected does not depend on what was followed before: a new extractor that gets the same image and
        // nothing to follow finds the same points as this one does
        if (c.coin(0.4))
        {
            Key_Point_Extraction fresh;
            const Keypoint_Handler f1 = fresh.compute_keypoints(img, depth, KeypointsWithIdStruct(), true);
            const size_t n1 = f1.size();
            std::vector<std::pair<double, double>> a, b;
            for (size_t n = 0; n < f1.size(); ++n) a.emplace_back(f1.get_keypoint((unsigned)n).x(), f1.get_keypoint((unsigned)n).y());
            Key_Point_Extraction fresh2;
            const Keypoint_Handler f2 = fresh2.compute_keypoints(img, depth, KeypointsWithIdStruct(), false);
            for (size_t n = 0; n < f2.size(); ++n) b.emplace_back(f2.get_keypoint((unsigned)n).x(), f2.get_keypoint((unsigned)n).y());
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            check(a == b, "same_detection", "%zu and %zu points for the same image", n1, f2.size());
            check(n1 >= 40, "points_in_texture", "%zu points in a textured image", n1);
        }
        // what is found depends on this image, the one before and the points to follow, not on what came earlier
        if (i > 0 and c.coin(0.6))
        {
            Key_Point_Extraction fresh;
            (void)fresh.compute_keypoints(before, depth, KeypointsWithIdStruct(), c.coin());
            const Keypoint_Handler f = fresh.compute_keypoints(img, depth, last, force);
            const auto content = [&](const Keypoint_Handler& q) {
                std::vector<std::tuple<size_t, double, double>> v;
                std::set<int> seen;
                for (const size_t id: last.get_ids())
                {
                    const int m = q.get_tracking_match_index(id);
                    if (m != INVALID_MATCH_INDEX and seen.insert(m).second) v.emplace_back(id, q.get_keypoint((unsigned)m).x(), q.get_keypoint((unsigned)m).y());
                }
                for (size_t n = 0; n < q.size(); ++n)
                    if (seen.count((int)n) == 0) v.emplace_back(0, q.get_keypoint((unsigned)n).x(), q.get_keypoint((unsigned)n).y());
                std::sort(v.begin(), v.end());
                return v;
            };
            const auto x = content(k), y = content(f);
            size_t same = 0;
            if (x.size() == y.size())
                for (size_t n = 0; n < x.size(); ++n) same += x[n] == y[n];
            check(x == y, "depends_on_earlier_frames", "%zu points, %zu with the same two images and nothing before them, %zu the same; frame %d, %zu points to follow", x.size(), y.size(), same, i, last.size());
        }
        before = img;
        mon::nontrivial("history", mon::fmt("%d %zu %zu %zu", i, should, bad.size(), detected.size()));
        // next
        last = KeypointsWithIdStruct();
        good.clear();
        bad.clear();
        follow = c.coin(0.7);
        if (not follow) continue;
        const int keepCells = c.coin(0.5) ? (int)c.irange(0, 8) : -1; // sometimes only the points of one region
        std::vector<cv::Point2f> list;
        for (const auto& p: detected)
            if (keepCells < 0 or (std::min(2, (int)(p.y / (float)(h / 3))) * 3 + std::min(2, (int)(p.x / (float)(w / 3)))) == keepCells) list.push_back(p);
        if (keepCells >= 0)
            // points of the regions not followed any more are left alone; more points of this one
            for (int q = 0; q < 12; ++q)
                list.push_back(cv::Point2f((float)c.uni(0, w), (float)c.uni(0, h)));
        const bool lost = c.coin(0.7);
        for (const auto& p: list)
        {
            if (lost and c.coin(0.3))
            {
                // not in any image
                const size_t id = nextId++;
                last.add(id, c.coin() ? c.uni(-400, -200) : c.uni(w + 200, w + 400), c.uni(-300, h + 300));
                bad.insert(id);
            }
            const size_t id = nextId++;
            last.add(id, p.x, p.y);
            good[id] = cv::Point2f(p.x + (float)off.x, p.y + (float)off.y);
        }
    }
    mon::observe("histories_with_tracking", (double)histories);
}
// A cut: half of the next image shows something else; the other half is still followed.
MON_TEST(scene_cut, 6, 60)
{
    const auto cam = mon::cfg().c1;
    const int w = cam.w, h = cam.h;
    const cv::Mat a = canvas(c, w, h), b = canvas(c, w, h);
    Key_Point_Extraction ex;
    const cv::Mat_<float> depth(h, w, 1500.f);
    const Keypoint_Handler k = ex.compute_keypoints(a, depth, KeypointsWithIdStruct(), true);
    KeypointsWithIdStruct last;
    for (size_t n = 0; n < k.size(); ++n) last.add(n + 1, k.get_keypoint((unsigned)n).x(), k.get_keypoint((unsigned)n).y());
    // the cut covers all the image or half of it
    const bool half = c.coin();
    cv::Mat img = b.clone();
    if (half) a(cv::Rect(0, 0, w / 2, h)).copyTo(img(cv::Rect(0, 0, w / 2, h)));
    const Keypoint_Handler k2 = ex.compute_keypoints(img, depth, last, false);
    size_t cut = 0, reported = 0, kept = 0, keptRight = 0;
    for (size_t n = 0; n < last.size(); ++n)
    {
        const auto p = last.at(n);
        const int m = k2.get_tracking_match_index(p._id);
        if (half and p._point.x < w / 2 - 60)
        {
            ++kept;
            if (m != INVALID_MATCH_INDEX)
            {
                const auto q = k2.get_keypoint((unsigned)m);
                keptRight += std::hypot(q.x() - p._point.x, q.y() - p._point.y) < 1;
            }
        }
        else if (not half or p._point.x > w / 2 + 60)
        {
            ++cut;
            reported += m != INVALID_MATCH_INDEX;
        }
    }
    mon::observe("cut_points", cut);
    if (half and kept >= 5) check(keptRight >= 0.9 * kept - 1, "unchanged_part", "%zu of %zu points of the unchanged part followed", keptRight, kept);
    mon::nontrivial("cut", mon::fmt("%d %zu %zu", half, cut, reported));
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, mon::load_config); }
