// C20: the life of map features: candidates, confirmed features, lost features, and what is written of them.
#include "config.hpp"
#include "geo.hpp"
#include "map_management/local_map.hpp"
#include "map_management/map_features/map_point.hpp"
#include "map_management/map_features/map_point2d.hpp"
#include "map_management/map_features/map_primitive.hpp"
#include "utils/camera_transformation.hpp"
#include <array>
#include <fstream>
#include <unistd.h>
#include <map>
#include <set>
using namespace rgbd_slam;
using namespace rgbd_slam::map_management;
using mon::check;
using ref::V3;
static mon::Cam C() { return mon::cfg().c1; }

struct Recorder : public outputs::IMap_Writer
{
    Recorder() : outputs::IMap_Writer(mon::opt().workdir + "/recorder") {}
    std::vector<V3> points;
    std::vector<std::vector<vector3>> polygons;
    int lines = 0;
    void add_point(const vector3& p) noexcept override { points.push_back(p); }
    void add_line(const std::vector<vector3>&) noexcept override { ++lines; }
    void add_polygon(const std::vector<vector3>& p, const vector3&) noexcept override { polygons.push_back(p); }
    void clear() { points.clear(); polygons.clear(); lines = 0; }
};
static cv::Mat descriptor(mon::Ctx& c)
{
    cv::Mat d(1, 32, CV_8U);
    for (int i = 0; i < 32; ++i) d.at<uchar>(0, i) = (uchar)c.irange(0, 255);
    return d;
}
static Eigen::Vector2d project(const ref::Pose& P, const V3& w, double& z)
{
    const V3 p = ref::world_to_cam(P, w);
    z = p.z();
    return Eigen::Vector2d(C().fx * p.x() / p.z() + C().cx, C().fy * p.y() / p.z() + C().cy);
}
static ref::Q rot_around(const V3& axis, double a)
{
    const V3 n = axis.normalized() * std::sin(a / 2);
    return ref::Q(std::cos(a / 2), n.x(), n.y(), n.z());
}
static ref::Q qmul(const ref::Q& a, const ref::Q& b)
{
    return ref::Q(a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z(), a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(),
                  a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x(), a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w());
}
static matrix33 pose_cov(mon::Ctx& c) { return matrix33(ref::rand_cov(c, 3, 0.05, 9)); }

// --- the reference: what a feature of the world is for the map -------------------------------------------------------
struct Rules
{
    std::function<bool(int c, int f)> promoted, dropped, lost;
};
struct Entity { bool local; int c = 0, f = 0; size_t id = 0; bool matched = false; int det = -1; bool fresh = true; };
struct Thing { std::vector<Entity> e; V3 where; }; // at most one local and one candidate, the local one is served first

// one detection of a frame: the thing seen, and how
struct Seen { int thing; int index; bool canAdd; size_t trackedId = 0; };

template<class Map> struct Sim
{
    Map map;
    Rules rules;
    FeatureType type;
    std::vector<Thing> things;
    std::shared_ptr<Recorder> rec = std::make_shared<Recorder>();
    std::map<size_t, int> idOwner;       // every id ever seen -> thing
    std::map<size_t, int> idGeneration;
    int generation = 0, promotions = 0, losses = 0, drops = 0, outliers = 0, confirmations = 0;
    bool broken = false;

    Entity* local(Thing& t) { for (auto& e: t.e) if (e.local) return &e; return nullptr; }
    Entity* staged(Thing& t) { for (auto& e: t.e) if (not e.local) return &e; return nullptr; }
    size_t count(bool loc) { size_t n = 0; for (auto& t: things) for (auto& e: t.e) n += e.local == loc; return n; }

    void expect_sizes(const char* when)
    {
        const bool ok = check(map.get_local_map_size() == count(true), "map_size", "%s: %zu confirmed features, %zu expected", when, map.get_local_map_size(), count(true)) and
                        check(map.get_staged_map_size() == count(false), "candidate_count", "%s: %zu candidates, %zu expected", when, map.get_staged_map_size(), count(false)) and
                        check(map.size() == count(true) + count(false), "total_size", "%s", when);
        if (not ok) broken = true;
    }
    // which entity gets which detection
    void predict(const std::vector<Seen>& seen, bool visible)
    {
        for (auto& t: things) for (auto& e: t.e) { e.matched = false; e.det = -1; }
        if (not visible) return;
        for (const Seen& s: seen)
        {
            Thing& t = things[(size_t)s.thing];
            Entity* to = nullptr;
            if (s.trackedId != 0) { for (auto& e: t.e) if (e.id == s.trackedId) to = &e; }
            else { to = local(t); if (to == nullptr) to = staged(t); }
            if (to != nullptr) { to->matched = true; to->det = s.index; }
        }
    }
    void judge_matches(const matches_containers::match_container& m, uint minimum, const char* kind)
    {
        size_t localMatches = 0;
        for (auto& t: things) for (auto& e: t.e) localMatches += e.local and e.matched;
        const bool withStaged = localMatches < 3 * minimum;
        size_t expected = localMatches;
        if (withStaged) for (auto& t: things) for (auto& e: t.e) expected += (not e.local) and e.matched;
        check(m.size() == expected, "match_count", "%s: %zu matches, %zu expected (%zu of confirmed features)", kind, m.size(), expected, localMatches);
        std::map<int, std::pair<int, Entity*>> byDet;
        for (size_t i = 0; i < things.size(); ++i) for (auto& e: things[i].e) if (e.matched) byDet[e.det] = {(int)i, &e};
        std::set<size_t> usedDet, usedId;
        for (const auto& p: m)
        {
            check(p->get_feature_type() == type, "match_type", "%s", kind);
            check(p->_idInMap > 0, "match_id_valid", "%s: id 0", kind);
            const bool once = check(usedDet.insert(p->_detectedFeatureId).second, "detection_matched_once", "%s: detection %zu", kind, p->_detectedFeatureId) and
                              check(usedId.insert(p->_idInMap).second, "feature_matched_once", "%s: feature %zu", kind, p->_idInMap);
            if (not once) { broken = true; continue; }
            const auto it = byDet.find((int)p->_detectedFeatureId);
            if (not check(it != byDet.end(), "match_right_detection", "%s: detection %zu matched with feature %zu, nothing expected", kind, p->_detectedFeatureId, p->_idInMap)) { broken = true; continue; }
            Entity& e = *it->second.second;
            if (e.id == 0)
            {
                // first time this feature is named: a new name
                check(not idOwner.contains(p->_idInMap), "feature_ids_unique", "%s: id %zu given twice", kind, p->_idInMap);
                e.id = p->_idInMap;
                idOwner[e.id] = it->second.first;
            }
            if (not check(e.id == p->_idInMap, "feature_keeps_its_id", "%s: %s feature %zu is now %zu", kind, e.local ? "confirmed" : "candidate", e.id, p->_idInMap)) broken = true;
        }
        mon::observe("matches_judged", m.size());
    }
    // the map was updated with the matches of this frame
    void after_update(const std::vector<Seen>& seen, bool tracked, std::vector<int>& lostThings)
    {
        std::set<int> used;
        for (size_t i = 0; i < things.size(); ++i)
        {
            Thing& t = things[i];
            for (size_t k = 0; k < t.e.size();)
            {
                Entity& e = t.e[k];
                if (not tracked) e.matched = false;
                if (e.matched) { ++e.c; e.f = 0; used.insert(e.det); ++confirmations; }
                else { --e.c; ++e.f; }
                if (e.local)
                {
                    if (rules.lost(e.c, e.f)) { lostThings.push_back((int)i); t.e.erase(t.e.begin() + (long)k); ++losses; continue; }
                }
                else if (tracked and rules.promoted(e.c, e.f)) { e.local = true; e.f = 0; ++promotions; }
                else if (rules.dropped(e.c, e.f)) { t.e.erase(t.e.begin() + (long)k); ++drops; continue; }
                ++k;
            }
        }
        if (tracked)
            for (const Seen& s: seen)
                if (not used.contains(s.index) and s.canAdd) things[(size_t)s.thing].e.push_back(Entity {false});
    }
    void judge_written(const std::vector<int>& lost, double tol, const char* kind)
    {
        if (type == FeatureType::Plane) check(rec->polygons.size() == lost.size() and rec->points.empty(), "lost_features_written_once", "%s: %zu boundaries written, %zu planes lost", kind, rec->polygons.size(), lost.size());
        else if (type == FeatureType::Point)
        {
            check(rec->points.size() == lost.size() and rec->polygons.empty(), "lost_features_written_once", "%s: %zu points written, %zu lost", kind, rec->points.size(), lost.size());
            auto todo = rec->points;
            for (int i: lost)
            {
                size_t best = 0; double d = 1e18;
                for (size_t k = 0; k < todo.size(); ++k) if ((todo[k] - things[(size_t)i].where).norm() < d) { d = (todo[k] - things[(size_t)i].where).norm(); best = k; }
                check(d <= tol, "written_where_it_is", "%s: nearest written point %g mm away", kind, d);
                if (best < todo.size()) todo.erase(todo.begin() + (long)best);
            }
        }
        else check(rec->points.empty() and rec->polygons.empty(), "rays_not_written", "%s", kind);
        rec->clear();
    }
};

struct PointWorld
{
    ref::Pose base;
    std::vector<V3> pts;
    std::vector<cv::Mat> desc;
};
// points at least 150 px apart, well inside of the image
static PointWorld point_world(mon::Ctx& c, double zmin = 900, double zmax = 3500)
{
    PointWorld w;
    w.base = ref::rand_pose(c, 3000);
    const int gx = std::max(1, C().w / 150), gy = std::max(1, C().h / 150);
    for (int i = 0; i < gx; ++i)
        for (int j = 0; j < gy; ++j)
        {
            if (c.coin(0.25)) continue;
            const double u = (i + 0.5) * C().w / gx + c.uni(-8, 8), v = (j + 0.5) * C().h / gy + c.uni(-8, 8), z = c.uni(zmin, zmax);
            w.pts.push_back(ref::cam_to_world(w.base, V3((u - C().cx) / C().fx * z, (v - C().cy) / C().fy * z, z)));
            w.desc.push_back(descriptor(c));
        }
    return w;
}
struct KeyFrame
{
    std::vector<Seen> seen;
    features::keypoints::Keypoint_Handler handler;
    KeyFrame() : handler((uint)C().w, (uint)C().h) {}
};
enum How { absent, withDepth, noDepth, trackedOnly };
static void key_frame(mon::Ctx& c, KeyFrame& f, const PointWorld& w, const ref::Pose& P, const std::vector<How>& how, const std::vector<size_t>& ids, bool depthMap)
{
    std::vector<cv::Point2f> kp;
    cv::Mat desc;
    features::keypoints::KeypointsWithIdStruct tracked;
    cv::Mat_<float> depth(C().h, C().w, 0.f);
    std::vector<int> order;
    for (size_t i = 0; i < w.pts.size(); ++i) order.push_back((int)i);
    std::shuffle(order.begin(), order.end(), c.rng);
    std::vector<std::pair<int, size_t>> trackedThings;
    for (int i: order)
    {
        if (how[(size_t)i] == absent) continue;
        double z;
        const auto uv = project(P, w.pts[(size_t)i], z);
        if (z <= 0 or uv.x() < 3 or uv.y() < 3 or uv.x() > C().w - 4 or uv.y() > C().h - 4) continue;
        const bool d = how[(size_t)i] != noDepth;
        if (d)
            for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) depth((int)std::lround(uv.y()) + dy, (int)std::lround(uv.x()) + dx) = (float)z;
        if (how[(size_t)i] == trackedOnly)
        {
            tracked.add(ids[(size_t)i], uv.x(), uv.y());
            trackedThings.push_back({i, ids[(size_t)i]});
            continue;
        }
        f.seen.push_back({i, (int)kp.size(), d == depthMap, 0});
        kp.emplace_back((float)uv.x(), (float)uv.y());
        desc.push_back(w.desc[(size_t)i]);
    }
    for (size_t k = 0; k < trackedThings.size(); ++k) f.seen.push_back({trackedThings[k].first, (int)(kp.size() + k), false, trackedThings[k].second});
    f.handler.set(kp, desc, tracked, depth);
}

static Rules point_rules()
{
    const double full = parameters::mapping::pointStagedAgeConfidence, limit = parameters::mapping::pointMinimumConfidenceForMap;
    return {[=](int n, int) { return n / full > limit; }, [](int n, int) { return n <= 0; }, [](int, int f) { return f > (int)parameters::mapping::pointUnmatchedCountToLoose; }};
}

// the common frame loop of both kinds of points
template<class Map> static void points_life(mon::Ctx& c, bool depthMap, int frames)
{
    // rays: parallax small enough to not look like a movement
    const PointWorld w = depthMap ? point_world(c) : point_world(c, 1700, 2500);
    Sim<Map> s;
    s.rules = point_rules();
    s.type = depthMap ? FeatureType::Point : FeatureType::Point2d;
    for (const auto& p: w.pts) { Thing t; t.where = p; s.things.push_back(t); }
    if (w.pts.empty()) return;
    const double travel = depthMap ? 40 : 4;
    std::vector<double> quality(w.pts.size());
    for (auto& q: quality) q = c.coin(0.4) ? 1.0 : c.coin(0.5) ? c.uni(0.5, 0.95) : c.uni(0.05, 0.5);
    int away = 0, blind = 0;
    for (int frame = 0; frame < frames and not s.broken; ++frame)
    {
        ref::Pose P = w.base;
        P.t += V3(c.uni(-1, 1), c.uni(-1, 1), c.uni(-1, 1)) * travel;
        P.q = qmul(P.q, rot_around(V3(c.gauss(), c.gauss(), c.gauss()), c.uni(0, 0.012)));
        if (away > 0) --away;
        else if (c.coin(0.04)) away = (int)c.irange(1, 13);
        const bool visible = away == 0;
        if (not visible) P.q = qmul(P.q, rot_around(V3(0, 1, 0), M_PI));
        if (blind > 0) --blind;
        else if (c.coin(0.05)) blind = (int)c.irange(1, 13);
        const matrix33 cov = pose_cov(c);
        const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(P.q, P.t);
        const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(P.q, P.t);
        std::vector<How> how(w.pts.size(), absent);
        std::vector<size_t> ids(w.pts.size(), 0);
        for (size_t i = 0; i < w.pts.size(); ++i)
        {
            if (c.coin(0.01)) quality[i] = c.coin() ? 0.0 : 1.0; // appears or disappears for long
            if (not c.coin(quality[i])) continue;
            how[i] = depthMap ? withDepth : noDepth;
            if (depthMap and c.coin(0.1)) how[i] = noDepth;
            Entity* l = s.local(s.things[i]);
            if (depthMap and l != nullptr and l->id != 0 and l->matched and c.coin(0.4)) { how[i] = trackedOnly; ids[i] = l->id; }
        }
        KeyFrame f;
        key_frame(c, f, w, P, how, ids, depthMap);
        const DetectedFeatureContainer det(f.handler, {}, {});
        const uint minimum = c.coin() ? 1000 : (uint)c.irange(0, 6);
        matches_containers::match_container matches;
        s.map.get_matches(det, w2c, minimum, matches);
        s.predict(f.seen, visible);
        s.judge_matches(matches, minimum, depthMap ? "points" : "rays");
        if (s.broken) break;
        for (const auto& m: matches)
        {
            check(m->is_valid(), "match_usable", "match of feature %zu", m->_idInMap);
            // matches made of exact observations are explained by the true pose
            if (depthMap) check(m->is_inlier(w2c), "match_explained_by_true_pose", "feature %zu", m->_idInMap);
        }
        std::vector<int> lost;
        s.rec->clear();
        if (blind > 0)
        {
            s.map.update_with_no_tracking(s.rec);
            s.after_update(f.seen, false, lost);
            s.judge_written(lost, 1.0, "no pose");
            s.expect_sizes("after a frame without pose");
            mon::observe("frames.no_pose");
            continue;
        }
        if (c.coin(0.05))
        {
            // an unusable pose uncertainty is refused, and nothing happens
            matrix33 bad = cov;
            bad(0, 0) = c.coin() ? NAN : -4.0;
            bool refused = false;
            try { (void)s.map.update_map(c2w, bad, det, s.rec); } catch (const std::invalid_argument&) { refused = true; }
            bool refused2 = false;
            try { s.map.add_features_to_staged_map(bad, c2w, det, {}); } catch (const std::invalid_argument&) { refused2 = true; }
            check(refused and refused2, "invalid_pose_refused", "update %d add %d", refused, refused2);
            s.expect_sizes("after a refused update");
        }
        // some of the matches turn out to be wrong
        matches_containers::match_container wrong;
        if (c.coin(0.3))
            for (const auto& m: matches)
                for (size_t i = 0; i < s.things.size(); ++i)
                    for (auto& e: s.things[i].e)
                        if (e.id == m->_idInMap and e.matched and c.coin(0.15))
                        {
                            const bool safe = e.local ? s.staged(s.things[i]) == nullptr : e.c <= 1;
                            if (not safe) continue;
                            wrong.push_back(m);
                            e.matched = false;
                            ++s.outliers;
                        }
        s.map.mark_outliers_as_unmatched(wrong);
        const auto used = s.map.update_map(c2w, cov, det, s.rec);
        std::set<size_t> expectedUsed;
        for (auto& t: s.things) for (auto& e: t.e) if (e.matched) expectedUsed.insert((size_t)e.det);
        check(std::set<size_t>(used.begin(), used.end()) == expectedUsed, "detections_used", "%zu detections used, %zu expected", used.size(), expectedUsed.size());
        s.map.add_features_to_staged_map(cov, c2w, det, used);
        s.after_update(f.seen, true, lost);
        s.judge_written(lost, 1.0, "update");
        s.expect_sizes("after an update");
        // what is given to the optical flow: the confirmed features seen in this frame
        TrackedFeaturesContainer tracked;
        s.map.get_tracked_features(w2c, tracked, 0);
        std::map<size_t, Eigen::Vector2d> expected;
        size_t unnamed = 0;
        if (depthMap)
            for (auto& t: s.things)
                for (auto& e: t.e)
                    if (e.local and e.matched)
                    {
                        double z;
                        const auto uv = project(P, t.where, z);
                        if (e.id == 0) ++unnamed; else expected[e.id] = uv;
                    }
        check(tracked.trackedPoints->size() == expected.size() + unnamed, "tracked_count", "%zu to track, %zu expected", tracked.trackedPoints->size(), expected.size() + unnamed);
        for (size_t k = 0; k < tracked.trackedPoints->size(); ++k)
        {
            const auto p = tracked.trackedPoints->at(k);
            const auto it = expected.find(p._id);
            if (it == expected.end()) { check(unnamed > 0, "tracked_known", "feature %zu should not be tracked", p._id); continue; }
            check(std::hypot(p._point.x - it->second.x(), p._point.y - it->second.y()) < 1.0, "tracked_where_it_is", "feature %zu at (%g, %g), (%g, %g) expected", p._id, p._point.x, p._point.y, it->second.x(), it->second.y());
        }
        mon::observe("frames.updated");
    }
    if (s.broken) return;
    s.rec->clear();
    std::vector<int> all;
    for (size_t i = 0; i < s.things.size(); ++i) if (s.local(s.things[i])) all.push_back((int)i);
    s.map.destroy(s.rec);
    s.judge_written(all, 1.0, "end");
    s.map.reset();
    check(s.map.size() == 0, "reset_empties", "%zu left", s.map.size());
    mon::observe("promotions", (uint64_t)s.promotions);
    mon::observe("losses", (uint64_t)s.losses);
    mon::observe("candidates_dropped", (uint64_t)s.drops);
    mon::observe("outliers", (uint64_t)s.outliers);
    if (s.promotions > 0) mon::nontrivial(depthMap ? "points" : "rays", mon::fmt("%d %d %d %d %d", s.promotions, s.losses, s.drops, s.outliers, s.confirmations));
    mon::sample(depthMap ? "points" : "rays", mon::fmt("%zu points, %d frames: %d promotions, %d lost, %d candidates dropped, %d outliers", w.pts.size(), frames, s.promotions, s.losses, s.drops, s.outliers));
}
MON_TEST(points, 60, 900) { points_life<localPointMap>(c, true, (int)c.irange(20, 60)); }
MON_TEST(rays, 60, 900) { points_life<localPoint2DMap>(c, false, (int)c.irange(20, 60)); }

// --- a described key point starts a point if its depth was measured, a ray otherwise; one without description nothing --
MON_TEST(admission, 200, 3000)
{
    const ref::Pose P = ref::rand_pose(c, 3000);
    std::vector<cv::Point2f> kp;
    cv::Mat desc;
    features::keypoints::KeypointsWithIdStruct tracked;
    cv::Mat_<float> depth(C().h, C().w, 0.f);
    size_t points = 0, rays = 0, used = 0, usedPoints = 0, usedRays = 0;
    matchIndexSet indices;
    int kinds = 0;
    for (int j = 20; j + 20 < C().h; j += 60)
        for (int i = 20; i + 20 < C().w; i += 60)
        {
            if (c.coin(0.6)) continue;
            const int k = (int)c.irange(0, 4);
            kinds |= 1 << k;
            const double z = k == 0 ? 0 : k == 1 ? c.logu(0.5, 39) : k == 2 ? c.logu(41, 5999) : k == 3 ? c.logu(6001, 60000) : c.uni(41, 5999);
            for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) depth(j + dy, i + dx) = (float)z;
            if (c.coin(0.2)) { tracked.add(900000 + (size_t)(j * C().w + i), i, j); continue; } // follows something that is not in these maps, never described
            const bool measured = k == 2 or k == 4, taken = c.coin(0.15);
            if (taken) { indices.insert(kp.size()); ++used; (measured ? usedPoints : usedRays)++; }
            else (measured ? points : rays)++;
            kp.emplace_back((float)i, (float)j);
            desc.push_back(descriptor(c));
        }
    if (kp.empty()) return;
    features::keypoints::Keypoint_Handler h((uint)C().w, (uint)C().h);
    h.set(kp, desc, tracked, depth);
    const DetectedFeatureContainer det(h, {}, {});
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(P.q, P.t);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(P.q, P.t);
    const matrix33 cov = pose_cov(c);
    localPointMap pm;
    localPoint2DMap rm;
    matches_containers::match_container m;
    pm.get_matches(det, w2c, 0, m);
    rm.get_matches(det, w2c, 0, m);
    check(m.empty(), "empty_map_has_no_match", "%zu matches", m.size());
    pm.add_features_to_staged_map(cov, c2w, det, indices);
    rm.add_features_to_staged_map(cov, c2w, det, indices);
    check(pm.get_staged_map_size() == points, "measured_key_points_start_points", "%zu candidates of %zu measured key points, %zu not measured, %zu without description", pm.get_staged_map_size(), points, rays, tracked.size());
    check(rm.get_staged_map_size() == rays, "unmeasured_key_points_start_rays", "%zu candidates of %zu key points without measured depth, %zu measured, %zu without description", rm.get_staged_map_size(), rays, points, tracked.size());
    check(pm.get_local_map_size() == 0 and rm.get_local_map_size() == 0, "candidates_are_not_in_the_map", "%zu %zu", pm.get_local_map_size(), rm.get_local_map_size());
    pm.add_all_features_to_staged_map(cov, c2w, det);
    rm.add_all_features_to_staged_map(cov, c2w, det);
    check(pm.get_staged_map_size() == 2 * points + usedPoints and rm.get_staged_map_size() == 2 * rays + usedRays, "all_key_points_added", "%zu %zu", pm.get_staged_map_size(), rm.get_staged_map_size());
    // a deactivated map takes no part in anything
    pm.deactivate();
    m.clear();
    pm.get_matches(det, w2c, 0, m);
    TrackedFeaturesContainer follow;
    pm.get_tracked_features(w2c, follow, 1000);
    const auto taken = pm.update_map(c2w, cov, det, std::make_shared<Recorder>());
    pm.add_all_features_to_staged_map(cov, c2w, det);
    check(m.empty() and follow.trackedPoints->empty() and taken.empty() and pm.get_staged_map_size() == 2 * points + usedPoints, "deactivated_map_does_nothing", "%zu matches, %zu tracked, %zu used", m.size(), follow.trackedPoints->size(), taken.size());
    mon::observe("admission.key_points", kp.size());
    mon::observe("admission.not_described", tracked.size());
    mon::nontrivial("admission", mon::fmt("%zu %zu %zu %d", points, rays, used, kinds));
}

// --- features are first searched close to where they should be, then further if too few of them were found ---------
MON_TEST(wide_search, 150, 2500)
{
    const PointWorld w = point_world(c);
    if (w.pts.empty()) return;
    localPointMap map;
    KeyFrame first;
    key_frame(c, first, w, w.base, std::vector<How>(w.pts.size(), withDepth), std::vector<size_t>(w.pts.size(), 0), true);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(w.base.q, w.base.t);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(w.base.q, w.base.t);
    const DetectedFeatureContainer det0(first.handler, {}, {});
    matches_containers::match_container none;
    map.get_matches(det0, w2c, 0, none);
    map.add_features_to_staged_map(pose_cov(c), c2w, det0, {});
    const size_t n = first.seen.size();
    if (not check(map.get_staged_map_size() == n, "candidate_count", "%zu candidates of %zu detections", map.get_staged_map_size(), n)) return;
    const double R = parameters::matching::matchSearchRadius_px;
    features::keypoints::Keypoint_Handler h((uint)C().w, (uint)C().h);
    std::vector<cv::Point2f> kp;
    cv::Mat desc;
    std::vector<bool> isNear;
    size_t nearCount = 0;
    const double proportion = c.coin(0.2) ? 0.0 : c.uni(0, 1);
    for (const V3& p: w.pts)
    {
        double z;
        const auto uv = project(w.base, p, z);
        const bool near = c.coin(proportion);
        const double r = near ? c.uni(0, 0.9) * R : c.uni(1.1, 1.7) * R, a = c.uni(-M_PI, M_PI);
        const Eigen::Vector2d q = uv + Eigen::Vector2d(std::cos(a), std::sin(a)) * r;
        if (q.x() < 3 or q.y() < 3 or q.x() > C().w - 4 or q.y() > C().h - 4) continue;
        kp.emplace_back((float)q.x(), (float)q.y());
        desc.push_back(w.desc[(size_t)(&p - w.pts.data())]);
        isNear.push_back(near);
        nearCount += near;
    }
    if (kp.empty()) return;
    const cv::Mat_<float> depth(C().h, C().w, 1500.f);
    h.set(kp, desc, {}, depth);
    const DetectedFeatureContainer det(h, {}, {});
    const uint minimum = (uint)c.irange(1, 12);
    matches_containers::match_container matches;
    map.get_matches(det, w2c, minimum, matches);
    const bool wide = nearCount < minimum;
    check(matches.size() == (wide ? kp.size() : nearCount), "searched_further_when_too_few", "%zu matches, %zu detections close to their feature of %zu, %u needed", matches.size(), nearCount, kp.size(), minimum);
    std::set<size_t> ids;
    for (const auto& m: matches)
    {
        check(m->_detectedFeatureId < kp.size() and (wide or isNear[m->_detectedFeatureId]), "match_in_search_area", "detection %zu", m->_detectedFeatureId);
        check(ids.insert(m->_idInMap).second, "feature_matched_once", "feature %zu", m->_idInMap);
    }
    mon::observe(wide ? "searches.wide" : "searches.close");
    mon::nontrivial("wide_search", mon::fmt("%zu %zu %u", kp.size(), nearCount, minimum));
}

// --- the description of a feature is its last one: what looks like it used to look is not taken for it -------------
template<class Map> static void description_follows(mon::Ctx& c, bool depthMap)
{
    Map map;
    auto rec = std::make_shared<Recorder>();
    const ref::Pose base = ref::rand_pose(c, 3000);
    const double u = c.uni(0.3, 0.7) * C().w, v = c.uni(0.3, 0.7) * C().h, z = c.uni(1500, 2800), a = c.uni(-M_PI, M_PI), r = c.uni(10, 24);
    std::array<V3, 2> where;
    for (int k = 0; k < 2; ++k)
    {
        const double uu = u + k * r * std::cos(a), vv = v + k * r * std::sin(a);
        where[(size_t)k] = ref::cam_to_world(base, V3((uu - C().cx) / C().fx * z, (vv - C().cy) / C().fy * z, z));
    }
    std::array<cv::Mat, 2> desc = {descriptor(c), descriptor(c)};
    const std::array<cv::Mat, 2> target = {descriptor(c), desc[0].clone()};
    std::array<std::vector<int>, 2> bits;
    for (size_t k = 0; k < 2; ++k)
    {
        for (int b = 0; b < 256; ++b) if (((desc[k].at<uchar>(0, b / 8) ^ target[k].at<uchar>(0, b / 8)) >> (b % 8)) & 1) bits[k].push_back(b);
        std::shuffle(bits[k].begin(), bits[k].end(), c.rng);
    }
    const int perFrame = (int)c.irange(4, 9);
    std::array<size_t, 2> id = {0, 0};
    int judged = 0;
    for (int frame = 0; not bits[0].empty() or not bits[1].empty(); ++frame)
    {
        ref::Pose P = base;
        P.t += V3(c.uni(-1, 1), c.uni(-1, 1), c.uni(-1, 1)) * (depthMap ? 20 : 5);
        const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(P.q, P.t);
        const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(P.q, P.t);
        const std::array<cv::Mat, 2> previous = {desc[0].clone(), desc[1].clone()};
        if (frame > 0)
            for (size_t k = 0; k < 2; ++k)
                for (int n = 0; n < perFrame and not bits[k].empty(); ++n)
                {
                    const int b = bits[k].back();
                    bits[k].pop_back();
                    desc[k].at<uchar>(0, b / 8) = (uchar)(desc[k].at<uchar>(0, b / 8) ^ (1 << (b % 8)));
                }
        // ambiguous descriptions: nothing to claim
        for (size_t k = 0; k < 2; ++k)
            if (frame > 0 and cv::norm(desc[k], previous[k], cv::NORM_HAMMING) > 0.4 * cv::norm(desc[1 - k], previous[k], cv::NORM_HAMMING)) return;
        const bool swapped = c.coin();
        std::vector<cv::Point2f> kp;
        cv::Mat d;
        cv::Mat_<float> depth(C().h, C().w, 0.f);
        for (size_t i = 0; i < 2; ++i)
        {
            const size_t k = swapped ? 1 - i : i;
            double zz;
            const auto uv = project(P, where[k], zz);
            kp.emplace_back((float)uv.x(), (float)uv.y());
            d.push_back(desc[k]);
            if (depthMap) for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) depth((int)std::lround(uv.y()) + dy, (int)std::lround(uv.x()) + dx) = (float)zz;
        }
        features::keypoints::Keypoint_Handler h((uint)C().w, (uint)C().h);
        h.set(kp, d, {}, depth);
        const DetectedFeatureContainer det(h, {}, {});
        matches_containers::match_container matches;
        map.get_matches(det, w2c, 1000, matches);
        if (frame > 0)
        {
            if (not check(matches.size() == 2, "feature_found_by_its_last_description", "frame %d: %zu features found of 2", frame, matches.size())) return;
            for (const auto& m: matches)
            {
                const size_t k = (m->_detectedFeatureId == 0) == (not swapped) ? 0 : 1;
                if (id[k] == 0) id[k] = m->_idInMap;
                if (not check(id[k] == m->_idInMap, "feature_not_taken_for_another", "frame %d: feature %zu takes the place of %zu", frame, m->_idInMap, id[k])) return;
            }
            ++judged;
        }
        const matrix33 cov = pose_cov(c);
        const auto used = map.update_map(c2w, cov, det, rec);
        map.add_features_to_staged_map(cov, c2w, det, used);
    }
    mon::observe(depthMap ? "descriptions_followed.points" : "descriptions_followed.rays", (uint64_t)judged);
    mon::nontrivial("description", mon::fmt("%d %d %d", depthMap, judged, (int)r));
}
MON_TEST(descriptions, 40, 600)
{
    description_follows<localPointMap>(c, true);
    description_follows<localPoint2DMap>(c, false);
}

// --- rays become points when their depth is known ------------------------------------------------------------------
MON_TEST(upgrade, 60, 900)
{
    const PointWorld w = point_world(c);
    if (w.pts.empty()) return;
    localPoint2DMap rays;
    localPointMap points;
    auto rec = std::make_shared<Recorder>();
    const V3 dir = V3(c.gauss(), c.gauss(), 0.2 * c.gauss()).normalized();
    const double step = c.uni(4, 9);
    const int frames = (int)c.irange(20, 45);
    const int depthFrom = c.coin(0.4) ? (int)c.irange(2, frames - 2) : frames; // a depth becomes available
    size_t upgradedTotal = 0, added = 0;
    double worst = 0;
    std::set<int> done, mistaken;
    std::map<size_t, int> owner;
    for (int frame = 0; frame < frames; ++frame)
    {
        ref::Pose P = w.base;
        P.t += ref::rot(w.base.q) * dir * step * frame;
        // keep looking at the same place
        P.q = w.base.q;
        const matrix33 cov = matrix33::Identity() * c.uni(0.01, 0.3);
        const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(P.q, P.t);
        const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(P.q, P.t);
        std::vector<How> how(w.pts.size(), noDepth);
        if (frame >= depthFrom) for (auto& h: how) h = withDepth;
        for (int i: done) how[(size_t)i] = absent; // only the others
        KeyFrame f;
        key_frame(c, f, w, P, how, std::vector<size_t>(w.pts.size(), 0), false);
        const DetectedFeatureContainer det(f.handler, {}, {});
        matches_containers::match_container matches;
        rays.get_matches(det, w2c, 1000, matches);
        for (const auto& m: matches)
        {
            const int thing = f.seen[(size_t)m->_detectedFeatureId].thing;
            const int was = owner.emplace((size_t)m->_idInMap, thing).first->second;
            if (was != thing) { mistaken.insert(was); mistaken.insert(thing); } // its own left the image, another passes by
        }
        const auto used = rays.update_map(c2w, cov, det, rec);
        rays.add_features_to_staged_map(cov, c2w, det, used);
        const size_t before = rays.size(), beforePoints = points.get_local_map_size();
        const auto up = rays.get_upgraded_features(c2w);
        check(rays.size() + up.size() == before, "upgraded_leave_their_map", "%zu + %zu, %zu before", rays.size(), up.size(), before);
        const size_t n = points.add_upgraded_features(up);
        check(n == up.size() and points.get_local_map_size() == beforePoints + up.size(), "upgraded_enter_the_point_map", "%zu of %zu, %zu -> %zu", n, up.size(), beforePoints, points.get_local_map_size());
        check(rays.add_upgraded_features(up) == 0, "upgraded_only_added_to_their_map", "frame %d", frame);
        added += n;
        upgradedTotal += up.size();
        for (const auto& u: up)
        {
            check(u->get_type() == FeatureType::Point, "upgraded_type", "frame %d", frame);
            const auto* p = dynamic_cast<UpgradedPoint2D*>(u.get());
            if (not check(p != nullptr, "upgraded_kind", "frame %d", frame)) continue;
            double best = 1e18; int who = -1;
            for (size_t i = 0; i < w.pts.size(); ++i)
                if (std::equal(p->_descriptor.begin<uchar>(), p->_descriptor.end<uchar>(), w.desc[i].begin<uchar>()))
                { best = (p->_coordinates - w.pts[i]).norm(); who = (int)i; }
            if (not check(who >= 0, "upgraded_keeps_descriptor", "frame %d", frame)) continue;
            done.insert(who);
            const double z = (w.pts[(size_t)who] - ref::cam_to_world(P, V3::Zero())).norm();
            if (mistaken.count(who)) { mon::observe("mistaken"); continue; }
            worst = std::max(worst, best / z);
            // the true position is inside of what is announced (uncertainty of the fused estimate)
            check(best <= 0.25 * z, "upgraded_where_it_is", "frame %d: %g mm away, at %g mm of the camera", frame, best, z);
            check(ref::psd(p->_covariance) and p->_covariance.trace() > 0, "upgraded_uncertainty", "frame %d", frame);
        }
        mon::observe("frames.upgrade");
    }
    rec->clear();
    points.destroy(rec);
    check(rec->points.size() == added, "upgraded_points_written", "%zu written, %zu added", rec->points.size(), added);
    mon::observe("upgraded", upgradedTotal);
    if (upgradedTotal) mon::nontrivial("upgrade", mon::fmt("%zu %d %d %d", upgradedTotal, frames, (int)step, (int)(worst * 1000)));
    mon::sample("upgrade", mon::fmt("%zu rays, %d frames of %.1f mm: %zu upgraded, worst error %.2f %%", w.pts.size(), frames, step, upgradedTotal, worst * 100));
}

// --- planes ----------------------------------------------------------------------------------------------------------
struct WorldPlane { V3 n; double d; std::vector<V3> ring; V3 center; };
static void init_planes()
{
    static const bool init = [] { features::primitives::Plane_Segment::set_static_members(20, 400); return true; }();
    (void)init;
}
// the patches of 20x20 pixels in the boundary, merged
static bool detect_plane(mon::Ctx& c, const ref::Pose& P, const WorldPlane& w, features::primitives::plane_container& out)
{
    using features::primitives::Plane_Segment;
    const V3 o = ref::cam_to_world(P, V3::Zero());
    const V3 nc(w.n.dot(ref::cam_to_world(P, V3::UnitX()) - o), w.n.dot(ref::cam_to_world(P, V3::UnitY()) - o), w.n.dot(ref::cam_to_world(P, V3::UnitZ()) - o));
    const double dc = w.d + w.n.dot(o);
    std::vector<vector3> ring;
    V3 mean = V3::Zero();
    for (const V3& q: w.ring) { ring.push_back(ref::world_to_cam(P, q)); mean += ring.back(); }
    mean /= (double)ring.size();
    std::unique_ptr<Plane_Segment> all;
    for (size_t k = 0; k <= ring.size(); ++k)
    {
        const V3 at = k == ring.size() ? mean : V3(mean + 0.6 * (ring[k] - mean));
        const double u0 = C().fx * at.x() / at.z() + C().cx - 10, v0 = C().fy * at.y() / at.z() + C().cy - 10;
        matrixf cloud(400, 3);
        for (int i = 0; i < 400; ++i)
        {
            const V3 r((u0 + i % 20 - C().cx) / C().fx, (v0 + i / 20 - C().cy) / C().fy, 1);
            const double z = -dc / nc.dot(r);
            cloud(i, 0) = (float)(r.x() * z); cloud(i, 1) = (float)(r.y() * z); cloud(i, 2) = (float)z;
        }
        Plane_Segment seg;
        seg.init_plane_segment(cloud, 0);
        if (not seg.is_planar()) return false;
        if (not all) all = std::make_unique<Plane_Segment>(seg);
        else { all->expand_segment(seg); all->fit_plane(); }
    }
    (void)c;
    if (not all->is_planar()) return false;
    out.emplace_back(*all, CameraPolygon(utils::Polygon(ring, nc.normalized(), mean)));
    return true;
}
// --- a part of a plane is recognised; of several parts the one that covers most of it is taken ---------------------
MON_TEST(partial_planes, 150, 2000)
{
    init_planes();
    const ref::Pose P = ref::rand_pose(c, 3000);
    const double z = c.uni(1000, 2500);
    const V3 ctr(c.uni(-0.1, 0.1) * z, c.uni(-0.1, 0.1) * z, z);
    const V3 n = (-ctr.normalized() + V3(c.uni(-0.4, 0.4), c.uni(-0.4, 0.4), 0)).normalized(), ax = n.unitOrthogonal(), ay = n.cross(ax);
    const V3 o = ref::cam_to_world(P, V3::Zero());
    auto part = [&](double x0, double x1, double y0, double y1) {
        WorldPlane w;
        for (const auto& [x, y]: {std::pair(x0, y0), std::pair(x1, y0), std::pair(x1, y1), std::pair(x0, y1)}) w.ring.push_back(ref::cam_to_world(P, ctr + ax * x + ay * y));
        w.center = ref::cam_to_world(P, ctr + ax * (x0 + x1) / 2 + ay * (y0 + y1) / 2);
        w.n = ref::cam_to_world(P, n) - o;
        w.d = -w.n.dot(w.center);
        return w;
    };
    const double r = 100 * z / C().fx;
    const WorldPlane whole = part(-r, r, -r, r);
    if (std::fabs(whole.d) < 50) return;
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(P.q, P.t);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(P.q, P.t);
    localPlaneMap map;
    const features::keypoints::Keypoint_Handler none((uint)C().w, (uint)C().h);
    {
        features::primitives::plane_container dets;
        if (not detect_plane(c, P, whole, dets)) return;
        const DetectedFeatureContainer det(none, {}, dets);
        matches_containers::match_container m;
        map.get_matches(det, w2c, 1000, m);
        map.add_features_to_staged_map(pose_cov(c), c2w, det, {});
        if (not check(map.get_staged_map_size() == 1, "candidate_count", "%zu candidates of one plane", map.get_staged_map_size())) return;
    }
    // parts, side by side
    const int parts = (int)c.irange(1, 3);
    std::vector<double> width;
    double total = 0;
    for (int i = 0; i < parts; ++i) { width.push_back(c.uni(0.1, 1)); total += width.back() + 0.05; }
    const double scale = (parts == 1 ? c.uni(0.25, 0.9) : 1.8) * r / total, y0 = -r * c.uni(0.3, 0.9), y1 = r * c.uni(0.3, 0.9);
    double x = -0.9 * r;
    features::primitives::plane_container dets;
    for (double& w: width)
    {
        w *= scale;
        if (not detect_plane(c, P, part(x, x + w, y0, y1), dets)) return;
        x += w + 0.05 * scale;
    }
    const size_t best = (size_t)(std::max_element(width.begin(), width.end()) - width.begin());
    for (size_t i = 0; i < width.size(); ++i) if (i != best and width[i] > 0.95 * width[best]) return;
    const DetectedFeatureContainer det(none, {}, dets);
    matches_containers::match_container m;
    map.get_matches(det, w2c, c.coin() ? 1000 : 1, m);
    if (not check(m.size() == 1, "part_of_plane_recognised", "%zu matches of %d parts, the largest covers %.2g of the plane", m.size(), parts, width[best] * (y1 - y0) / (4 * r * r))) return;
    check(m.front()->_detectedFeatureId == best, "largest_part_taken", "part %zu of %d, the largest is %zu", m.front()->_detectedFeatureId, parts, best);
    mon::observe("plane_parts", (uint64_t)parts);
    mon::nontrivial("parts", mon::fmt("%d %zu %.1f", parts, best, width[best] / r));
}
// --- a plane in front of the known one, behind it or at an angle is not taken for it ---------------------------------
MON_TEST(other_planes, 150, 2000)
{
    init_planes();
    const ref::Pose P = ref::rand_pose(c, 3000);
    const double z = c.uni(1200, 2500), r = 100 * z / C().fx;
    const V3 ctr(c.uni(-0.1, 0.1) * z, c.uni(-0.1, 0.1) * z, z);
    const V3 n = (-ctr.normalized() + V3(c.uni(-0.4, 0.4), c.uni(-0.4, 0.4), 0)).normalized();
    const V3 o = ref::cam_to_world(P, V3::Zero());
    auto plane = [&](const V3& at, const V3& nrm, double half) {
        WorldPlane w;
        const V3 ax = nrm.unitOrthogonal(), ay = nrm.cross(ax);
        for (const auto& [x, y]: {std::pair(-1, -1), std::pair(1, -1), std::pair(1, 1), std::pair(-1, 1)}) w.ring.push_back(ref::cam_to_world(P, at + (ax * x + ay * y) * half));
        w.center = ref::cam_to_world(P, at);
        w.n = ref::cam_to_world(P, nrm) - o;
        w.d = -w.n.dot(w.center);
        return w;
    };
    const WorldPlane known = plane(ctr, n, r);
    if (std::fabs(known.d) < 50) return;
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(P.q, P.t);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(P.q, P.t);
    localPlaneMap map;
    const features::keypoints::Keypoint_Handler none((uint)C().w, (uint)C().h);
    {
        features::primitives::plane_container dets;
        if (not detect_plane(c, P, known, dets)) return;
        const DetectedFeatureContainer det(none, {}, dets);
        matches_containers::match_container m;
        map.get_matches(det, w2c, 1000, m);
        map.add_features_to_staged_map(pose_cov(c), c2w, det, {});
        if (not check(map.get_staged_map_size() == 1, "candidate_count", "%zu candidates of one plane", map.get_staged_map_size())) return;
    }
    // others, and sometimes the same one, slightly off
    const int others = (int)c.irange(0, 3), same = (int)c.irange(0, 1);
    std::vector<int> kinds(others, 0);
    for (int& k: kinds) k = 1 + (int)c.irange(0, 2);
    if (same) kinds.insert(kinds.begin() + c.irange(0, (int64_t)kinds.size()), 0);
    if (kinds.empty()) return;
    features::primitives::plane_container dets;
    int expected = -1;
    for (int k: kinds)
    {
        V3 at = ctr, nrm = n;
        double half = r * c.uni(0.5, 0.9);
        const V3 turn = (n.unitOrthogonal() * c.gauss() + n.cross(n.unitOrthogonal()) * c.gauss()).normalized();
        if (k == 0) { at += n * c.uni(-40, 40); nrm = Eigen::AngleAxisd(c.uni(0, 2) * M_PI / 180, turn) * n; expected = (int)dets.size(); }
        else if (k == 1) { at += n * c.uni(200, 600); half = r * c.uni(0.4, 0.6); } // nearer
        else if (k == 2) at -= n * c.uni(200, 600);                              // further
        else nrm = Eigen::AngleAxisd(c.uni(30, 45) * M_PI / 180, turn) * n;
        if (nrm.dot(at) > -0.25 * at.norm()) return; // too steep to be detected
        if (not detect_plane(c, P, plane(at, nrm, half), dets)) { mon::observe("other_planes_not_fitted"); return; }
    }
    const DetectedFeatureContainer det(none, {}, dets);
    matches_containers::match_container m;
    map.get_matches(det, w2c, c.coin() ? 1000 : 1, m);
    for (const auto& f: m) check((int)f->_detectedFeatureId == expected, "other_plane_not_taken_for_known_one", "detection %zu is %s the known plane", f->_detectedFeatureId, kinds[f->_detectedFeatureId] == 1 ? "in front of" : kinds[f->_detectedFeatureId] == 2 ? "behind" : "at an angle with");
    if (same) check(m.size() == 1, "known_plane_recognised_among_others", "%zu matches among %zu planes", m.size(), kinds.size());
    mon::observe(same ? "other_planes.with_known" : "other_planes.alone");
    mon::nontrivial("other_planes", mon::fmt("%zu %d %d", kinds.size(), expected, (int)(z / 50)));
}

MON_TEST(planes, 60, 900)
{
    init_planes();
    const ref::Pose base = ref::rand_pose(c, 3000);
    std::vector<WorldPlane> planes;
    const int gx = 3, gy = 2;
    for (int i = 0; i < gx; ++i)
        for (int j = 0; j < gy; ++j)
        {
            if (c.coin(0.4)) continue;
            const double u = (i + 0.5) * C().w / gx, v = (j + 0.5) * C().h / gy, z = c.uni(1000, 2500);
            const V3 ctr((u - C().cx) / C().fx * z, (v - C().cy) / C().fy * z, z);
            V3 n = -ctr.normalized() + V3(c.uni(-0.6, 0.6), c.uni(-0.6, 0.6), c.uni(-0.3, 0.3));
            n.normalize();
            const V3 ax = n.unitOrthogonal(), ay = n.cross(ax);
            const double r = z * 0.28 * 160 / C().fx * c.uni(0.7, 1.0);
            WorldPlane w;
            const int k = (int)c.irange(4, 9);
            for (int q = 0; q < k; ++q)
            {
                const double a = 2 * M_PI * q / k;
                w.ring.push_back(ref::cam_to_world(base, ctr + ax * r * std::cos(a) + ay * r * std::sin(a)));
            }
            w.center = ref::cam_to_world(base, ctr);
            const V3 o = ref::cam_to_world(base, V3::Zero());
            w.n = ref::cam_to_world(base, n) - o;
            w.d = -w.n.dot(w.center);
            if (std::fabs(w.d) < 50) continue;
            planes.push_back(w);
        }
    if (planes.empty()) return;
    Sim<localPlaneMap> s;
    s.type = FeatureType::Plane;
    s.rules = {[](int n, int) { return n >= 4; }, [](int, int f) { return f >= 2; }, [](int, int f) { return f >= (int)parameters::mapping::planeUnmatchedCountToLoose; }};
    for (const auto& p: planes) { Thing t; t.where = p.center; s.things.push_back(t); }
    std::vector<double> quality(planes.size());
    for (auto& q: quality) q = c.coin(0.5) ? 1.0 : c.coin(0.6) ? c.uni(0.7, 0.97) : c.uni(0.1, 0.7);
    const int frames = (int)c.irange(15, 45);
    int away = 0, blind = 0;
    for (int frame = 0; frame < frames and not s.broken; ++frame)
    {
        ref::Pose P = base;
        P.t += V3(c.uni(-1, 1), c.uni(-1, 1), c.uni(-1, 1)) * 20;
        P.q = qmul(P.q, rot_around(V3(c.gauss(), c.gauss(), c.gauss()), c.uni(0, 0.01)));
        if (away > 0) --away;
        else if (c.coin(0.03)) away = (int)c.irange(1, 12);
        const bool visible = away == 0;
        if (not visible) P.q = qmul(P.q, rot_around(V3(0, 1, 0), M_PI));
        if (blind > 0) --blind;
        else if (c.coin(0.04)) blind = (int)c.irange(1, 12);
        const matrix33 cov = pose_cov(c);
        const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(P.q, P.t);
        const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(P.q, P.t);
        std::vector<int> order;
        for (size_t i = 0; i < planes.size(); ++i) { if (c.coin(0.01)) quality[i] = c.coin() ? 0 : 1; if (visible and c.coin(quality[i])) order.push_back((int)i); }
        std::shuffle(order.begin(), order.end(), c.rng);
        features::primitives::plane_container dets;
        std::vector<Seen> seen;
        for (int i: order)
            if (detect_plane(c, P, planes[(size_t)i], dets)) seen.push_back({i, (int)dets.size() - 1, true, 0});
            else mon::observe("planes_not_fitted");
        features::keypoints::Keypoint_Handler none((uint)C().w, (uint)C().h);
        const DetectedFeatureContainer det(none, {}, dets);
        const uint minimum = c.coin() ? 1000 : (uint)c.irange(0, 3);
        matches_containers::match_container matches;
        s.map.get_matches(det, w2c, minimum, matches);
        s.predict(seen, visible);
        s.judge_matches(matches, minimum, "planes");
        if (s.broken) break;
        for (const auto& m: matches) check(m->is_valid() and m->is_inlier(w2c), "plane_match_explained_by_true_pose", "feature %zu", m->_idInMap);
        std::vector<int> lost;
        s.rec->clear();
        if (blind > 0)
        {
            s.map.update_with_no_tracking(s.rec);
            s.after_update(seen, false, lost);
            s.judge_written(lost, 1.0, "no pose");
            s.expect_sizes("after a frame without pose");
            continue;
        }
        matches_containers::match_container wrong;
        if (c.coin(0.3))
            for (const auto& m: matches)
                for (size_t i = 0; i < s.things.size(); ++i)
                    for (auto& e: s.things[i].e)
                        if (e.id == m->_idInMap and e.matched and c.coin(0.15))
                        {
                            const bool safe = e.local ? s.staged(s.things[i]) == nullptr : e.f == 1;
                            if (not safe) continue;
                            wrong.push_back(m);
                            e.matched = false;
                            ++s.outliers;
                        }
        s.map.mark_outliers_as_unmatched(wrong);
        const auto used = s.map.update_map(c2w, cov, det, s.rec);
        std::set<size_t> expectedUsed;
        for (auto& t: s.things) for (auto& e: t.e) if (e.matched) expectedUsed.insert((size_t)e.det);
        check(std::set<size_t>(used.begin(), used.end()) == expectedUsed, "detections_used", "%zu planes used, %zu expected", used.size(), expectedUsed.size());
        s.map.add_features_to_staged_map(cov, c2w, det, used);
        s.after_update(seen, true, lost);
        for (size_t k = 0; k < s.rec->polygons.size(); ++k)
        {
            // each written boundary is the boundary of one of the lost planes
            double best = 1e18;
            for (int i: lost)
            {
                double far = 0;
                for (const auto& q: s.rec->polygons[k]) far = std::max(far, std::fabs(planes[(size_t)i].n.dot(q) + planes[(size_t)i].d));
                best = std::min(best, far);
            }
            check(best < 10, "written_boundary_on_its_plane", "%g mm", best);
        }
        s.judge_written(lost, 1.0, "update");
        s.expect_sizes("after an update");
        mon::observe("frames.planes");
    }
    if (s.broken) return;
    s.rec->clear();
    std::vector<int> all;
    for (size_t i = 0; i < s.things.size(); ++i) if (s.local(s.things[i])) all.push_back((int)i);
    s.map.destroy(s.rec);
    s.judge_written(all, 1.0, "end");
    s.map.reset();
    check(s.map.size() == 0, "reset_empties", "%zu left", s.map.size());
    mon::observe("promotions", (uint64_t)s.promotions);
    mon::observe("losses", (uint64_t)s.losses);
    mon::observe("candidates_dropped", (uint64_t)s.drops);
    mon::observe("outliers", (uint64_t)s.outliers);
    if (s.promotions > 0) mon::nontrivial("planes", mon::fmt("%d %d %d %d %d", s.promotions, s.losses, s.drops, s.outliers, s.confirmations));
    mon::sample("planes", mon::fmt("%zu planes, %d frames: %d promotions, %d lost, %d candidates dropped, %d outliers", planes.size(), frames, s.promotions, s.losses, s.drops, s.outliers));
}

// --- the whole map: every kind of feature at once behaves as it does alone -------------------------------------------
static std::vector<V3> obj_vertices(const std::string& path)
{
    std::vector<V3> out;
    std::ifstream f(path);
    std::string line;
    double x, y, z;
    while (std::getline(f, line))
        if (sscanf(line.c_str(), "v %lf %lf %lf", &x, &y, &z) == 3) out.push_back(V3(x, y, z));
    return out;
}
MON_TEST(together, 40, 500)
{
    init_planes();
    if (chdir(mon::opt().workdir.c_str()) != 0) { /* (already there) */ }
    const PointWorld w = point_world(c, 1500, 2800);
    std::vector<WorldPlane> planes;
    for (int i = 0; i < 3; ++i)
    {
        if (c.coin(0.3)) continue;
        const double u = (i + 0.5) * C().w / 3, v = 0.5 * C().h, z = c.uni(1000, 2500);
        const V3 ctr((u - C().cx) / C().fx * z, (v - C().cy) / C().fy * z, z);
        V3 n = -ctr.normalized() + V3(c.uni(-0.5, 0.5), c.uni(-0.5, 0.5), c.uni(-0.3, 0.3));
        n.normalize();
        const V3 ax = n.unitOrthogonal(), ay = n.cross(ax);
        const double r = z * 0.28 * 160 / C().fx * c.uni(0.7, 1.0);
        WorldPlane p;
        for (int q = 0; q < 6; ++q) p.ring.push_back(ref::cam_to_world(w.base, ctr + ax * r * std::cos(M_PI * q / 3) + ay * r * std::sin(M_PI * q / 3)));
        p.center = ref::cam_to_world(w.base, ctr);
        p.n = ref::cam_to_world(w.base, n) - ref::cam_to_world(w.base, V3::Zero());
        p.d = -p.n.dot(p.center);
        if (std::fabs(p.d) >= 50) planes.push_back(p);
    }
    localPoint2DMap rays;
    localPointMap points;
    localPlaneMap flats;
    auto written = std::make_shared<outputs::OBJ_Map_Writer>("alone");
    auto all = std::make_unique<Local_Map<localPoint2DMap, localPointMap, localPlaneMap>>();
    auto each = [&](auto&& f) { f(rays); f(points); f(flats); };
    const V3 dir = V3(c.gauss(), c.gauss(), 0.2 * c.gauss()).normalized();
    const bool moves = c.coin(); // far enough for the position of rays to be known
    const double step = moves ? c.uni(4, 9) : 0.0;
    std::vector<double> quality(w.pts.size()), flatQuality(planes.size());
    for (auto& q: quality) q = c.coin(0.5) ? 1.0 : c.uni(0.2, 0.95);
    for (auto& q: flatQuality) q = c.coin(0.6) ? 1.0 : c.uni(0.5, 0.95);
    // one feature per thing (of several features of a thing, which one is matched is a matter of order): a thing has
    // depth or not, gets one when its position is known, and is declared wrong once at most, when it is well known
    std::vector<bool> hasDepth(w.pts.size());
    const double depthChance = c.pick(std::vector<double> {0.0, 0.5, 1.0});
    for (size_t i = 0; i < w.pts.size(); ++i) hasDepth[i] = c.coin(depthChance);
    std::map<std::pair<int, int>, int> known; // consecutive matches of a thing
    std::set<std::pair<int, int>> declared;
    std::map<size_t, int> owner; // the thing each feature was made of
    const int frames = moves ? (int)c.irange(25, 45) : (int)c.irange(10, 40);
    size_t compared = 0, upgrades = 0, wrongs = 0, blinds = 0, refusals = 0, resets = 0;
    int away = 0, blind = 0;
    for (int frame = 0; frame < frames; ++frame)
    {
        ref::Pose P = w.base;
        P.t += ref::rot(w.base.q) * dir * step * frame + V3(c.uni(-1, 1), c.uni(-1, 1), c.uni(-1, 1)) * (moves ? 0.0 : 2.0);
        if (not moves) P.q = qmul(P.q, rot_around(V3(c.gauss(), c.gauss(), c.gauss()), c.uni(0, 0.01)));
        if (away > 0) --away;
        else if (c.coin(moves ? 0.005 : 0.03)) away = (int)c.irange(1, 13);
        if (away > 0) P.q = qmul(P.q, rot_around(V3(0, 1, 0), M_PI));
        if (blind > 0) --blind;
        else if (c.coin(moves ? 0.01 : 0.06)) blind = (int)c.irange(1, 13);
        const matrix33 cov = moves ? matrix33(matrix33::Identity() * c.uni(0.01, 0.3)) : pose_cov(c);
        const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(P.q, P.t);
        const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(P.q, P.t);
        matrix66 poseCov = matrix66::Identity() * 1e-4;
        poseCov.block<3, 3>(0, 0) = cov;
        const utils::Pose pose(P.t, P.q, poseCov);
        std::vector<How> how(w.pts.size(), absent);
        for (size_t i = 0; i < w.pts.size(); ++i) if (c.coin(quality[i])) how[i] = hasDepth[i] ? withDepth : noDepth;
        KeyFrame f;
        key_frame(c, f, w, P, how, std::vector<size_t>(w.pts.size(), 0), true);
        features::primitives::plane_container dets;
        std::vector<int> detOwner;
        if (away == 0)
            for (size_t i = 0; i < planes.size(); ++i) if (c.coin(flatQuality[i]) and detect_plane(c, P, planes[i], dets)) detOwner.push_back((int)i);
        const DetectedFeatureContainer det(f.handler, {}, dets);
        if (c.coin(moves ? 0.005 : 0.02))
        { // everything is forgotten
            all->reset();
            each([](auto& m) { m.reset(); });
            known.clear();
            ++resets;
        }
        matches_containers::match_container alone;
        each([&](auto& m) { m.get_matches(det, w2c, (uint)m.minimum_features_for_opti(), alone); });
        const matches_containers::match_container matches = all->find_feature_matches(pose, det);
        typedef std::pair<int, size_t> Key;
        auto key = [](const auto& m) { return Key((int)m->get_feature_type(), m->_detectedFeatureId); };
        std::multimap<Key, matches_containers::feat_ptr> a, b;
        for (const auto& m: alone) a.emplace(key(m), m);
        for (const auto& m: matches) b.emplace(key(m), m);
        std::vector<Key> ka, kb;
        for (const auto& [k, m]: a) ka.push_back(k);
        for (const auto& [k, m]: b) kb.push_back(k);
        if (not check(ka == kb, "matches_as_alone", "frame %d: %zu matches, %zu by the maps one by one", frame, kb.size(), ka.size())) return;
        bool mistaken = false;
        for (const auto& m: matches)
        {
            const int thing = m->get_feature_type() == FeatureType::Plane ? 1000 + detOwner[m->_detectedFeatureId] : f.seen[m->_detectedFeatureId].thing;
            mistaken = mistaken or owner.emplace(m->_idInMap, thing).first->second != thing;
        }
        if (mistaken) { mon::observe("together.mistaken"); return; }
        std::set<size_t> ids;
        for (const auto& m: matches) check(ids.insert(m->_idInMap).second, "ids_unique_in_the_whole_map", "frame %d: feature %zu is matched twice", frame, m->_idInMap);
        bool unique = true;
        for (size_t i = 1; i < ka.size(); ++i) unique = unique and ka[i] != ka[i - 1];
        if (unique)
            for (const auto& [k, m]: a)
            {
                const vectorxd d1 = m->get_distance(w2c), d2 = b.find(k)->second->get_distance(w2c);
                check(d1.size() == d2.size() and (d1 - d2).norm() <= 0.5 + 1e-6 * d1.norm(), "features_are_where_they_are_alone", "frame %d type %d: distances %g and %g", frame, k.first, d1.norm(), d2.norm());
            }
        compared += ka.size();
        if (blind > 0)
        {
            each([&](auto& m) { m.update_with_no_tracking(written); });
            all->update_no_pose();
            known.clear();
            ++blinds;
            if (c.coin(0.2))
            { // lost, and the map is forgotten: everything that is seen is a candidate
                // (with features of the same things in the map, which of both is matched is a matter of order)
                all->reset();
                each([](auto& m) { m.reset(); });
                each([&](auto& m) { m.add_all_features_to_staged_map(cov, c2w, det); });
                all->add_all_features_to_map(cov, c2w, det);
            }
            continue;
        }
        if (c.coin(0.05))
        {
            matrix66 bad = poseCov;
            bad(0, 0) = c.coin() ? NAN : -4.0;
            utils::Pose badPose(P.t, P.q);
            bool given = true;
            try { badPose = utils::Pose(P.t, P.q, bad); } catch (const std::exception&) { given = false; }
            if (given)
            {
                bool refused = false;
                try { all->update(badPose, det, {}); } catch (const std::invalid_argument&) { refused = true; }
                check(refused, "invalid_pose_refused", "frame %d: by the whole map", frame);
                ++refusals;
            }
        }
        matches_containers::match_container wrongA, wrongB;
        std::map<std::pair<int, int>, int> still;
        for (const auto& [k, m]: a)
        {
            const bool flat = m->get_feature_type() == FeatureType::Plane;
            const std::pair<int, int> thing(k.first, flat ? detOwner[k.second] : f.seen[k.second].thing);
            const int n = still[thing] = known[thing] + 1;
            if (not unique or n < 6 or declared.count(thing) or not c.coin(0.1)) continue;
            wrongA.push_back(m);
            wrongB.push_back(b.find(k)->second);
            declared.insert(thing);
            ++wrongs;
        }
        known = still;
        each([&](auto& m) { m.mark_outliers_as_unmatched(wrongA); });
        each([&](auto& m) {
            const auto used = m.update_map(c2w, cov, det, written);
            m.add_features_to_staged_map(cov, c2w, det, used);
        });
        const auto up = rays.get_upgraded_features(c2w);
        upgrades += points.add_upgraded_features(up);
        for (const auto& u: up)
            if (const auto* p = dynamic_cast<UpgradedPoint2D*>(u.get()))
                for (size_t i = 0; i < w.pts.size(); ++i)
                    if (std::equal(p->_descriptor.begin<uchar>(), p->_descriptor.end<uchar>(), w.desc[i].begin<uchar>())) hasDepth[i] = true;
        all->update(pose, det, wrongB);
        // some of the confirmed features seen now are tracked, none is invented
        TrackedFeaturesContainer mine;
        each([&](auto& m) { m.get_tracked_features(w2c, mine, 0); });
        const TrackedFeaturesContainer theirs = all->get_tracked_features(pose);
        check(theirs.trackedPoints->size() <= mine.trackedPoints->size() and (mine.trackedPoints->size() < 20 or theirs.trackedPoints->size() > 0), "tracked_as_alone", "frame %d: %zu of %zu", frame, theirs.trackedPoints->size(), mine.trackedPoints->size());
        for (size_t i = 0; i < theirs.trackedPoints->size(); ++i)
        {
            double best = 1e9;
            for (size_t k = 0; k < mine.trackedPoints->size(); ++k) best = std::min(best, cv::norm(theirs.trackedPoints->at(i)._point - mine.trackedPoints->at(k)._point));
            check(best < 0.1, "tracked_where_alone", "frame %d: %g pixels away", frame, best);
        }
    }
    all.reset();
    each([&](auto& m) { m.destroy(written); });
    written.reset();
    const auto v1 = obj_vertices("out.obj"), v2 = obj_vertices("alone.obj");
    check(v1.size() == v2.size(), "written_as_alone", "%zu vertices written, %zu by the maps one by one", v1.size(), v2.size());
    for (const V3& p: v1)
    {
        double best = 1e18;
        for (const V3& q: v2) best = std::min(best, (p - q).norm());
        check(best < 0.5, "written_where_alone", "%g mm away", best);
    }
    mon::observe("together.matches", compared);
    mon::observe("together.vertices", v1.size());
    mon::observe("together.upgrades", upgrades);
    mon::observe("together.outliers", wrongs);
    mon::observe("together.blind", blinds);
    mon::observe("together.refused", refusals);
    mon::observe("together.resets", resets);
    if (compared) mon::nontrivial("together", mon::fmt("%zu %zu %zu %zu", compared / 10, v1.size(), upgrades, wrongs));
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, [] { mon::load_config(); }); }
