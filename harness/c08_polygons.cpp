// C08: boundary polygons: construction from a point cloud, frame moves, projection, visibility.
#include "config.hpp"
#include "geo.hpp"
#include "poly.hpp"
#include "coordinates/polygon_coordinates.hpp"
#include "utils/camera_transformation.hpp"
using namespace rgbd_slam;
using mon::check;
using mon::near;
using namespace refpoly;
using ref::V3;

static void pick_frame(mon::Ctx& c, V3& n, V3& center)
{
    const int k = (int)c.irange(0, 9);
    n = V3(c.gauss(), c.gauss(), c.gauss()).normalized();
    if (k == 0) n = V3(0, 0, 1);
    if (k == 1) n = V3(0, -1, 0);
    if (k == 2) n = V3(1, 0, 0);
    if (k == 3) n = V3(1, c.uni(-1e-3, 1e-3), c.uni(-1e-3, 1e-3)).normalized();
    center = V3(c.uni(-3000, 3000), c.uni(-3000, 3000), c.uni(-3000, 3000));
}
static void axes_of(mon::Ctx& c, const V3& n, V3& x, V3& y)
{
    V3 r(c.gauss(), c.gauss(), c.gauss());
    x = (r - n * n.dot(r)).normalized();
    y = n.cross(x).normalized();
}
static utils::Polygon make(const P2& b, const V3& x, const V3& y, const V3& center)
{
    std::vector<utils::Polygon::point_2d> v;
    for (const V2& p: b) v.emplace_back(p.x(), p.y());
    return utils::Polygon(v, x, y, center);
}
static std::vector<V3> open_boundary(const utils::Polygon& p)
{
    std::vector<V3> out;
    for (const auto& v: p.get_unprojected_boundary()) out.emplace_back(v);
    if (out.size() > 1 && (out.front() - out.back()).norm() < 1e-9) out.pop_back();
    return out;
}
// same cyclic sequence, in either direction
static bool same_ring(const std::vector<V3>& a, const std::vector<V3>& b, double tol)
{
    if (a.size() != b.size() || a.empty()) return false;
    const size_t n = a.size();
    for (size_t s = 0; s < n; ++s)
        for (int dir: {1, -1})
        {
            bool ok = true;
            for (size_t i = 0; i < n && ok; ++i) ok = (a[i] - b[(s + (dir > 0 ? i : n - i)) % n]).norm() <= tol;
            if (ok) return true;
        }
    return false;
}
static void frame_ok(const utils::Polygon& p, const V3& n, const V3& center, const char* what)
{
    const V3 x = p.get_x_axis(), y = p.get_y_axis();
    check(near(x.norm(), 1, 0, 1e-9) && near(y.norm(), 1, 0, 1e-9) && std::abs(x.dot(y)) < 1e-9, "polygon_axes_orthonormal", "%s", what);
    check((p.get_normal() - n).norm() < 1e-7, "polygon_normal", "%s: %s vs %s", what, ref::s3(p.get_normal()).c_str(), ref::s3(n).c_str());
    check((p.get_center() - center).norm() < 1e-7, "polygon_center", "%s", what);
}

MON_TEST(known_boundary, 1500, 20000)
{
    V3 n, center, x, y;
    pick_frame(c, n, center);
    axes_of(c, n, x, y);
    P2 ring = c.coin() ? convex_ring(c, c.uni(100, 3000)) : star_ring(c, c.uni(100, 3000));
    if (c.coin(0.3))
    { // the center of the frame need not be in the polygon
        const V2 shift(c.uni(-3000, 3000), c.uni(-3000, 3000));
        for (V2& q: ring) q += shift;
    }
    const double ra = std::abs(shoelace(ring));
    const utils::Polygon p = make(ring, x, y, center);
    frame_ok(p, n, center, "given boundary");
    check(p.boundary_length() == ring.size(), "boundary_length", "%zu vs %zu", p.boundary_length(), ring.size());
    check(near(p.area(), ra, 1e-9) && near(p.get_area(), ra, 1e-9), "polygon_area", "%.9g %.9g vs %.9g", p.area(), p.get_area(), ra);
    check(p.is_valid(), "polygon_valid", "ring of %zu", ring.size());
    std::vector<V3> world;
    for (const V2& q: ring) world.push_back(center + x * q.x() + y * q.y());
    check(same_ring(open_boundary(p), world, 1e-6), "unprojected_boundary", "ring of %zu", ring.size());
    for (int i = 0; i < 20; ++i)
    {
        V2 q(c.uni(-3500, 3500), c.uni(-3500, 3500));
        if (i == 0) q = V2::Zero();
        else if (i < 5) q = ring[(size_t)c.irange(0, (int64_t)ring.size() - 1)] + V2(c.gauss(), c.gauss()) * c.logu(0.01, 100); // next to a corner
        if (dist_to_ring(q, ring) < 1e-3) continue;
        check(p.contains(q) == inside(q, ring), "polygon_contains", "(%.6g,%.6g)", q.x(), q.y());
    }
    // orthogonal projection on another plane
    V3 n2, c2, x2, y2;
    pick_frame(c, n2, c2);
    if (c.coin(0.2)) n2 = n;
    if (c.coin(0.2)) c2 = center;
    if (c.coin(0.1)) n2 = -n;
    axes_of(c, n2, x2, y2);
    if (c.coin(0.25))
    {
        // almost the same frame: a small move is a move
        n2 = n; x2 = x; y2 = y;
        c2 = center + V3(c.gauss(), c.gauss(), c.gauss()) * c.logu(1e-3, 60);
        if (c.coin()) { const double a = c.logu(1e-6, 0.05); x2 = (x * std::cos(a) + y * std::sin(a)).normalized(); y2 = n.cross(x2).normalized(); if (y2.dot(y) < 0) y2 = -y2; }
        mon::observe("almost_same_frame");
    }
    if (std::abs(n.dot(n2)) > 0.02)
    {
        std::vector<V3> proj;
        for (const V3& w: world) proj.push_back(w - n2 * n2.dot(w - c2));
        const utils::Polygon a = p.project(x2, y2, c2), b = p.project(n2, c2), d(p, n2, c2);
        for (const auto* o: {&a, &b, &d})
        {
            frame_ok(*o, n2, c2, "project");
            check(same_ring(open_boundary(*o), proj, 1e-5), "projected_boundary", "cos %.4g", n.dot(n2));
            check(near(o->area(), ra * std::abs(n.dot(n2)), 1e-6, 1e-3) && near(o->get_area(), o->area(), 1e-9), "projected_area", "%.9g vs %.9g", o->area(), ra * std::abs(n.dot(n2)));
        }
        check((a.get_x_axis() - x2).norm() < 1e-9 && (a.get_y_axis() - y2).norm() < 1e-9, "projected_axes", "given axes");
    }
    // rigid move to other axes: shape kept, boundary carried by the axes
    {
        std::vector<V3> moved;
        for (const V2& q: ring) moved.push_back(c2 + x2 * q.x() + y2 * q.y());
        const utils::Polygon t = p.transform(x2, y2, c2), u = p.transform(n2, c2);
        frame_ok(t, n2, c2, "transform");
        frame_ok(u, n2, c2, "transform to normal");
        check(same_ring(open_boundary(t), moved, 1e-5), "transformed_boundary", "%s to %s", ref::s3(center).c_str(), ref::s3(c2).c_str());
        check(near(t.area(), ra, 1e-8) && near(u.area(), ra, 1e-8) && near(t.get_area(), ra, 1e-8), "transform_keeps_area", "%.9g %.9g vs %.9g", t.area(), u.area(), ra);
        check(t.boundary_length() == ring.size() && u.boundary_length() == ring.size(), "transform_keeps_boundary", "%zu", ring.size());
    }
    mon::nontrivial("ring", mon::fmt("%zu %d %d %d", ring.size(), (int)(ra / 1e5), (int)(n.x() * 5), (int)(n2.y() * 5)));
}

MON_TEST(camera_world, 1500, 20000)
{
    V3 n, center, x, y;
    pick_frame(c, n, center);
    axes_of(c, n, x, y);
    const P2 ring = c.coin() ? convex_ring(c, c.uni(50, 2000)) : star_ring(c, c.uni(50, 2000));
    const double ra = std::abs(shoelace(ring));
    const ref::Pose P = ref::rand_pose(c);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(P.q, P.t);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(c2w);
    std::vector<V3> cam, world;
    for (const V2& q: ring) { cam.push_back(center + x * q.x() + y * q.y()); world.push_back(ref::cam_to_world(P, cam.back())); }
    const CameraPolygon cp(make(ring, x, y, center));
    const WorldPolygon wp = cp.to_world_space(c2w);
    const V3 wn = ref::cam_axes_to_world(ref::rot(P.q) * n);
    frame_ok(wp, wn, ref::cam_to_world(P, center), "camera to world");
    check(same_ring(open_boundary(wp), world, 1e-5), "polygon_to_world", "pose %s", ref::s3(P.t).c_str());
    check(near(wp.area(), ra, 1e-8) && near(wp.get_area(), ra, 1e-8), "frame_change_keeps_area", "%.9g vs %.9g", wp.area(), ra);
    check(wp.boundary_length() == ring.size(), "frame_change_keeps_boundary", "%zu vs %zu", wp.boundary_length(), ring.size());
    const CameraPolygon back = wp.to_camera_space(w2c);
    frame_ok(back, n, center, "world to camera");
    check(same_ring(open_boundary(back), cam, 1e-5), "polygon_to_camera", "pose %s", ref::s3(P.t).c_str());
    check(near(back.area(), ra, 1e-8), "frame_change_keeps_area_back", "%.9g vs %.9g", back.area(), ra);
    mon::nontrivial("cw", mon::fmt("%zu %d %d", ring.size(), (int)(P.t.x() / 100), (int)(P.q.x() * 10)));
}

MON_TEST(visibility, 2000, 30000)
{
    const auto m = mon::cfg().c1;
    const int kind = (int)c.irange(0, 4);
    // the polygon is placed so that its projection is clearly inside, clearly outside, or straddles the image
    V3 n, center, x, y;
    const double z = c.uni(500, 5500);
    double u = c.uni(0, m.w), v = c.uni(0, m.h);
    if (kind == 1) { u = c.coin() ? c.uni(-3000, -700) : m.w + c.uni(700, 3000); v = c.uni(-1000, 1000); }
    if (kind == 2) { v = c.coin() ? c.uni(-3000, -700) : m.h + c.uni(700, 3000); u = c.uni(-1000, 1000); }
    if (kind == 4) { u = c.uni(-300, m.w + 300); v = c.uni(-300, m.h + 300); }
    center = V3((u - m.cx) / m.fx * z, (v - m.cy) / m.fy * z, z);
    n = V3(c.uni(-0.8, 0.8), c.uni(-0.8, 0.8), c.coin() ? -1 : 1).normalized();
    axes_of(c, n, x, y);
    const P2 ring = convex_ring(c, c.uni(20, 0.09 * z));
    const double sgn = kind == 3 ? -1 : 1; // kind 3: behind the camera, on the same rays
    std::vector<V3> cam;
    P2 scr;
    for (const V2& q: ring)
    {
        cam.push_back(center + x * q.x() + y * q.y());
        scr.emplace_back(m.fx * cam.back().x() / cam.back().z() + m.cx, m.fy * cam.back().y() / cam.back().z() + m.cy);
    }
    const CameraPolygon cp(kind == 3 ? make(ring, V3(-x), V3(-y), V3(-center)) : make(ring, x, y, center));
    const auto sp = cp.get_screen_points();
    check(sp.size() == ring.size() + 1, "screen_points_count", "%zu", sp.size());
    for (const auto& s: sp)
    {
        bool ok = false;
        for (size_t i = 0; i < scr.size(); ++i) ok = ok || (std::abs(s.x() - scr[i].x()) < 1e-6 && std::abs(s.y() - scr[i].y()) < 1e-6 && near(s.z(), sgn * cam[i].z(), 1e-9));
        check(ok, "screen_points", "(%.6g,%.6g,%.6g)", s.x(), s.y(), s.z());
    }
    const bool vis = cp.is_visible_in_screen_space();
    // exact answer for the image shrunk by 2 pixels and grown by 1
    auto overlap = [&](double g) {
        P2 s = scr;
        if (shoelace(s) < 0) std::reverse(s.begin(), s.end());
        return std::abs(shoelace(clip_convex(s, {V2(-g, -g), V2(m.w + g, -g), V2(m.w + g, m.h + g), V2(-g, m.h + g)})));
    };
    if (kind == 3) check(!vis, "polygon_behind_camera_not_visible", "center %s", ref::s3(-center).c_str());
    else if (overlap(-2.5) > 1e-3) check(vis, "polygon_in_image_visible", "center (%.5g,%.5g)", u, v);
    else if (overlap(1) <= 0) check(!vis, "polygon_outside_image_not_visible", "center (%.5g,%.5g)", u, v);
    cv::Mat img = cv::Mat::zeros(m.h, m.w, CV_8UC3);
    if (kind != 1 && kind != 2) { cp.display(cv::Scalar(255, 0, 0), img); mon::observe("displayed"); }
    mon::nontrivial("vis", mon::fmt("%d %d %d %d", kind, vis, (int)(u / 40), (int)(v / 40)));
}

// polygons around the image, in front of the camera, behind it, or partly behind
MON_TEST(displayed, 250, 4000)
{
    const auto m = mon::cfg().c1;
    V3 n = V3(c.gauss(), c.gauss(), c.gauss()).normalized(), x, y;
    axes_of(c, n, x, y);
    const V3 center(c.uni(-1500, 1500), c.uni(-1500, 1500), c.uni(-1000, 4000));
    const P2 ring = c.coin() ? convex_ring(c, c.uni(200, 3000)) : star_ring(c, c.uni(200, 3000));
    std::vector<V3> cam;
    P2 scr;
    int front = 0;
    for (const V2& q: ring)
    {
        cam.push_back(center + x * q.x() + y * q.y());
        scr.emplace_back(m.fx * cam.back().x() / cam.back().z() + m.cx, m.fy * cam.back().y() / cam.back().z() + m.cy);
        if (std::abs(cam.back().z()) < 30 or std::abs(scr.back().x()) > 15000 or std::abs(scr.back().y()) > 15000) return;
        front += cam.back().z() > 0;
    }
    const bool world = c.coin();
    cv::Mat img = cv::Mat::zeros(m.h, m.w, CV_8UC3);
    if (world)
    {
        const ref::Pose P = ref::rand_pose(c);
        const WorldPolygon wp = CameraPolygon(make(ring, x, y, center)).to_world_space(utils::compute_camera_to_world_transform(P.q, P.t));
        wp.display(utils::compute_world_to_camera_transform(P.q, P.t), cv::Scalar(0, 255, 7), img);
    }
    else CameraPolygon(make(ring, x, y, center)).display(cv::Scalar(0, 255, 7), img);
    // distance of each drawn pixel to the edges in front of the camera
    cv::Mat_<uint8_t> allowed(m.h, m.w, (uint8_t)0);
    std::vector<std::pair<V2, V2>> edges;
    for (size_t i = 0; i < ring.size(); ++i)
    {
        const size_t j = (i + 1) % ring.size();
        if (cam[i].z() > 0 and cam[j].z() > 0) edges.emplace_back(scr[i], scr[j]);
    }
    int stray = 0, missing = 0, drawn = 0, along = 0;
    auto dist = [](const V2& p, const V2& a, const V2& b) {
        const V2 d = b - a;
        const double t = d.squaredNorm() > 0 ? std::clamp((p - a).dot(d) / d.squaredNorm(), 0.0, 1.0) : 0.0;
        return (p - a - d * t).norm();
    };
    for (int v = 0; v < m.h; ++v)
        for (int u = 0; u < m.w; ++u)
        {
            const cv::Vec3b px = img.at<cv::Vec3b>(v, u);
            if (px == cv::Vec3b(0, 0, 0)) continue;
            ++drawn;
            check(px == cv::Vec3b(0, 255, 7), "displayed_in_the_color", "%d %d %d", px[0], px[1], px[2]);
            bool near = false;
            for (const auto& e: edges) near = near or dist(V2(u, v), e.first, e.second) < 4.0;
            stray += !near;
        }
    for (const auto& e: edges)
    {
        const double len = (e.second - e.first).norm();
        const int k = (int)std::min(4000.0, len / 5) + 1;
        for (int i = 0; i <= k; ++i)
        {
            const V2 p = e.first + (e.second - e.first) * (i / (double)k);
            if (p.x() < 6 or p.y() < 6 or p.x() > m.w - 6 or p.y() > m.h - 6) continue;
            ++along;
            bool some = false;
            for (int dv = -4; dv <= 4 and !some; ++dv) for (int du = -4; du <= 4 and !some; ++du) some = img.at<cv::Vec3b>((int)p.y() + dv, (int)p.x() + du) != cv::Vec3b(0, 0, 0);
            missing += !some;
        }
    }
    check(stray == 0, "displayed_where_it_is", "%d of %d pixels are not on an edge (%zu edges, %d of %zu corners in front, world %d)", stray, drawn, edges.size(), front, ring.size(), world);
    check(missing == 0, "displayed_whole", "%d of %d places along the edges are not drawn (%zu edges, %d of %zu corners in front, world %d)", missing, along, edges.size(), front, ring.size(), world);
    mon::observe("displayed.pixels", (uint64_t)drawn);
    // what is in front of the camera and in the image is visible
    auto seen = [&](double zmin, double grow) {
        P2 pr;
        for (size_t i = 0; i < cam.size(); ++i)
        {
            const V3 a = cam[i], b = cam[(i + 1) % cam.size()];
            auto add = [&](const V3& p) { pr.emplace_back(m.fx * p.x() / p.z() + m.cx, m.fy * p.y() / p.z() + m.cy); };
            if (a.z() >= zmin) add(a);
            if ((a.z() >= zmin) != (b.z() >= zmin)) add(a + (b - a) * ((zmin - a.z()) / (b.z() - a.z())));
        }
        if (pr.size() < 3) return 0.0;
        if (shoelace(pr) < 0) std::reverse(pr.begin(), pr.end());
        // clipping the image by a convex polygon, the polygon by the image otherwise
        const P2 box = {V2(-grow, -grow), V2(m.w + grow, -grow), V2(m.w + grow, m.h + grow), V2(-grow, m.h + grow)};
        return std::abs(shoelace(clip_convex(pr, box)));
    };
    const bool vis = CameraPolygon(make(ring, x, y, center)).is_visible_in_screen_space();
    const char* part = front == (int)ring.size() ? "in_front" : front ? "partly_behind" : "behind";
    if (seen(30, -2.5) > 1) { check(vis, "polygon_in_image_visible", "%d of %zu corners in front", front, ring.size()); mon::observe(mon::fmt("visible.%s", part).c_str()); }
    else if (seen(0.01, 2) <= 1e-9) { check(!vis, "polygon_outside_image_not_visible", "%d of %zu corners in front", front, ring.size()); mon::observe(mon::fmt("not_visible.%s", part).c_str()); }
    if (drawn) mon::nontrivial("displayed", mon::fmt("%d %d %zu %d", drawn / 100, front, ring.size(), (int)world));
}

MON_TEST(hull, 900, 9000)
{
    V3 n, center, x, y;
    pick_frame(c, n, center);
    axes_of(c, n, x, y);
    const double R = c.uni(150, 2500);
    const int kind = (int)c.irange(0, 4);
    const P2 shape = kind == 3 ? star_ring(c, R) : convex_ring(c, R);
    std::vector<V2> pts;
    if (kind == 0)
        pts = shape; // only corners
    else if (kind == 1)
    { // filled with random points
        const int k = (int)c.irange(10, c.thorough ? 900 : 300);
        for (int i = 0; i < 20000 && (int)pts.size() < k; ++i) { const V2 q(c.uni(-R, R), c.uni(-R, R)); if (inside(q, shape)) pts.push_back(q); }
    }
    else
    { // filled with a regular grid of cells, as the plane detector does, plus jitter (kind 4: none)
        const double st = R / c.uni(3, 9), j = kind == 4 ? 0 : 0.2;
        for (double a = -R; a <= R; a += st) for (double b = -R; b <= R; b += st) { const V2 q(a + c.uni(-st, st) * j, b + c.uni(-st, st) * j); if (inside(q, shape)) pts.push_back(q); }
    }
    if (pts.size() < 3) return;
    if (c.coin(0.15)) for (int i = (int)c.irange(1, 5); i > 0; --i) pts.push_back(c.pick(pts)); // repeated points
    std::shuffle(pts.begin(), pts.end(), c.rng);
    std::vector<vector3> in;
    for (const V2& q: pts) in.push_back(center + x * q.x() + y * q.y() + n * (c.coin() ? c.uni(-20, 20) : 0.0));
    const double ha = std::abs(shoelace(convex_hull(pts)));
    if (ha < 1e4) return;
    const utils::Polygon p(in, n, center);
    frame_ok(p, n, center, "hull");
    check(p.is_valid(), "hull_is_valid_polygon", "kind %d, %zu points", kind, pts.size());
    check(near(p.get_area(), p.area(), 1e-9), "hull_area_stored", "%.9g %.9g", p.get_area(), p.area());
    check(p.area() > 0 && p.area() <= ha * (1 + 1e-9), "hull_area_within_convex_hull", "%.9g of %.9g", p.area(), ha);
    P2 ring, flat;
    for (const V3& q: open_boundary(p)) ring.emplace_back(p.get_x_axis().dot(q - center), p.get_y_axis().dot(q - center));
    for (const auto& q: in) flat.emplace_back(p.get_x_axis().dot(q - center), p.get_y_axis().dot(q - center));
    check(ring.size() >= 3, "hull_has_a_boundary", "%zu", ring.size());
    for (const V2& r: ring)
    {
        double d = 1e9;
        for (const V2& f: flat) d = std::min(d, (r - f).norm());
        check(d < 1e-6, "hull_corners_are_points_of_the_cloud", "kind %d, %.6g away", kind, d);
    }
    // every point is enclosed, up to the tolerance of the boundary simplification
    const double thr = std::max(10.0, ha / 1e5);
    double worst = 0;
    for (const V2& f: flat) if (!inside(f, ring)) worst = std::max(worst, dist_to_ring(f, ring));
    check(worst <= thr * 1.001, "hull_encloses_its_points", "kind %d, %zu points, one is %.6g mm outside (tolerance %.6g)", kind, pts.size(), worst, thr);
    mon::nontrivial("hull", mon::fmt("%d %zu %zu", kind, pts.size(), ring.size()));
    mon::sample("hull", mon::fmt("kind %d: %zu points, %zu corners, area %.4g of %.4g, worst %.4g of %.4g mm", kind, pts.size(), ring.size(), p.area(), ha, worst, thr));
}
MON_TEST(refused, 300, 3000)
{
    V3 n, center, x, y;
    pick_frame(c, n, center);
    axes_of(c, n, x, y);
    std::vector<vector3> in;
    const int k = (int)c.irange(0, 2);
    for (int i = 0; i < k; ++i) in.push_back(center + x * c.uni(-500, 500));
    auto throws = [](auto f) { try { f(); } catch (const std::invalid_argument&) { return true; } return false; };
    check(throws([&] { utils::Polygon p(in, n, center); }), "too_few_points_refused", "%d", k);
    while (in.size() < 6) in.push_back(center + x * c.uni(-500, 500) + y * c.uni(-500, 500));
    const double s = c.coin() ? c.uni(0, 0.9) : c.uni(1.1, 3);
    check(throws([&] { utils::Polygon p(in, V3(n * s), center); }), "non_unit_normal_refused", "%.4g", s);
    const utils::Polygon p(in, n, center);
    check(throws([&] { (void)p.project(V3(n * s), center); }) && throws([&] { (void)p.transform(V3(n * s), center); }), "non_unit_target_normal_refused", "%.4g", s);
    check(throws([&] { (void)p.project(x, V3((y + x * 0.3).normalized()), center); }), "skewed_axes_refused", "%s", ref::s3(x).c_str());
    // degenerate clouds (a line, a single point) may give no polygon but must end normally
    std::vector<vector3> line;
    for (int i = (int)c.irange(3, 12); i > 0; --i) line.push_back(center + x * (c.coin(0.2) ? 0.0 : c.uni(-800, 800)));
    try { utils::Polygon q(line, n, center); mon::observe("degenerate_cloud"); (void)q.is_valid(); } catch (const std::exception&) { mon::observe("degenerate_cloud_refused"); }
    mon::nontrivial("refused", mon::fmt("%d %d", k, (int)(s * 20)));
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, mon::load_config); }
