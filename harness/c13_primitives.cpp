// C13: planes of a depth image are found once each, where they are, and nothing else is reported.
#include "config.hpp"
#include <opencv2/imgproc.hpp>
#include "geo.hpp"
#include "poly.hpp"
#include "scene.hpp"
#include "features/primitives/depth_map_transformation.hpp"
#include "features/primitives/primitive_detection.hpp"
#include "utils/covariances.hpp"
#include <memory>
using namespace rgbd_slam;
using namespace rgbd_slam::features::primitives;
using mon::check;
using mon::near;
using ref::V3;
static constexpr int CELL = 20;
static double quant(double z)
{
    return std::max(parameters::depthSigmaMargin + parameters::depthSigmaMultiplier * z / 1e3 + parameters::depthSigmaError * z * z / 1e6, 0.5);
}
struct Det
{
    std::unique_ptr<Depth_Map_Transformation> t;
    std::unique_ptr<Primitive_Detection> d;
    plane_container planes;
    cylinder_container cylinders;
    Det()
    {
        const auto m = mon::cfg().c1;
        t = std::make_unique<Depth_Map_Transformation>(m.w, m.h, CELL);
        d = std::make_unique<Primitive_Detection>(m.w, m.h);
    }
    void run(const cv::Mat_<float>& depth)
    {
        matrixf cloud;
        check(t->get_organized_cloud_array(depth, cloud), "organised_cloud", "%s", "");
        d->find_primitives(cloud, depth, planes, cylinders);
    }
};
// what the image shows of each plane: how many cells it fills alone, its area, and how steep it is seen
struct Seen { int cells = 0; double area = 0, cleanArea = 0; int pixels = 0; double maxStep = 0; int clean = 0; bool compact = false, whole = false; };
static std::vector<Seen> measure(const scene::Frame& f, const std::vector<scene::P>& ps, const mon::Cam& m)
{
    std::vector<Seen> out(ps.size());
    for (int v = 0; v < m.h; ++v)
        for (int u = 0; u < m.w; ++u)
        {
            const int id = f.label(v, u);
            if (id < 0) continue;
            const V3 r = scene::ray(m, u, v);
            const double z = scene::hit(ps[id], r);
            out[id].area += z * z / (m.fx * m.fy * std::abs(ps[id].n.dot(r)));
            out[id].pixels++;
        }
    cv::Mat_<int> full(m.h / CELL, m.w / CELL, -1);
    for (int cy = 0; cy < m.h / CELL; ++cy)
        for (int cx = 0; cx < m.w / CELL; ++cx)
        {
            int id = -2, missing = 0;
            bool alone = true;
            for (int v = cy * CELL; v < (cy + 1) * CELL && alone; ++v)
                for (int u = cx * CELL; u < (cx + 1) * CELL; ++u)
                {
                    const int l = f.label(v, u);
                    if (l < 0) { ++missing; continue; }
                    if (id == -2) id = l;
                    if (l != id) { alone = false; break; }
                }
            if (!alone || id < 0) continue;
            out[id].cells++;
            // depth change between neighbouring pixels at the cell centre, in units of the sensor resolution
            const V3 r = scene::ray(m, cx * CELL + 10, cy * CELL + 10), ru = scene::ray(m, cx * CELL + 11, cy * CELL + 10), rv = scene::ray(m, cx * CELL + 10, cy * CELL + 11);
            const double z = scene::hit(ps[id], r), q = quant(z);
            const double step = std::max(std::abs(scene::hit(ps[id], ru) - z), std::abs(scene::hit(ps[id], rv) - z)) / q;
            if (step < 1.2 && z < 5000 && missing < CELL * CELL / 8) { out[id].clean++; full(cy, cx) = id; out[id].cleanArea += CELL * CELL * z * z / (m.fx * m.fy * std::abs(ps[id].n.dot(r))); }
        }
    for (size_t i = 0; i < ps.size(); ++i)
        for (int cy = 0; cy + 4 <= full.rows && !out[i].compact; ++cy)
            for (int cx = 0; cx + 4 <= full.cols; ++cx)
            {
                bool all = true;
                for (int a = 0; a < 16 && all; ++a) all = full(cy + a / 4, cx + a % 4) == (int)i;
                if (all) { out[i].compact = true; break; }
            }
    for (size_t i = 0; i < ps.size(); ++i)
    { // seen in one piece, without narrow necks
        cv::Mat_<uchar> mask(full.rows, full.cols, (uchar)0);
        for (int a = 0; a < full.rows * full.cols; ++a) mask(a / full.cols, a % full.cols) = full(a / full.cols, a % full.cols) == (int)i ? 255 : 0;
        cv::Mat_<uchar> er, di;
        const cv::Mat k = cv::Mat::ones(3, 3, CV_8U);
        cv::erode(mask, er, k);
        cv::dilate(er, di, k);
        cv::Mat lab;
        const int n = cv::connectedComponents(er, lab, 4) - 1;
        out[i].whole = n == 1 && cv::countNonZero(di) > 0.85 * out[i].cells;
    }
    return out;
}
static std::vector<scene::P> rand_room(mon::Ctx& c, int count, double minAngle)
{
    std::vector<scene::P> ps;
    const auto m = mon::cfg().c1;
    for (int tries = 0; tries < 200 && (int)ps.size() < count; ++tries)
    {
        scene::P p;
        const V3 r = scene::ray(m, c.uni(0, m.w), c.uni(0, m.h));
        const V3 back = -r.normalized();
        V3 ax = V3(c.gauss(), c.gauss(), c.gauss()).cross(back).normalized();
        const double a = (c.coin(0.2) ? 0.0 : c.uni(0, 60)) * M_PI / 180;
        p.n = back * std::cos(a) + ax * std::sin(a);
        if (c.coin(0.15)) p.n = V3(0, 0, -1);
        if (c.coin(0.15)) { const double t = c.uni(9, 20) * M_PI / 180, w = c.uni(-0.25, 0.25); p.n = V3(std::sin(t) * std::sin(M_PI + w), std::sin(t) * std::cos(M_PI + w), -std::cos(t)); }
        p.d = -p.n.dot(r * (c.coin(0.2) ? std::pow(2.0, c.irange(9, 11)) : c.uni(500, 3500)));
        if (p.d < 100) continue;
        bool ok = true;
        for (auto& o: ps) ok &= o.n.dot(p.n) < std::cos(minAngle * M_PI / 180);
        if (ok) ps.push_back(p);
    }
    return ps;
}
static int match(const Plane& pl, const std::vector<scene::P>& ps)
{
    int best = -1;
    double bs = 1e18;
    const auto bnd = pl.get_boundary_polygon().get_unprojected_boundary();
    for (size_t i = 0; i < ps.size(); ++i)
    {
        if (pl.get_normal().dot(ps[i].n) < 0.8) continue;
        double e = 0;
        for (const auto& p: bnd) e += std::abs(ps[i].n.dot(p) + ps[i].d);
        e = e / std::max<size_t>(1, bnd.size()) + 1000 * (1 - pl.get_normal().dot(ps[i].n));
        if (e < bs) { bs = e; best = (int)i; }
    }
    return best;
}
static void judge(mon::Ctx& c, const Det& det, const scene::Frame& f, const std::vector<scene::P>& ps, double noise, const std::string& scn, bool separated, double hidden = 0)
{
    const auto m = mon::cfg().c1;
    const auto seen = measure(f, ps, m);
    std::vector<int> found(ps.size(), 0);
    for (const Plane& pl: det.planes)
    {
        const V3 n = pl.get_normal();
        const double d = pl.get_d();
        check(near(n.norm(), 1, 0, 1e-9) && d >= 0, "plane_faces_camera", "n=%s d=%.6g", ref::s3(n).c_str(), d);
        check(utils::is_covariance_valid(pl.get_point_cloud_covariance()), "plane_covariance_valid", "%s", scn.c_str());
        const int id = match(pl, ps);
        if (id < 0) { check(!separated, "reported_plane_exists", "%s: n=%s d=%.4g", scn.c_str(), ref::s3(n).c_str(), d); continue; }
        const CameraPolygon poly = pl.get_boundary_polygon();
        std::string dbg;
        check(poly.is_valid(dbg) && poly.boundary_length() >= 3, "plane_boundary_valid", "%s", dbg.c_str());
        const double ang = std::acos(std::clamp(n.dot(ps[id].n), -1.0, 1.0)) * 180 / M_PI;
        // a plane mixing a few cells of a crease may tilt: judged on the surface it claims
        const auto bnd = poly.get_unprojected_boundary();
        check(bnd.size() >= 3, "plane_boundary_points", "%zu", bnd.size());
        double worst = 0, off = 0;
        int far = 0, nb = 0;
        for (const auto& p: bnd)
        {
            off = std::max(off, std::abs(n.dot(p) + d) / p.norm());
            const double dist = std::abs(ps[id].n.dot(p) + ps[id].d);
            worst = std::max(worst, dist / quant(p.z()));
            const double u = m.cx + m.fx * p.x() / p.z(), v = m.cy + m.fy * p.y() / p.z();
            bool close = false;
            for (int y = (int)v - 25; y <= (int)v + 25 && !close; y += 5)
                for (int x = (int)u - 25; x <= (int)u + 25; x += 5)
                    if (y >= 0 && x >= 0 && y < m.h && x < m.w && f.label(y, x) == id) { close = true; break; }
            far += !close;
            ++nb;
        }
        check(off < 2e-3, "boundary_on_its_plane", "%s: %.4g", scn.c_str(), off);
        if (seen[id].compact && seen[id].clean > 30) found[id]++;
        if (separated && seen[id].compact && seen[id].clean > 60 && noise <= 0.15)
        {
            check(ang < 5.0, "plane_orientation", "%s: plane %d off by %.3g degrees", scn.c_str(), id, ang);
            check(worst < 40, "plane_position", "%s: plane %d boundary %.3g resolutions away", scn.c_str(), id, worst);
            check(far <= nb / 5, "boundary_on_the_surface_seen", "%s: plane %d, %d of %d boundary points away from the surface", scn.c_str(), id, far, nb);
            // a ring of border points has several concave hulls: the extent is that of the convex one
            const V3 ax = n.unitOrthogonal(), ay = n.cross(ax);
            std::vector<refpoly::V2> flat;
            for (const auto& p: bnd) flat.push_back(refpoly::V2(ax.dot(p), ay.dot(p)));
            const double extent = std::abs(refpoly::shoelace(refpoly::convex_hull(flat)));
            const double ratio = poly.get_area() / (seen[id].area + (id == 0 ? hidden : 0));
            check(ratio < 1.3, "boundary_area_not_larger", "%s: plane %d area ratio %.3g", scn.c_str(), id, ratio);
            if (seen[id].whole && seen[id].clean > 80 && seen[id].clean * CELL * CELL > 0.7 * seen[id].pixels)
                check(extent > 0.3 * seen[id].cleanArea, "boundary_extends_over_surface", "%s: plane %d extent ratio %.3g (cells %d)", scn.c_str(), id, extent / seen[id].cleanArea, seen[id].cells);
        }
    }
    int visible = 0;
    for (size_t i = 0; i < ps.size(); ++i)
    {
        if (!(seen[i].compact && seen[i].clean > 30)) continue;
        ++visible;
        if (separated && noise <= 0.15 && seen[i].clean > 60) check(found[i] >= 1, "large_plane_found", "%s: plane %zu n=%s d=%.4g (cells %d clean %d) among %zu reported", scn.c_str(), i, ref::s3(ps[i].n).c_str(), ps[i].d, seen[i].cells, seen[i].clean, det.planes.size());
        if (separated && noise <= 0.15 && seen[i].whole) check(found[i] <= 1, "plane_found_once", "%s: plane %zu found %d times", scn.c_str(), i, found[i]);
    }
    mon::observe("planes.visible", visible);
    mon::observe("planes.reported", det.planes.size());
    mon::nontrivial("scene", mon::fmt("%zu %d %d %zu", ps.size(), visible, (int)(noise * 10), det.planes.size()) + scn);
    mon::sample("scene", scn + mon::fmt(": %zu planes in scene, %d large, %zu reported", ps.size(), visible, det.planes.size()));
    (void)c;
}

// every patch is flat, none goes with its neighbours
static cv::Mat_<float> patchwork(mon::Ctx& c)
{
    const auto m = mon::cfg().c1;
    cv::Mat_<float> depth(m.h, m.w, 0.f);
    for (int cy = 0; cy < m.h / CELL; ++cy)
        for (int cx = 0; cx < m.w / CELL; ++cx)
        {
            const V3 r = scene::ray(m, cx * CELL + CELL / 2, cy * CELL + CELL / 2);
            scene::P p;
            p.n = (-r.normalized() + V3(c.uni(-0.9, 0.9), c.uni(-0.9, 0.9), 0)).normalized();
            p.d = -p.n.dot(r * c.uni(600, 2500));
            for (int v = cy * CELL; v < (cy + 1) * CELL; ++v)
                for (int u = cx * CELL; u < (cx + 1) * CELL; ++u)
                {
                    const double z = scene::hit(p, scene::ray(m, u, v));
                    if (z > 100 && z < 6000) depth(v, u) = (float)z;
                }
        }
    return depth;
}
MON_TEST(rooms, 60, 1200)
{
    static Det reused; // sees every frame of this process
    const auto m = mon::cfg().c1;
    const double minAngle = c.coin(0.6) ? 35 : 70;
    const auto ps = rand_room(c, (int)c.irange(1, 4), minAngle);
    if (ps.empty()) return;
    const int kind = (int)c.irange(0, 3);
    const double noise = kind == 0 ? 0.0 : c.uni(0.02, c.coin(0.7) ? 0.15 : 0.35);
    const bool q = kind == 2 || kind == 0;
    const double holes = kind == 3 ? c.uni(0, 0.05) : 0;
    scene::Frame f = scene::room(c, m, ps, noise, q, holes, quant);
    const bool gap = minAngle < 60 || c.coin(0.6); // cells across a crease may bridge the two planes: nothing is claimed then
    if (gap)
    { // no depth along the creases
        cv::Mat_<uchar> edge(m.h, m.w, (uchar)0);
        for (int v = 1; v < m.h; ++v)
            for (int u = 1; u < m.w; ++u)
                if (f.label(v, u) != f.label(v - 1, u) || f.label(v, u) != f.label(v, u - 1)) edge(v, u) = 1;
        cv::dilate(edge, edge, cv::Mat::ones(2 * CELL + 1, 2 * CELL + 1, CV_8U));
        for (int v = 0; v < m.h; ++v)
            for (int u = 0; u < m.w; ++u)
                if (edge(v, u)) { f.depth(v, u) = 0; f.label(v, u) = -1; }
    }
    std::string scn = mon::fmt("noise %.2f quant %d holes %.2f planes %zu", noise, q, holes, ps.size());
    Det fresh;
    fresh.run(f.depth);
    judge(c, fresh, f, ps, noise, scn, gap);
    // the detector keeps nothing from the images it saw before
    if (c.coin(0.5))
        for (int k = 0; k < 3; ++k) reused.run(patchwork(c));
    reused.run(f.depth);
    judge(c, reused, f, ps, noise, "after other images, " + scn, gap);
}

MON_TEST(boxes, 40, 800)
{ // flat faces in front of each other: the same orientation at another depth is another plane
    const auto m = mon::cfg().c1;
    std::vector<scene::P> ps;
    struct R { int u0, v0, u1, v1; };
    std::vector<R> rs;
    const V3 tilt(c.uni(-0.3, 0.3), c.uni(-0.3, 0.3), -1);
    const double zb = c.uni(1500, 4000);
    ps.push_back({tilt.normalized(), 0});
    ps[0].d = -ps[0].n.dot(V3(0, 0, zb));
    rs.push_back({0, 0, m.w, m.h});
    const int boxes = (int)c.irange(1, 2);
    for (int i = 0; i < boxes; ++i)
    {
        scene::P p = ps[0];
        if (c.coin(0.3)) p.n = V3(c.uni(-0.4, 0.4), c.uni(-0.4, 0.4), -1).normalized();
        const int w = CELL * (int)c.irange(7, 11), h = CELL * (int)c.irange(7, 11);
        R r;
        r.u0 = (i == 0 ? 0 : m.w / 2) + (int)c.irange(0, m.w / 2 - w); r.u1 = r.u0 + w;
        r.v0 = (int)c.irange(0, m.h - h); r.v1 = r.v0 + h;
        // in front of the wall everywhere
        double lim = 1e9;
        for (int k = 0; k < 4; ++k) { const V3 q = scene::ray(m, k & 1 ? r.u1 : r.u0, k & 2 ? r.v1 : r.v0); const double zw = scene::hit(ps[0], q); lim = std::min(lim, -p.n.dot(q * (zw - 250))); }
        p.d = lim * c.uni(0.6, 1.0);
        if (p.d < 300) continue;
        ps.push_back(p);
        rs.push_back(r);
    }
    const double noise = c.uni(0.0, c.coin(0.7) ? 0.15 : 0.35);
    double hidden = 0; // surface of the wall behind the boxes
    scene::Frame f;
    f.depth = cv::Mat_<float>(m.h, m.w, 0.f);
    f.label = cv::Mat_<int>(m.h, m.w, -1);
    for (int v = 0; v < m.h; ++v)
        for (int u = 0; u < m.w; ++u)
        {
            int id = 0;
            for (size_t i = 1; i < ps.size(); ++i) if (u >= rs[i].u0 && u < rs[i].u1 && v >= rs[i].v0 && v < rs[i].v1) id = (int)i;
            if (id > 0) { const V3 r = scene::ray(m, u, v); const double zw = scene::hit(ps[0], r); hidden += zw * zw / (m.fx * m.fy * std::abs(ps[0].n.dot(r))); }
            const double z = scene::hit(ps[id], scene::ray(m, u, v));
            if (z < 200 || z > 6000) continue;
            f.depth(v, u) = (float)(z + std::clamp(c.gauss(), -3.0, 3.0) * noise * quant(z));
            f.label(v, u) = id;
        }
    Det det;
    det.run(f.depth);
    judge(c, det, f, ps, noise, mon::fmt("boxes %zu noise %.2f", ps.size() - 1, noise), true, hidden);
}

MON_TEST(walls, 40, 400)
{ // the camera faces a flat wall
    const auto m = mon::cfg().c1;
    scene::P p{V3(0, 0, -1), c.coin(0.4) ? std::pow(2.0, c.irange(9, 12)) : std::floor(c.uni(400, 4500))};
    const scene::Frame f = scene::room(c, m, {p}, 0, c.coin(), 0, quant);
    Det det;
    det.run(f.depth);
    judge(c, det, f, {p}, 0, mon::fmt("wall at %.6g", p.d), true);
}

MON_TEST(nothing, 40, 400)
{ // nothing planar in the image
    const auto m = mon::cfg().c1;
    cv::Mat_<float> depth(m.h, m.w, 0.f);
    const int kind = (int)c.irange(0, 3);
    const double r = c.uni(150, 400), z0 = c.uni(700, 1500);
    for (int v = 0; v < m.h; ++v)
        for (int u = 0; u < m.w; ++u)
        {
            if (kind == 0) continue; // no depth at all
            if (kind == 1) depth(v, u) = (float)c.uni(300, 6000); // pure noise
            if (kind == 2) depth(v, u) = c.coin(0.3) ? (float)c.uni(990, 1010) : 0.f; // sparse
            if (kind == 3 && (u % 10 < 5)) depth(v, u) = (float)(z0 + 0.0 * r + ((v / 5) % 2) * 200); // comb
        }
    Det det;
    det.run(depth);
    check(det.planes.empty(), "no_plane_in_unplanar_image", "kind %d: %zu planes", kind, det.planes.size());
    check(det.cylinders.empty(), "no_cylinder_in_unplanar_image", "kind %d: %zu cylinders", kind, det.cylinders.size());
    mon::nontrivial("nothing", mon::fmt("%d %d", kind, (int)z0 / 100));
}

MON_TEST(cylinder, 30, 400)
{
    const auto m = mon::cfg().c1;
    const double R = c.uni(200, 600), z0 = R + c.uni(400, 900);
    const double tilt = c.uni(-0.3, 0.3);
    const V3 axis = V3(std::sin(tilt), std::cos(tilt), c.uni(-0.15, 0.15)).normalized();
    const V3 ctr(0, 0, z0);
    cv::Mat_<float> depth(m.h, m.w, 0.f);
    for (int v = 0; v < m.h; ++v)
        for (int u = 0; u < m.w; ++u)
        {
            const V3 r = scene::ray(m, u, v);
            const V3 rp = r - axis * axis.dot(r), cp = ctr - axis * axis.dot(ctr);
            const double a = rp.squaredNorm(), b = -2 * rp.dot(cp), cc = cp.squaredNorm() - R * R;
            const double disc = b * b - 4 * a * cc;
            if (disc <= 0) continue;
            const double z = (-b - std::sqrt(disc)) / (2 * a);
            if (z > 100) depth(v, u) = (float)(z + 0.1 * quant(z) * std::clamp(c.gauss(), -2.5, 2.5));
        }
    Det det;
    det.run(depth);
    mon::observe("cylinders.reported", det.cylinders.size());
    for (const auto& cy: det.cylinders)
    {
        check(std::isfinite(cy._radius) && cy._radius > 0, "cylinder_radius_is_a_length", "radius %.6g", cy._radius);
        check(near(cy._normal.norm(), 1, 0, 1e-6), "cylinder_axis_unit", "%.6g", cy._normal.norm());
        if (!std::isfinite(cy._radius)) continue;
        check(std::abs(cy._normal.dot(axis)) > std::cos(12 * M_PI / 180), "cylinder_axis", "off by %.3g deg", std::acos(std::min(1.0, std::abs(cy._normal.dot(axis)))) * 180 / M_PI);
        check(near(cy._radius, R, 0.25), "cylinder_radius", "%.4g vs %.4g", cy._radius, R);
        Cylinder copy(cy);
        check(copy.is_similar(cy), "cylinder_similar_to_itself", "%s", "");
        mon::nontrivial("cylinder", mon::fmt("%d %d %d", (int)(R / 20), (int)(z0 / 100), (int)(tilt * 10)));
        mon::sample("cylinder", mon::fmt("true radius %.1f, found %.1f", R, cy._radius));
    }
}
// the cells of one or two parallel cylinders, seen from outside or inside, fitted directly
static int g_parts = 0, g_partsFound = 0;
MON_TEST(cylinder_parts, 60, 2000)
{
    static const bool init = [] { Plane_Segment::set_static_members(CELL, CELL * CELL); return true; }();
    (void)init;
    const int two = (int)c.irange(0, 1);
    struct Cy { V3 o; double R; bool concave; };
    const double tilt = c.uni(0, M_PI);
    const V3 axis = V3(std::sin(tilt), std::cos(tilt), c.uni(-0.2, 0.2)).normalized();
    const V3 side = axis.cross(V3::UnitZ()).normalized(), front = side.cross(axis).normalized() * (side.cross(axis).z() > 0 ? -1 : 1); // towards the camera
    std::vector<Cy> cys;
    for (int k = 0; k <= two; ++k) cys.push_back({side * (k * 4000.0 + c.uni(-300, 300)) + V3(0, 0, c.uni(1500, 3500)), c.uni(150, 600), c.coin(0.4)});
    std::vector<Plane_Segment> grid;
    std::vector<int> owner;
    const int perCylinder = (int)c.irange(15, 40);
    std::vector<int> order;
    for (size_t k = 0; k < cys.size(); ++k) for (int i = 0; i < perCylinder; ++i) order.push_back((int)k);
    const int idle = (int)c.irange(0, 20);
    for (int i = 0; i < idle; ++i) order.push_back(-1);
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[(size_t)c.irange(0, (int64_t)i - 1)]);
    uint active = 0;
    for (int k: order)
    {
        matrixf cloud = matrixf::Zero(CELL * CELL, 3);
        Plane_Segment seg;
        bool use = false;
        if (k >= 0)
        {
            const Cy& cy = cys[k];
            const double a = c.uni(-1.1, 1.1), l = c.uni(-400, 400);
            const V3 radial = (front * std::cos(a) + side * std::sin(a)) * (cy.concave ? -1 : 1);
            const V3 p = cy.o + radial * cy.R + axis * l, t = axis.cross(radial);
            for (int y = 0; y < CELL; ++y)
                for (int x = 0; x < CELL; ++x)
                {
                    const V3 q = p + t * (x - CELL / 2 + 0.5) * 1.5 + axis * (y - CELL / 2 + 0.5) * 1.5;
                    cloud.row(y * CELL + x) = q.cast<float>().transpose();
                }
            seg.init_plane_segment(cloud, 0);
            use = seg.is_planar();
            if (use)
            { // the fit itself is the matter of another property: only use it when it is good
                const V3 n = seg.get_normal();
                use = std::abs(n.dot(radial)) > std::cos(0.02) and n.dot(p) < 0 and radial.dot(p) * (cy.concave ? -1 : 1) < 0;
            }
        }
        grid.push_back(seg);
        owner.push_back(use ? k : -1);
        active += use;
    }
    std::vector<int> count(cys.size(), 0);
    vectorb mask(grid.size());
    for (size_t i = 0; i < grid.size(); ++i) { mask[i] = owner[i] >= 0; if (owner[i] >= 0) count[owner[i]]++; }
    if (*std::min_element(count.begin(), count.end()) < 12) return;
    const Cylinder_Segment fit(grid, mask, active);
    const uint parts = fit.get_segment_count();
    mon::observe("parts.fitted", parts);
    check(parts >= 1, "cylinder_is_found", "%u cells of %zu cylinders", active, cys.size());
    if (parts == 0) return;
    check(near(fit.get_normal().norm(), 1, 0, 1e-9) and std::abs(fit.get_normal().dot(axis)) > std::cos(0.05), "cylinder_parts_axis", "%s vs %s", ref::s3(fit.get_normal()).c_str(), ref::s3(axis).c_str());
    // the cells are listed in their order
    {
        uint j = 0;
        bool ordered = true;
        for (size_t i = 0; i < grid.size(); ++i) if (mask[i]) ordered &= fit.get_local_to_global_mapping(j++) == i;
        check(ordered, "cells_of_cylinder_listed", "%u cells", active);
    }
    std::vector<int> used(active, 0);
    std::vector<bool> got(cys.size(), false);
    auto toLine = [](const V3& p, const V3& a, const V3& b) { return (p - a).cross((b - a).normalized()).norm(); };
    for (uint k = 0; k < parts; ++k)
    {
        const V3 a1 = fit.get_axis1_point(k), a2 = fit.get_axis2_point(k);
        const double R = fit.get_radius(k);
        check(std::isfinite(R) and R > 0, "part_radius_is_a_length", "%.6g", R);
        check(near((a2 - a1).norm(), fit.get_axis_normal(k), 1e-9, 1e-9) and std::abs((a2 - a1).normalized().dot(fit.get_normal())) > 1 - 1e-9, "part_axis_along_the_axis", "%s", ref::s3(a2 - a1).c_str());
        double mse = 0;
        int in = 0;
        for (uint j = 0; j < active; ++j)
            if (fit.is_inlier_at(k, j))
            {
                ++used[j];
                ++in;
                const double e = toLine(V3(grid[fit.get_local_to_global_mapping(j)].get_centroid()), a1, a2) - R;
                mse += e * e;
            }
        check(in >= 6, "part_has_enough_cells", "%d", in);
        check(near(fit.get_MSE_at(k), mse / std::max(in, 1), 1e-6, 1e-6), "part_error_is_that_of_its_cells", "%.6g vs %.6g", fit.get_MSE_at(k), mse / std::max(in, 1));
        for (size_t w = 0; w < cys.size(); ++w)
            if (toLine(cys[w].o, a1, a2) < 0.1 * cys[w].R and near(R, cys[w].R, 0.1)) got[w] = true;
        const Cylinder_Segment sub(fit, k);
        check(near(sub.get_radius(0), R, 1e-12) and (V3(sub.get_normal()) - V3(fit.get_normal())).norm() < 1e-12, "part_copied", "%.6g", R);
    }
    check(*std::max_element(used.begin(), used.end()) <= 1, "cell_in_one_part", "used %d times", *std::max_element(used.begin(), used.end()));
    if (cys.size() == 1) check(got[0], "single_cylinder_recovered", "radius %.5g, fitted %.5g with %u cells", cys[0].R, fit.get_radius(0), active);
    g_parts += (int)cys.size();
    for (bool b: got) g_partsFound += b;
    // signed distance to the nearest part of the surface
    const Cylinder_Segment copy(fit);
    for (int k = 0; k < 6; ++k)
    {
        const V3 p(c.uni(-3000, 6000), c.uni(-3000, 6000), c.uni(0, 5000));
        double best = 1e300;
        for (uint q = 0; q < parts; ++q) best = std::min(best, toLine(p, fit.get_axis1_point(q), fit.get_axis2_point(q)) - fit.get_radius(q));
        check(near(fit.get_distance(p), best, 1e-6, 1e-3) and copy.get_distance(p) == fit.get_distance(p), "distance_to_nearest_part", "%.6g vs %.6g (%u parts)", fit.get_distance(p), best, parts);
    }
    mon::nontrivial("parts", mon::fmt("%zu %u %d %d", cys.size(), active, (int)(cys[0].R / 10), (int)cys[0].concave));
    mon::sample("cylinder_parts", mon::fmt("%zu cylinders, %u cells: %u parts", cys.size(), active, parts));
}
MON_TEST(cylinder_parts_overall, 1, 1)
{
    mon::observe("parts.true", (uint64_t)g_parts);
    if (g_parts >= 20) check(g_partsFound >= 0.9 * g_parts, "cylinders_recovered", "%d of %d", g_partsFound, g_parts);
}
// several surfaces side by side, walls and cylinders
static int g_cyl = 0, g_cylFound = 0, g_wall = 0, g_wallFound = 0, g_wrong = 0, g_surfaces = 0, g_cylBall = 0, g_cylBallFound = 0;
MON_TEST(side_by_side, 40, 600)
{
    static Det reused;
    const auto m = mon::cfg().c1;
    const bool stacked = m.h > m.w; // one above the other in portrait images
    const int len = stacked ? m.h : m.w, parts = len >= 3 * 11 * CELL && c.coin() ? 3 : len >= 2 * 11 * CELL ? 2 : 1;
    struct S { bool cyl, ball; V3 axis, ctr; double R; scene::P p; };
    std::vector<S> ss;
    for (int i = 0; i < parts; ++i)
    {
        S s;
        s.cyl = c.coin(0.65);
        s.ball = not s.cyl and c.coin(0.3); // neither: nothing is claimed of it, and it must not disturb the others
        const double mid = (i + 0.5) * len / parts;
        const V3 r = stacked ? scene::ray(m, m.w / 2.0, mid) : scene::ray(m, mid, m.h / 2.0);
        s.R = c.uni(130, 270); // (a flat part of a large one may be taken for a plane)
        // the axis goes across the columns (along the rows)
        const double tilt = c.uni(-0.3, 0.3);
        s.axis = stacked ? V3(std::cos(tilt), std::sin(tilt), c.uni(-0.1, 0.1)).normalized() : V3(std::sin(tilt), std::cos(tilt), c.uni(-0.1, 0.1)).normalized();
        s.ctr = r * (s.R + c.uni(400, 900));
        s.p.n = (-r.normalized() + V3(c.uni(-0.4, 0.4), c.uni(-0.4, 0.4), 0)).normalized();
        s.p.d = -s.p.n.dot(r * c.uni(700, 2500));
        ss.push_back(s);
    }
    cv::Mat_<float> depth(m.h, m.w, 0.f);
    std::vector<int> pixels(ss.size(), 0);
    for (int v = 0; v < m.h; ++v)
        for (int u = 0; u < m.w; ++u)
        {
            const int at = stacked ? v : u, i = at * parts / len;
            if (at - i * len / parts < CELL or (i + 1) * len / parts - at <= CELL) continue; // no depth in between
            const S& s = ss[(size_t)i];
            const V3 r = scene::ray(m, u, v);
            double z = 0;
            if (s.cyl)
            {
                const V3 rp = r - s.axis * s.axis.dot(r), cp = s.ctr - s.axis * s.axis.dot(s.ctr);
                const double a = rp.squaredNorm(), b = -2 * rp.dot(cp), cc = cp.squaredNorm() - s.R * s.R, disc = b * b - 4 * a * cc;
                if (disc <= 0) continue;
                z = (-b - std::sqrt(disc)) / (2 * a);
            }
            else if (s.ball)
            {
                const double a = r.squaredNorm(), b = -2 * r.dot(s.ctr), cc = s.ctr.squaredNorm() - s.R * s.R, disc = b * b - 4 * a * cc;
                if (disc <= 0) continue;
                z = (-b - std::sqrt(disc)) / (2 * a);
            }
            else z = scene::hit(s.p, r);
            if (z < 200 or z > 5000) continue;
            depth(v, u) = (float)(z + 0.1 * quant(z) * std::clamp(c.gauss(), -2.5, 2.5));
            ++pixels[(size_t)i];
        }
    Det fresh;
    for (Det* det: {&fresh, &reused})
    {
        det->run(depth);
        std::vector<int> found(ss.size(), 0);
        std::string what;
        for (const auto& s: ss) what += s.cyl ? mon::fmt("cylinder %.0f ", s.R) : s.ball ? mon::fmt("ball %.0f ", s.R) : std::string("wall ");
        if (det == &reused) what += "(after other images)";
        size_t onWalls = 0, walls = 0;
        bool ball = false;
        for (const auto& s: ss) { walls += not s.cyl and not s.ball; ball = ball or s.ball; }
        for (const auto& cy: det->cylinders)
        {
            bool any = false;
            for (size_t i = 0; i < ss.size(); ++i)
                if (ss[i].cyl and std::abs(cy._normal.dot(ss[i].axis)) > std::cos(15 * M_PI / 180) and near(cy._radius, ss[i].R, 0.3)) { any = true; found[i]++; }
            check(any or ball, "reported_cylinder_exists", "%s: radius %.1f axis %s", what.c_str(), cy._radius, ref::s3(cy._normal).c_str());
        }
        for (const auto& pl: det->planes)
        {
            bool any = false;
            for (size_t i = 0; i < ss.size(); ++i)
                if (not ss[i].cyl and not ss[i].ball and pl.get_normal().dot(ss[i].p.n) > std::cos(5 * M_PI / 180) and near(pl.get_d(), ss[i].p.d, 0.05)) { any = true; found[i]++; }
            if (parts > 1 and not ball) g_wrong += not any;
            onWalls += any;
        }
        // (two surfaces can look the same)
        check(onWalls <= walls, "walls_found_once", "%s: %zu planes on %zu walls", what.c_str(), onWalls, walls);
        check(ball or det->cylinders.size() <= ss.size() - walls + 1, "cylinders_found_once", "%s: %zu cylinders of %zu", what.c_str(), det->cylinders.size(), ss.size() - walls);
        if (parts > 1 and not ball) g_surfaces += parts;
        for (size_t i = 0; i < ss.size(); ++i)
        {
            if (pixels[i] < 60 * CELL * CELL or ss[i].ball) continue;
            if (ss[i].cyl and ball) { ++g_cylBall; g_cylBallFound += found[i] > 0; continue; }
            (ss[i].cyl ? g_cyl : g_wall)++;
            (ss[i].cyl ? g_cylFound : g_wallFound) += found[i] > 0;
            if (not ss[i].cyl) check(found[i] >= 1, "wall_beside_others_found", "%s: wall %zu found %d times", what.c_str(), i, found[i]);
        }
        mon::nontrivial("side_by_side", what);
    }
}
MON_TEST(side_by_side_overall, 1, 1)
{
    (void)c;
    mon::observe("cylinders_beside_others", (uint64_t)g_cyl);
    mon::observe("walls_beside_others", (uint64_t)g_wall);
    if (g_cyl >= 10) check(g_cylFound >= 0.75 * g_cyl, "most_cylinders_found", "%d of %d", g_cylFound, g_cyl);
    if (g_surfaces >= 10) check(g_wrong <= 3 + 0.2 * g_surfaces, "few_cylinders_taken_for_planes", "%d planes that are not in the scene, among %d surfaces", g_wrong, g_surfaces);
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, [] { mon::load_config(); }); }
