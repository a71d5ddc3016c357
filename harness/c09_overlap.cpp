// C09: overlaps, unions and merges of boundary polygons.
#include "config.hpp"
#include "geo.hpp"
#include "poly.hpp"
#include "coordinates/polygon_coordinates.hpp"
#include "utils/camera_transformation.hpp"
using namespace rgbd_slam;
using mon::check;
using mon::near;
using namespace refpoly;
using ref::V3;
static utils::Polygon make(const P2& b, const V3& x, const V3& y, const V3& center)
{
    std::vector<utils::Polygon::point_2d> v;
    for (const V2& p: b) v.emplace_back(p.x(), p.y());
    return utils::Polygon(v, x, y, center);
}
static P2 shifted(P2 p, const V2& d) { for (V2& q: p) q += d; return p; }
static void frame(mon::Ctx& c, V3& n, V3& x, V3& y)
{
    n = V3(c.gauss(), c.gauss(), c.gauss()).normalized();
    if (c.coin(0.1)) n = V3(0, 0, 1);
    V3 r(c.gauss(), c.gauss(), c.gauss());
    x = (r - n * n.dot(r)).normalized();
    y = n.cross(x).normalized();
}
struct Pair { P2 a, b; V2 cb; V3 n, x, y, ca3; utils::Polygon pa, pb; bool convex; double R1, R2; bool flipped; };
// two polygons of the same plane, b described in its own frame (other axes, center, possibly opposite normal)
static Pair make_pair(mon::Ctx& c, bool forceConvex = false)
{
    Pair p;
    frame(c, p.n, p.x, p.y);
    p.ca3 = V3(c.uni(-3000, 3000), c.uni(-3000, 3000), c.uni(-3000, 3000));
    p.R1 = c.uni(100, 2000);
    p.R2 = c.coin(0.3) ? p.R1 : c.uni(100, 2000);
    p.convex = forceConvex || c.coin();
    p.a = p.convex ? convex_ring(c, p.R1) : star_ring(c, p.R1);
    p.b = p.convex ? convex_ring(c, p.R2) : star_ring(c, p.R2);
    const double d = c.coin(0.1) ? 0.0 : c.coin(0.2) ? c.uni(1.02, 1.5) * (p.R1 + p.R2) : c.uni(0, 1.0) * (p.R1 + p.R2);
    const double al = c.uni(0, 2 * M_PI);
    p.cb = V2(d * std::cos(al), d * std::sin(al));
    if (c.coin(0.3))
    {
        // boundaries that coincide, in all or part
        p.convex = true;
        p.cb = V2(0, 0);
        const double w = c.uni(100, 2000), h = c.uni(100, 2000), w2 = c.uni(100, 2000), h2 = c.coin() ? h : c.uni(100, 2000), x0 = c.coin() ? 0.0 : c.uni(0, 0.9) * w, t = c.uni(0, 2 * M_PI);
        const V2 o = c.coin() ? V2(0, 0) : V2(c.uni(-w, 0), c.uni(-h, 0));
        const auto at = [&](double x, double y) { return V2(std::cos(t) * (x + o.x()) - std::sin(t) * (y + o.y()), std::sin(t) * (x + o.x()) + std::cos(t) * (y + o.y())); };
        const auto rect = [&](double x, double y, double sx, double sy) { return P2{at(x, y), at(x + sx, y), at(x + sx, y + sy), at(x, y + sy)}; };
        switch (c.irange(0, 2))
        {
            case 0: // the same
                p.a = p.b = convex_ring(c, p.R1);
                p.R2 = p.R1;
                break;
            case 1: // two rectangles on the same line
                p.a = rect(0, 0, w, h);
                p.b = rect(x0, 0, w2, h2);
                p.R1 = p.R2 = 4 * (w + h + w2 + h2);
                break;
            default: // a part of it, with some of its edges
                p.a = rect(0, 0, w, h);
                p.b = rect(c.coin() ? 0.0 : w * 0.25, c.coin() ? 0.0 : h * 0.5, w * 0.75, h * 0.5);
                p.R1 = p.R2 = 2 * (w + h);
        }
        mon::observe("coinciding_boundaries");
    }
    p.pa = make(p.a, p.x, p.y, p.ca3);
    // frame of b: rotated in the plane, maybe flipped
    const double th = c.uni(0, 2 * M_PI);
    p.flipped = c.coin(0.3);
    const V3 bx = p.x * std::cos(th) + p.y * std::sin(th);
    const V3 by = (p.flipped ? V3(-p.n) : p.n).cross(bx).normalized();
    const V2 ob(c.uni(-500, 500), c.uni(-500, 500));
    const V3 cb3 = p.ca3 + p.x * ob.x() + p.y * ob.y();
    P2 local;
    for (const V2& q: p.b)
    {
        const V2 w = q + p.cb;
        const V3 d3 = p.ca3 + p.x * w.x() + p.y * w.y() - cb3;
        local.emplace_back(bx.dot(d3), by.dot(d3));
    }
    p.pb = make(local, bx.normalized(), by, cb3);
    return p;
}
MON_TEST(overlap, 3000, 40000)
{
    const Pair p = make_pair(c);
    const P2 bb = shifted(p.b, p.cb);
    // star rings are star shaped around their own origin; convex rings need not contain it, use a vertex as fan center
    const double in = p.convex ? [&] { const P2 t = clip_convex(p.a, bb); return t.size() < 3 ? 0.0 : std::abs(shoelace(t)); }()
                               : inter_area(p.a, V2(0, 0), bb, p.cb);
    const double aa = std::abs(shoelace(p.a)), ab = std::abs(shoelace(p.b)), un = aa + ab - in;
    const double tol = 1e-6 * (aa + ab);
    const double gi = p.pa.inter_area(p.pb), gu = p.pa.union_area(p.pb);
    check(std::abs(gi - in) < tol, "intersection_area", "%.9g vs %.9g (convex %d flipped %d)", gi, in, p.convex, p.flipped);
    check(std::abs(gu - un) < tol, "union_area", "%.9g vs %.9g (convex %d flipped %d)", gu, un, p.convex, p.flipped);
    check(std::abs(p.pb.inter_area(p.pa) - in) < tol && std::abs(p.pb.union_area(p.pa) - un) < tol, "overlap_symmetric", "%.9g %.9g", in, un);
    const double iou = p.pa.inter_over_union(p.pb), uoi = p.pb.inter_over_union(p.pa);
    check(iou >= 0 && iou <= 1 + 1e-9, "iou_in_unit_interval", "%.9g", iou);
    if (in > 0.01 * std::min(aa, ab))
    {
        if (p.convex) check(near(iou, in / un, 1e-6) && near(uoi, in / un, 1e-6), "iou_value", "%.9g %.9g vs %.9g", iou, uoi, in / un);
        else check(iou > 0 && iou <= in / un * (1 + 1e-6) && near(iou, uoi, 1e-6, 1e-9), "iou_value_star", "%.9g %.9g vs %.9g", iou, uoi, in / un);
    }
    if (in == 0) check(iou == 0 && gi < tol, "disjoint_iou_is_zero", "%.9g", iou);
    check(near(p.pa.inter_over_union(p.pa), 1.0, 1e-6), "iou_with_itself", "%.9g", p.pa.inter_over_union(p.pa));
    mon::nontrivial("overlap", mon::fmt("%d %d %d %d", p.convex, p.flipped, (int)(100 * in / un), (int)(p.R1 / 100)));
    mon::sample("overlap", mon::fmt("areas %.4g %.4g inter %.4g union %.4g iou %.4g", aa, ab, gi, gu, iou));
}
// other plane: overlaps are those of the orthogonal projection
MON_TEST(tilted, 1000, 15000)
{
    Pair p = make_pair(c, true);
    V3 ax(c.gauss(), c.gauss(), c.gauss());
    ax.normalize();
    const Eigen::AngleAxisd r(c.uni(-0.4, 0.4), ax);
    const V3 x2 = (r * p.x).normalized(), y2 = (r * p.y).normalized(), c2 = p.ca3 + p.n * c.uni(-50, 50) + p.x * p.cb.x() + p.y * p.cb.y();
    const utils::Polygon pb = make(p.b, x2, y2, c2);
    P2 proj;
    for (const V2& q: p.b) { const V3 d = c2 + x2 * q.x() + y2 * q.y() - p.ca3; proj.emplace_back(p.x.dot(d), p.y.dot(d)); }
    if (shoelace(proj) < 0) std::reverse(proj.begin(), proj.end());
    const P2 t = clip_convex(p.a, proj);
    const double in = t.size() < 3 ? 0.0 : std::abs(shoelace(t)), aa = std::abs(shoelace(p.a)), ab = std::abs(shoelace(proj));
    check(std::abs(p.pa.inter_area(pb) - in) < 1e-6 * (aa + ab), "tilted_intersection_area", "%.9g vs %.9g", p.pa.inter_area(pb), in);
    check(std::abs(p.pa.union_area(pb) - (aa + ab - in)) < 1e-6 * (aa + ab), "tilted_union_area", "%.9g vs %.9g", p.pa.union_area(pb), aa + ab - in);
    if (in > 0.01 * std::min(aa, ab)) check(near(p.pa.inter_over_union(pb), in / (aa + ab - in), 1e-6), "tilted_iou", "%.9g vs %.9g", p.pa.inter_over_union(pb), in / (aa + ab - in));
    mon::nontrivial("tilted", mon::fmt("%d %d", (int)(100 * in / aa), (int)(p.R2 / 100)));
}
MON_TEST(merge, 2500, 30000)
{
    const Pair p = make_pair(c);
    const P2 bb = shifted(p.b, p.cb);
    const double in = p.convex ? [&] { const P2 t = clip_convex(p.a, bb); return t.size() < 3 ? 0.0 : std::abs(shoelace(t)); }()
                               : inter_area(p.a, V2(0, 0), bb, p.cb);
    const double aa = std::abs(shoelace(p.a)), ab = std::abs(shoelace(p.b)), un = aa + ab - in;
    WorldPolygon w(p.pa);
    utils::Polygon u = p.pa;
    u.merge_union(p.pb);
    w.merge(WorldPolygon(p.pb));
    for (const utils::Polygon* m: {static_cast<const utils::Polygon*>(&u), static_cast<const utils::Polygon*>(&w)})
    {
        check((m->get_center() - p.ca3).norm() < 1e-9 && (m->get_normal() - p.n).norm() < 1e-9 && (m->get_x_axis() - p.x).norm() < 1e-9, "merge_keeps_frame", "%s", ref::s3(m->get_normal()).c_str());
        check(m->is_valid(), "merged_polygon_valid", "convex %d", p.convex);
        check(near(m->get_area(), m->area(), 1e-9), "merged_area_stored", "%.9g %.9g", m->get_area(), m->area());
        const bool together = in > 1e-6 * un;
        if (!together) continue;
        // the simplification may move the boundary by at most its tolerance
        const double thr = std::max(10.0, un / 1e5) * 1.01 + 1e-6;
        check(m->area() <= un * (1 + 1e-6) + thr * 8 * M_PI * (p.R1 + p.R2) && m->area() >= 0.7499 * un, "merged_area", "%.9g union %.9g", m->area(), un);
        for (int i = 0; i < 24; ++i)
        {
            const V2 q = i % 2 ? V2(c.uni(-p.R1, p.R1), c.uni(-p.R1, p.R1)) : V2(V2(c.uni(-p.R2, p.R2), c.uni(-p.R2, p.R2)) + p.cb);
            const bool ia = inside(q, p.a), ib = inside(q, bb);
            const double da = dist_to_ring(q, p.a), db = dist_to_ring(q, bb);
            if ((ia && da > thr) || (ib && db > thr)) check(m->contains(q), "merge_keeps_both_surfaces", "(%.5g,%.5g) convex %d", q.x(), q.y(), p.convex);
            // holes enclosed by the union may not be represented: only claim the outside for convex shapes
            if (p.convex && !ia && !ib && da > thr && db > thr) check(!m->contains(q), "merge_adds_nothing_else", "(%.5g,%.5g)", q.x(), q.y());
        }
    }
    mon::nontrivial("merge", mon::fmt("%d %d %d %d", p.convex, p.flipped, (int)(50 * in / un), (int)(p.R1 / 100)));
}
// many successive merges on one surface: the surface seen so far is kept (up to simplification)
MON_TEST(growing, 200, 3000)
{
    V3 n, x, y;
    frame(c, n, x, y);
    const V3 c0(c.uni(-1000, 1000), c.uni(-1000, 1000), c.uni(-1000, 1000));
    P2 first = convex_ring(c, 600);
    WorldPolygon w(make(first, x, y, c0));
    std::vector<P2> seen{first};
    V2 at(0, 0);
    double slack = 0;
    for (int k = (int)c.irange(2, 10); k > 0; --k)
    {
        at += V2(c.uni(-250, 250), c.uni(-250, 250));
        const P2 r = convex_ring(c, 600);
        const double before = w.area();
        const WorldPolygon o(make(r, x, y, V3(c0 + x * at.x() + y * at.y())));
        const double un = w.union_area(o), in = w.inter_area(o);
        if (in < 1e3) continue;
        w.merge(o);
        slack += std::max(10.0, un / 1e5) * 1.01;
        seen.push_back(shifted(r, at));
        check(w.is_valid(), "growing_valid", "after %zu", seen.size());
        check(w.area() >= 0.74 * un && w.area() >= 0.74 * before, "growing_area", "%.6g union %.6g before %.6g", w.area(), un, before);
    }
    for (const P2& s: seen)
        for (int i = 0; i < 6; ++i)
        {
            const V2 q = s[0] * 0.0 + V2(c.uni(-2000, 2000), c.uni(-2000, 2000));
            if (inside(q, s) && dist_to_ring(q, s) > slack) check(w.contains(q), "surface_seen_is_kept", "(%.5g,%.5g) after %zu merges", q.x(), q.y(), seen.size());
        }
    mon::nontrivial("growing", mon::fmt("%zu %d", seen.size(), (int)(w.area() / 1e5)));
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, mon::load_config); }
