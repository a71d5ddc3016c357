// C10: lines and segments: distances, intersections, clamping to the image.
#include "config.hpp"
#include "geo.hpp"
#include "utils/distance_utils.hpp"
#include "utils/line.hpp"
using namespace rgbd_slam;
using mon::check;
using mon::near;
using ref::V3;
using V2 = Eigen::Vector2d;
static V2 r2(mon::Ctx& c, double s) { return V2(c.uni(-s, s), c.uni(-s, s)); }
static V3 r3(mon::Ctx& c, double s) { return V3(c.uni(-s, s), c.uni(-s, s), c.uni(-s, s)); }

template<int D> static void point_line(mon::Ctx& c)
{
    using V = Eigen::Vector<double, D>;
    V a, n, p;
    for (int i = 0; i < D; ++i) { a(i) = c.uni(-1000, 1000); n(i) = c.coin(0.2) ? 0.0 : c.gauss(); p(i) = c.uni(-1000, 1000); }
    if (n.norm() < 1e-6) n(0) = 1;
    const double len = c.logu(0.1, 1000);
    const utils::Line<D> line(a, V(n * len));
    const V u = n.normalized();
    const V e = (p - a) - u * (p - a).dot(u);
    check((line.distance(p) - e).norm() < 1e-8, "point_line_distance", "dim %d", D);
    check((line.get_closest_point_on_line(p) - (p - e)).norm() < 1e-8, "closest_point_on_line", "dim %d", D);
    check((line.compute_normal() - u).norm() < 1e-9 && (line.get_start_point() - a).norm() < 1e-12, "line_direction", "dim %d", D);
    const utils::Segment<D> seg(a, V(a + u * len));
    check((seg.distance(p) - e).norm() < 1e-7, "point_segment_line_distance", "dim %d", D);
    check((seg.compute_normal() - u).norm() < 1e-9 && (seg.get_end_point() - (a + u * len)).norm() < 1e-12, "segment_direction", "dim %d", D);
    utils::Line<D> other(line);
    check((other.get_normal() - u).norm() < 1e-9 && (other.get_start_point() - a).norm() == 0 && (other.distance(p) - e).norm() < 1e-8, "line_copied", "dim %d", D);
    other.set_point_and_normal(p, V(-u));
    check((other.compute_normal() + u).norm() < 1e-9 && (other.get_start_point() - p).norm() == 0 && (line.compute_normal() - u).norm() < 1e-9 && (line.get_start_point() - a).norm() == 0, "line_copies_are_independent", "dim %d", D);
    utils::Segment<D> cp(seg);
    cp.set_points(p, a);
    check((cp.get_start_point() - p).norm() == 0 && (cp.get_end_point() - a).norm() == 0 && (seg.get_start_point() - a).norm() == 0, "segment_copies_are_independent", "dim %d", D);
    mon::nontrivial("point_line", mon::fmt("%d %d %d", D, (int)(u(0) * 20), (int)(e.norm() / 20)));
}
MON_TEST(point_to_line, 2000, 40000) { point_line<2>(c); point_line<3>(c); }

MON_TEST(line_to_line, 2500, 50000)
{
    const V3 a = r3(c, 1000), b = r3(c, 1000), u = r3(c, 1).normalized(), v = c.coin(0.15) ? V3(u * (c.coin() ? 1 : -1)) : r3(c, 1).normalized();
    const V3 d = utils::signed_line_distance<3>(a, u, b, v);
    const V3 cr = u.cross(v);
    const bool par = cr.norm() < 1e-12;
    if (!par && cr.norm() < 1e-3) return;
    const double r = par ? ((a - b) - u * (a - b).dot(u)).norm() : std::abs((a - b).dot(cr)) / cr.norm();
    check(near(d.norm(), r, 1e-7, 1e-5), "line_line_distance", "parallel %d: %.9g vs %.9g", par, d.norm(), r);
    V3 p1 = V3::Zero(), p2 = V3::Zero();
    const bool ok = utils::compute_closest_points<3>(a, u, b, v, p1, p2);
    if (!par)
    {
        check(ok, "closest_points_found", "%.6g", cr.norm());
        const double s = 1 + p1.norm() + p2.norm();
        check((p1 - a).cross(u).norm() < 1e-7 * s && (p2 - b).cross(v).norm() < 1e-7 * s, "closest_points_on_lines", "%s %s", ref::s3(p1).c_str(), ref::s3(p2).c_str());
        check(near((p1 - p2).norm(), r, 1e-6, 1e-6 * s), "closest_points_distance", "%.9g vs %.9g", (p1 - p2).norm(), r);
        check((d - (p1 - p2)).norm() < 1e-6 * s, "signed_distance_from_second_to_first", "%s", ref::s3(d).c_str());
    }
    else if (u == v || u == -v) check(!ok, "parallel_lines_have_no_closest_points", "%s", ref::s3(u).c_str());
    mon::nontrivial("line_line", mon::fmt("%d %d %d", par, (int)(cr.norm() * 20), (int)(r / 20)));
}

MON_TEST(segment_intersection, 3000, 60000)
{
    const double S = c.coin() ? 100 : 2000;
    const V2 a = r2(c, S), b = r2(c, S), p = r2(c, S), q = r2(c, S);
    const double det = (b - a).x() * (q - p).y() - (b - a).y() * (q - p).x();
    if (std::abs(det) > 1e-3 * (b - a).norm() * (q - p).norm() && (b - a).norm() > 1 && (q - p).norm() > 1)
    {
        const double t = ((p - a).x() * (q - p).y() - (p - a).y() * (q - p).x()) / det;
        const double s = ((p - a).x() * (b - a).y() - (p - a).y() * (b - a).x()) / det;
        const double m = 1e-6;
        V2 x(-1e9, -1e9);
        const bool in = t > m && t < 1 - m && s > m && s < 1 - m, out = t < -m || t > 1 + m || s < -m || s > 1 + m;
        if (in || out)
        {
            const bool hit = utils::intersects(utils::Segment<2>(a, b), utils::Segment<2>(p, q), x);
            check(hit == in, "segments_intersect", "t=%.6g s=%.6g reported %d", t, s, hit);
            if (in && hit) check((x - (a + (b - a) * t)).norm() < 1e-5 * S, "intersection_point", "(%.6g,%.6g)", x.x(), x.y());
            mon::nontrivial("segments2", mon::fmt("%d %d %d", in, (int)(t * 10), (int)(s * 10)));
        }
    }
    // 3D: build two segments that meet, miss along their length, or pass at a distance
    const V3 m = r3(c, S), u = r3(c, 1).normalized(), v = r3(c, 1).normalized();
    if (u.cross(v).norm() > 0.05)
    {
        const double l1 = c.uni(1, S), l2 = c.uni(1, S), e1 = c.uni(1, S), e2 = c.uni(1, S);
        const int kind = (int)c.irange(0, 2);
        V3 s1 = m - u * l1, f1 = m + u * e1, s2 = m - v * l2, f2 = m + v * e2;
        if (kind == 1) { const V3 sh = u.cross(v).normalized() * c.uni(0.1, 50); s2 += sh; f2 += sh; }
        if (kind == 2) { s2 = m + v * c.uni(0.5, 10); f2 = s2 + v * e2; }
        V3 x(1e9, 1e9, 1e9);
        const bool hit = utils::intersects(utils::Segment<3>(s1, f1), utils::Segment<3>(s2, f2), x);
        check(hit == (kind == 0), "segments_intersect_3d", "kind %d reported %d", kind, hit);
        if (hit && kind == 0) check((x - m).norm() < 1e-4, "intersection_point_3d", "%s vs %s", ref::s3(x).c_str(), ref::s3(m).c_str());
        mon::nontrivial("segments3", mon::fmt("%d %d %d", kind, (int)(l1 / 50), (int)(l2 / 50)));
    }
}

MON_TEST(clamp, 3000, 60000)
{
    const double w = mon::cfg().c1.w, h = mon::cfg().c1.h;
    auto pt = [&](int k) {
        switch (k)
        {
            case 0: return V2(c.uni(2, w - 2), c.uni(2, h - 2));
            case 1: return V2(c.uni(-2 * w, 3 * w), c.uni(-2 * h, 3 * h));
            default: return V2(c.coin() ? c.uni(-500, -5) : w + c.uni(5, 500), c.uni(-h, 2 * h));
        }
    };
    V2 a = pt((int)c.irange(0, 2)), b = pt((int)c.irange(0, 2));
    if (c.coin(0.1)) b.x() = a.x();
    else if (c.coin(0.1)) b.y() = a.y();
    else if (c.coin(0.1))
    {
        // the segment only touches a corner of the image, or of the part of it the library considers
        const double m = (double)c.irange(0, 2);
        const bool left = c.coin(), top = c.coin();
        const V2 corner(left ? m : w - m, top ? m : h - m);
        V2 d((double)c.irange(5, 300), (double)c.irange(5, 300) * (left == top ? -1 : 1));
        if (c.coin()) d = -d;
        a = corner - d * (double)c.irange(1, 4);
        b = corner + d * (double)c.irange(1, 4);
        mon::observe("corner_touched");
    }
    // exact visible parts of the segment for the full image and for the image minus the two pixel margin the library keeps
    auto clip = [&](double m, double& t0, double& t1) {
        t0 = 0; t1 = 1;
        const V2 d = b - a;
        for (int i = 0; i < 2; ++i)
        {
            const double lo = m, hi = (i ? h : w) - m;
            if (std::abs(d(i)) < 1e-12) { if (a(i) < lo || a(i) > hi) return false; continue; }
            double x = (lo - a(i)) / d(i), y = (hi - a(i)) / d(i);
            if (x > y) std::swap(x, y);
            t0 = std::max(t0, x); t1 = std::min(t1, y);
        }
        return t0 <= t1;
    };
    double o0, o1, i0, i1;
    const bool outer = clip(-0.01, o0, o1), inner = clip(2.0, i0, i1);
    utils::Segment<2> out;
    const bool ok = utils::clamp_to_screen(utils::Segment<2>(a, b), out);
    const double len = (b - a).norm();
    if (!outer) check(!ok, "invisible_segment_refused", "(%.5g,%.5g)-(%.5g,%.5g)", a.x(), a.y(), b.x(), b.y());
    if (inner && len > 1e-6) check(ok, "visible_segment_kept", "(%.5g,%.5g)-(%.5g,%.5g)", a.x(), a.y(), b.x(), b.y());
    if (ok && len > 1e-6 && outer)
    {
        for (const V2& e: {V2(out.get_start_point()), V2(out.get_end_point())})
        {
            check(e.x() >= -1e-6 && e.y() >= -1e-6 && e.x() <= w + 1e-6 && e.y() <= h + 1e-6, "clamped_segment_inside_image", "(%.6g,%.6g)", e.x(), e.y());
            const double t = (e - a).dot(b - a) / (len * len);
            check((e - (a + (b - a) * t)).norm() < 1e-5 * (1 + len) && t >= -1e-9 && t <= 1 + 1e-9, "clamped_segment_on_segment", "(%.6g,%.6g) t=%.6g", e.x(), e.y(), t);
        }
        if (inner)
        {
            double t0 = (out.get_start_point() - a).dot(b - a) / (len * len), t1 = (out.get_end_point() - a).dot(b - a) / (len * len);
            if (t0 > t1) std::swap(t0, t1);
            check(t0 <= i0 + 1e-9 && t1 >= i1 - 1e-9, "visible_part_not_lost", "kept [%.6g,%.6g] visible [%.6g,%.6g] of (%.5g,%.5g)-(%.5g,%.5g)", t0, t1, i0, i1, a.x(), a.y(), b.x(), b.y());
        }
    }
    mon::nontrivial("clamp", mon::fmt("%d%d%d %d %d", outer, inner, ok, (int)(a.x() / 100), (int)(b.y() / 100)));
    if (ok) mon::sample("clamp", mon::fmt("(%.4g,%.4g)-(%.4g,%.4g) -> (%.4g,%.4g)-(%.4g,%.4g)", a.x(), a.y(), b.x(), b.y(), out.get_start_point().x(), out.get_start_point().y(), out.get_end_point().x(), out.get_end_point().y()));
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, mon::load_config); }
