// Reference planar polygon geometry, independent of the code under test.
#pragma once
#include "mon.hpp"
#include <Eigen/Dense>
#include <algorithm>
namespace refpoly {
using V2 = Eigen::Vector2d;
using P2 = std::vector<V2>;
inline double cross(const V2& a, const V2& b) { return a.x() * b.y() - a.y() * b.x(); }
inline double shoelace(const P2& p)
{
    double s = 0;
    for (size_t i = 0; i < p.size(); ++i) s += cross(p[i], p[(i + 1) % p.size()]);
    return s / 2;
}
inline bool inside(const V2& q, const P2& p)
{ // winding number
    double w = 0;
    for (size_t i = 0; i < p.size(); ++i) { const V2 a = p[i] - q, b = p[(i + 1) % p.size()] - q; w += std::atan2(cross(a, b), a.dot(b)); }
    return std::abs(w) > M_PI;
}
inline double dist_to_seg(const V2& q, const V2& a, const V2& b)
{
    const double l = (b - a).squaredNorm();
    const double t = l > 0 ? std::clamp((q - a).dot(b - a) / l, 0.0, 1.0) : 0.0;
    return (q - (a + (b - a) * t)).norm();
}
inline double dist_to_ring(const V2& q, const P2& p)
{
    double d = 1e300;
    for (size_t i = 0; i < p.size(); ++i) d = std::min(d, dist_to_seg(q, p[i], p[(i + 1) % p.size()]));
    return d;
}
inline P2 convex_hull(P2 v)
{
    std::sort(v.begin(), v.end(), [](const V2& a, const V2& b) { return a.x() < b.x() || (a.x() == b.x() && a.y() < b.y()); });
    P2 h;
    for (int pass = 0; pass < 2; ++pass)
    {
        const size_t base = h.size();
        for (const V2& q: v)
        {
            while (h.size() >= base + 2 && cross(h[h.size() - 1] - h[h.size() - 2], q - h[h.size() - 2]) <= 0) h.pop_back();
            h.push_back(q);
        }
        h.pop_back();
        std::reverse(v.begin(), v.end());
    }
    return h; // counter clockwise
}
// random polygons, counter clockwise around the origin
inline P2 convex_ring(mon::Ctx& c, double r)
{
    for (;;)
    {
        P2 v;
        const int n = (int)c.irange(3, 9);
        for (int i = 0; i < n; ++i) { const double a = c.uni(0, 2 * M_PI), d = c.uni(0.6, 1.0) * r; v.emplace_back(d * std::cos(a), d * std::sin(a)); }
        P2 h = convex_hull(v);
        if (h.size() >= 3 && std::abs(shoelace(h)) > 0.15 * r * r) return h;
    }
}
inline P2 star_ring(mon::Ctx& c, double r)
{
    P2 v;
    const int n = (int)c.irange(5, 12);
    for (int i = 0; i < n; ++i) { const double a = 2 * M_PI * (i + c.uni(-0.3, 0.3)) / n, d = c.uni(0.35, 1.0) * r; v.emplace_back(d * std::cos(a), d * std::sin(a)); }
    return v;
}
// part of convex s inside convex counter clockwise w
inline P2 clip_convex(P2 s, const P2& w)
{
    for (size_t i = 0; i < w.size() && !s.empty(); ++i)
    {
        const V2 a = w[i], d = w[(i + 1) % w.size()] - a;
        P2 o;
        for (size_t k = 0; k < s.size(); ++k)
        {
            const V2 &p = s[k], &q = s[(k + 1) % s.size()];
            const double x = cross(d, p - a), y = cross(d, q - a);
            if (x >= 0) o.push_back(p);
            if ((x > 0 && y < 0) || (x < 0 && y > 0)) o.push_back(p + (q - p) * (x / (x - y)));
        }
        s = o;
    }
    return s;
}
// exact intersection area of two polygons star shaped around ca and cb (fans of triangles)
inline double inter_area(const P2& a, const V2& ca, const P2& b, const V2& cb)
{
    double s = 0;
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < b.size(); ++j)
        {
            const P2 t = clip_convex({ca, a[i], a[(i + 1) % a.size()]}, {cb, b[j], b[(j + 1) % b.size()]});
            if (t.size() >= 3) s += std::abs(shoelace(t));
        }
    return s;
}
} // namespace refpoly
