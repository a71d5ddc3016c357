// Synthetic depth scenes with a known ground truth (own ray caster).
#pragma once
#include "config.hpp"
#include "geo.hpp"
#include <opencv2/core.hpp>
namespace scene {
using ref::V3;
struct P { V3 n; double d; }; // n.p + d = 0, n toward the camera
struct Frame
{
    cv::Mat_<float> depth;
    cv::Mat_<int> label; // index of the plane, -1: nothing
};
inline V3 ray(const mon::Cam& m, double u, double v) { return V3((u - m.cx) / m.fx, (v - m.cy) / m.fy, 1.0); }
// depth of a plane along a ray, <=0 if none
inline double hit(const P& p, const V3& r)
{
    const double den = p.n.dot(r);
    if (std::abs(den) < 1e-9) return -1;
    return -p.d / den;
}
// inside of a convex room: the nearest plane wins. noise in units of the sensor resolution
inline Frame room(mon::Ctx& c, const mon::Cam& m, const std::vector<P>& ps, double noise, bool quantise, double holes,
                  const std::function<double(double)>& quant)
{
    Frame f;
    f.depth = cv::Mat_<float>(m.h, m.w, 0.f);
    f.label = cv::Mat_<int>(m.h, m.w, -1);
    for (int v = 0; v < m.h; ++v)
        for (int u = 0; u < m.w; ++u)
        {
            const V3 r = ray(m, u, v);
            double best = 1e18;
            int id = -1;
            for (size_t i = 0; i < ps.size(); ++i)
            {
                if (ps[i].n.dot(r) >= 0) continue;
                const double z = hit(ps[i], r);
                if (z > 0 && z < best) { best = z; id = (int)i; }
            }
            if (id < 0 || best > 9000) continue;
            f.label(v, u) = id;
            if (holes > 0 && c.coin(holes)) continue;
            double z = best + (noise > 0 ? std::clamp(c.gauss(), -3.0, 3.0) * noise * quant(best) : 0.0);
            if (quantise) z = std::round(z);
            f.depth(v, u) = (float)z;
        }
    return f;
}
} // namespace scene
