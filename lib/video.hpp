// Synthetic RGB-D sequences of textured rooms with a known trajectory (own ray caster).
#pragma once
#include "config.hpp"
#include "geo.hpp"
#include <opencv2/core.hpp>
namespace video {
using ref::V3;
using ref::M3;
using ref::Q;
inline uint32_t mix(uint32_t h)
{
    h ^= h >> 16; h *= 0x7feb352dU; h ^= h >> 15; h *= 0x846ca68bU; h ^= h >> 16;
    return h;
}
struct Wall { double n[3], d, u[3], v[3]; }; // n.p + d = 0 with n toward the inside, (u, v) its texture axes
struct Room
{
    std::vector<Wall> walls; // in the frame of the first camera (x right, y down, z forward)
    uint32_t salt = 1;
    double cell = 90;
    bool textured = true;
};
inline Wall wall(V3 n, double dist)
{
    n.normalize();
    V3 u = n.cross(std::abs(n.x()) < 0.7 ? V3(1, 0, 0) : V3(0, 1, 0)).normalized(), v = n.cross(u);
    return {{n.x(), n.y(), n.z()}, dist, {u.x(), u.y(), u.z()}, {v.x(), v.y(), v.z()}};
}
// a convex room around the origin: box of random proportions, randomly turned, with the camera well inside
inline Room random_room(mon::Ctx& c, double nearest = 900, double farthest = 2600)
{
    Room r;
    r.salt = (uint32_t)c.rng();
    r.cell = c.uni(60, 110);
    // the optical axis toward a wall, an edge or a corner
    const double yaw = c.uni(-0.8, 0.8), pitch = c.uni(-0.5, 0.5), roll = c.uni(-0.3, 0.3);
    const M3 R = (Eigen::AngleAxisd(yaw, V3::UnitY()) * Eigen::AngleAxisd(pitch, V3::UnitX()) * Eigen::AngleAxisd(roll, V3::UnitZ())).toRotationMatrix();
    for (int a = 0; a < 3; ++a)
        for (int s = -1; s <= 1; s += 2)
        {
            V3 n(0, 0, 0);
            n(a) = s;
            r.walls.push_back(wall(R * n, c.uni(nearest, farthest)));
        }
    return r;
}
inline double texture(const Room& r, int id, double a, double b)
{
    auto cellv = [&](double s, uint32_t k) {
        const int i = (int)std::floor(a / s), j = (int)std::floor(b / s);
        return (double)(mix(((uint32_t)i * 73856093U) ^ mix(((uint32_t)j * 19349663U) ^ mix((uint32_t)id * 7919U + k + r.salt))) & 255);
    };
    return 0.65 * cellv(r.cell, 1) + 0.35 * cellv(r.cell * 0.43, 2);
}
// pose of the camera in the frame of the room: p_room = R p_camera + t
struct View { M3 R = M3::Identity(); V3 t = V3::Zero(); };
struct Image { cv::Mat rgb; cv::Mat_<float> depth; };
__attribute__((optimize("O2"))) inline Image render(const Room& room, const mon::Cam& m, const View& w, int super = 2)
{
    Image im;
    im.rgb = cv::Mat(m.h, m.w, CV_8UC3);
    im.depth = cv::Mat_<float>(m.h, m.w, 0.f);
    const size_t n = room.walls.size();
    // walls in the camera frame
    std::vector<double> nc(3 * n), dc(n);
    for (size_t i = 0; i < n; ++i)
    {
        const V3 nn(room.walls[i].n[0], room.walls[i].n[1], room.walls[i].n[2]);
        const V3 k = w.R.transpose() * nn;
        nc[3 * i] = k.x(); nc[3 * i + 1] = k.y(); nc[3 * i + 2] = k.z();
        dc[i] = nn.dot(w.t) + room.walls[i].d;
    }
    double R[9];
    for (int i = 0; i < 9; ++i) R[i] = w.R(i / 3, i % 3);
    for (int v = 0; v < m.h; ++v)
        for (int u = 0; u < m.w; ++u)
        {
            double acc = 0;
            for (int s = 0; s < super * super; ++s)
            {
                const double uu = u + ((s % super) + 0.5) / super - 0.5, vv = v + ((s / super) + 0.5) / super - 0.5;
                const double rx = (uu - m.cx) / m.fx, ry = (vv - m.cy) / m.fy;
                double best = 1e18;
                int id = -1;
                for (size_t i = 0; i < n; ++i)
                {
                    const double den = nc[3 * i] * rx + nc[3 * i + 1] * ry + nc[3 * i + 2];
                    if (den >= -1e-9) continue;
                    const double z = -dc[i] / den;
                    if (z > 0 && z < best) { best = z; id = (int)i; }
                }
                if (id < 0) continue;
                if (room.textured)
                {
                    const double x = best * rx, y = best * ry, z = best;
                    const double px = R[0] * x + R[1] * y + R[2] * z + w.t.x(), py = R[3] * x + R[4] * y + R[5] * z + w.t.y(),
                                 pz = R[6] * x + R[7] * y + R[8] * z + w.t.z();
                    const Wall& wl = room.walls[(size_t)id];
                    acc += texture(room, id, wl.u[0] * px + wl.u[1] * py + wl.u[2] * pz, wl.v[0] * px + wl.v[1] * py + wl.v[2] * pz);
                }
                else acc += 128;
            }
            {
                const double rx = (u - m.cx) / m.fx, ry = (v - m.cy) / m.fy;
                double best = 1e18;
                for (size_t i = 0; i < n; ++i)
                {
                    const double den = nc[3 * i] * rx + nc[3 * i + 1] * ry + nc[3 * i + 2];
                    if (den >= -1e-9) continue;
                    const double z = -dc[i] / den;
                    if (z > 0 && z < best) best = z;
                }
                if (best < 9000) im.depth(v, u) = (float)best;
            }
            const uchar g = (uchar)std::clamp(acc / (super * super), 0.0, 255.0);
            im.rgb.at<cv::Vec3b>(v, u) = cv::Vec3b(g, g, g);
        }
    return im;
}
// distance of a point of the room's frame to the nearest wall
inline double off_surface(const Room& r, const V3& p)
{
    double b = 1e18;
    for (const Wall& w: r.walls) b = std::min(b, std::abs(w.n[0] * p.x() + w.n[1] * p.y() + w.n[2] * p.z() + w.d));
    return b;
}
} // namespace video
