// C11: the depth image aligned to the colour image, and the organised cloud, hold every measured point once, where it is.
#include "config.hpp"
#include "geo.hpp"
#include "features/primitives/depth_map_transformation.hpp"
#include <memory>
using namespace rgbd_slam;
using features::primitives::Depth_Map_Transformation;
using mon::check;
using mon::near;
using ref::V3;

// rotation of the second camera, from its Euler angles, written from the documented convention: checked by C01/C07 against
// the library's own matrix. Here the matrix the library exposes is the input of the oracle.
static cv::Mat_<float> image(mon::Ctx& c, int w, int h, std::string& what)
{
    cv::Mat_<float> d(h, w, 0.f);
    const int kind = (int)c.irange(0, 4);
    const double z0 = c.uni(400, 4000), sx = c.uni(-2, 2), sy = c.uni(-2, 2), step = c.uni(100, 1500);
    const int bx = (int)c.irange(0, w - 1), by = (int)c.irange(0, h - 1), bs = (int)c.irange(20, 200);
    for (int v = 0; v < h; ++v)
        for (int u = 0; u < w; ++u)
        {
            double z = 0;
            switch (kind)
            {
                case 0: z = z0; break;
                case 1: z = std::max(50.0, z0 + sx * (u - w / 2) + sy * (v - h / 2)); break;
                case 2: z = c.uni(40, 6000); break;
                case 3: z = z0 + step; if (std::abs(u - bx) < bs && std::abs(v - by) < bs) z = z0; break;
                default: z = c.coin(0.3) ? c.uni(1, 200) : 0; break;
            }
            if (c.coin(0.02)) z = c.coin() ? 0.0 : -1.0;
            d(v, u) = (float)z;
        }
    what = mon::fmt("kind %d z0 %.0f", kind, z0);
    return d;
}

MON_TEST(rectify, 40, 600)
{
    const mon::Cfg k = mon::cfg();
    static const mon::Cam a = k.c1, b = k.c2;
    std::string what;
    const cv::Mat_<float> in = image(c, a.w, a.h, what);
    static Depth_Map_Transformation t(a.w, a.h, 20);
    cv::Mat_<float> out;
    if (c.coin(0.3)) out = cv::Mat_<float>(a.h, a.w, 123.f); // previous content is not kept
    else if (c.coin(0.4)) (void)t.rectify_depth(cv::Mat_<float>(a.h, a.w, (float)c.uni(300, 3000)), out);
    const bool ok = t.rectify_depth(in, out);
    check(ok && out.rows == a.h && out.cols == a.w, "rectified_size", "%d x %d", out.cols, out.rows);
    if (out.rows != a.h || out.cols != a.w) return;
    const matrix44 T = Parameters::get_camera_2_to_camera_1_transformation();
    struct T_ { float sure = 0, lo = 0; std::vector<float> maybe; };
    std::vector<T_> tgt((size_t)a.w * a.h);
    for (int v = 0; v < a.h; ++v)
        for (int u = 0; u < a.w; ++u)
        {
            const double z = in(v, u);
            if (!(z > 0)) continue;
            const V3 p((u - b.cx) / b.fx * z, (v - b.cy) / b.fy * z, z);
            const V3 q = (T.block<3, 3>(0, 0) * p + T.block<3, 1>(0, 3));
            if (q.z() <= 1e-6) continue;
            const double x = a.cx + a.fx * q.x() / q.z(), y = a.cy + a.fy * q.y() / q.z();
            if (!(x > -5 && y > -5 && x < a.w + 5 && y < a.h + 5)) continue;
            const double m = 5e-3; // single precision rays: coordinates near the middle of two pixels may go to either
            for (int yy = (int)std::floor(y + 0.5 - m); yy <= (int)std::floor(y + 0.5 + m); ++yy)
                for (int xx = (int)std::floor(x + 0.5 - m); xx <= (int)std::floor(x + 0.5 + m); ++xx)
                {
                    if (xx < 0 || yy < 0 || xx >= a.w || yy >= a.h) continue;
                    auto& g = tgt[(size_t)yy * a.w + xx];
                    const bool sure = std::abs(x - xx) < 0.5 - m && std::abs(y - yy) < 0.5 - m;
                    if (sure) g.sure = g.sure == 0 ? (float)q.z() : std::min(g.sure, (float)q.z());
                    g.maybe.push_back((float)q.z());
                }
        }
    long written = 0, contested = 0;
    for (int v = 0; v < a.h; ++v)
        for (int u = 0; u < a.w; ++u)
        {
            const float o = out(v, u);
            const auto& g = tgt[(size_t)v * a.w + u];
            mon::State& S = mon::st();
            (void)S;
            if (g.maybe.empty()) { if (o != 0) { check(false, "no_depth_invented", "%s: pixel (%d,%d) has %.6g, nothing projects there", what.c_str(), u, v, o); return; } continue; }
            ++written;
            contested += g.maybe.size() > 1;
            if (o == 0) { if (g.sure > 0) { check(false, "projected_depth_kept", "%s: pixel (%d,%d) is empty, %.6g projects there", what.c_str(), u, v, g.sure); return; } continue; }
            bool one = false;
            for (float z: g.maybe) one |= std::abs(z - o) <= 1e-4f * z + 1e-3f;
            if (!one) { check(false, "depth_is_that_of_a_projected_point", "%s: pixel (%d,%d) has %.6g", what.c_str(), u, v, o); return; }
            if (g.sure > 0 && o > g.sure * (1 + 1e-4f) + 1e-3f) { check(false, "closest_surface_wins", "%s: pixel (%d,%d) has %.6g, but %.6g is in front", what.c_str(), u, v, o, g.sure); return; }
        }
    mon::observe("oracle.rectified_pixels", written);
    mon::observe("pixels.contested", contested);
    // the input is left alone, and an empty image stays empty
    cv::Mat_<float> e(a.h, a.w, 0.f), eo;
    check(t.rectify_depth(e, eo) && cv::countNonZero(eo) == 0, "empty_stays_empty", "%s", "");
    mon::nontrivial("rectify", what + mon::fmt(" %ld %d", written / 1000, mon::opt().config));
    mon::sample("rectify", what + mon::fmt(": %ld pixels judged, %ld reached by several points", written, contested));
}

MON_TEST(cloud, 60, 900)
{
    const mon::Cam a = mon::cfg().c1;
    const int cell = c.coin(0.6) ? 20 : (int)c.irange(5, 40);
    const int w = c.coin(0.5) ? a.w : (int)c.irange(cell, a.w), h = c.coin(0.5) ? a.h : (int)c.irange(cell, a.h);
    std::string what;
    const cv::Mat_<float> in = image(c, w, h, what);
    const cv::Mat_<float> copy = in.clone();
    Depth_Map_Transformation t(w, h, cell);
    matrixf cloud;
    switch (c.irange(0, 3)) // what the array held before does not matter
    {
        case 0: cloud = matrixf::Constant(7, 3, 5.f); break;
        case 1: cloud = matrixf::Constant((long)w * h, 3, 5.f); break;
        case 2: { const cv::Mat_<float> before(h, w, (float)c.uni(500, 5000)); t.get_organized_cloud_array(before, cloud); break; }
        default: break;
    }
    check(t.get_organized_cloud_array(in, cloud), "cloud_made", "%s", "");
    const int hc = w / cell, vc = h / cell;
    if (!check(cloud.cols() == 3 && cloud.rows() >= (long)hc * vc * cell * cell, "cloud_size", "%ld rows for %dx%d", (long)cloud.rows(), w, h)) return;
    long points = 0;
    for (int cy = 0; cy < vc; ++cy)
        for (int cx = 0; cx < hc; ++cx)
            for (int i = 0; i < cell * cell; ++i)
            {
                const int u = cx * cell + i % cell, v = cy * cell + i / cell;
                const long id = ((long)cy * hc + cx) * cell * cell + i;
                const double z = in(v, u);
                const V3 e = z > 0 ? V3((u - a.cx) / a.fx * z, (v - a.cy) / a.fy * z, z) : V3(0, 0, 0);
                const V3 g(cloud(id, 0), cloud(id, 1), cloud(id, 2));
                if (!((g - e).norm() <= 1e-5 * e.norm() + 1e-6)) { check(false, "cloud_point", "%s %dx%d cell %d: pixel (%d,%d) %s vs %s", what.c_str(), w, h, cell, u, v, ref::s3(g).c_str(), ref::s3(e).c_str()); return; }
                points += z > 0;
            }
    long extra = 0;
    for (long i = (long)hc * vc * cell * cell; i < cloud.rows(); ++i) extra += cloud(i, 2) != 0;
    check(extra == 0, "no_point_outside_cells", "%ld", extra);
    mon::observe("oracle.cloud_points", points);
    cv::Mat_<uchar> diff;
    check(cv::countNonZero(in != copy) == 0, "input_untouched", "%s", "");
    mon::nontrivial("cloud", mon::fmt("%d %d %d ", w / 10, h / 10, cell) + what);
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, [] { mon::load_config(); }); }
