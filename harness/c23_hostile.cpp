// C23: whatever the images contain, the system stays within its memory, keeps running and gives usable poses.
#include "video.hpp"
#include "rgbd_slam.hpp"
#include <opencv2/imgproc.hpp>
using namespace rgbd_slam;
using namespace video;
using mon::check;

static cv::Mat colour(mon::Ctx& c, int w, int h, int kind)
{
    cv::Mat im(h, w, CV_8UC3);
    const int s = (int)c.irange(1, 40), a = (int)c.irange(0, 255), b = (int)c.irange(0, 255);
    const uint32_t salt = (uint32_t)c.rng();
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
        {
            int v = 0;
            switch (kind)
            {
                case 0: v = a; break;                                                   // nothing
                case 1: v = (int)(mix((uint32_t)(y * w + x) ^ salt) & 255); break;      // noise
                case 2: v = ((x / s + y / s) & 1) ? a : b; break;                       // checker board, repeating
                case 3: v = ((x / s) & 1) ? a : b; break;                               // stripes
                case 4: v = (int)(mix((uint32_t)((y / s) * 4096 + x / s) ^ salt) & 255); break; // blocks
                case 5: v = (x * 255) / w; break;                                       // gradient
                default: v = (x < 4 || y < 4 || x >= w - 4 || y >= h - 4) ? (int)(mix((uint32_t)(y * w + x) ^ salt) & 255) : a; break; // borders only
            }
            im.at<cv::Vec3b>(y, x) = cv::Vec3b((uchar)v, (uchar)v, (uchar)(255 - v));
        }
    return im;
}
static cv::Mat_<float> depth(mon::Ctx& c, int w, int h, int kind)
{
    cv::Mat_<float> d(h, w, 0.f);
    const double z0 = c.logu(1, 20000), sx = c.uni(-8, 8), sy = c.uni(-8, 8);
    const int s = (int)c.irange(1, 60);
    const uint32_t salt = (uint32_t)c.rng();
    const double r = c.uni(50, 400), cx = c.uni(-300, 300);
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
        {
            double z = 0;
            const uint32_t n = mix((uint32_t)(y * w + x) ^ salt), k = mix((uint32_t)((y / s) * 4096 + x / s) ^ salt);
            switch (kind)
            {
                case 0: z = 0; break;
                case 1: z = n % 9000; break;                                    // noise
                case 2: z = z0; break;                                          // one wall, at any distance
                case 3: z = std::max(0.0, z0 + sx * x + sy * y); break;         // steep slopes
                case 4: z = 200 + k % 5000; break;                              // blocks
                case 5: z = (k % 3 == 0) ? 0 : 500 + k % 40; break;             // walls with holes
                case 6: z = 65535; break;                                       // saturated sensor
                case 7: z = (x == w - 1 || y == h - 1 || x == 0 || y == 0) ? 1000 : 0; break; // only the borders
                case 8: z = (n % 400 == 0) ? 100 + n % 3000 : 0; break;         // sparse
                case 9: { const double u = (x - w / 2) * 3.0 - cx; z = std::abs(u) < r ? 1500 - std::sqrt(r * r - u * u) : 0; break; } // cylinder
                case 10: z = (x / s) % 2 ? 1000 : 1200; break;                  // staircase
                default: z = (x < s * 3) ? 800 + x * 0.5 : 1500 + y; break;     // two walls
            }
            d(y, x) = (float)z;
        }
    if (c.coin(0.2)) // a rectangle without depth, borders included
    {
        const int x0 = (int)c.irange(0, w - 1), y0 = (int)c.irange(0, h - 1);
        d(cv::Rect(x0, y0, (int)c.irange(1, w - x0), (int)c.irange(1, h - y0))).setTo(0);
    }
    return d;
}
MON_TEST(hostile_images, 10, 120)
{
    const mon::Cam m = mon::cfg().c1;
    const Room room = random_room(c);
    const ref::Pose S = ref::rand_pose(c, c.coin() ? 300 : 20000);
    RGBD_SLAM slam(utils::Pose(S.t, quaternion(S.q.w(), S.q.x(), S.q.y(), S.q.z())), (uint)m.w, (uint)m.h);
    View v;
    const V3 vel = V3(c.gauss(), c.gauss(), c.gauss()).normalized() * c.uni(0, 60); // up to large jumps
    const int n = (int)c.irange(5, 9), style = (int)c.irange(0, 3);
    int ck = (int)c.irange(0, 6), dk = (int)c.irange(0, 11);
    std::string what;
    for (int i = 0; i < n; ++i)
    {
        Image im;
        if (style == 0) im = render(room, m, v, 1);                                          // a scene, moving fast
        else if (style == 1) { im.rgb = colour(c, m.w, m.h, ck); im.depth = depth(c, m.w, m.h, dk); } // the same kind every frame
        else if (style == 2) { im.rgb = colour(c, m.w, m.h, (int)c.irange(0, 6)); im.depth = depth(c, m.w, m.h, (int)c.irange(0, 11)); }
        else // a scene with hostile frames in between, and colour and depth that do not agree
        {
            im = render(room, m, v, 1);
            if (c.coin(0.35)) im.rgb = colour(c, m.w, m.h, (int)c.irange(0, 6));
            if (c.coin(0.35)) im.depth = depth(c, m.w, m.h, (int)c.irange(0, 11));
        }
        if (c.coin(0.5)) slam.rectify_depth(im.depth);
        const utils::Pose p = slam.track(im.rgb, im.depth);
        const auto& q = p.get_orientation_quaternion();
        check(p.get_position().allFinite() && std::abs(q.norm() - 1) < 1e-6, "pose_usable", "style %d frame %d: |q| %.6g", style, i, q.norm());
        check(ref::psd(p.get_pose_variance(), 1e-6), "covariance_usable", "style %d frame %d", style, i);
        if (c.coin(0.5))
        {
            const ref::Pose D = ref::rand_pose(c, 3000);
            (void)slam.get_debug_image(c.coin() ? p : utils::Pose(D.t, quaternion(D.q.w(), D.q.x(), D.q.y(), D.q.z())), im.rgb, c.uni(0, 1), c.coin());
        }
        mon::observe(mon::fmt("events.frames_style%d", style));
        v.t += vel;
        if (v.t.norm() > 400) v.t *= -0.5;
        what = mon::fmt("style %d colour %d depth %d", style, ck, dk);
    }
    slam.show_statistics(c.uni(0, 1));
    mon::nontrivial("hostile", mon::fmt("%d %d %d %d", style, style == 1 ? ck : 9, style == 1 ? dk : 20, n));
    mon::sample("hostile_images", what);
}
int main(int argc, char** argv)
{
    return mon::run_main(argc, argv, [] {
        mon::load_config();
        if (chdir(mon::opt().workdir.c_str()) != 0) _exit(3);
    });
}
