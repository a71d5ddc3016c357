// C27: lines detected in images, their display, and the morphological reconstructions.
#include "config.hpp"
#include "features/lines/line_detection.hpp"
#include "geodesic_operations.hpp"
#include <opencv2/imgproc.hpp>
#include <deque>
using mon::check;
using rgbd_slam::features::lines::Line_Detection;
using rgbd_slam::features::lines::line_container;

namespace {
struct P2 { double x, y; };
double cross(P2 a, P2 b) { return a.x * b.y - a.y * b.x; }
P2 sub(P2 a, P2 b) { return {a.x - b.x, a.y - b.y}; }
double len(P2 a) { return std::hypot(a.x, a.y); }
// distance of a point to a segment, and place along it
double seg_dist(P2 p, P2 a, P2 b, double& along)
{
    const P2 d = sub(b, a), e = sub(p, a);
    const double l = len(d);
    along = std::clamp((e.x * d.x + e.y * d.y) / l, 0.0, l);
    return len(sub(p, P2 {a.x + d.x * along / l, a.y + d.y * along / l}));
}
struct Shape { std::vector<P2> c; double grey; };
bool inside(const Shape& s, P2 p)
{
    for (size_t i = 0; i < s.c.size(); ++i)
        if (cross(sub(s.c[(i + 1) % s.c.size()], s.c[i]), sub(p, s.c[i])) < 0) return false;
    return true;
}
// continuous coordinates: pixel (x, y) covers [x, x+1] x [y, y+1]
cv::Mat_<uchar> paint(int w, int h, double ground, const std::vector<Shape>& shapes)
{
    cv::Mat_<uchar> im(h, w);
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
        {
            double sum = 0;
            for (int k = 0; k < 16; ++k)
            {
                const P2 p {x + (k % 4 + 0.5) / 4, y + (k / 4 + 0.5) / 4};
                double g = ground;
                for (const Shape& s: shapes)
                    if (inside(s, p)) g = s.grey;
                sum += g;
            }
            im(y, x) = static_cast<uchar>(std::lround(sum / 16));
        }
    return im;
}
Shape rectangle(mon::Ctx& c, int w, int h, double ground, bool whole)
{
    Shape s;
    const double a = c.coin(0.25) ? c.pick(std::vector<double> {0, M_PI / 2, M_PI / 4}) : c.uni(0, M_PI);
    const double m = std::min(w, h);
    const double u = c.uni(0.18, 0.35) * m, v = c.uni(0.18, 0.35) * m;
    const double r = std::hypot(u, v) + 6;
    const P2 o = whole ? P2 {c.uni(r, w - r), c.uni(r, h - r)} : P2 {c.uni(0, w), c.uni(0, h)};
    for (const auto& k: std::vector<std::pair<double, double>> {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}})
        s.c.push_back({o.x + k.first * u * std::cos(a) - k.second * v * std::sin(a), o.y + k.first * u * std::sin(a) + k.second * v * std::cos(a)});
    do s.grey = c.uni(0, 255); while (std::abs(s.grey - ground) < 50);
    return s;
}
std::string lines_text(const line_container& l)
{
    std::string s;
    for (size_t i = 0; i < l.size() and i < 6; ++i) s += mon::fmt(" (%.1f %.1f)-(%.1f %.1f)", l[i][0], l[i][1], l[i][2], l[i][3]);
    return s;
}
bool same(const line_container& a, const line_container& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        for (int k = 0; k < 4; ++k)
            if (a[i][k] != b[i][k]) return false;
    return true;
}
} // namespace

// one rectangle: its four sides are found, and nothing else
MON_TEST(rectangle_sides, 120, 3000)
{
    const int w = (int)c.irange(90, 260), h = (int)c.irange(90, 200);
    const double ground = c.uni(0, 255);
    const Shape s = rectangle(c, w, h, ground, true);
    const cv::Mat_<uchar> im = paint(w, h, ground, {s});
    const cv::Mat_<uchar> before = im.clone();
    const cv::Mat_<float> depth(h, w, 1000.0f);
    const double scale = c.pick(std::vector<double> {1.0, 1.0, 0.8, 0.5});
    Line_Detection det(scale, c.pick(std::vector<double> {1.0, 0.6}));
    if (c.coin()) // what was seen before has no influence
    {
        const Shape o = rectangle(c, w, h, 128, false);
        (void)det.detect_lines(paint(w + (int)c.irange(0, 40), h, 128, {o}), depth);
    }
    const line_container lines = det.detect_lines(im, depth);
    Line_Detection fresh(scale, 1.0);
    mon::observe("line_detections");
    check(cv::countNonZero(im != before) == 0, "image_modified", "detecting lines changed the image");
    check(same(lines, det.detect_lines(im, depth)), "not_repeatable", "the same image gives other lines the second time");
    const double tol = 1.5 / scale;
    for (const cv::Vec4f& l: lines)
    {
        const P2 a {l[0], l[1]}, b {l[2], l[3]};
        if (not check(std::isfinite(l[0] + l[1] + l[2] + l[3]), "not_finite", "line with a coordinate that is not finite")) continue;
        bool ok = false;
        for (int i = 0; i < 4; ++i)
        {
            double t;
            const double m = std::max(seg_dist(a, s.c[i], s.c[(i + 1) % 4], t), seg_dist(b, s.c[i], s.c[(i + 1) % 4], t));
            ok = ok or m < tol + 2.0 / scale;
        }
        check(ok, "line_without_edge", "(%.1f %.1f)-(%.1f %.1f), scale %.1f: no side of the rectangle is there", l[0], l[1], l[2], l[3], scale);
    }
    for (int i = 0; i < 4; ++i)
    {
        const P2 a = s.c[i], b = s.c[(i + 1) % 4], d = sub(b, a);
        const double L = len(d);
        if (L * scale < 24) continue;
        std::vector<bool> cov((size_t)L, false);
        for (const cv::Vec4f& l: lines)
        {
            double t0, t1;
            const double d0 = seg_dist({l[0], l[1]}, a, b, t0), d1 = seg_dist({l[2], l[3]}, a, b, t1);
            const double ang = std::abs(cross(d, {l[2] - l[0], l[3] - l[1]})) / (L * std::hypot(l[2] - l[0], l[3] - l[1]) + 1e-9);
            if (std::max(d0, d1) > tol + 1.0 / scale or ang > 0.08) continue;
            for (double t = std::min(t0, t1); t < std::max(t0, t1); t += 0.5) if ((size_t)t < cov.size()) cov[(size_t)t] = true;
        }
        const double ratio = std::count(cov.begin(), cov.end(), true) / (double)cov.size();
        mon::observe("sides_judged");
        check(ratio > 0.7, "edge_not_found", "side (%.1f %.1f)-(%.1f %.1f) of contrast %.0f, scale %.1f: %.0f %% found, %zu lines:%s", a.x, a.y, b.x, b.y,
              std::abs(s.grey - ground), scale, 100 * ratio, lines.size(), lines_text(lines).c_str());
    }
    mon::nontrivial("rectangle_sides", mon::fmt("%d %d %.1f %zu", w / 20, h / 20, scale, lines.size()));
}

// images without any edge
MON_TEST(no_edge, 20, 200)
{
    const int w = (int)c.irange(3, 200), h = (int)c.irange(3, 160);
    const int kind = (int)c.irange(0, 2);
    cv::Mat_<uchar> im(h, w);
    const double base = c.uni(60, 200), sx = c.uni(-1.5, 1.5), sy = c.uni(-1.5, 1.5);
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x) im(y, x) = cv::saturate_cast<uchar>(kind == 0 ? base : kind == 1 ? base + ((x + y) & 1) : base + 0.02 * (sx * x + sy * y));
    const cv::Mat_<float> depth(h, w, 1000.0f);
    Line_Detection det(c.pick(std::vector<double> {1.0, 0.7}), 1.0);
    const line_container l = det.detect_lines(im, depth);
    check(l.empty(), "line_in_flat_image", "%zu lines in an image without edge (kind %d):%s", l.size(), kind, lines_text(l).c_str());
    cv::Mat out = cv::Mat::zeros(h, w, CV_8UC3), ref = out.clone();
    det.get_image_with_lines(l, depth, out);
    check(cv::norm(out, ref, cv::NORM_INF) == 0, "display_without_line", "an image was changed with no line to display");
    mon::nontrivial("no_edge", mon::fmt("%d %d %d", w / 30, h / 30, kind));
}

// hostile images and the display of their lines
MON_TEST(display, 150, 4000)
{
    const int w = (int)c.irange(20, 200), h = (int)c.irange(20, 150);
    const int kind = (int)c.irange(0, 5);
    cv::Mat_<uchar> im(h, w);
    const double a = c.uni(0, M_PI), per = c.uni(2, 40), ph = c.uni(0, 6);
    if (kind == 5)
    {
        std::vector<Shape> sh;
        for (int k = 0; k < 6; ++k) sh.push_back(rectangle(c, w, h, 128, false));
        im = paint(w, h, 128, sh);
    }
    else
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x)
            {
                const double s = std::sin((x * std::cos(a) + y * std::sin(a)) * 2 * M_PI / per + ph);
                double v = 0;
                if (kind == 0) v = c.uni(0, 255);
                if (kind == 1) v = s > 0 ? 255 : 0;
                if (kind == 2) v = 128 + 127 * s;
                if (kind == 3) v = 128 + 127 * std::sin(std::hypot(x - w / 3.0, y - h / 2.0) * 2 * M_PI / per); // rings
                if (kind == 4) v = (((int)(x / per) + (int)(y / per)) & 1) ? 230 : 20;
                im(y, x) = cv::saturate_cast<uchar>(v);
            }
    const int dk = (int)c.irange(0, 3);
    cv::Mat_<float> depth(h, w, 0.0f);
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x) depth(y, x) = dk == 0 ? 1500.0f : dk == 1 ? (c.coin(0.1) ? 900.0f : 0.0f) : dk == 2 ? (x < w / 2 ? 1000.0f : 0.0f) : 0.0f;
    const cv::Mat_<float> depthBefore = depth.clone();
    Line_Detection det(c.pick(std::vector<double> {1.0, 1.0, 0.8, 0.4}), c.pick(std::vector<double> {1.0, 0.5}));
    const line_container lines = det.detect_lines(im, depth);
    for (const cv::Vec4f& l: lines)
    {
        check(std::isfinite(l[0] + l[1] + l[2] + l[3]), "not_finite", "line with a coordinate that is not finite");
        mon::observe(l[0] < 0 or l[1] < 0 or l[2] < 0 or l[3] < 0 or l[0] >= w or l[2] >= w or l[1] >= h or l[3] >= h ? "lines_out_of_image" : "lines_in_image");
    }
    cv::Mat out(h, w, CV_8UC3, cv::Scalar(10, 20, 30)), ref = out.clone();
    det.get_image_with_lines(lines, depth, out);
    check(cv::norm(depth, depthBefore, cv::NORM_INF) == 0, "depth_modified", "displaying lines changed the depth image");
    // every changed pixel is on a line, every colour is that of a line
    const cv::Vec3b none(255, 0, 255), part(0, 0, 255), full(0, 255, 255);
    size_t changed = 0, bad = 0, colours[3] = {0, 0, 0};
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
        {
            const cv::Vec3b v = out.at<cv::Vec3b>(y, x);
            if (v == cv::Vec3b(10, 20, 30)) continue;
            ++changed;
            if (v == none) ++colours[0];
            else if (v == part) ++colours[1];
            else if (v == full) ++colours[2];
            else ++bad;
        }
    check(bad == 0, "unknown_colour", "%zu pixels of a colour that no line has", bad);
    if (dk == 0) check(colours[0] == 0, "depth_ignored", "%zu pixels shown as without depth in an image full of depth", colours[0]);
    if (dk == 3) check(colours[1] + colours[2] == 0, "depth_invented", "%zu pixels shown as with depth in an image without depth", colours[1] + colours[2]);
    size_t missing = 0, drawn = 0;
    for (const cv::Vec4f& l: lines)
    {
        const double mx = (l[0] + l[2]) / 2, my = (l[1] + l[3]) / 2;
        const int x = (int)mx, y = (int)my;
        // (the ends are displayed at a pixel of theirs: below or above for ends out of the image)
        if (x < 2 or y < 2 or x >= w - 2 or y >= h - 2) continue;
        bool any = false;
        for (int dy = -2; dy <= 2; ++dy)
            for (int dx = -2; dx <= 2; ++dx) any = any or out.at<cv::Vec3b>(y + dy, x + dx) != cv::Vec3b(10, 20, 30);
        ++drawn;
        missing += not any;
    }
    check(missing == 0, "line_not_drawn", "%zu lines of %zu are not drawn", missing, drawn);
    mon::observe("displayed_lines", lines.size());
    if (not lines.empty()) mon::nontrivial("display", mon::fmt("%d %d %zu %zu", kind, dk, lines.size() / 5, changed / 100));
}

// the colour of a line tells where it has depth
MON_TEST(colours, 300, 6000)
{
    const int w = (int)c.irange(60, 240), h = (int)c.irange(60, 200);
    Line_Detection det(c.pick(std::vector<double> {1.0, 0.8, 0.4}), 1.0);
    cv::Mat_<float> depth(h, w, 0.0f);
    for (int k = (int)c.irange(0, 4); k > 0; --k)
    {
        const int x = (int)c.irange(-20, w - 10), y = (int)c.irange(-20, h - 10);
        const cv::Rect r = cv::Rect(x, y, (int)c.irange(12, w), (int)c.irange(12, h)) & cv::Rect(0, 0, w, h);
        if (r.area() > 0) depth(r) = (float)c.uni(1, 8000);
    }
    if (c.coin(0.15)) depth = 1234.0f;
    // what is at more than 4 pixels of any change is certain
    auto around = [&](const cv::Point2d& p) { // 1: depth, 0: none, -1: not certain
        bool yes = false, no = false;
        for (int dy = -5; dy <= 5; ++dy)
            for (int dx = -5; dx <= 5; ++dx)
            {
                const int x = (int)p.x + dx, y = (int)p.y + dy;
                if (x < 0 or y < 0 or x >= w or y >= h) { if (std::abs(dx) <= 1 and std::abs(dy) <= 1) no = true; continue; }
                (depth(y, x) > 0 ? yes : no) = true;
            }
        // out of the image: no depth
        if (p.x < -1.5 or p.y < -1.5 or p.x > w + 1.5 or p.y > h + 1.5) return 0;
        return yes and no ? -1 : yes ? 1 : 0;
    };
    for (int t = 0; t < 12; ++t)
    {
        cv::Point2d a(c.uni(0, w), c.uni(0, h)), b(c.uni(0, w), c.uni(0, h));
        if (c.coin(0.15)) (c.coin() ? a : b) = cv::Point2d(c.uni(-12, w + 12), c.coin() ? c.uni(-12, -4) : h + c.uni(4, 12));
        if (cv::norm(a - b) < 20) continue;
        const int ea = around(a), eb = around(b), q1 = around(a * 0.75 + b * 0.25), q2 = around(a * 0.25 + b * 0.75);
        const cv::Vec3b none(255, 0, 255), part(0, 0, 255), full(0, 255, 255);
        cv::Vec3b expect;
        if (ea == 1 and eb == 1) expect = full;
        else if ((ea == 0 or eb == 0) and (q1 == 1 or q2 == 1)) expect = part;
        else if ((ea == 0 or eb == 0) and q1 == 0 and q2 == 0) expect = none;
        else continue;
        line_container l;
        l.emplace_back(cv::Vec4f((float)a.x, (float)a.y, (float)b.x, (float)b.y));
        cv::Mat out(h, w, CV_8UC3, cv::Scalar(10, 20, 30));
        det.get_image_with_lines(l, depth, out);
        size_t good = 0, bad = 0;
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x)
            {
                const cv::Vec3b v = out.at<cv::Vec3b>(y, x);
                if (v == cv::Vec3b(10, 20, 30)) continue;
                const double dx = b.x - a.x, dy = b.y - a.y, d = std::abs((x - a.x) * dy - (y - a.y) * dx) / std::hypot(dx, dy);
                check(d < 2.5, "drawn_elsewhere", "a pixel at %g of the line", d);
                (v == expect ? good : bad)++;
            }
        check(bad == 0 and good > 0, "colour_of_depth", "ends %d %d, quarters %d %d: %zu pixels of the expected colour, %zu others", ea, eb, q1, q2, good, bad);
        mon::nontrivial("colours", mon::fmt("%d %d %d %d %zu", ea, eb, q1, q2, good / 8));
    }
}

// morphological reconstruction against its definition
MON_TEST(holes, 300, 6000)
{
    const int w = (int)c.irange(2, 60), h = (int)c.irange(2, 50);
    cv::Mat_<uchar> src = cv::Mat_<uchar>::zeros(h, w);
    if (c.coin(0.5))
        for (int k = (int)c.irange(1, 8); k > 0; --k)
            cv::ellipse(src, cv::Point((int)c.irange(0, w), (int)c.irange(0, h)), cv::Size((int)c.irange(1, 20), (int)c.irange(1, 20)), c.uni(0, 180), 0, c.coin() ? 360 : 200, cv::Scalar(255), (int)c.irange(1, 3));
    else
    {
        const double p = c.uni(0.2, 0.9);
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x) src(y, x) = c.coin(p) ? 255 : 0;
    }
    const cv::Mat_<uchar> before = src.clone();
    cv::Mat dst;
    const int r = cv::fillHole(src, dst);
    check(r == 0 and dst.size() == src.size() and dst.type() == CV_8UC1, "fill_result", "unusable result %d", r);
    check(cv::countNonZero(src != before) == 0, "fill_modifies", "filling holes changed the given image");
    // background connected to the border (8 neighbours)
    cv::Mat_<uchar> open = cv::Mat_<uchar>::zeros(h, w);
    std::deque<cv::Point> todo;
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
            if ((x == 0 or y == 0 or x == w - 1 or y == h - 1) and src(y, x) == 0) { open(y, x) = 1; todo.push_back({x, y}); }
    while (not todo.empty())
    {
        const cv::Point p = todo.front();
        todo.pop_front();
        for (int dy = -1; dy <= 1; ++dy)
            for (int dx = -1; dx <= 1; ++dx)
            {
                const int x = p.x + dx, y = p.y + dy;
                if (x < 0 or y < 0 or x >= w or y >= h or open(y, x) or src(y, x)) continue;
                open(y, x) = 1;
                todo.push_back({x, y});
            }
    }
    size_t wrong = 0, filled = 0;
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
        {
            wrong += (dst.at<uchar>(y, x) != 0) != (open(y, x) == 0);
            filled += src(y, x) == 0 and open(y, x) == 0;
        }
    check(wrong == 0, "holes", "%zu pixels wrongly filled or left (image %d x %d, %zu pixels are in holes)", wrong, w, h, filled);
    mon::observe("hole_pixels", filled);
    if (filled) mon::nontrivial("holes", mon::fmt("%d %d %zu", w / 8, h / 8, filled / 10));

    // one and several geodesic steps, and the reconstruction, in grey levels
    cv::Mat_<uchar> marker(h, w), mask(h, w);
    const bool dil = c.coin();
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
        {
            mask(y, x) = (uchar)c.irange(0, 255);
            marker(y, x) = c.coin(0.1) ? (uchar)c.irange(0, 255) : (dil ? 0 : 255);
        }
    const int it = (int)c.irange(-1, 4);
    const cv::Mat kernel = cv::Mat::ones(3, 3, CV_8UC1);
    cv::Mat_<uchar> expected = marker.clone();
    auto step = [&](const cv::Mat_<uchar>& in) {
        cv::Mat_<uchar> o(h, w);
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x)
            {
                int v = in(y, x);
                for (int dy = -1; dy <= 1; ++dy)
                    for (int dx = -1; dx <= 1; ++dx)
                        if (x + dx >= 0 and y + dy >= 0 and x + dx < w and y + dy < h) v = dil ? std::max<int>(v, in(y + dy, x + dx)) : std::min<int>(v, in(y + dy, x + dx));
                o(y, x) = (uchar)(dil ? std::min<int>(v, mask(y, x)) : std::max<int>(v, mask(y, x)));
            }
        return o;
    };
    if (it != 0)
    {
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x) expected(y, x) = dil ? std::min(marker(y, x), mask(y, x)) : std::max(marker(y, x), mask(y, x));
        for (int k = 0; it < 0 or k < it; ++k)
        {
            const cv::Mat_<uchar> n = step(expected);
            const bool stable = cv::countNonZero(n != expected) == 0;
            expected = n;
            if (stable) break;
        }
    }
    cv::Mat got;
    if (dil) cv::GeodesicDilation(marker, mask, got, kernel, it);
    else cv::GeodesicErosion(marker, mask, got, kernel, it);
    check(got.size() == expected.size() and cv::countNonZero(got != expected) == 0, "geodesic", "%s with %d iterations is not what it should be", dil ? "dilation" : "erosion", it);
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, [] { mon::load_config(); }); }
