// C16: a configuration file is either used as written or reported as invalid; what the user cannot mean is never used.
#include "config.hpp"
#include "geo.hpp"
#include "parameters.hpp"
using namespace rgbd_slam;
using mon::check;
using mon::near;
using ref::V3;
static double focal(mon::Ctx& c) { return std::round(c.uni(50, 2000) * 8) / 8; }
static mon::Cfg rand_cfg(mon::Ctx& c)
{
    mon::Cfg k;
    for (mon::Cam* m: {&k.c1, &k.c2})
    {
        m->w = (int)c.irange(1, 4000); m->h = (int)c.irange(1, 3000);
        m->fx = focal(c); m->fy = focal(c);
        m->cx = c.coin(0.1) ? 0 : std::round(c.uni(0, m->w) * 4) / 4; m->cy = std::round(c.uni(0, m->h) * 4) / 4;
    }
    k.tx = c.uni(-500, 500); k.ty = c.uni(-500, 500); k.tz = c.uni(-500, 500);
    k.rx = c.uni(-3, 3); k.ry = c.uni(-1.5, 1.5); k.rz = c.uni(-3, 3);
    return k;
}
static bool used(const mon::Cfg& k, std::string& why)
{
    const auto s1 = Parameters::get_camera_1_image_size(), s2 = Parameters::get_camera_2_image_size();
    const auto f1 = Parameters::get_camera_1_focal(), f2 = Parameters::get_camera_2_focal(), c1 = Parameters::get_camera_1_center(), c2 = Parameters::get_camera_2_center();
    const double got[12] = {(double)s1.x(), (double)s1.y(), f1.x(), f1.y(), c1.x(), c1.y(), (double)s2.x(), (double)s2.y(), f2.x(), f2.y(), c2.x(), c2.y()};
    const double want[12] = {(double)k.c1.w, (double)k.c1.h, k.c1.fx, k.c1.fy, k.c1.cx, k.c1.cy, (double)k.c2.w, (double)k.c2.h, k.c2.fx, k.c2.fy, k.c2.cx, k.c2.cy};
    for (int i = 0; i < 12; ++i)
        if (!near(got[i], want[i], 1e-6, 1e-6)) { why = mon::fmt("value %d is %.9g, %.9g was written", i, got[i], want[i]); return false; }
    // rotation about x, then y, then z of the rotated frame
    auto R = [](int axis, double a) {
        Eigen::Matrix3d m = Eigen::Matrix3d::Identity();
        const int i = (axis + 1) % 3, j = (axis + 2) % 3;
        m(i, i) = m(j, j) = std::cos(a); m(i, j) = -std::sin(a); m(j, i) = std::sin(a);
        return m;
    };
    const Eigen::Matrix3d rot = R(0, k.rx) * R(1, k.ry) * R(2, k.rz);
    const matrix44 t = Parameters::get_camera_2_to_camera_1_transformation();
    if (!ref::mnear(Eigen::Matrix3d(t.block<3, 3>(0, 0)), rot, 1e-5, 1e-5)) { why = "camera 2 rotation"; return false; }
    if (!(V3(t.block<3, 1>(0, 3)) - V3(k.tx, k.ty, k.tz)).isZero(1e-3) || t(3, 3) != 1 || t(3, 0) != 0 || t(3, 1) != 0 || t(3, 2) != 0) { why = "camera 2 translation"; return false; }
    return true;
}
static const mon::Cfg DEF = mon::cfg(0);
static std::string write(const std::string& text)
{
    const std::string f = mon::opt().workdir + "/conf.yaml";
    std::ofstream o(f);
    o << text;
    return f;
}
static void corrupt_previous(mon::Ctx& c)
{ // whatever was parsed before must not matter
    if (c.coin(0.5)) (void)Parameters::parse_file(write(mon::cfg_yaml(rand_cfg(c))));
    else if (c.coin(0.5)) (void)Parameters::parse_file("/nonexistent/configuration.yaml");
    else (void)Parameters::parse_file(write("%YAML:1.0\ncamera_1_size_x: 10\n"));
}
MON_TEST(valid, 800, 20000)
{
    corrupt_previous(c);
    const mon::Cfg k = rand_cfg(c);
    std::string y = mon::cfg_yaml(k);
    if (c.coin(0.4))
    { // order of the entries does not matter
        std::vector<std::string> l;
        std::istringstream is(y.substr(y.find('\n') + 1));
        std::string s;
        while (std::getline(is, s)) l.push_back(s);
        for (size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[c.irange(0, (int)i - 1)]);
        y = "%YAML:1.0\n";
        for (auto& x: l) { y += x + "\n"; if (c.coin(0.1)) y += "# a comment\n"; }
        y += "unknown_entry: 12\n";
    }
    const bool ok = Parameters::parse_file(write(y));
    check(ok && Parameters::is_valid(), "valid_configuration_accepted", "%d %d", ok, Parameters::is_valid());
    std::string why;
    const bool u = used(k, why);
    check(u, "configuration_used_as_written", "%s", why.c_str());
    mon::nontrivial("valid", mon::fmt("%d %d %d", k.c1.w, k.c2.h, (int)k.c1.fx));
    mon::sample("valid", mon::fmt("%dx%d focal %.3f,%.3f", k.c1.w, k.c1.h, k.c1.fx, k.c1.fy));
}
MON_TEST(invalid, 800, 20000)
{
    corrupt_previous(c);
    const mon::Cfg k = rand_cfg(c);
    std::string y = mon::cfg_yaml(k);
    const int cam = (int)c.irange(1, 2);
    const char ax = c.coin() ? 'x' : 'y';
    const char* what = c.pick(std::vector<const char*>{"size", "focal", "center"});
    const std::string key = mon::fmt("camera_%d_%s_%c:", cam, what, ax);
    std::string bad;
    const bool size = std::string(what) == "size", center = std::string(what) == "center";
    switch (c.irange(0, 3))
    {
        case 0: bad = size ? mon::fmt("%d", -(int)c.irange(1, 4000)) : mon::fmt("%.3f", -c.uni(0.01, 2000)); break;
        case 1: bad = center ? "-1.0" : size ? "0" : "0.0"; break;
        case 2: bad = size ? "0" : ".Nan"; break;
        default: bad = size ? "-640" : ".Inf"; break;
    }
    if (!center && c.coin(0.25)) bad = "absent";
    const size_t p = y.find(key);
    const size_t e = y.find('\n', p);
    y.replace(p, e - p, bad == "absent" ? std::string() : key + " " + bad);
    const bool ok = Parameters::parse_file(write(y));
    check(!ok && !Parameters::is_valid(), "invalid_configuration_reported", "%s %s accepted (returned %d, valid %d)", key.c_str(), bad.c_str(), ok, Parameters::is_valid());
    mon::nontrivial("invalid", key + bad);
    // the documented way out
    Parameters::load_defaut();
    std::string why;
    const bool u = used(DEF, why);
    check(Parameters::is_valid() && u, "default_configuration_usable", "valid %d %s", Parameters::is_valid(), why.c_str());
}
MON_TEST(unreadable, 300, 5000)
{
    corrupt_previous(c);
    const int kind = (int)c.irange(0, 5);
    std::string f;
    std::string y = mon::cfg_yaml(rand_cfg(c));
    switch (kind)
    {
        case 0: f = mon::opt().workdir + "/does_not_exist.yaml"; break;
        case 1: f = mon::opt().workdir; break; // a folder
        case 2: f = write(""); break;
        case 3:
        {
            std::string g;
            const int n = (int)c.irange(1, 400);
            for (int i = 0; i < n; ++i) g += (char)c.irange(1, 255);
            f = write(c.coin() ? g : "%YAML:1.0\n" + g);
            break;
        }
        case 4: f = write(y.substr(0, (size_t)c.irange(0, (int)y.size() / 3))); break; // truncated
        default:
        { // random damage
            std::string d = y;
            for (int i = 0; i < 3; ++i) d.insert((size_t)c.irange(10, (int)d.size()), c.pick(std::vector<std::string>{"{", "[", ": :", "\"", "\t-", "- a\n", "%"}));
            f = write(d);
        }
    }
    const bool ok = Parameters::parse_file(f);
    if (kind != 5) check(!ok, "unreadable_configuration_reported", "kind %d accepted", kind);
    check(ok == false || Parameters::is_valid(), "accepted_configuration_is_valid", "kind %d", kind);
    if (Parameters::is_valid())
    {
        const auto s = Parameters::get_camera_1_image_size(), s2 = Parameters::get_camera_2_image_size();
        const auto g = Parameters::get_camera_1_focal(), g2 = Parameters::get_camera_2_focal();
        check(s.x() > 0 && s.y() > 0 && s2.x() > 0 && s2.y() > 0 && s.x() <= 0x7fffffff && s.y() <= 0x7fffffff && g.x() > 0 && g.y() > 0 && g2.x() > 0 && g2.y() > 0, "valid_means_usable", "kind %d: %u x %u focal %.4g %.4g", kind, s.x(), s.y(), g.x(), g.y());
    }
    if (kind == 0)
    {
        std::string why;
        const bool u = used(DEF, why);
        check(u && Parameters::is_valid(), "missing_configuration_is_default", "%s", why.c_str());
    }
    mon::nontrivial("unreadable", mon::fmt("%d %d %d", kind, ok, (int)c.irange(0, 50)));
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, [] {}); }
