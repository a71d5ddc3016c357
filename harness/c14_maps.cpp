// C14: a map file read back holds exactly what was written, in the format it announces.
#include "config.hpp"
#include "geo.hpp"
#include "poly.hpp"
#include "coordinates/polygon_coordinates.hpp"
#include "outputs/map_writer.hpp"
#include <memory>
#include <sstream>
using namespace rgbd_slam;
using mon::check;
using mon::near;
using ref::V3;
static V3 pt(mon::Ctx& c)
{
    if (c.coin(0.1)) return V3(0, 0, 0);
    const double s = c.coin(0.2) ? c.logu(1e-3, 1e6) : 5000;
    return V3(c.uni(-s, s), c.uni(-s, s), c.uni(-s, s));
}
static bool close(const V3& a, const V3& b) { return (a - b).cwiseAbs().maxCoeff() <= 1e-5 * std::max(1e-2, b.cwiseAbs().maxCoeff()); }
struct Ops
{
    struct Op { int kind; std::vector<V3> pts; };
    std::vector<Op> ops;
};
static Ops run_ops(mon::Ctx& c, outputs::IMap_Writer& w)
{
    Ops o;
    const int n = c.coin(0.1) ? 0 : (int)c.irange(1, 40);
    for (int i = 0; i < n; ++i)
    {
        Ops::Op op;
        op.kind = (int)c.irange(0, 3);
        if (op.kind <= 1) { op.pts.push_back(pt(c)); w.add_point(op.pts[0]); }
        else if (op.kind == 2)
        {
            const int k = (int)c.irange(2, 5);
            for (int j = 0; j < k; ++j) op.pts.push_back(pt(c));
            w.add_line(std::vector<vector3>(op.pts.begin(), op.pts.end()));
        }
        else
        { // boundary of a real polygon: a closed ring
            V3 nn = V3(c.gauss(), c.gauss(), c.gauss()).normalized();
            const V3 ax = nn.unitOrthogonal(), ay = nn.cross(ax);
            const auto ring = c.coin() ? refpoly::convex_ring(c, c.uni(50, 2000)) : refpoly::star_ring(c, c.uni(50, 2000));
            std::vector<utils::Polygon::point_2d> b;
            for (const auto& q: ring) b.emplace_back(q.x(), q.y());
            const utils::Polygon p(b, ax, ay, pt(c));
            const auto bound = p.get_unprojected_boundary();
            w.add_polygon(bound, p.get_normal());
            op.pts.assign(bound.begin(), bound.end());
            if (op.pts.size() > 1 && (op.pts.front() - op.pts.back()).norm() < 1e-9) op.pts.pop_back();
        }
        if (op.kind == 0) op.kind = 1;
        o.ops.push_back(std::move(op));
    }
    return o;
}
static std::vector<std::string> lines(const std::string& f)
{
    std::ifstream in(f);
    std::vector<std::string> l;
    std::string s;
    while (std::getline(in, s)) l.push_back(s);
    return l;
}
MON_TEST(obj, 400, 8000)
{
    const std::string base = mon::opt().workdir + "/map";
    Ops o;
    { auto w = std::make_unique<outputs::OBJ_Map_Writer>(base); o = run_ops(c, *w); }
    std::vector<V3> v;
    struct El { char k; std::vector<long> idx; };
    std::vector<El> els;
    bool syntax = true;
    for (const auto& l: lines(base + ".obj"))
    {
        std::istringstream is(l);
        std::string k;
        is >> k;
        if (k == "v") { V3 p; syntax &= bool(is >> p.x() >> p.y() >> p.z()); v.push_back(p); }
        else if (k == "p" || k == "l" || k == "f")
        {
            El e; e.k = k[0];
            std::string tok;
            while (is >> tok) e.idx.push_back(std::stol(tok));
            els.push_back(e);
        }
        else if (!k.empty() && k[0] != '#') syntax = false;
    }
    check(syntax, "obj_syntax", "%zu vertices", v.size());
    bool range = true;
    for (const auto& e: els) for (long i: e.idx) range &= i >= 1 && i <= (long)v.size();
    check(range, "obj_index_in_range", "%zu elements over %zu vertices", els.size(), v.size());
    if (!check(els.size() == o.ops.size(), "obj_every_feature_once", "%zu elements for %zu features", els.size(), o.ops.size()) || !range) return;
    for (size_t i = 0; i < els.size(); ++i)
    {
        const auto& op = o.ops[i];
        std::vector<V3> got;
        for (long j: els[i].idx) got.push_back(v[j - 1]);
        const char want = op.kind == 1 ? 'p' : op.kind == 2 ? 'l' : 'f';
        bool ok = els[i].k == want && got.size() == op.pts.size();
        if (ok && want != 'f')
            for (size_t j = 0; j < got.size(); ++j) ok &= close(got[j], op.pts[j]);
        if (ok && want == 'f')
        { // the same ring, any start, either direction
            bool any = false;
            const size_t n = got.size();
            for (size_t st = 0; st < n && !any; ++st)
                for (int d: {-1, 1})
                {
                    bool all = true;
                    for (size_t j = 0; j < n && all; ++j) all = close(got[(st + (d > 0 ? j : n - j)) % n], op.pts[j]);
                    if (all) { any = true; break; }
                }
            ok = any;
        }
        check(ok, want == 'p' ? "obj_point_where_it_is" : want == 'l' ? "obj_line_where_it_is" : "obj_face_is_the_boundary", "element %zu (%c, %zu vertices for %zu points)", i, els[i].k, got.size(), op.pts.size());
    }
    mon::nontrivial("obj", mon::fmt("%zu %zu %d", o.ops.size(), v.size(), (int)(v.empty() ? 0 : v[0].x() / 10)));
    mon::sample("obj", mon::fmt("%zu features, %zu vertices read back", o.ops.size(), v.size()));
}
static void points_only(mon::Ctx& c, bool pcd)
{
    const std::string base = mon::opt().workdir + "/map";
    Ops o;
    if (pcd) { auto w = std::make_unique<outputs::PCD_Map_Writer>(base); o = run_ops(c, *w); }
    else { auto w = std::make_unique<outputs::XYZ_Map_Writer>(base); o = run_ops(c, *w); }
    std::vector<V3> want;
    for (auto& op: o.ops) if (op.kind == 1) want.push_back(op.pts[0]);
    std::vector<V3> got;
    bool syntax = true, data = !pcd;
    long announced = -1;
    std::string fields, type;
    for (const auto& l: lines(base + (pcd ? ".pcd" : ".xyz")))
    {
        if (l.empty() || l[0] == '#') continue;
        std::istringstream is(l);
        if (!data)
        {
            std::string k;
            is >> k;
            if (k == "POINTS") { if (!(is >> announced)) announced = -2; std::string rest; if (is >> rest) announced = -3; }
            if (k == "FIELDS") fields = l;
            if (k == "TYPE") type = l;
            if (k == "DATA") { std::string m; is >> m; syntax &= m == "ascii"; data = true; }
            continue;
        }
        V3 p;
        std::string rest;
        syntax &= bool(is >> p.x() >> p.y() >> p.z()) && !(is >> rest);
        got.push_back(p);
    }
    const std::string k = pcd ? "pcd" : "xyz";
    check(syntax && data, k + "_syntax", "%zu points", got.size());
    if (pcd)
    {
        check(announced == (long)want.size(), "pcd_announces_its_points", "announces %ld points, %zu were written", announced, want.size());
        check(fields == "FIELDS x y z" && type == "TYPE F F F", "pcd_header", "%s | %s", fields.c_str(), type.c_str());
    }
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < got.size(); ++i) ok = close(got[i], want[i]);
    check(ok, k + "_points_read_back", "%zu read, %zu written", got.size(), want.size());
    mon::nontrivial(k, mon::fmt("%zu %zu %d", o.ops.size(), want.size(), (int)(want.empty() ? 0 : want[0].x() / 10)));
}
MON_TEST(pcd, 300, 6000) { points_only(c, true); }
MON_TEST(xyz, 300, 6000) { points_only(c, false); }
int main(int argc, char** argv) { return mon::run_main(argc, argv, [] { mon::load_config(); }); }
