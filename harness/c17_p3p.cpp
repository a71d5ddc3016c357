// C17: the minimal pose solver.
#include "config.hpp"
#include "geo.hpp"
#include "p3p.hpp"
using mon::check;
using ref::M3;
using ref::V3;
using ref::Q;

struct Inst
{
    M3 R;
    V3 t;
    std::vector<V3> x, X, C; // bearings, world points, camera points
    double scale;
};
static Inst instance(mon::Ctx& c)
{
    Inst in;
    Q q(c.gauss(), c.gauss(), c.gauss(), c.gauss());
    if (c.coin(0.15)) q = Q(1, 0, 0, 0);
    q.normalize();
    in.R = q.toRotationMatrix();
    in.scale = c.pick(std::vector<double> {1.0, 1.0, 10.0, 1000.0});
    in.t = V3(c.gauss(), c.gauss(), c.gauss()) * in.scale * c.pick(std::vector<double> {0, 0.3, 1, 3});
    const int kind = (int)c.irange(0, 3);
    const double z0 = c.uni(1, 6) * in.scale;
    for (int i = 0; i < 3; ++i)
    {
        V3 d(c.uni(-0.6, 0.6), c.uni(-0.5, 0.5), 1);
        double z = c.uni(0.4, 6) * in.scale;
        if (kind == 1) z = z0; // fronto parallel
        if (kind == 2) { d = V3(0.5 * std::cos(2 * M_PI * i / 3 + 0.3), 0.5 * std::sin(2 * M_PI * i / 3 + 0.3), 1); z = z0 * (1 + 0.2 * c.uni(-1, 1)); }
        if (kind == 3) { d = V3(c.uni(-1, 1), c.uni(-1, 1), c.uni(-1, 1)); } // omnidirectional bearings
        const V3 p = d * z;
        in.C.push_back(p);
        in.x.push_back(p.normalized());
        in.X.push_back(in.R.transpose() * (p - in.t));
    }
    return in;
}
// how far the instance is from the ones where the three distances determine the depths badly
static double conditioning(const Inst& in)
{
    const double l1 = in.C[0].norm(), l2 = in.C[1].norm(), l3 = in.C[2].norm();
    const double b12 = in.x[0].dot(in.x[1]), b13 = in.x[0].dot(in.x[2]), b23 = in.x[1].dot(in.x[2]);
    M3 J;
    J << l1 - l2 * b12, l2 - l1 * b12, 0, l1 - l3 * b13, 0, l3 - l1 * b13, 0, l2 - l3 * b23, l3 - l2 * b23;
    Eigen::JacobiSVD<M3> s(J);
    double tri = 1e9;
    for (int i = 0; i < 3; ++i)
    {
        const V3 a = (in.X[(i + 1) % 3] - in.X[i]), b = (in.X[(i + 2) % 3] - in.X[i]);
        tri = std::min(tri, a.normalized().cross(b.normalized()).norm());
        tri = std::min(tri, in.x[i].cross(in.x[(i + 1) % 3]).norm() * 3);
    }
    return std::min(s.singularValues()(2) / s.singularValues()(0), tri);
}

MON_TEST(solve, 60000, 6000000)
{
    const Inst in = instance(c);
    const double k = conditioning(in);
    if (!(k > 0.02)) { mon::observe("degenerate_instances"); return; }
    const auto sols = lambdatwist::p3p(in.x, in.X);
    check(sols.size() <= 4, "at_most_four", "%zu", sols.size());
    double best = 1e30;
    const double diam = std::max({(in.X[0] - in.X[1]).norm(), (in.X[0] - in.X[2]).norm(), (in.X[1] - in.X[2]).norm()});
    for (const auto& s: sols)
    {
        const bool finite = s.R.allFinite() && s.t.allFinite();
        check(finite, "finite", "conditioning %.3g", k);
        if (!finite) continue;
        const double err = (s.R - in.R).cwiseAbs().maxCoeff() + (s.t - in.t).norm() / std::max(in.t.norm(), diam);
        best = std::min(best, err);
        // other solutions can themselves be badly conditioned: looser, but still real solutions
        check((s.R * s.R.transpose() - M3::Identity()).cwiseAbs().maxCoeff() < 1e-3 && s.R.determinant() > 0.9, "rotation", "%.3g det %.4g (conditioning %.3g, %zu solutions)",
              (s.R * s.R.transpose() - M3::Identity()).cwiseAbs().maxCoeff(), s.R.determinant(), k, sols.size());
        for (int i = 0; i < 3; ++i)
        {
            const V3 p = s.R * in.X[i] + s.t;
            check(p.cross(in.x[i]).norm() <= 1e-3 * std::max(diam, p.norm()), "on_the_bearing", "point %d off by %.3g (conditioning %.3g)", i, p.cross(in.x[i]).norm() / p.norm(), k);
            check(p.dot(in.x[i]) > -1e-3 * diam, "in_front", "point %d at %.4g", i, p.dot(in.x[i]));
        }
    }
    if (k > 0.04) check(best < 1e-5 / k, "true_pose_is_a_solution", "best error %.4g of %zu solutions (conditioning %.3g scale %g)", best, sols.size(), k, in.scale);
    mon::observe("solutions", sols.size());
    mon::nontrivial("instances", mon::fmt("%zu %d %d %d", sols.size(), (int)(std::log2(k) * 4), (int)(in.x[0].x() * 10), (int)(in.x[1].y() * 10)));
    mon::sample("instance", mon::fmt("%zu solutions, conditioning %.3g, best error %.3g", sols.size(), k, best));
}

MON_TEST(order, 8000, 600000)
{
    // the order of the correspondences and the unit of length do not matter
    const Inst in = instance(c);
    if (!(conditioning(in) > 0.1)) return;
    const auto a = lambdatwist::p3p(in.x, in.X);
    const int p[3] = {1, 2, 0};
    std::vector<V3> x2, X2;
    for (int i = 0; i < 3; ++i) { x2.push_back(in.x[p[i]]); X2.push_back(in.X[p[i]]); }
    const auto b = lambdatwist::p3p(x2, X2);
    auto has = [&](const std::vector<lambdatwist::CameraPose>& v) {
        for (const auto& s: v) if ((s.R - in.R).cwiseAbs().maxCoeff() < 1e-4) return true;
        return false;
    };
    check(has(a) && has(b), "order_of_points_does_not_matter", "%zu %zu", a.size(), b.size());
    mon::nontrivial("orders", mon::fmt("%zu %zu %d", a.size(), b.size(), (int)(in.x[0].x() * 20)));
}
int main(int argc, char** argv) { return mon::run_main(argc, argv, mon::load_config); }
