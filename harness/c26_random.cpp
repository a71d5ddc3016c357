// C26: random draws and random subsets.
#include "config.hpp"
#include "pose_optimization/ransac.hpp"
#include "utils/random.hpp"
#include <barrier>
#include <cmath>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <vector>
using namespace rgbd_slam;
using mon::check;
struct Item
{
    int id;
    double score;
    double get_score() const { return score; }
};
using Ptr = std::shared_ptr<Item>;
static std::vector<Ptr> items(mon::Ctx& c, int n, bool mixed)
{
    std::vector<Ptr> v;
    for (int i = 0; i < n; ++i) v.push_back(std::make_shared<Item>(Item {i, mixed ? (c.coin() ? 0.2 : 1.0 / 3) : c.uni(0.01, 1)}));
    return v;
}
// how many of k draws in [0, n[ hit each value: a chi square far outside of what chance gives (more than 7 sigma)
static bool uniform(const std::vector<long>& count, double total)
{
    const double e = total / (double)count.size();
    double chi = 0;
    for (long k: count) chi += (k - e) * (k - e) / e;
    const double df = (double)count.size() - 1;
    return chi < df + 8 * std::sqrt(2 * df) + 40;
}
MON_TEST(doubles, 60, 2000)
{
    const int n = 20000, bins = (int)c.irange(5, 50);
    std::vector<long> h(bins, 0);
    double m = 0, m2 = 0, prev = -1;
    long same = 0;
    for (int i = 0; i < n; ++i)
    {
        const double d = utils::Random::get_random_double();
        if (not check(d >= 0 and d < 1, "double_range", "%.17g", d)) return;
        h[std::min(bins - 1, (int)(d * bins))]++;
        same += d == prev;
        prev = d;
        const double g = utils::Random::get_normal_double();
        m += g; m2 += g * g;
    }
    check(same < 3, "double_repeats", "%ld repeats", same);
    check(uniform(h, n), "double_uniform", "%d bins", bins);
    m /= n; m2 /= n;
    check(std::fabs(m) < 7 / std::sqrt((double)n), "normal_mean", "%g", m);
    check(std::fabs(m2 - 1) < 7 * std::sqrt(2.0 / n), "normal_variance", "%g", m2);
    const auto v = utils::Random::get_normal_doubles<6>();
    std::set<double> distinct(v.data(), v.data() + 6);
    check(distinct.size() == 6 and v.allFinite(), "normal_vector", "%zu distinct of 6", distinct.size());
    mon::observe("draws", 2 * n);
    mon::nontrivial("doubles", mon::fmt("%d %.4f", bins, m));
}
MON_TEST(integers, 200, 8000)
{
    const unsigned lo = c.coin(0.3) ? 0 : (unsigned)c.irange(0, 1000), n = c.coin(0.3) ? (unsigned)c.irange(1, 4) : (unsigned)c.irange(1, 60);
    const int total = 4000;
    std::vector<long> h(n, 0);
    for (int i = 0; i < total; ++i)
    {
        const unsigned u = (lo == 0 and i % 2) ? utils::Random::get_random_uint(n) : utils::Random::get_random_uint(lo, lo + n);
        if (not check(u >= lo and u < lo + n, "integer_range", "%u not in [%u, %u[", u, lo, lo + n)) return;
        h[u - lo]++;
    }
    if (n > 1) check(uniform(h, total), "integer_uniform", "[%u, %u[", lo, lo + n);
    mon::observe("integers", total);
    mon::nontrivial("integers", mon::fmt("%u %u", lo, n));
}
// draws of the container type of the matches, and of vectors
template<template<typename> class L> static void subsets(mon::Ctx& c, const char* what)
{
    const int n = (int)c.irange(1, 40);
    const auto v = items(c, n, c.coin());
    L<Ptr> in(v.begin(), v.end());
    const L<Ptr> before = in;
    const unsigned k = (unsigned)c.irange(0, n);
    const int rounds = 400;
    std::vector<long> h(n, 0), h2(n, 0);
    std::set<std::vector<int>> distinct;
    for (int r = 0; r < rounds; ++r)
    {
        const L<Ptr> s = pose_optimization::ransac::get_random_subset(in, k);
        std::set<int> ids;
        for (const Ptr& p: s)
        {
            ids.insert(p->id);
            h[p->id]++;
            if (not check(p == v[p->id], "subset_element", "%s: not an element of the set", what)) return;
        }
        if (not check(s.size() == k and ids.size() == k, "subset_size", "%s: %zu elements, %zu distinct, %u asked", what, s.size(), ids.size(), k)) return;
        distinct.insert(std::vector<int>(ids.begin(), ids.end()));
        const L<Ptr> d = pose_optimization::ransac::get_random_subset_with_duplicates(in, k);
        if (not check(d.size() == k, "subset_duplicates_size", "%s: %zu elements, %u asked", what, d.size(), k)) return;
        for (const Ptr& p: d) h2[p->id]++;
    }
    // each element has the same chance: binomial bound at 7 sigma
    if (k > 0)
        for (int i = 0; i < n; ++i)
        {
            const double p = (double)k / n, s = std::sqrt(rounds * p * (1 - p));
            check(std::fabs(h[i] - rounds * p) <= 7 * s + 1e-9, "subset_uniform", "%s: element %d of %d taken %ld times in %d subsets of %u", what, i, n, h[i], rounds, k);
            const double s2 = std::sqrt(rounds * (double)k * (1.0 / n) * (1 - 1.0 / n));
            check(std::fabs(h2[i] - rounds * p) <= 8 * s2 + 1e-9, "subset_duplicates_uniform", "%s: element %d of %d taken %ld times in %d draws of %u", what, i, n, h2[i],
                  rounds, k);
        }
    bool threw = false;
    try { (void)pose_optimization::ransac::get_random_subset(in, (unsigned)n + 1); } catch (const std::exception&) { threw = true; }
    check(threw, "subset_too_large", "%s: %d elements asked of %d", what, n + 1, n);
    threw = false;
    try { (void)pose_optimization::ransac::get_random_subset_with_duplicates(in, (unsigned)n + 1); } catch (const std::exception&) { threw = true; }
    check(threw, "subset_too_large", "%s: %d elements with repetition asked of %d", what, n + 1, n);
    check(in == before, "input_unchanged", "%s", what);
    mon::observe("distinct_subsets", distinct.size());
    mon::nontrivial("subsets", mon::fmt("%s %d %u", what, n, k));
}
template<template<typename> class L> static void scores(mon::Ctx& c, const char* what)
{
    const int n = (int)c.irange(1, 40);
    const auto v = items(c, n, c.coin());
    L<Ptr> in(v.begin(), v.end());
    double total = 0;
    for (const Ptr& p: v) total += p->score;
    const double target = c.coin(0.6) ? 1.0 : c.uni(0.05, 1.2 * total);
    const bool reachable = total >= target + 1e-9, near = std::fabs(total - target) < 1e-9;
    std::vector<long> h(n, 0), first(n, 0);
    const int rounds = 300;
    long taken = 0;
    for (int r = 0; r < rounds; ++r)
    {
        try
        {
            const L<Ptr> s = pose_optimization::ransac::get_random_subset_with_score(in, target);
            std::set<int> ids;
            double sum = 0, least = 1e9;
            for (const Ptr& p: s)
            {
                ids.insert(p->id);
                sum += p->score;
                least = std::min(least, p->score);
                h[p->id]++;
                ++taken;
            }
            if (not check(reachable or near, "score_unreachable", "%s: subset of score %g returned, %g asked, %g available", what, sum, target, total)) return;
            check(ids.size() == s.size(), "score_no_repetition", "%s: %zu elements, %zu distinct", what, s.size(), ids.size());
            check(sum >= target - 1e-9, "score_reached", "%s: %g of %g", what, sum, target);
            // no more than needed: without some element of it the target is not reached
            double largest = 0;
            for (const Ptr& p: s) largest = std::max(largest, p->score);
            check(sum - largest < target + 1e-9, "score_minimal", "%s: %g for %g with elements of at most %g", what, sum, target, largest);
        }
        catch (const std::exception& e)
        {
            if (not check(not reachable, "score_refused", "%s: %g asked, %g available: %s", what, target, total, e.what())) return;
        }
        const L<Ptr> d = pose_optimization::ransac::get_random_subset_with_score_with_duplicates(in, target);
        double sum = 0;
        for (const Ptr& p: d) sum += p->score;
        check(sum >= target - 1e-9 or d.size() == 512, "score_duplicates", "%s: %g of %g with %zu elements", what, sum, target, d.size());
    }
    bool same = true;
    for (const Ptr& p: v) same = same and p->score == v[0]->score;
    if (taken > 0 and same)
        for (int i = 0; i < n; ++i)
        {
            const double p = (double)taken / rounds / n;
            check(std::fabs(h[i] - rounds * p) <= 7 * std::sqrt(rounds * p * (1 - p)) + 1e-6, "score_uniform", "%s: element %d of %d taken %ld of %g times", what, i, n, h[i],
                  rounds * p);
        }
    else if (taken > 0 and taken > 3L * rounds)
        // every element may be taken
        for (int i = 0; i < n; ++i)
            if (taken > 20L * n) check(h[i] > 0, "score_every_element", "%s: element %d of %d never taken in %d subsets", what, i, n, rounds);
    mon::observe(reachable ? "score_subsets" : "score_refusals", rounds);
    mon::nontrivial("scores", mon::fmt("%s %d %.1f", what, n, target));
}
MON_TEST(list_subsets, 150, 5000) { subsets<std::list>(c, "list"); }
MON_TEST(vector_subsets, 150, 5000) { subsets<std::vector>(c, "vector"); }
MON_TEST(list_scores, 200, 6000) { scores<std::list>(c, "list"); }
MON_TEST(vector_scores, 100, 3000) { scores<std::vector>(c, "vector"); }

// threads that draw at the same time do not draw the same things: a thread is no copy of another
MON_TEST(threads, 40, 800)
{
    const int t = (int)c.irange(2, 8), n = 64;
    std::vector<std::vector<double>> d(t);
    std::barrier start(t);
    std::vector<std::thread> th;
    const bool normals = c.coin();
    for (int i = 0; i < t; ++i)
        th.emplace_back([&, i] {
            start.arrive_and_wait();
            for (int k = 0; k < n; ++k) d[i].push_back(normals ? utils::Random::get_normal_double() : utils::Random::get_random_double());
        });
    for (auto& x: th) x.join();
    std::map<double, int> seen;
    for (const auto& v: d)
        for (double x: v) seen[x]++;
    long repeats = 0;
    for (const auto& [x, k]: seen) repeats += k - 1;
    check(repeats <= 2, "threads_draw_the_same", "%ld of %d draws of %d threads are copies", repeats, t * n, t);
    mon::observe("thread_draws", (uint64_t)t * n);
    mon::nontrivial("threads", mon::fmt("%d %.3f", t, d[0][0]));
}
int main(int argc, char** argv) { return mon::run_main(argc, argv); }
